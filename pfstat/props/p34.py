"""The connectors. (a) Every public operation of the two connectors is analysed on its own, with the connectors' own methods in context:
over every path, one operation of the manager is asked, the one of that name, with the parameters of the request in their places (the
strings by reference, so that what the manager writes reaches the caller), and its outcome is what is returned; of the operations of the manager
nothing else is asked. (b) The policies fixed at start are evaluated over started or not: the manager is given the value exactly when not started
and otherwise nothing, false and a text. (c) Started is set exactly on the paths where the load of the manager succeeded, false
before, and written nowhere else. (d) The switches of the manager: the setter stores its parameter in a field, the getter returns
that field, no two switches share one, only the setter and the constructor write it (auto sync: only when the synchronisation
it asks succeeded). (e) A log line: each wrapper on the way to the logger passes its text on, once, at its level, when there is
a logger; a line is made of the indentation and of what was put in it, and not sent when empty; closing a context takes off as much
indentation as opening it added. (f) A command of the native command interface is made of the name and of every argument
in order, and its outcome is the one reported."""
from .common import *
from ..evalterm import ev, feasible
from ..loops import each, loops, strip
from .p14 import u, ids, bad, castless
from .p26 import Evts

TECHNIQUE = 'path enumeration over every operation of the connectors; typestate of started; finite tables; loop coverage'
NOTE = 'what each operation of the manager does is the matter of the other properties'
PC, FC, MGR, LOGW = 'CParameterMgrPlatformConnector', 'CParameterMgrFullConnector', 'CParameterMgr', 'core::log::details::LogWrapper'
# operations of a connector whose counterpart has another name
NAMES = {'isTuningModeOn': 'tuningModeOn', 'isValueSpaceRaw': 'valueSpaceIsRaw', 'isOutputRawFormatHex': 'outputRawFormatIsHex',
         'isAutoSyncOn': 'autoSyncOn', 'start': 'load'}
OWN = {'isStarted', 'setLogger', 'info', 'warning'}
POLICY = ['setFailureOnMissingSubsystem', 'setFailureOnFailedSettingsLoad', 'setValidateSchemasOnStart']
SWITCH = [('setFailureOnMissingSubsystem', 'getFailureOnMissingSubsystem'),
          ('setFailureOnFailedSettingsLoad', 'getFailureOnFailedSettingsLoad'), ('setSchemaUri', 'getSchemaUri'),
          ('setValidateSchemasOnStart', 'getValidateSchemasOnStart'), ('setForceNoRemoteInterface', 'getForceNoRemoteInterface'),
          ('setValueSpace', 'valueSpaceIsRaw'), ('setOutputRawFormat', 'outputRawFormatIsHex'), ('setAutoSync', 'autoSyncOn')]


class A:
    def __init__(s, m):
        s.m = m
        s.inl = {f.id for f in m.funcs.values() if f.cls in (PC, FC, 'CommandHandlerWrapper')}
        s.spec = {}
        for f in m.funcs.values():
            if f.cls == MGR and not f.ctor and not f.dtor:
                s.spec.setdefault('m:' + f.n, (set(), 'bool' if f.rt == 'bool' else 'void' if f.rt == 'void' else 'ref' if
                                               f.rt.endswith('&') else 'obj'))[0].add(f.id)
        # helpers of the connectors have no counterpart in the manager
        s.ops = [f for f in m.funcs.values() if f.cls in (PC, FC) and not f.ctor and not f.dtor and f.n not in OWN and
                 'm:' + wants(f) in s.spec]
        if len(s.ops) < 50:
            raise AnalysisError('anchor vanished: operations of the connectors (%d)' % len(s.ops))

        def fl(cls, pred):
            x = [y['u'] for y in m.classes[cls]['fields'] if pred(y['t'])]
            if len(x) != 1:
                raise AnalysisError('anchor vanished: field of %s' % cls)
            return x[0]
        s.mgr = fl(PC, lambda t: t.replace(' ', '') == MGR + '*' or 'unique_ptr<' + MGR + '>' in t)
        s.started = fl(PC, lambda t: t == 'bool' or 'atomic<bool>' in t)
        s.log = fl(PC, lambda t: t.replace(' ', '') in (PC + '::ILogger*', 'ILogger*'))


class C(Evts):
    def __init__(self, a, spec=None, inl=None):
        Evts.__init__(self, a.m, spec or a.spec, a.inl if inl is None else inl)
        self.a = a

    def add(self, st, e):
        # each time counts (bounded)
        if st.auto.count(e) < 2:
            st.auto = st.auto + (e,)

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if obj is not None and eng.islv(obj) and not fi.get('repo') and args and fi.get('n') in ('operator=', 'assign', 'swap'):
            self.on_store(eng, st, fr, n, obj, self.val(eng, st, args[0]))
        return None

    def on_store(self, eng, st, fr, n, lv, val):
        x = eng.T.get(lv)
        if x[0] == 'Lvar' and x[1] == -1 or x[0] == 'Lfld':
            st.auto = tuple(y for y in st.auto if y[:2] != ('set', lv)) + (('set', lv, val),)


def go(a, f, started=None, c=None):
    c = c or C(a)
    e = Engine(a.m, c)

    def setup(eng, st, fr):
        refparams(eng, st, fr)
        for p in f.params:
            if not p['t'].endswith('&'):
                st.env[('v', fr.id, p['u'])] = eng.T.mk('init', -1, p['u'])
        if f.cls in (PC, FC):
            e.lv = eng.lfld(eng.lder(eng.T.mk('this', 0)), a.started)
            if started is not None:
                st.heap[e.lv] = eng.TRUE if started else eng.FALSE
    return e, e.run(f, setup)


def asked(st):
    return [x for x in st.auto if len(x) == 5 and x[0].startswith('m:')]


def passes(e, f, x, vio, shift=0):
    """the parameters of the function are those of the request, in order"""
    ps = f.params
    ok = len(x[3]) <= len(ps)
    for k, al in enumerate(x[3]):
        if not ok:
            break
        p = ps[k]
        if p['t'].endswith('&'):
            t = e.T.mk('Lvar', -1, p['u'])
            ok = al == t or 'const ' in p['t'] and castless(e, x[2][k]) == e.T.mk('init', -1, p['u'])
        else:
            ok = castless(e, x[2][k]) == e.T.mk('init', -1, p['u'])
    if not ok:
        bad(vio, f, 'the parameters of the request are not those given to the manager')


def returned(e, f, st, rt, x):
    if f.rt == 'void':
        return True
    if rt is None:
        return False
    if x[4] in (0, 1):
        return e.truth(st, rt) is bool(x[4])
    if x[4] is None:
        return False
    r_ = castless(e, rt)
    return r_ == x[4] or e.islv(r_) and e.T.get(r_)[0] == 'Lder' and u(e.T.get(r_)[1]) == x[4] or str(x[4]) and \
        e.T.show(x[4]) in e.T.show(r_)


def wants(f):
    return NAMES.get(f.n, f.n)


def forward(a, vio):
    n = 0
    for f in sorted(a.ops, key=lambda f: (f.file, f.line)):
        lab = 'm:' + wants(f)
        for started in (False, True):
            e, outs = go(a, f, started)
            for st, rt in outs:
                n += 1
                xs = asked(st)
                if f.n in POLICY and started:
                    if xs:
                        bad(vio, f, 'a policy of the start is changed once started')
                    if f.rt == 'bool':
                        if rt is None or e.truth(st, rt) is not False:
                            bad(vio, f, 'a policy refused once started is reported as set')
                        err = e.T.mk('Lvar', -1, f.params[-1]['u'])
                        y = [s for s in st.auto if s[0] == 'set' and s[1] == err]
                        if not y or e.T.get(y[-1][2])[0] == 'strlit' and not e.T.get(y[-1][2])[1]:
                            bad(vio, f, 'a refused policy has no error text')
                    continue
                if len(xs) != 1 or xs[0][0] != lab:
                    bad(vio, f, 'the operation asked of the manager is not %s, once' % wants(f))
                    continue
                x = xs[0]
                # overloads kept for compatibility add what they lack: the first parameters are theirs
                if f.n == 'importSingleDomainXml' and len(f.params) == 3:
                    ok = len(x[2]) == 5 and castless(e, x[2][1]) == e.T.mk('init', -1, f.params[1]['u']) and \
                        e.truth(st, x[2][2]) is True and e.truth(st, x[2][3]) is False and \
                        x[3][4] == e.T.mk('Lvar', -1, f.params[2]['u']) and f.params[0]['u'] in e.T.show(x[3][0]) + e.T.show(x[2][0])
                    if not ok:
                        bad(vio, f, 'the document given is not imported with its settings')
                else:
                    passes(e, f, x, vio)
                if f.n in POLICY and f.rt == 'bool':
                    if rt is None or e.truth(st, rt) is not True:
                        bad(vio, f, 'a policy set is reported as refused')
                elif f.n == 'createCommandHandler':
                    if rt is None or e.truth(st, rt) is False:
                        bad(vio, f, 'no command handler is handed out')
                elif not returned(e, f, st, rt, x):
                    bad(vio, f, 'the outcome of the operation is not the one returned')
                # started
                now = e.truth(st, st.heap[e.lv])
                want = started or f.n == 'start' and bool(x[4])
                if now is not want:
                    bad(vio, f, 'the framework is not recorded as started exactly when its start succeeded')
    return n


def writers(a, field):
    m = a.m
    out = set()
    for f in m.funcs.values():
        for i, n in enumerate(f.nodes):
            if n['k'] == 'Bin' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                t = strip(f, n['c'][0])
            elif n['k'] == 'Un' and n.get('op') in ('++', '--', '&'):
                t = strip(f, n['c'][0])
            elif n['k'] == 'Call' and n.get('obj') is not None and not (n.get('f') or {}).get('repo', True) and \
                    not (n.get('f') or {}).get('const'):
                t = strip(f, n['obj'])
            else:
                continue
            if t is not None and f.nodes[t]['k'] == 'Member' and (f.nodes[t].get('d') or {}).get('u') == field:
                out.add(f)
    return out


def state(a, vio):
    n = 0
    for f in writers(a, a.started):
        n += 1
        if f.cls != PC or not (f.ctor or f.n == 'start'):
            bad(vio, f, 'the record of the start is written outside it')
    for f in a.m.fn(PC + '::isStarted'):
        for s in (False, True):
            e, outs = go(a, f, s)
            n += 1
            if any(rt is None or e.truth(st, rt) is not s for st, rt in outs):
                bad(vio, f, 'not what was recorded at start')
    for f in a.m.fn(PC + '::' + PC):
        e, outs = go(a, f)
        e.lv = e.lfld(e.lder(e.T.mk('this', 0)), a.started)
        ll = e.lfld(e.lder(e.T.mk('this', 0)), a.log)
        for st, rt in outs:
            n += 1
            if e.truth(st, st.heap.get(e.lv, e.T.mk('in', 'unset'))) is not False:
                bad(vio, f, 'a new connector is not recorded as not started')
            if e.truth(st, st.heap.get(ll, e.T.mk('in', 'unset'))) is not False:
                bad(vio, f, 'a new connector does not start without logger')
    return n


def same(e, v, want, p, old):
    if castless(e, v) == want:
        return True
    if p['t'] != 'bool':
        return False
    return all(ev(e, v, {want: b, 'fld': lambda x, s: o}) == b for b in (0, 1) for o in (0, 1))


def switches(a, vio):
    m = a.m
    seen = {}
    n = 0
    sync = {'sync': (ids(m, MGR + '::sync'), 'bool')}
    for setn, getn in SWITCH:
        got = set()
        for f in m.fn(MGR + '::' + getn):
            e, outs = go(a, f, c=C(a, sync, ()))
            for st, rt in outs:
                x = e.T.get(castless(e, rt)) if rt is not None else ('none',)
                got.add(x[2] if x[0] in ('fld', 'Lfld') else None)
            where = f
        n += 1
        if len(got) != 1 or None in got:
            bad(vio, where, 'the value of the switch is not a recorded one')
            continue
        fld = got.pop()
        if fld in seen:
            bad(vio, where, 'two switches share a record')
        seen[fld] = setn
        for f in m.fn(MGR + '::' + setn):
            e, outs = go(a, f, c=C(a, sync, ()))
            lv = e.lfld(e.lder(e.T.mk('this', 0)), fld)
            p = f.params[0]
            want = e.T.mk('init', -1, p['u'])
            for st, rt in outs:
                n += 1
                y = [s for s in st.auto if s[0] == 'set' and s[1] == lv]
                failed = rt is not None and e.truth(st, rt) is False
                if failed:
                    if y or not any(s[0] == 'sync' and not s[4] for s in st.auto):
                        bad(vio, f, 'the switch is refused without failed synchronisation, or refused and set')
                elif not y or not same(e, y[-1][2], want, p, e.T.mk('fld', e.T.mk('this', 0), fld)):
                    bad(vio, f, 'the value given is not recorded')
                elif any(s[0] == 'sync' and not s[4] for s in st.auto):
                    bad(vio, f, 'the switch is set though the synchronisation failed')
                elif any(s[0] == 'set' and s[1] != lv and e.T.get(s[1])[0] == 'Lfld' for s in st.auto):
                    bad(vio, f, 'another switch is changed')
        for f in writers(a, fld):
            if not (f.cls == MGR and (f.ctor or f.n == setn)):
                bad(vio, f, 'the switch is written outside its setter')
    return n


def logs(a, vio):
    m = a.m
    n = 0
    # connector to user logger
    for name in ('info', 'warning'):
        tgt = {f.id for f in m.funcs.values() if f.n == name and f.cls and m.derives(f.cls, PC + '::ILogger')}
        other = {f.id for f in m.funcs.values() if f.n in ('info', 'warning') and f.cls and m.derives(f.cls, PC + '::ILogger')} - tgt
        lab = {'out': (tgt | {PC + '::ILogger::%s(const std::basic_string<char, std::char_traits<char>, std::allocator<char>> &)' % name},
                       'void'), 'wrong': (other, 'void')}
        for f in m.fn(PC + '::' + name):
            for has in (False, True):
                c = Log(a, name)
                e = Engine(m, c)

                def setup(eng, st, fr):
                    refparams(eng, st, fr)
                    e.lg = eng.T.mk('in', 'logger')
                    lv = eng.lfld(eng.lder(eng.T.mk('this', 0)), a.log)
                    st.heap[lv] = e.lg if has else eng.NULL
                    if has:
                        st.facts[e.lg] = True
                for st, rt in e.run(f, setup):
                    n += 1
                    sent(e, f, st, name, has, vio, lambda x: f.params[0]['u'] in x[3], obj=e.lg)
        for f in m.funcs.values():
            if f.cls and f.cls.startswith('CParameterMgrLogger<') and f.n == name:
                c = Log(a, name)
                e = Engine(m, c)
                for st, rt in e.run(f, lambda eng, st, fr: refparams(eng, st, fr)):
                    n += 1
                    sent(e, f, st, name, True, vio, lambda x: f.params[0]['u'] in x[3])
    for f in m.fn(PC + '::setLogger'):
        e, outs = go(a, f)
        for st, rt in outs:
            n += 1
            lv = e.lfld(e.lder(e.T.mk('this', 0)), a.log)
            if st.heap.get(lv) != e.T.mk('init', -1, f.params[0]['u']):
                bad(vio, f, 'the logger given is not the one recorded')
    k = 0
    for f in m.funcs.values():
        if not (f.cls or '').startswith(LOGW + '<') or not f.dtor:
            continue
        k += 1
        name = 'warning' if f.cls.endswith('<true>') else 'info'
        flds = {x['t']: x['u'] for x in m.classes[f.cls]['fields']} if f.cls in m.classes else {}
        for empty in (True, False):
            c = Log(a, name)
            e = Engine(m, c)
            for st, rt in e.run(f, None):
                env = {'lib': lambda x, s: (int(empty) if str(x[1]).endswith('::empty') else None if not
                                            str(x[1]).split('::')[-1] in ('size', 'length') else 0 if empty else 5)}
                if not feasible(e, st, env):
                    continue
                n += 1
                sent(e, f, st, name, not empty, vio, lambda x: 'mProlog' in x[3] and 'mLog' in x[3] and
                     x[3].index('mProlog') < x[3].index('mLog') if 'mProlog' in str(flds) else True)
    if k < 2:
        raise AnalysisError('anchor vanished: log lines')
    for f in m.funcs.values():
        if (f.cls or '').startswith(LOGW + '<') and f.n.startswith('operator<<') and len(f.params) == 1 and 'list<' not in f.params[0]['t']:
            n += 1
            e = Engine(m, Put(m, {}, ()))
            for st, rt in e.run(f, lambda eng, st, fr: refparams(eng, st, fr)):
                xs = [x for x in st.auto if x[0] == 'put']
                if len(xs) != 1 or 'mLog' not in xs[0][1] or f.params[0]['u'] not in xs[0][1]:
                    bad(vio, f, 'what is logged does not reach the line, once')
    for name, warn in (('info', 'false'), ('warning', 'true')):
        for f in m.fn('core::log::Logger::' + name):
            n += 1
            cs = [x for x in f.nodes if x['k'] == 'Construct' and LOGW in x.get('t', '') and len(x.get('c', ())) >= 2]
            if LOGW + '<%s>' % warn not in f.rt or not cs or not all(LOGW + '<%s>' % warn in x['t'] for x in cs):
                bad(vio, f, 'the line is not of the level asked')
    ctx(a, vio)
    return n + 2


class Log(Evts):
    def __init__(self, a, name):
        Evts.__init__(self, a.m, {}, ())

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if fi.get('n') in ('info', 'warning') and len(args) == 1:
            st.auto = st.auto + (('sent', fi['n'], obj, eng.T.show(args[0]) + ' ' + eng.T.show(self.val(eng, st, args[0]))),)
            return [(st, None)]
        return None


class Put(Evts):
    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if fi.get('n', '').startswith('operator<<') and not fi.get('repo'):
            st.auto = st.auto + (('put', ' '.join(eng.T.show(x) for x in ([obj] if obj is not None else []) + list(args))),)
        return None


def sent(e, f, st, name, want, vio, what, obj=None):
    xs = [x for x in st.auto if x[0] == 'sent']
    if not want:
        if xs:
            bad(vio, f, 'a line is sent without logger or text')
        return
    if len(xs) != 1 or xs[0][1] != name:
        bad(vio, f, 'the line is not passed on once, at its level')
    elif not what(xs[0]):
        bad(vio, f, 'the text passed on is not the one of the line')
    elif obj is not None and xs[0][2] not in (obj, e.lder(obj)) and e.T.show(obj) not in e.T.show(xs[0][2]):
        bad(vio, f, 'the line is not passed to the logger set')


class Ctx(Evts):
    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if fi.get('cls') == 'core::log::Logger' and fi.get('n') in ('info', 'warning'):
            st.auto = st.auto + (('line', fi['n']),)
        elif obj is not None and eng.islv(obj) and eng.T.get(obj)[0] == 'Lfld' and str(eng.T.get(obj)[2]).startswith('core::log::Logger::') \
                and not fi.get('repo') and not fi.get('const'):
            st.auto = st.auto + (('indent', fi['n'], tuple(self.val(eng, st, x) for x in args)),)
        return None


def ctx(a, vio):
    m = a.m
    add, sub = set(), set()
    for f in m.fn('core::log::Context::Context'):
        if len(f.params) != 2:
            continue
        e = Engine(m, Ctx(m, {}, ()))
        for st, rt in e.run(f, lambda eng, st, fr: refparams(eng, st, fr)):
            k = 0
            for x in st.auto:
                if x[0] == 'indent':
                    v = e.T.get(castless(e, x[2][0])) if x[2] else ('',)
                    k = k + len(v[1]) if x[1] in ('operator+=', 'append') and v[0] == 'strlit' and len(x[2]) == 1 else None
                    if k is None:
                        nn = ev(e, x[2][0], {}) if x[1] in ('append',) and len(x[2]) == 2 else None
                        k = nn
            add.add(k)
            lines = [x for x in st.auto if x[0] in ('line', 'indent')]
            if [x[0] for x in lines if x[0] == 'line'] != ['line'] or lines[0][0] != 'line' or lines[0][1] != 'info':
                bad(vio, f, 'opening a context is not logged once, before its indentation')
    for f in m.fn('core::log::Context::~Context'):
        e = Engine(m, Ctx(m, {}, ()))
        for st, rt in e.run(f, None):
            k = 0
            for x in st.auto:
                if x[0] != 'indent':
                    continue
                def lib(y, s):
                    return 100 if str(y[1]).split('::')[-1] in ('size', 'length') else None
                if x[1] == 'resize':
                    v = ev(e, x[2][0], {'lib': lib})
                    k = None if v is None or k is None else k + 100 - v
                elif x[1] == 'pop_back':
                    k = None if k is None else k + 1
                elif x[1] == 'erase':
                    v = ev(e, x[2][0], {'lib': lib})
                    k = None if v is None or len(x[2]) > 1 and 0 <= (ev(e, x[2][1], {'lib': lib}) or 0) < 100 - v else k + 100 - v
                else:
                    k = None
            sub.add(k)
            lines = [x for x in st.auto if x[0] in ('line', 'indent')]
            if [x[0] for x in lines if x[0] == 'line'] != ['line'] or lines[-1][0] != 'line' or lines[-1][1] != 'info':
                bad(vio, f, 'closing a context is not logged once, after its indentation')
            where = f
    if not add or not sub or add != sub or None in add or 0 in add or len(add) != 1:
        bad(vio, where, 'a context does not take off the indentation it added (%s, %s)' % (add, sub))


def command(a, vio):
    m = a.m
    W = 'CommandHandlerWrapper'
    fs = [f for f in m.funcs.values() if f.cls == W and f.n == 'process']
    if len(fs) != 1 or len(fs[0].params) != 3:
        raise AnalysisError('anchor vanished: ' + W)
    f = fs[0]
    add = {g.id for g in m.funcs.values() if g.n == 'addArgument' and g.cls and 'RequestMessage' in g.cls}
    new = {g.id for g in m.funcs.values() if g.q == 'CRequestMessage::CRequestMessage' and len(g.params) == 1}
    proc = {g.id for g in m.funcs.values() if g.n == 'remoteCommandProcess'}
    if not add or not new or not proc:
        raise AnalysisError('anchor vanished: request of a command')
    ok, why = each(m, f, add, source=None)
    if ok is False:
        bad(vio, f, 'not every argument is added: ' + why)
    c = Evts(m, {'new': (new, 'void'), 'proc': (proc, 'bool'), 'add': (add, 'void')}, a.inl)
    e = Engine(m, c)
    n = 0
    for st, rt in e.run(f, lambda eng, st, fr: refparams(eng, st, fr)):
        n += 1
        order = [x[0] for x in st.auto]
        p = [x for x in st.auto if x[0] == 'proc']
        nw = [x for x in st.auto if x[0] == 'new']
        if len(p) != 1 or len(nw) != 1 or order[0] != 'new' or order[-1] != 'proc':
            bad(vio, f, 'the command is not made, given its arguments and processed once')
            continue
        if f.params[0]['u'] not in e.T.show(nw[0][3][0]) + e.T.show(nw[0][2][0]):
            bad(vio, f, 'the command processed is not the one given')
        if f.params[2]['u'] not in e.T.show(p[0][3][1]):
            bad(vio, f, 'the output of the command is not handed out')
        if rt is None or e.truth(st, rt) is not bool(p[0][4]):
            bad(vio, f, 'the outcome of the command is not the one returned')
    return n


def check(m, tier):
    vio = []
    a = A(m)
    n = forward(a, vio) + state(a, vio) + switches(a, vio) + logs(a, vio) + command(a, vio)
    return result(None, {'instances_checked': n, 'functions': len(a.ops)}, dedup(vio))
