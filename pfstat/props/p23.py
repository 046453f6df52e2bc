"""The C interface. Each exported function is analysed on its own, with the methods of the handle and of its status in context, from
both states of the handle (no framework, framework). (a) Without a framework nothing is asked of it: the call fails (start apart),
and the status has a text. With one, start refuses and touches nothing. (b) On every path the status text is cleared last when
the call succeeds, and set last when it fails, by the function or by the framework operation that failed and was given it.
(c) Start makes a framework of the path given, hands it the logger, then the criteria, then starts it, and succeeds exactly when
both succeeded; otherwise the framework is deleted, the handle has none and its criteria are forgotten. (d) Creation of criteria:
the per-iteration obligations (type of the kind given, one value per name at its index, numbered index or 1 << index and refused from 31 on,
criterion made with its name and type once the names are exhausted, and recorded under its name) are checked on every path of an
iteration, and the refusals are evaluated over (name, values, already known, kind, index): nothing else is refused. (e) The criterion or parameter
operation of each call is the one named, on the criterion found or the parameter bound, with the value given, once; strings
are handed out as copies. (f) Destroying a handle deletes its framework; a log line reaches the callback with its context and level."""
from .common import *
from ..evalterm import ev, feasible
from ..loops import loops, strip, writes, decls
from .p14 import u, ids, bad, castless
from .p26 import Evts

TECHNIQUE = 'typestate of the handle and its status over every path; finite decision tables; per-iteration obligations'
NOTE = ''
PFC, EH = 'CParameterMgrPlatformConnector', 'ElementHandle'
H, PH, CR = 'PfwHandler_', 'PfwParameterHandler_', 'PfwCriterion'


class A:
    """anchors"""

    def __init__(s, m):
        s.m = m
        s.mine = {f.id for f in m.funcs.values() if f.file.startswith('bindings/c/')}
        if len(s.mine) < 15:
            raise AnalysisError('anchor vanished: C interface')

        def fl(cls, pred):
            x = [y['u'] for y in m.classes[cls]['fields'] if pred(y['t'])]
            if len(x) != 1:
                raise AnalysisError('anchor vanished: field of %s' % cls)
            return x[0]
        s.pfw = fl(H, lambda t: t.startswith(PFC) and t.endswith('*'))
        s.criteria = fl(H, lambda t: 'map<' in t and 'ISelectionCriterionInterface' in t)
        s.log = fl(H, lambda t: t == 'LogWrapper')
        s.msg = fl('Status', lambda t: 'basic_string' in t)
        s.par = fl(PH, lambda t: EH in t or 'CParameterHandle' in t)
        s.incl, s.values, s.name = CR + '::inclusive', CR + '::values', CR + '::name'
        for x in (s.incl, s.values, s.name):
            if x not in [y['u'] for y in m.classes[CR]['fields']]:
                raise AnalysisError('anchor vanished: ' + x)

        def crit(*names):
            r_ = {f.id for f in m.funcs.values() if f.n in names and f.cls and (
                m.derives(f.cls, 'ISelectionCriterionTypeInterface') or m.derives(f.cls, 'ISelectionCriterionInterface'))}
            if not r_:
                raise AnalysisError('anchor vanished: ' + names[0])
            return r_
        s.spec = {'new': ({f.id for f in m.funcs.values() if f.q == PFC + '::' + PFC}, 'void'),
                  'logger': (ids(m, PFC + '::setLogger'), 'void'), 'start': (ids(m, PFC + '::start'), 'bool'),
                  'ctype': (ids(m, PFC + '::createSelectionCriterionType'), 'obj'),
                  'crit': (ids(m, PFC + '::createSelectionCriterion'), 'obj'),
                  'apply': (ids(m, PFC + '::applyConfigurations'), 'void'),
                  'bind': (ids(m, PFC + '::createParameterHandle'), 'ptr'),
                  'value': (crit('addValuePair'), 'bool'), 'put': (crit('setCriterionState'), 'void'),
                  'get': (crit('getCriterionState'), 'obj')}
        for f in m.funcs.values():
            if f.cls == EH and (f.n.startswith('getAs') or f.n.startswith('setAs')) and f.rt == 'bool':
                x = s.spec.setdefault('par:' + f.n, (set(), 'bool'))
                x[0].add(f.id)


class C(Evts):
    def __init__(self, a, spec=None):
        Evts.__init__(self, a.m, spec or a.spec, a.mine)
        self.a = a

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        a = self.a
        if fi.get('cls') == PFC and fi.get('n') != '~' + PFC:
            self.add(st, ('conn', obj, fi.get('n')))
        if obj is not None and eng.islv(obj) and eng.T.get(obj)[0] == 'Lfld' and eng.T.get(obj)[2] == a.log:
            self.note(st, ('keep',))
        if obj is not None and eng.islv(obj) and not fi.get('repo'):
            x = eng.T.get(obj)
            if x[0] == 'Lfld' and x[2] == a.msg:
                empty = fi['n'] == 'clear'
                if args and fi['n'] in ('operator=', 'assign'):
                    y = eng.T.get(self.val(eng, st, args[0]))
                    empty = y[0] == 'strlit' and not y[1] or y[0] == 'lib' and y[-1] == 'default'
                if empty or fi['n'] in ('operator=', 'assign', 'operator+=', 'append', 'swap', 'push_back', 'insert'):
                    self.note(st, ('msg', 0 if empty else 1))
            if x[0] == 'Lfld' and x[2] == a.criteria:
                if fi['n'] == 'clear':
                    self.note(st, ('forget',))
                elif fi['n'] in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'emplace_hint'):
                    self.note(st, ('record', ' '.join(eng.T.show(self.val(eng, st, y)) for y in args)))
        if not tg and not fi and n['k'] == 'Call':
            self.note(st, ('callback', tuple(self.val(eng, st, y) for y in args)))
        if fi.get('n') in ('free',) and not fi.get('repo'):
            self.note(st, ('free', tuple(self.val(eng, st, y) for y in args)))
        return None

    def note(self, st, e):
        st.auto = tuple(x for x in st.auto if x != e) + (e,)

    def on_delete(self, eng, st, fr, e, v):
        self.note(st, ('delete', v))

    def on_store(self, eng, st, fr, n, lv, val):
        x = eng.T.get(lv)
        t = eng.T.show(lv)
        if self.a.criteria in t and (x[0] == 'Lidx' or 'operator[]' in t or x[0] == 'Lfld' and str(x[2]).endswith('second')):
            self.note(st, ('record', t + ' ' + eng.T.show(val)))


def go(a, f, null, c=None):
    c = c or C(a)
    e = Engine(a.m, c)
    P = e.NULL if null else e.T.mk('in', 'framework')
    e.P = P

    def setup(eng, st, fr):
        refparams(eng, st, fr)
        for p in f.params:
            if not p['t'].endswith('&'):
                st.env[('v', fr.id, p['u'])] = eng.T.mk('init', -1, p['u'])
        if f.cls == H:
            h = eng.T.mk('this', 0)
        elif f.params:
            h = eng.T.mk('init', -1, f.params[0]['u'])
        else:
            return
        st.facts[h] = True
        if not null:
            st.facts[P] = True
        e.h = h
        e.lv = eng.lfld(eng.lder(h), a.pfw)
        st.heap[e.lv] = P
    outs = e.run(f, setup)
    e.fr0 = None
    return e, outs


def text(e, st, ok, msg, vio, f):
    """the status text agrees with the outcome"""
    last = None
    for x in st.auto:
        if x[0] == 'msg':
            last = x[1]
        elif x[0] == 'make':
            last = None if x[4] else 1
        elif len(x) == 5 and x[3] and any(e.islv(l) and e.T.get(l)[0] == 'Lfld' and e.T.get(l)[2] == msg for l in x[3]):
            last = None if x[4] or x[4] is None else 1
    if ok and last != 0:
        bad(vio, f, 'a success leaves the text of the last error')
    if not ok and last != 1:
        bad(vio, f, 'a failure leaves no text of the error')


def fails(e, f, st, rt):
    if rt is None:
        return None
    k = e.truth(st, rt)
    if k is None and e.T.get(rt)[0] == 'new':
        return False
    return None if k is None else not k


def of(st, lab):
    return [x for x in st.auto if x[0] == lab]


def started(a, vio):
    """every call on a handle without framework"""
    n = 0
    for name in ('pfwSetCriterion', 'pfwGetCriterion', 'pfwApplyConfigurations', 'pfwBindParameter'):
        for f in a.m.fn(name):
            e, outs = go(a, f, True)
            for st, rt in outs:
                n += 1
                if any(len(x) == 5 and x[0] != 'msg' or x[0] == 'conn' for x in st.auto):
                    bad(vio, f, 'a framework that does not exist is used')
                if fails(e, f, st, rt) is not True:
                    bad(vio, f, 'a call without started framework does not fail')
                else:
                    text(e, st, False, a.msg, vio, f)
    return n


def found(e, x, a, name):
    """the object of an event is the criterion found under the name given"""
    t = e.T.show(x[1])
    return a.criteria in t and name in t


def env(e, a, known):
    def lib(x, s):
        nm = str(x[1]).split('::')[-1]
        if str(x[1]).startswith('std::numeric_limits<int>::'):
            return {'max': 2**31 - 1, 'min': -2**31}.get(nm)
        if a.criteria not in e.T.show(e.T.mk(*x)):
            return None
        return {'find': 1 if known else 9, 'end': 9, 'cend': 9, 'count': int(known), 'lower_bound': None}.get(nm)
    return {'lib': lib}


def criteria(a, vio):
    n = 0
    for name in ('pfwSetCriterion', 'pfwGetCriterion'):
        for f in a.m.fn(name):
            if len(f.params) != 3:
                raise AnalysisError('anchor vanished: parameters of ' + name)
            e, outs = go(a, f, False)
            lab = 'put' if name == 'pfwSetCriterion' else 'get'
            good = 0
            for st, rt in outs:
                n += 1
                ops = of(st, 'put') + of(st, 'get')
                if any(len(x) == 5 and x[0] != lab for x in st.auto):
                    bad(vio, f, 'another operation than the one asked is done')
                k = fails(e, f, st, rt)
                if k is None:
                    continue
                text(e, st, not k, a.msg, vio, f)
                if k:
                    if ops:
                        bad(vio, f, 'a call reported as failed has an effect')
                    # only because there is none
                    en = env(e, a, True)
                    if feasible(e, st, en) and not any(
                            isinstance(y, int) and pol is False and e.T.get(y)[0] in ('fld', 'cast', 'drf') and a.criteria in e.T.show(y)
                            for y, pol in st.facts.items()):
                        bad(vio, f, 'a call about a known criterion is refused')
                    continue
                good += 1
                if len(ops) != 1 or not found(e, ops[0], a, f.params[1]['u']):
                    bad(vio, f, 'the criterion of the name given is not the one concerned')
                elif lab == 'put' and castless(e, ops[0][2][0]) != e.T.mk('init', -1, f.params[2]['u']):
                    bad(vio, f, 'the value given is not the one stored')
                elif lab == 'get':
                    v = st.heap.get(e.lder(e.T.mk('init', -1, f.params[2]['u'])))
                    if v is None or e.T.get(castless(e, v))[:2] != ('got', 'get'):
                        bad(vio, f, 'the value of the criterion is not handed out')
                if feasible(e, st, env(e, a, False)):
                    bad(vio, f, 'a call about an unknown criterion is done')
            if not good:
                bad(vio, f, 'never succeeds')
    for f in a.m.fn('pfwApplyConfigurations'):
        e, outs = go(a, f, False)
        for st, rt in outs:
            n += 1
            if len(of(st, 'apply')) != 1 or any(len(x) == 5 and x[0] != 'apply' for x in st.auto) or fails(e, f, st, rt) is not False:
                bad(vio, f, 'the configurations are not applied')
            else:
                text(e, st, True, a.msg, vio, f)
    return n


OPS = {'pfwGetIntParameter': 'getAsSignedInteger', 'pfwSetIntParameter': 'setAsSignedInteger',
       'pfwGetStringParameter': 'getAsString', 'pfwSetStringParameter': 'setAsString'}


def parameters(a, vio):
    n = 0
    for f in a.m.fn('pfwBindParameter'):
        e, outs = go(a, f, False)
        for st, rt in outs:
            n += 1
            x = of(st, 'bind')
            k = fails(e, f, st, rt)
            if len(x) != 1 or x[0][2][0] != e.T.mk('init', -1, f.params[1]['u']) and f.params[1]['u'] not in e.T.show(x[0][2][0]):
                bad(vio, f, 'the parameter of the path given is not the one bound')
                continue
            if k is None or k != (not x[0][4]):
                bad(vio, f, 'the binding is not reported as it went')
                continue
            text(e, st, not k, a.msg, vio, f)
    for name, op in sorted(OPS.items()):
        for f in a.m.fn(name):
            e, outs = go(a, f, False)
            val = f.params[1]['u']
            pv = e.T.mk('init', -1, val)
            for st, rt in outs:
                n += 1
                x = [y for y in st.auto if y[0].startswith('par:')]
                if len(x) != 1 or x[0][0] != 'par:' + op or any(len(y) == 5 and y is not x[0] for y in st.auto):
                    bad(vio, f, 'the operation done is not %s, once' % op)
                    continue
                x = x[0]
                k = fails(e, f, st, rt)
                if a.par not in e.T.show(x[1]):
                    bad(vio, f, 'another parameter than the one bound is concerned')
                if k is None or k != (not x[4]):
                    bad(vio, f, 'the access is not reported as it went')
                    continue
                text(e, st, not k, a.msg, vio, f)
                if op.startswith('set'):
                    y = castless(e, x[2][0])
                    if y != pv and val not in e.T.show(y):
                        bad(vio, f, 'the value given is not the one set')
                elif op == 'getAsSignedInteger':
                    if x[3][0] != e.lder(pv) and castless(e, st.heap.get(e.lder(pv), pv)) == pv:
                        bad(vio, f, 'the value read is not handed out')
                else:
                    v = st.heap.get(e.lder(pv))
                    if v is None:
                        bad(vio, f, 'no string is handed out')
                    elif k and e.truth(st, v) is not False:
                        bad(vio, f, 'a failed read hands out a string')
                    elif not k and (e.truth(st, v) is False or 'lib' == e.T.get(v)[0] and
                                    str(e.T.get(v)[1]).split('::')[-1] in ('c_str', 'data')):
                        bad(vio, f, 'a copy of the text is not handed out')
    return n


def start(a, vio):
    n = 0
    make, setlog = ids(a.m, H + '::createCriteria'), ids(a.m, H + '::setLogger')
    spec = dict(a.spec, make=(make, 'bool'), setlog=(setlog, 'void'))
    for f in a.m.fn('pfwStart'):
        if len(f.params) != 5:
            raise AnalysisError('anchor vanished: parameters of pfwStart')
        e, outs = go(a, f, False, C(a, spec))
        for st, rt in outs:
            n += 1
            if fails(e, f, st, rt) is not True:
                bad(vio, f, 'a second start does not fail')
            else:
                text(e, st, False, a.msg, vio, f)
            if any(x[0] != 'msg' for x in st.auto) or st.heap.get(e.lv) != e.P:
                bad(vio, f, 'a refused start changes the handle')
        e, outs = go(a, f, True, C(a, spec))
        P = [e.T.mk('init', -1, p['u']) for p in f.params]
        good = 0
        for st, rt in outs:
            n += 1
            k = fails(e, f, st, rt)
            if k is None:
                bad(vio, f, 'the outcome is not that of the start')
                continue
            text(e, st, not k, a.msg, vio, f)
            seq = [x[0] for x in st.auto if x[0] in ('new', 'setlog', 'make', 'start')]
            mk, sr = of(st, 'make'), of(st, 'start')
            ok = bool(mk and mk[-1][4] and sr and sr[-1][4])
            if k == ok:
                bad(vio, f, 'the outcome is not that of the criteria and of the start')
            if seq[:1] != ['new'] or seq.count('new') != 1 or of(st, 'new')[0][2][0] != P[1] and f.params[1]['u'] not in e.T.show(of(st, 'new')[0][2][0]):
                bad(vio, f, 'the framework is not made of the configuration given')
            if 'start' in seq and ('make' not in seq or seq.index('make') > seq.index('start')):
                bad(vio, f, 'the framework starts before the criteria exist')
            if mk and (tuple(castless(e, x) for x in mk[-1][2]) != (P[2], P[3]) or mk[-1][1] != e.h):
                bad(vio, f, 'the criteria made are not those given')
            if 'setlog' not in seq or any(seq.index(x) < seq.index('setlog') for x in ('make', 'start') if x in seq) or \
                    of(st, 'setlog')[0][2][0] != P[4]:
                bad(vio, f, 'the framework works before it is handed the logger given')
            now = st.heap.get(e.lv)
            if ok:
                good += 1
                if now is None or now == e.NULL or of(st, 'delete'):
                    bad(vio, f, 'no framework is kept after a successful start')
                if of(st, 'forget'):
                    bad(vio, f, 'the criteria are forgotten after a successful start')
            else:
                if now != e.NULL:
                    bad(vio, f, 'the handle keeps a framework that did not start')
                if not of(st, 'delete'):
                    bad(vio, f, 'a framework that did not start is not deleted')
                if not of(st, 'forget'):
                    bad(vio, f, 'the criteria of a framework that did not start are kept')
        if not good:
            bad(vio, f, 'never succeeds')
    for f in a.m.fn(H + '::setLogger'):
        e, outs = go(a, f, False)
        lg = e.T.mk('init', -1, f.params[0]['u'])
        for st, rt in outs:
            n += 1
            x = of(st, 'logger')
            for given in (0, 1):
                for cb in (0, 1):
                    def fl(t, s):
                        return cb if t[2] == 'PfwLogger::logCb' and f.params[0]['u'] in e.T.show(e.T.mk(*t)) else None
                    en = {lg: given, 'fld': fl}
                    if not feasible(e, st, en):
                        continue
                    want = not given or cb
                    if bool(x) != bool(want):
                        bad(vio, f, 'a logger %s callback is%s registered' % ('with' if cb else 'without', '' if x else ' not')
                            if given else 'the default logger is not registered')
                    elif x:
                        if not of(st, 'keep') and not any(e.T.get(h)[0] == 'Lfld' and a.log in e.T.show(h) for h in st.heap):
                            bad(vio, f, 'the logger given is not kept')
                        if a.log not in e.T.show(x[0][2][0]) or x[0][1] != e.P:
                            bad(vio, f, 'another logger than that of the handle is registered')
    return n


def lifetime(a, vio):
    n = 0
    for f in a.m.fn('pfwDestroy'):
        for null in (False, True):
            e, outs = go(a, f, null)
            for st, rt in outs:
                n += 1
                d = [x[1] for x in of(st, 'delete')]
                if e.h not in d or not null and e.P not in d:
                    bad(vio, f, 'the handle or its framework is not deleted')
                elif not null and d.index(e.P) > d.index(e.h):
                    bad(vio, f, 'the framework is deleted after the handle')
    for f in a.m.fn('pfwUnbindParameter'):
        e, outs = go(a, f, True)
        for st, rt in outs:
            n += 1
            d = [e.T.show(x[1]) for x in of(st, 'delete')]
            if len(d) != 2 or not any(a.par in x for x in d) or e.T.show(e.h) not in d:
                bad(vio, f, 'the parameter handle is not deleted')
    for f in a.m.fn('pfwFree'):
        e, outs = go(a, f, True)
        for st, rt in outs:
            n += 1
            if [castless(e, x[1][0]) for x in of(st, 'free')] != [e.h]:
                bad(vio, f, 'the memory is not given back')
    lv = {x['n'].split('::')[-1]: x['v'] for x in (a.m.enums.get('PfwLogLevel') or {'vals': []})['vals']}
    for name, lab in (('LogWrapper::info', 'pfwLogInfo'), ('LogWrapper::warning', 'pfwLogWarning')):
        if lab not in lv:
            raise AnalysisError('anchor vanished: ' + lab)
        for f in a.m.fn(name):
            e, outs = go(a, f, True)
            for st, rt in outs:
                n += 1
                x = of(st, 'callback')
                if len(x) != 1 or len(x[0][1]) != 3:
                    bad(vio, f, 'a line is not given to the callback')
                    continue
                c, l, t = x[0][1]
                if 'userCtx' not in e.T.show(c) or not e.isconst(castless(e, l)) or e.cval(castless(e, l)) != lv[lab] or f.params[0]['u'] not in e.T.show(t):
                    bad(vio, f, 'a line reaches the callback with another context, level or text')
    return n


class Make(C):
    """iterations of the creation of criteria"""

    def __init__(self, a, f):
        C.__init__(self, a)
        self.f = f
        self.seen = set()
        self.vio = []
        self.wrong = []

    def on_loop(self, eng, st, fr, hd, vs, fl):
        d = depth(fr.f, hd)
        if d == 0 and fr.f.id == self.outer:
            st.auto = ()
        else:
            st.auto = tuple(x for x in st.auto if x[0] in ('ctype',))

    def fld(self, eng, t, name):
        t = castless(eng, t)
        x = eng.T.get(t)
        return x[0] == 'fld' and x[2] == name

    def pre(self, eng, st, fr, i, lab, o, av, al):
        if lab == 'ctype':
            self.n += 1
            for k in (0, 1):
                en = {'fld': lambda x, s: k if x[2] == self.a.incl else None}
                v = ev(eng, av[0], en)
                if v is not None and bool(v) != bool(k) or self.a.incl not in eng.T.show(av[0]):
                    eng.report(fr, i, 'the type of a criterion is not of the kind given')
            self.legal(eng, st, fr, i)
        elif lab == 'value':
            if o is None or eng.T.get(o)[:2] != ('got', 'ctype'):
                eng.report(fr, i, 'a value is added to another type')
            nm = eng.T.show(av[1])
            if self.a.values not in nm and not self.item(eng, av[1]):
                eng.report(fr, i, 'a value is added under another name')
            self.number(eng, st, fr, i, av)
        elif lab == 'crit':
            if not self.fld(eng, av[0], self.a.name) and self.a.name not in eng.T.show(av[0]):
                eng.report(fr, i, 'a criterion is made under another name')
            if eng.T.get(castless(eng, av[1]))[:2] != ('got', 'ctype'):
                eng.report(fr, i, 'a criterion is made with another type')
            if not any(isinstance(k, int) and any(self.item(eng, y) for y in walk(eng, k)) and
                       (eng.T.get(k)[0] == 'eq' and pol or self.item(eng, k) and not pol) for k, pol in st.facts.items()):
                eng.report(fr, i, 'a criterion is made before its values are exhausted')

    def item(self, eng, t):
        """a name of the list of values"""
        x = eng.T.get(castless(eng, t))
        return x[0] == 'idx' and self.a.values in eng.T.show(u(x[1])) or \
            x[0] == 'drf' and eng.T.get(castless(eng, u(x[1])))[0] == 'phi'

    def terms(self, eng, st):
        """(name, values, inclusive, index) of the iteration"""
        out = {}
        for k in list(st.facts) + [x for e in st.auto if len(e) == 5 for x in e[2]]:
            if isinstance(k, int):
                for y in walk(eng, k):
                    x = eng.T.get(y)
                    if x[0] == 'fld' and x[2] in (self.a.incl, self.a.values, self.a.name):
                        out[x[2]] = y
                    if self.item(eng, y):
                        out['item'] = y
                        if x[0] == 'idx':
                            out['index'] = castless(eng, u(x[2]))
        return out

    def environment(self, eng, st, name=1, values=1, known=0, incl=0, index=0):
        t = self.terms(eng, st)
        en = env(eng, self.a, known)
        if 'index' not in t:
            en['phi'] = lambda x, s: index
        for k, v in ((self.a.name, name), (self.a.values, values), (self.a.incl, incl), ('index', index), ('item', 7)):
            if k in t:
                en[t[k]] = v
        return en

    def legal(self, eng, st, fr, i):
        for kw, what in (({'name': 0}, 'a criterion without name is accepted'), ({'values': 0}, 'a criterion without values is accepted'),
                         ({'known': 1}, 'a criterion is made twice')):
            if feasible(eng, st, self.environment(eng, st, **kw)):
                eng.report(fr, i, what)

    def number(self, eng, st, fr, i, av):
        if not self.item(eng, av[1]):
            return
        x = eng.T.get(castless(eng, av[1]))
        idx = castless(eng, u(x[2])) if x[0] == 'idx' else None
        for incl in (0, 1):
            for k in (0, 1, 2, 3, 7, 29, 30, 31) if incl else (0, 1, 2, 3, 7, 31, 63):
                en = self.environment(eng, st, incl=incl, index=k)
                if idx is not None:
                    en[idx] = k
                if not feasible(eng, st, en):
                    continue
                self.n += 1
                self.seen.add((incl, k))
                if incl and k > 30:
                    eng.report(fr, i, 'a value beyond the bits of an inclusive criterion is accepted')
                    continue
                v = ev(eng, av[0], en)
                if v is not None and v != (1 << k if incl else k):
                    eng.report(fr, i, 'value %d of an %s criterion is numbered %s' % (k, 'inclusive' if incl else 'exclusive', v))

    def on_back(self, eng, st, fr, hd):
        d = depth(fr.f, hd)
        if d == 0 and fr.f.id == self.outer:
            self.n += 1
            c = of(st, 'crit')
            if len(of(st, 'ctype')) != 1 or len(c) != 1:
                eng.report(fr, first(fr.f, hd), 'a criterion is not made')
                return
            rec = of(st, 'record')
            if not any('got(crit' in x[1] and self.a.name in x[1] for x in rec):
                eng.report(fr, first(fr.f, hd), 'a criterion made is not known under its name')
        elif not any(x[0] == 'crit' for x in st.auto) and any(x[0] == 'ctype' for x in st.auto):
            v = of(st, 'value')
            if len(v) != 1 or not v[0][4]:
                eng.report(fr, first(fr.f, hd), 'a value is not added, or its refusal is ignored')


def depth(f, hd):
    f.cfg()
    return sum(1 for h, b in f.loops.items() if h != hd and hd in b)


def first(f, hd):
    return next((x for b in [hd] + sorted(f.loops[hd]) for x in f.blocks[b]['e'] if isinstance(x, int)), 0)


def walk(eng, k):
    todo, seen = [k], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st = list(eng.T.get(x)[1:])
        while st:
            y = st.pop()
            if hasattr(y, 'i'):
                todo.append(y.i)
            elif isinstance(y, tuple):
                st += list(y)


def creation(a, vio):
    n = 0
    for f in a.m.fn(H + '::createCriteria'):
        c = Make(a, f)
        c.outer = f.id
        # the loop over the criteria walks from the first by one
        f.cfg()
        L = [l for l in loops(f) if depth(f, l.head) == 0]
        if len(L) != 1:
            raise AnalysisError('anchor vanished: loop over the criteria')
        for l in L:
            if l.why or l.exits and False:
                bad(vio, f, 'the loop over the criteria ' + l.why)
            d = decls(f)
            v = varof(f, l)
            if v is not None and v in d:
                i = d[v].get('init')
                x = f.nodes[strip(f, i)] if i is not None and i >= 0 else {}
                if x.get('k') == 'Int' and x.get('cv') != '0':
                    bad(vio, f, 'the loop over the criteria does not start at the first')
                steps = [w[0] for w in writes(f, v)]
                if any(s == 'inc' for s in steps) and steps.count('inc') != 1:
                    bad(vio, f, 'the loop over the criteria skips some')
        e, outs = go(a, f, False, c)
        good = 0
        for st, rt in outs:
            n += 1
            k = fails(e, f, st, rt)
            if k is None:
                bad(vio, f, 'the outcome is not decided')
                continue
            text(e, st, not k, a.msg, vio, f)
            if not k:
                good += 1
                if not any(isinstance(x, int) and f.params[1]['u'] in e.T.show(x) for x in st.facts):
                    bad(vio, f, 'success is reported before all the criteria are made')
                continue
            if any(x[0] == 'value' and not x[4] for x in st.auto):
                continue
            for incl, idx in ((0, 0), (0, 5), (0, 40), (1, 0), (1, 30)):
                if feasible(e, st, c.environment(e, st, incl=incl, index=idx)):
                    bad(vio, f, 'a legal criterion is refused')
        for incl, k in ((0, 0), (0, 3), (0, 63), (1, 0), (1, 30)):
            if (incl, k) not in c.seen:
                bad(vio, f, 'value %d of an %s criterion is never added' % (k, 'inclusive' if incl else 'exclusive'))
        if not good:
            bad(vio, f, 'never succeeds')
        for x in e.violations:
            vio.append(x)
        n += c.n
    return n


def varof(f, l):
    if l.var is not None:
        return l.var
    c = f.blocks[l.head].get('cond')
    if c is None or c < 0:
        return None
    todo = [c]
    inb = set(l.nodes())
    while todo:
        i = todo.pop()
        n = f.nodes[i]
        if n['k'] == 'Ref' and n['d'].get('u') and any(w[1] in inb for w in writes(f, n['d']['u'])):
            return n['d']['u']
        todo += n.get('c', [])
    return None


def check(m, tier):
    vio, a = [], A(m)
    n = started(a, vio) + criteria(a, vio) + parameters(a, vio) + start(a, vio) + creation(a, vio) + lifetime(a, vio)
    return result(None, {'instances_checked': n, 'functions': len(a.mine)}, dedup(vio))
