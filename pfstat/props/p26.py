"""A synchronisation reaches everything concerned. (a) CSyncerSet::sync asks every syncer of the set (loop coverage, no early
exit), with the blackboard and direction it was given, adds the text of each failure to the errors when it has them, and
fails exactly when a syncer failed (every path, each outcome of the syncers). Adding a syncer or a set to a set inserts it
whole. (b) The syncer of an element is its own, else its parent's; the syncers of an element are that one alone
or, when there is none, those of every child in turn, down to the elements that have one (path enumeration of all the
overriders). A subsystem object becomes the syncer of its element when created and is taken off when destroyed. (c) A subsystem
object, for every combination of subsystem alive or not, direction and hardware outcome: the hardware is accessed exactly when the
subsystem is alive, in the direction asked, after the live settings and a position of 0 were recorded; success is reported
exactly when that access succeeded; a failed read back sets the defaults; bytes are exchanged at the offset of the element plus the
position, which advances by their number. (d) An application asks every subsystem whether it needs a resynchronisation and
adds the syncers of each that does to the set that is transmitted. (e) At start the elements without valid settings
are read back, all of them, before the domains are validated."""
from .common import *
from ..evalterm import ev, feasible
from ..loops import each, loops, strip, bypasses, algo_calls
from .p31 import Lay
from .p14 import u, ids, bad, fieldof

TECHNIQUE = 'path enumeration over finite tables of outcomes; loop coverage; typestate of the start sequence'
NOTE = 'what a plug-in does with the bytes it is handed is outside the repository'
SET, CE, ICE, SO, SUB, MGR, SYS = ('CSyncerSet', 'CConfigurableElement', 'CInstanceConfigurableElement', 'CSubsystemObject',
                                  'CSubsystem', 'CParameterMgr', 'CSystemClass')


class Evts(Checker):
    """records the calls of interest, in order, with their outcome"""
    SMALL = 60
    K = 60
    KEXIT = 60

    def __init__(self, m, spec, inline=()):
        self.m, self.spec, self.inline = m, spec, set(inline)
        self.by = {}
        for lab, (fs, kind) in spec.items():
            for t in fs:
                self.by[t] = (lab, kind)
        self.n = 0

    def relevant(self, eng):
        return self.inline - set(self.by)

    def init(self, eng, f):
        return ()

    def val(self, eng, st, a):
        return eng.rd(st, a) if eng.islv(a) else a

    def exc_autos(self, eng, pre, posts):
        """an event cut short by an exception counts as one that failed"""
        out = []
        for q in posts:
            if q.auto == pre.auto or isinstance(q.auto, tuple) and q.auto and isinstance(q.auto[-1], tuple) and len(q.auto[-1]) == 5 and not q.auto[-1][4]:
                if q.auto not in out:
                    out.append(q.auto)
        return out or [pre.auto]

    def add(self, st, e):
        if e not in st.auto:
            st.auto = st.auto + (e,)

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        k = next((self.by[t] for t in sorted(tg) if t in self.by), None)
        if k is None:
            return self.other(eng, st, fr, i, n, tg, obj, args)
        lab, kind = k
        self.n += 1
        o = None if obj is None else eng.addr(obj) if eng.islv(obj) else obj
        av = tuple(self.val(eng, st, a) for a in args)
        al = tuple(args)

        def out(res, term):
            q = st.copy()
            self.add(q, (lab, o, av, al, res))
            self.post(eng, q, fr, i, lab, o, av, al, res)
            return (q, term)
        self.pre(eng, st, fr, i, lab, o, av, al)
        if kind == 'bool':
            if lab == 'conf' and eng.truth(st, av[0]) is False:
                return [out(0, eng.FALSE)]
            return [out(1, eng.TRUE), out(0, eng.FALSE)]
        if kind == 'ptr':
            t = eng.T.mk('got', lab, r(o) if o is not None else 0)
            q = out(t, t)
            q[0].facts = dict(q[0].facts)
            q[0].facts[t] = True
            return [q, out(0, eng.NULL)]
        if kind == 'obj':
            t = eng.T.mk('got', lab, r(o) if o is not None else 0)
            q = out(t, t)
            q[0].facts = dict(q[0].facts)
            q[0].facts[t] = True
            return [q]
        if kind == 'ref':
            t = eng.lder(eng.T.mk('got', lab, r(o) if o is not None else 0))
            return [out(t, t)]
        return [out(None, None)]

    def other(self, eng, st, fr, i, n, tg, obj, args):
        return None

    def pre(self, eng, st, fr, i, lab, o, av, al):
        pass

    def post(self, eng, st, fr, i, lab, o, av, al, res):
        pass


def all_of(m, f, targets, vio, what, exits=False, also=()):
    """each(), and the loop is not bypassed"""
    v, why = each(m, f, targets, exits=exits)
    if v is False:
        return bad(vio, f, what + ': ' + why)
    reach = m.reaching(targets)
    for L in loops(f):
        if any(L.blockof(i) is not None and (m.targets(f, x) & reach) for i, x in enumerate(f.nodes) if x['k'] == 'Call'):
            for b, c, pol in bypasses(f, L):
                bad(vio, f, what + ': the loop is skipped', c if c is not None and c >= 0 else None)


def run(m, f, c, setup=None):
    e = Engine(m, c)
    outs = e.run(f, setup)
    return e, outs


def pval(eng, st, fr, k):
    return None


# ---- (a)
class SyncAll(Evts):
    def post(self, eng, st, fr, i, lab, o, av, al, res):
        if lab == 'sync':
            st.auto = tuple(x for x in st.auto if x[0] not in ('sync', 'pending'))
            if not res:
                self.add(st, ('failed',))
                self.add(st, ('pending', al[2]))

    def pre(self, eng, st, fr, i, lab, o, av, al):
        self.late(eng, st, fr, i)
        if av[1] != self.back:
            eng.report(fr, i, 'the syncers are not asked in the direction requested')
        if (eng.addr(al[0]) if eng.islv(al[0]) else al[0]) != self.bb:
            eng.report(fr, i, 'the syncers are not given the blackboard of the request')

    def late(self, eng, st, fr, i):
        if any(x[0] == 'pending' for x in st.auto) and eng.truth(st, self.err) is not False:
            eng.report(fr, i, 'the text of a failed syncer is not added to the errors')

    def other(self, eng, st, fr, i, n, tg, obj, args):
        p = [x for x in st.auto if x[0] == 'pending']
        if p:
            def same(a, b):
                w = lambda z: eng.addr(z) if eng.islv(z) else z
                return a is not None and w(a) == w(b)
            al = [obj] + list(args)
            if any(same(a, x[1]) for x in p for a in al) and any(
                    a is not None and (eng.addr(a) if eng.islv(a) else a) == self.err for a in al):
                st.auto = tuple(x for x in st.auto if x[0] != 'pending')
        return None

    def on_exit(self, eng, st, fr, ret):
        if fr.parent is not None:
            return
        self.late(eng, st, fr, -1)
        f = ('failed',) in st.auto
        t = eng.truth(st, ret)
        if t is not (not f):
            eng.report(fr, -1, 'a failed syncer is reported as success' if f else 'fails although no syncer failed'
                       if t is False else 'the result does not say whether a syncer failed')


def sets(m, vio):
    n = 0
    isync = ids(m, SO + '::sync', 'CVirtualSyncer::sync')
    base = {f.id for f in m.funcs.values() if f.n == 'sync' and f.cls == 'ISyncer'}
    tgt = isync | base
    for f in m.fn(SET + '::sync'):
        n += 1
        all_of(m, f, tgt, vio, 'not every syncer of the set is asked')
        c = SyncAll(m, {'sync': (tgt, 'bool')}, {g.id for g in m.funcs.values() if g.cls == SET})

        def setup(eng, st, fr):
            ps = fr.f.params
            c.bb = eng.T.mk('in', 'bb')
            c.back = eng.T.mk('in', 'back')
            c.err = eng.T.mk('in', 'err')
            for p, t in zip(ps, (None, c.back, c.err)):
                if t is not None:
                    st.env[('v', fr.id, p['u'])] = t
            st.env[('v', fr.id, ps[0]['u'])] = ('@', eng.lder(c.bb))
        e, outs = run(m, f, c, setup)
        vio += e.violations
        n += c.n
    fld = fieldof(m, SET, lambda t: 'ISyncer' in t, 'syncers of a set')
    for f in m.fn(SET + '::operator+='):
        n += 1
        one = f.params[0]['t'].endswith('*')
        f.cfg()
        ok, skip = False, []

        def same(c, pol):
            """is `c` being `pol` this set and the other being one?"""
            x = f.nodes[strip(f, c)]
            ks = {f.nodes[j]['k'] for j in f.subtree(strip(f, c))}
            return x['k'] == 'Bin' and x.get('op') in ('==', '!=') and (x['op'] == '==') == pol and 'This' in ks and \
                any(f.nodes[j]['k'] == 'Un' and f.nodes[j].get('op') == '&' for j in f.subtree(strip(f, c))) and \
                not any(f.nodes[j]['k'] == 'Call' for j in f.subtree(strip(f, c)))
        for i, x in enumerate(f.nodes):
            if x['k'] != 'Call' or x.get('obj', -1) < 0:
                continue
            nm = (x.get('f') or {}).get('n')
            own = m.field_of(f, x['obj']) == fld and nm in ('insert', 'emplace', 'emplace_hint')
            rec = nm == 'operator+=' and (x.get('f') or {}).get('cls') == SET
            if not own and not rec:
                continue
            if one:
                if any(f.nodes[j]['k'] == 'Ref' and f.nodes[j].get('d', {}).get('u') == f.params[0]['u']
                       for c in x['c'] for j in f.subtree(c)):
                    ok = True
                    skip += bypasses(f, i)
                continue
            a = [((f.nodes[strip(f, c)].get('f') or {}).get('n')) for c in x['c'][-2:]]
            if own and a in (['begin', 'end'], ['cbegin', 'cend']):
                ok = True
                skip += bypasses(f, i, same)
            for L in loops(f):
                if L.blockof(i) is not None and L.kind == 'full' and L.every_iteration(i) and not L.exits:
                    ok = True
                    skip += bypasses(f, L, same)
        for i, nm, full, lam in algo_calls(m, f):
            if full and nm in ('for_each', 'copy', 'transform') and not one:
                ok = True
                skip += bypasses(f, i, same)
        if not ok or skip:
            bad(vio, f, 'a syncer%s added to a set is not inserted %s' % ('' if one else ' set', 'on every path' if one else 'whole'))
    return n


# ---- (b)
def element(m, vio):
    n = 0
    own = fieldof(m, ICE, lambda t: t.replace('class ', '').strip() == 'ISyncer *', 'syncer of an element')
    gs = {f.id: f for f in m.funcs.values() if f.n == 'getSyncer' and not f.params and 'ISyncer' in f.rt}
    fd = {f.id: f for f in m.funcs.values() if f.n == 'fillSyncerSetFromDescendant'}
    fs = ids(m, CE + '::fillSyncerSet')
    par = ids(m, 'CElement::getParent')
    isof = {f.id for f in m.funcs.values() if f.cls == CE and f.rt == 'bool' and len(f.params) == 1 and
            'CElement' in f.params[0]['t'] and f.n.startswith('isOf')}
    plus = {f.id for f in m.fn(SET + '::operator+=')}
    if not gs or not fd or not isof:
        raise AnalysisError('anchor vanished: syncers of an element')
    for f in sorted(gs.values(), key=lambda g: g.id):
        if not f.blocks:
            continue
        n += 1
        c = Evts(m, {'syncer': (set(gs), 'ptr'), 'parent': (par, 'ptr'), 'conf': (isof, 'bool')},
                 {g.id for g in m.funcs.values() if g.cls in (CE, ICE)})
        e, outs = run(m, f, c)
        flds = [x['u'] for x in m.classes[f.cls]['fields'] if 'Syncer' in x['t']] if f.cls in m.classes else []
        for st, ret in outs:
            b = e.lder(e.T.mk('this', 0))
            x = e.T.get(ret) if ret is not None else ('',)
            a = {y[0]: y for y in st.auto}
            if 'syncer' in a and not ('parent' in a) and a['syncer'][1] != e.T.mk('this', 0) and f.cls != CE:
                bad(vio, f, 'the syncer is looked for in another element')
            if f.cls == CE:
                p = a.get('parent')
                if p and p[4] and a.get('conf', (0,) * 5)[4] == 1:
                    y = a.get('syncer')
                    if y is None or castless_ptr(e, y[1]) != p[4] or not retis(e, st, ret, y[4]):
                        bad(vio, f, 'the syncer of the parent is not taken')
                elif p is None or (p[4] and 'conf' not in a):
                    bad(vio, f, 'the syncer of the parent is not looked for')
                elif e.truth(st, ret) is not False:
                    bad(vio, f, 'a syncer is returned for the topmost element')
                if 'conf' in a and castless_ptr(e, a['conf'][2][0]) != (p[4] or e.NULL) and p and p[4]:
                    bad(vio, f, 'another element than the parent is considered')
            elif 'syncer' in a:
                t = [e.truth(st, e.rd(st, e.lfld(b, w))) for w in flds]
                if True in t:
                    if x[0] == 'got' or not any(ret == e.rd(st, e.lfld(b, w)) for w in flds):
                        bad(vio, f, 'the syncer of the element itself is not the one returned')
                elif False not in t:
                    bad(vio, f, 'the parent is asked without looking at the syncer of the element')
                elif not retis(e, st, ret, a['syncer'][4]):
                    bad(vio, f, 'the syncer of the parent is not taken')
            else:
                if not flds or not any(ret == e.rd(st, e.lfld(b, w)) for w in flds):
                    bad(vio, f, 'an element does not return its own or its parent\'s syncer')
                elif f.cls == ICE and e.truth(st, ret) is not True:
                    bad(vio, f, 'the parent is not asked when the element has no syncer')
        n += c.n
    for q in fs:
        f = m.funcs[q]
        c = Evts(m, {'syncer': (set(gs), 'ptr'), 'plus': (plus, 'void'), 'down': (set(fd), 'void')},
                 {g.id for g in m.funcs.values() if g.cls == CE})
        e, outs = run(m, f, c, refs(('set',)))
        n += c.n
        for st, ret in outs:
            y = [x for x in st.auto if x[0] == 'syncer']
            pl = [x for x in st.auto if x[0] == 'plus' and isin(e, x[1])]
            dn = [x for x in st.auto if x[0] == 'down' and x[1] == e.T.mk('this', 0) and isin(e, e.addr(x[3][0]))]
            if not y or y[0][1] != e.T.mk('this', 0):
                bad(vio, f, 'the syncer of the element or of its ancestors is not looked for')
            elif y[0][4] and not any(p[2][0] == y[0][4] for p in pl):
                bad(vio, f, 'the syncer of the element or of an ancestor is not put in the set')
            elif not y[0][4] and not dn:
                bad(vio, f, 'without a syncer above, those of the descendants are not collected')
            if y and not y[0][4] and pl:
                bad(vio, f, 'no syncer, but something else is put in the set')
    for f in sorted(fd.values(), key=lambda g: g.id):
        if not f.blocks:
            continue
        n += 1
        if f.cls == CE:
            all_of(m, f, set(fd), vio, 'not every child is asked for its syncers')
            c = Evts(m, {'down': (set(fd), 'void')}, {g.id for g in m.funcs.values() if g.cls == CE})
            e, outs = run(m, f, c, refs(('set',)))
            for st, ret in outs:
                for x in st.auto:
                    if not isin(e, e.addr(x[3][0]) if e.islv(x[3][0]) else x[3][0]):
                        bad(vio, f, 'the syncers of a child are collected in another set')
            continue
        flds = [x['u'] for x in m.classes[f.cls]['fields'] if 'Syncer' in x['t']]
        c = Evts(m, {'plus': (plus, 'void'), 'down': (set(fd), 'void'), 'syncer': (set(gs), 'ptr')},
                 {g.id for g in m.funcs.values() if g.cls == f.cls})
        e, outs = run(m, f, c, refs(('set',)))
        n += c.n
        for st, ret in outs:
            b = e.lder(e.T.mk('this', 0))
            vals = [e.rd(st, e.lfld(b, w)) for w in flds]
            pl = any(x[0] == 'plus' and isin(e, x[1]) and x[2][0] in vals for x in st.auto)
            dn = any(x[0] == 'down' and x[1] == e.T.mk('this', 0) and isin(e, e.addr(x[3][0])) for x in st.auto)
            t = [e.truth(st, w) for w in vals]
            if False in t:
                if pl or not dn:
                    bad(vio, f, 'an element without syncer does not collect those of its descendants')
            elif not pl:
                bad(vio, f, 'the syncer of the element is not collected')
            elif True not in t and f.cls == ICE:
                bad(vio, f, 'the descendants of an element without syncer are not considered')
    # creation and destruction of a subsystem object
    st_, un = ids(m, ICE + '::setSyncer'), ids(m, ICE + '::unsetSyncer')
    for f in m.funcs.values():
        if f.cls == SO and (f.ctor or f.dtor) and f.blocks and not (f.ctor and len(f.params) < 2):
            n += 1
            c = Evts(m, {'set': (st_, 'void'), 'unset': (un, 'void')}, {g.id for g in m.funcs.values() if g.cls == SO})
            e, outs = run(m, f, c)
            for st, ret in outs:
                lab = 'set' if f.ctor else 'unset'
                x = [y for y in st.auto if y[0] == lab]
                if not x or f.ctor and castless_ptr(e, x[0][2][0]) != e.T.mk('this', 0):
                    bad(vio, f, 'a subsystem object does not %s its element' % ('become the syncer of' if f.ctor else 'leave'))
    for q, want in ((ICE + '::setSyncer', 1), (ICE + '::unsetSyncer', 0)):
        for f in m.fn(q):
            n += 1
            c = Evts(m, {})
            e, outs = run(m, f, c, lambda eng, st, fr: st.env.update(
                {('v', fr.id, p['u']): eng.T.mk('in', 's') for p in fr.f.params}))
            for st, ret in outs:
                w = e.rd(st, e.lfld(e.lder(e.T.mk('this', 0)), own))
                if want and w != e.T.mk('in', 's') or not want and e.truth(st, w) is not False:
                    bad(vio, f, 'the syncer of the element is not %s' % ('the one given' if want else 'forgotten'))
    return n


def retis(e, st, ret, res):
    if ret is None:
        return False
    return ret == res if res else e.truth(st, ret) is False


def castless_ptr(e, t):
    for _ in range(6):
        x = e.T.get(t)
        if x[0] == 'addr' and e.T.get(x[1].i)[0] in ('Lder', 'Lbase', 'Lcast'):
            t = e.T.get(x[1].i)[1].i
        elif x[0] in ('cast', 'dcast', 'pcast') and hasattr(x[-1], 'i'):
            t = x[-1].i
        else:
            break
    return t


def isin(e, t):
    return castless_ptr(e, t) == e.T.mk('in', 'set')


def refs(names):
    def setup(eng, st, fr):
        for p, nm in zip(fr.f.params, names):
            st.env[('v', fr.id, p['u'])] = ('@', eng.lder(eng.T.mk('in', nm)))
    return setup


# ---- (c)
class Obj(Evts):
    bb = idx = None

    def pre(self, eng, st, fr, i, lab, o, av, al):
        if lab != 'hw':
            return
        b = eng.lder(eng.T.mk('this', 0))
        if castless_ptr(eng, eng.rd(st, eng.lfld(b, self.bb))) != eng.T.mk('in', 'bb'):
            eng.report(fr, i, 'the hardware is accessed with other settings than those of the request')
        if eng.cval(eng.rd(st, eng.lfld(b, self.idx))) != 0:
            eng.report(fr, i, 'the hardware is accessed without starting from the first byte of the element')
        if eng.truth(st, av[0]) != self.back:
            eng.report(fr, i, 'the hardware is not accessed in the direction of the request')


def objects(m, vio):
    n = 0
    alive = {f.id for f in m.funcs.values() if f.n == 'isAlive' and m.classes.get(f.cls) and
             (f.cls == SUB or SUB in str(m.bases.get(f.cls)))}
    hw = {f.id for f in m.funcs.values() if f.n == 'accessHW'}
    dflt = {f.id for f in m.fn(SO + '::setDefaultValues')}
    snd = {f.id for f in m.funcs.values() if f.n == 'sendToHW'}
    rcv = {f.id for f in m.funcs.values() if f.n == 'receiveFromHW'}
    if not alive or not hw or not snd or not rcv:
        raise AnalysisError('anchor vanished: access to the hardware')
    bb = fieldof(m, SO, lambda t: 'CParameterBlackboard' in t, 'blackboard of a subsystem object')
    rw = [f for f in m.funcs.values() if f.cls == SO and f.n in ('blackboardRead', 'blackboardWrite')]
    acc = ids(m, 'CParameterBlackboard::readBuffer', 'CParameterBlackboard::writeBuffer', 'CParameterBlackboard::readInteger',
              'CParameterBlackboard::writeInteger')
    off = ids(m, CE + '::getOffset', SO + '::getOffset')
    # the position: the integer member changed by a read
    pos = set()
    for f in rw:
        for x in m.classes[SO]['fields']:
            if x['t'] in ('unsigned long', 'size_t', 'std::size_t', 'unsigned int', 'uint32_t'):
                for i, y in enumerate(f.nodes):
                    if y['k'] in ('Assign', 'CompAssign', 'Binary', 'Bin') and y.get('c') and \
                            m.field_of(f, y['c'][0]) == x['u'] and ('=' in str(y.get('op', '')) and y.get('op') not in ('==', '!=', '<=', '>=')):
                        pos.add(x['u'])
    if len(pos) != 1 or len(rw) < 2:
        raise AnalysisError('anchor vanished: position of a subsystem object in its bytes')
    pos = pos.pop()
    for f in m.fn(SO + '::sync'):
        for back in (False, True):
            c = Obj(m, {'alive': (alive, 'bool'), 'hw': (hw, 'bool'), 'default': (dflt, 'void')},
                    {g.id for g in m.funcs.values() if g.cls == SO} - snd - rcv)
            c.bb, c.idx, c.back = bb, pos, back

            def setup(eng, st, fr):
                ps = fr.f.params
                st.env[('v', fr.id, ps[0]['u'])] = ('@', eng.lder(eng.T.mk('in', 'bb')))
                st.env[('v', fr.id, ps[1]['u'])] = eng.TRUE if back else eng.FALSE
            e, outs = run(m, f, c, setup)
            vio += e.violations
            n += c.n
            for st, ret in outs:
                a = {x[0]: x for x in st.auto}
                ok = e.truth(st, ret)
                al = a.get('alive')
                if al is None:
                    bad(vio, f, 'the subsystem is not asked whether it is alive')
                    continue
                h = a.get('hw')
                if (h is not None) != bool(al[4]):
                    bad(vio, f, 'the hardware of a subsystem that is %s alive is %s' % (('', 'not accessed') if al[4] else
                                                                                   ('not', 'accessed')))
                want = bool(al[4] and h and h[4])
                if ok is not want:
                    bad(vio, f, 'a failed access is reported as success' if not want else 'a successful access is reported as a failure')
                if ('default' in a) != (back and not want):
                    bad(vio, f, 'default values are %s after %s' % ('set' if 'default' in a else 'not set', (
                        'a successful' if want else 'a failed') + (' read back' if back else ' transmission')))
    for f in m.fn(SO + '::accessHW'):
        for back in (False, True):
            c = Evts(m, {'send': (snd, 'bool'), 'receive': (rcv, 'bool')})
            e, outs = run(m, f, c, lambda eng, st, fr: st.env.update(
                {('v', fr.id, fr.f.params[0]['u']): eng.TRUE if back else eng.FALSE}))
            n += c.n
            for st, ret in outs:
                x = st.auto
                if [y[0] for y in x] != ['receive' if back else 'send']:
                    bad(vio, f, 'a request in one direction accesses the hardware in the other')
                elif e.truth(st, ret) is not bool(x[0][4]):
                    bad(vio, f, 'the outcome of the access is not the one returned')
    for f in rw:
        c = Evts(m, {'io': (acc, 'void'), 'off': (off, 'obj')})
        e, outs = run(m, f, c, lambda eng, st, fr: (st.env.update(
            {('v', fr.id, p['u']): eng.T.mk('in', k) for p, k in zip(fr.f.params, ('data', 'n'))}),
            st.heap.__setitem__(eng.lfld(eng.lder(fr.this), pos), eng.T.mk('in', 'pos'))))
        for st, ret in outs:
            io = [x for x in st.auto if x[0] == 'io']
            of = [x[4] for x in st.auto if x[0] == 'off']
            n += 1
            if len(io) != 1 or not of:
                bad(vio, f, 'the bytes are not exchanged once, at the offset of the element')
                continue
            q = m.funcs[f.id]
            for p0, k, o in ((0, 4, 100), (8, 1, 0), (3, 7, 1000)):
                env = {e.T.mk('in', 'pos'): p0, e.T.mk('in', 'n'): k}
                env.update({x: o for x in of})
                if not feasible(e, st, env):
                    continue
                g = [ev(e, x, env) for x in (io[0][2][1], io[0][2][2])]
                if g != [k, o + p0]:
                    bad(vio, f, '%d bytes at position %d of an element at %d: accessed %s bytes at %s' % (k, p0, o, g[0], g[1]))
                w = ev(e, e.rd(st, e.lfld(e.lder(e.T.mk('this', 0)), pos)), env)
                if w != p0 + k:
                    bad(vio, f, 'the position after %d bytes at %d is %s' % (k, p0, w))
            if io[0][2][0] != e.T.mk('in', 'data'):
                bad(vio, f, 'the bytes are not exchanged with the buffer given')
        want = 'read' if 'Read' in f.n else 'write'
        for x in f.nodes:
            if x['k'] == 'Call' and (x.get('f') or {}).get('id') in acc and not x['f']['n'].startswith(want):
                bad(vio, f, 'the bytes are exchanged in the wrong direction')
    for f in m.fn('CVirtualSyncer::sync'):
        for back in (False, True):
            c = Evts(m, {'default': ({g.id for g in m.funcs.values() if g.n == 'setDefaultValues'}, 'void')})
            e, outs = run(m, f, c, lambda eng, st, fr: st.env.update(
                {('v', fr.id, fr.f.params[1]['u']): eng.TRUE if back else eng.FALSE}))
            for st, ret in outs:
                n += 1
                if e.truth(st, ret) is not True:
                    bad(vio, f, 'a virtual subsystem fails to synchronise')
                if back != bool(st.auto):
                    bad(vio, f, 'a virtual subsystem %s default values' % ('does not read back' if back else 'overwrites the settings with'))
    return n


# ---- (d)
class Resync(Evts):
    def post(self, eng, st, fr, i, lab, o, av, al, res):
        if lab == 'need':
            self.late(eng, st, fr, i)
            st.auto = tuple(x for x in st.auto if x[0] != 'need') + ((('need', o),) if res else ())
        if lab == 'fill':
            if ('need', o) in st.auto and isin(eng, eng.addr(al[0]) if eng.islv(al[0]) else al[0]):
                st.auto = tuple(x for x in st.auto if x != ('need', o))
            st.auto = tuple(x for x in st.auto if x[0] != 'fill')

    def late(self, eng, st, fr, i):
        if any(x[0] == 'need' and len(x) == 2 for x in st.auto):
            eng.report(fr, i, 'a subsystem that needs a resynchronisation is not added to the set')

    def pre(self, eng, st, fr, i, lab, o, av, al):
        if lab == 'need':
            self.late(eng, st, fr, i)
            st.auto = tuple(x for x in st.auto if x[0] != 'need')
            if eng.truth(st, av[0]) is not True:
                eng.report(fr, i, 'the need of a resynchronisation is not consumed')

    def on_exit(self, eng, st, fr, ret):
        if fr.parent is None:
            self.late(eng, st, fr, -1)


def resync(m, vio):
    n = 0
    need = {f.id for f in m.funcs.values() if f.n == 'needResync'}
    fill = ids(m, CE + '::fillSyncerSet')
    inl = {g.id for g in m.funcs.values() if g.cls == SYS}
    for q in ('checkForSubsystemsToResync', 'cleanSubsystemsNeedToResync'):
        for f in m.fn(SYS + '::' + q):
            n += 1
            all_of(m, f, need, vio, 'not every subsystem is asked whether it needs a resynchronisation')
            if q.startswith('check'):
                c = Resync(m, {'need': (need, 'bool'), 'fill': (fill, 'void')}, inl)
                e, outs = run(m, f, c, refs(('set',)))
                vio += e.violations
                n += c.n
    app = ids(m, 'CConfigurableDomains::apply')
    chk = ids(m, SYS + '::checkForSubsystemsToResync')
    for f in m.fn(MGR + '::doApplyConfigurations'):
        c = Evts(m, {'check': (chk, 'void'), 'apply': (app, 'void')})
        e, outs = run(m, f, c)
        n += c.n
        for st, ret in outs:
            ks = [x[0] for x in st.auto]
            ps = {x[0]: x for x in st.auto}
            if 'apply' not in ks:
                bad(vio, f, 'the configurations are not applied')
            elif 'check' not in ks or ks.index('check') > ks.index('apply'):
                bad(vio, f, 'the subsystems that need a resynchronisation are not collected before the application')
            elif ps['check'][3][0] not in ps['apply'][3]:
                bad(vio, f, 'the syncers of the subsystems to resynchronise are not those transmitted')
    return n


# ---- (e)
def start(m, vio):
    n = 0
    fill = ids(m, CE + '::fillSyncerSet')
    ssync = ids(m, SET + '::sync')
    H = 'CHardwareBackSynchronizer'
    for f in m.funcs.values():
        if f.cls == H and f.ctor and len(f.params) >= 2 and f.blocks:
            n += 1
            all_of(m, f, fill, vio, 'not every element to read back gives its syncers')
    for f in m.fn(H + '::sync'):
        c = Evts(m, {'sync': (ssync, 'bool')})
        e, outs = run(m, f, c)
        n += c.n
        for st, ret in outs:
            x = [y for y in st.auto if y[0] == 'sync']
            if not x or e.truth(st, x[0][2][1]) is not True:
                bad(vio, f, 'the elements are not read back from the hardware')
    # which elements
    crit = CE + '::hasNoValidDomainAssociated'
    used = False
    for f in m.funcs.values():
        if f.cls == 'CBackSynchronizer' and f.ctor:
            used = used or any(((x.get('d') or {}).get('f') or {}).get('q') == crit or (x.get('f') or {}).get('q') == crit for x in f.nodes)
            n += 1
    if not used:
        f = next(f for f in m.funcs.values() if f.cls == 'CBackSynchronizer' and f.ctor)
        bad(vio, f, 'the elements read back are not those without valid settings')
    val = ids(m, 'CConfigurableDomain::isApplicableConfigurationValid')

    class V(Evts):
        def post(self, eng, st, fr, i, lab, o, av, al, res):
            st.auto = tuple(x for x in st.auto if x[0] != 'valid') + ((('yes',),) if res else ())
            if castless_ptr(eng, av[0]) != eng.T.mk('this', 0):
                eng.report(fr, i, 'a domain is asked for the validity of another element')
    for f in m.fn(crit):
        all_of(m, f, val, vio, 'not every domain of the element is asked', exits=True)
        n += 1
        c = V(m, {'valid': (val, 'bool')}, {g.id for g in m.funcs.values() if g.cls == CE})
        e, outs = run(m, f, c)
        vio += e.violations
        n += c.n
        for st, ret in outs:
            y = any(x[0] == 'yes' for x in st.auto)
            if e.truth(st, ret) is not (not y):
                bad(vio, f, 'an element with valid settings is read back' if y else 'an element without valid settings is not read back')
    bs = {f.id for f in m.funcs.values() if f.n == 'sync' and f.cls in (H, 'CBackSynchronizer', 'CSimulatedBackSynchronizer')}
    vd = ids(m, 'CConfigurableDomains::validate')
    ap = ids(m, MGR + '::doApplyConfigurations')
    cl = ids(m, SYS + '::cleanSubsystemsNeedToResync')
    for f in m.fn(MGR + '::load'):
        status = {t for x in f.nodes if x['k'] == 'Call' for t in m.targets(f, x)
                  if t in m.funcs and m.funcs[t].cls == MGR and m.funcs[t].rt == 'bool' and m.funcs[t].n != 'load'}
        c = Evts(m, {'back': (bs, 'void'), 'validate': (vd, 'void'), 'apply': (ap, 'void'), 'clean': (cl, 'void')},
                 {g for g in m.reaching(bs | vd | ap | cl) if m.funcs[g].cls == MGR and m.funcs[g].n != 'load'} )
        c.K = c.KEXIT = 200
        e, outs = run(m, f, c)
        n += c.n
        for st, ret in outs:
            if e.truth(st, ret) is False:
                continue
            ks = [x[0] for x in st.auto]
            if ks != ['back', 'validate', 'clean', 'apply']:
                need = ['back', 'validate', 'apply']
                if [k for k in ks if k in need] != need:
                    bad(vio, f, 'a start succeeds with the steps %s instead of %s' % (ks, need))
    return n


class Agg(Lay):
    """CConfigurableElementAggregator: what is added to which list, what is returned"""
    K = KEXIT = 80
    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}

        def val(k):
            a = args[k]
            return eng.rd(st, a) if eng.islv(a) else a
        if not fi and n.get('t') == 'bool':
            q = st.copy()
            st.auto, q.auto = st.auto | {'crit'}, q.auto | {'nocrit'}
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.me:
            y = T.get(castless_ptr(eng, val(0)))
            while y[0] == 'cast':
                y = T.get(u(y[2]))
            l = args[1] if eng.islv(args[1]) else eng.lder(args[1])
            if l == self.outer:
                st.auto = st.auto | {'direct'}
            if self.fork:
                q = st.copy()
                q.auto = q.auto | {'miss'}
                return [(st, eng.TRUE), (q, eng.FALSE)]
            return [(st, T.mk('aggr', r(val(0)) if y[0] != 'child' else y[1], 'B'))]
        nm = fi.get('n')
        if obj is not None and not fi.get('repo') and nm in ('push_back', 'emplace_back', 'push_front', 'insert', 'splice', 'merge'):
            o = obj if eng.islv(obj) else eng.lder(obj)
            if o == self.outer:
                if nm in ('push_back', 'emplace_back', 'push_front') or nm == 'insert' and len(args) == 2:
                    if castless_ptr(eng, val(len(args) - 1)) == T.mk('in', 'elem'):
                        st.auto = st.auto | {'self'}
                    else:
                        st.auto = st.auto | {'other'}
                else:
                    st.auto = st.auto | {'kids'}
            return None
        return Lay.on_call(self, eng, st, fr, i, n, tg, obj, args)


def aggregate(m, vio):
    n = 0
    A = 'CConfigurableElementAggregator'
    me = {f.id for f in m.funcs.values() if f.cls == A and f.rt == 'bool' and len(f.params) == 2}
    if not me:
        raise AnalysisError('anchor vanished: aggregation')
    for q in sorted(me):
        f = m.funcs[q]
        v, why = each(m, f, me)
        n += 1
        if v is False:
            bad(vio, f, 'not every child is considered: ' + why)
        # matches are counted, or remembered as a truth value: either way of looking at it is sufficient
        res = []
        for fork in (False, True):
            w = []
            n += collected(m, f, me, fork, w)
            res.append(w)
            if not w:
                break
        if all(res):
            vio += min(res, key=len)
    return n


def collected(m, f, me, fork, vio):
    n = 0
    c = Agg(m)
    c.off, c.want, c.me, c.fork = None, (), me, fork
    lay = Engine(m, c)

    def setup(eng, st, fr):
        c.outer = eng.lder(eng.T.mk('in', 'list'))
        st.env[('v', fr.id, fr.f.params[0]['u'])] = eng.T.mk('in', 'elem')
        st.env[('v', fr.id, fr.f.params[1]['u'])] = ('@', c.outer)
    outs = lay.run(f, setup)

    def judge(st, g, want, pat):
        a = st.auto
        if bool(g) != bool(want):
            bad(vio, f, 'an element %s, children %s: %s' % (
                'with valid settings of its own' if 'nocrit' in a else 'without valid settings of its own',
                pat, 'read back as a whole' if g else 'not read back as a whole'))
        elif want and 'self' not in a:
            bad(vio, f, 'an element to read back as a whole is not collected')
        elif not want and 'self' in a:
            bad(vio, f, 'an element with valid settings is collected')
        elif not want and 'crit' in a and not a & {'kids', 'direct'} and not any(
                v and isinstance(k, int) and lay.T.get(k)[0] == 'lib' and str(lay.T.get(k)[1]).endswith('::empty')
                for k, v in st.facts.items()):
            bad(vio, f, 'the children to read back are not collected')
    for st, ret in outs:
        if ret is not None and not st.auto & {'crit', 'nocrit'}:
            bad(vio, f, 'an element is collected without looking at its own settings')
    if fork:
        for st, ret in outs:
            if st.auto & {'crit', 'nocrit'} and ret is not None:
                n += 1
                want = 'nocrit' not in st.auto and 'miss' not in st.auto
                t = lay.truth(st, ret)
                judge(st, (not want) if t is None else t, want, 'all matching' if 'miss' not in st.auto else 'not all matching')
        return n
    for nc in range(0, 4):
        for bits in range(1 << nc):
            pat = [(bits >> k) & 1 for k in range(nc)]

            def aggr(x, evf):
                k = evf(u(x[1]))
                return None if k is None or not 0 <= k < nc else pat[k]
            en = {lay.T.mk('in', 'NC'): nc, 'aggr': aggr}
            for st, ret in outs:
                if ret is None or not st.auto & {'crit', 'nocrit'}:
                    continue
                got = set()
                bs = [x for x, _ in c.rec.inc if x <= st.auto]
                for b in [max(bs, key=len)] if bs else [frozenset()]:
                    for at in c.rec.iterate(lay, en, b, nc + 2):
                        got |= {x for (x,) in c.rec.combos(lay, at, (ret,), en, b, st)}
                n += 1
                for g in got:
                    if g is not None:
                        judge(st, g, 0 if 'nocrit' in st.auto else int(all(pat)), pat)
    return n


def check(m, tier):
    vio = []
    n = sets(m, vio) + element(m, vio) + objects(m, vio) + resync(m, vio) + start(m, vio) + aggregate(m, vio)
    return result(None, {'instances_checked': n}, dedup(vio))
