"""Client handles. (a) Every path of every public setter and getter of the handle class is enumerated, with the calls that
reach the live settings as events; the path conditions are then evaluated over the table rogue x parameter x array length x
size of the given vector x tuning mode: the parameter is accessed, as a write, exactly when the table says so, on the element of
the handle, through the overload of the type of the value, with the value given, and the outcome of the access is what is
returned; otherwise nothing is accessed, false is returned and the error text was set (a valid write is skipped and reported as done
in tuning mode). (b) XML and byte writes are forwarded exactly when the element is rogue, with the element and the text or bytes given.
(c) The rogue test is evaluated over (number of belonging domains, collected elements, first collected element is the
element itself) and holds exactly when there is no domain up the tree and the collection is this element alone; the
belonging domains are the element's own and those of its parent; the collection is decided as for the synchronisation of sub-trees
(an element is collected exactly when it and all its descendants match), with the criterion of having no domain. (d) The array
length of a handle is that of the element, zero for elements that cannot be arrays; a handle is made for the element looked up, and parameter handles
only for parameters."""
from .common import *
from ..loops import each, loops, bypasses, decls, varref, callobj
from ..evalterm import ev, feasible
from .p14 import u, ids, bad, castless
from .p26 import Evts, aggregate, castless_ptr

TECHNIQUE = 'path enumeration with constant propagation over finite decision tables; event-order typestate; loop coverage'
NOTE = ''
EH, CE, MGR = 'ElementHandle', 'CConfigurableElement', 'CParameterMgr'


class Handle(Evts):
    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if fi.get('n') == 'getArrayLength' and not any(self.m.funcs[t].cls == EH for t in tg):
            return [(st, eng.T.mk('in', 'len'))]
        return None


def spec(m):
    acc = {f.id for f in m.funcs.values() if f.q.endswith('::access') and f.rt == 'bool' and len(f.params) == 3
           and f.cls and m.derives(f.cls, 'CBaseParameter')}
    par = {f.id for f in m.funcs.values() if f.q.endswith('::isParameter') and f.cls and m.derives(f.cls, CE)}
    if not acc or not par:
        raise AnalysisError('anchor vanished: accesses of a parameter')
    return {'rogue': (ids(m, CE + '::isRogue'), 'bool'), 'tun': (ids(m, MGR + '::tuningModeOn'), 'bool'),
            'par': (par, 'bool'), 'access': (acc, 'bool'),
            'xmlset': (ids(m, MGR + '::setSettingsAsXML'), 'bool'), 'byteset': (ids(m, MGR + '::setSettingsAsBytes'), 'bool'),
            'xmlget': (ids(m, MGR + '::getSettingsAsXML'), 'bool'), 'byteget': (ids(m, MGR + '::getSettingsAsBytes'), 'void')}


def strip_ref(t):
    t = t.replace('const ', '').strip()
    return t.rstrip('&').strip()


class Run:
    def __init__(self, m, f, sp, inl):
        self.m, self.f = m, f
        self.c = Handle(m, sp, inl)
        self.e = Engine(m, self.c)
        self.fr = None

        def setup(eng, st, fr):
            self.fr = fr
            refparams(eng, st, fr)
            for p in f.params:
                if not p['t'].endswith('&'):
                    st.env[('v', fr.id, p['u'])] = eng.T.mk('init', -1, p['u'])
        self.outs = self.e.run(f, setup)
        e = self.e
        el = [x['u'] for x in m.classes[EH]['fields'] if CE in x['t']]
        if len(el) != 1:
            raise AnalysisError('anchor vanished: element of a handle')
        fl = e.lfld(e.lder(e.T.mk('this', 0)), el[0])
        self.elem = {fl, e.addr(fl)}

    def elem_is(self, t):
        t = castless_ptr(self.e, t) if t is not None else None
        if t is not None and self.e.T.get(t)[0] == 'fld':
            x = self.e.T.get(t)
            t = self.e.lfld(u(x[1]), x[2])
        return t in self.elem or t is not None and self.e.T.get(t)[0] == 'obj' and u(self.e.T.get(t)[1]) in self.elem

    def par(self, k):
        return self.e.T.mk('init', -1, self.f.params[k]['u'])

    def said(self, st):
        """the error text was set"""
        l = refparam(self.e, self.fr, self.f.params[-1])
        v = self.e.rd(st, l)
        x = self.e.T.get(v)
        return v != self.par(len(self.f.params) - 1) and not (x[0] == 'strlit' and not x[1])


def env(R, ln, size):
    e = R.e

    def lib(x, s):
        nm = str(x[1]).split('::')[-1]
        if nm in ('size', 'length', 'max_size') and hasattr(x[2], 'i') and x[2].i == R.par(0):
            return size
        if nm == 'empty' and hasattr(x[2], 'i') and x[2].i == R.par(0):
            return None if size is None else int(size == 0)
        return None

    def glob(x, s):
        t = str(x[1])
        return 1 if 'integral_constant<bool, true>' in t else 0 if 'integral_constant<bool, false>' in t else None
    return {e.T.mk('in', 'len'): ln, 'lib': lib, 'glob': glob}


def outcome(st, lab):
    return [x for x in st.auto if x[0] == lab]


def typed(m, f, sp, inl, vio):
    """setAs*/getAs* by type"""
    put = [p for p in f.params if 'basic_string' in p['t']]
    isset = f.q.split('::')[-1].startswith('set')
    vec = 'std::vector' in f.params[0]['t']
    R = Run(m, f, sp, inl)
    e, n = R.e, 0
    for st, rt in R.outs:
        if rt is None:
            continue
        for lab in ('par', 'rogue'):
            for x in outcome(st, lab):
                if not R.elem_is(x[1]):
                    bad(vio, f, 'the check concerns another element than the one of the handle')
        acc = outcome(st, 'access')
        if any(outcome(st, l) for l in ('xmlset', 'byteset')):
            bad(vio, f, 'the settings are written otherwise than through the parameter')
        for x in acc:
            if not R.elem_is(x[1]):
                bad(vio, f, 'another element than the one of the handle is accessed')
            a = castless(e, x[2][0])
            if isset and a != R.par(0) and a != e.T.mk('obj', r(R.par(0))):
                bad(vio, f, 'the value stored is not the one given')
            if not isset and x[3][0] != refparam(e, R.fr, f.params[0]):
                bad(vio, f, 'the value read is not given to the caller')
            w = x[2][1]
            if not e.isconst(w) or bool(e.cval(w)) != isset:
                bad(vio, f, 'the access is not a %s' % ('write' if isset else 'read'))
    # overload: every access call under the setter is for the type of the value
    want = strip_ref(f.params[0]['t'])
    accid = sp['access'][0]
    for g in m.reachable([f.id]) & inl | {f.id}:
        g = m.funcs[g]
        for i, x in enumerate(g.nodes):
            if x['k'] == 'Call' and m.targets(g, x) & accid:
                n += 1
                got = strip_ref((x['f'].get('pt') or [''])[0])
                if got != want:
                    bad(vio, f, 'a value of type %s is accessed as %s' % (want, got), None)
    for ln in (0, 1, 2, 3):
        for size in (0, 1, 2, 3) if vec else (None,):
            en = env(R, ln, size)
            sts = [(s, t) for s, t in R.outs if t is not None and feasible(e, s, en)]
            for par in (0, 1):
                for rogue in (0, 1):
                    for tun in (0, 1):
                        n += 1
                        asked = {'par': par, 'rogue': rogue, 'tun': tun}
                        same = par and (ln != 0) == vec
                        ok = same and (not isset or rogue and (not vec or size == ln))
                        for st, rt in sts:
                            if any(x[4] != asked[x[0]] for x in st.auto if x[0] in asked):
                                continue
                            acc = outcome(st, 'access')
                            v = ev(e, rt, en)
                            what = '%s %s element, array length %d%s%s' % (
                                'rogue' if rogue else 'non rogue', 'parameter' if par else 'non parameter', ln,
                                '' if size is None else ', %d values given' % size, ', tuning' if tun else '')
                            if isset and tun:
                                if acc:
                                    bad(vio, f, 'a value is written in tuning mode (%s)' % what)
                                elif ok and v == 0:
                                    bad(vio, f, 'a valid write in tuning mode is reported as failed (%s)' % what)
                                continue
                            if not ok:
                                if acc:
                                    bad(vio, f, 'the parameter is accessed although it must not be (%s)' % what)
                                elif v != 0:
                                    bad(vio, f, 'a refused access is reported as done (%s)' % what)
                                elif not R.said(st):
                                    bad(vio, f, 'an access is refused without error text (%s)' % what)
                            else:
                                if len(acc) != 1:
                                    bad(vio, f, 'a valid access is not done (%s)' % what)
                                elif v is None or bool(v) != bool(acc[0][4]):
                                    bad(vio, f, 'the outcome reported is not the one of the access (%s)' % what)
    return n


def whole(m, f, sp, inl, vio, lab):
    """setAsXML, setAsBytes"""
    R = Run(m, f, sp, inl)
    e, n = R.e, 0
    for rogue in (0, 1):
        for st, rt in R.outs:
            if rt is None or any(x[4] != rogue for x in outcome(st, 'rogue')):
                continue
            n += 1
            w = [x for x in st.auto if x[0] in ('xmlset', 'byteset', 'access')]
            v = ev(e, rt, {})
            if any(not R.elem_is(x[1]) for x in outcome(st, 'rogue')):
                bad(vio, f, 'the check concerns another element than the one of the handle')
            if not rogue:
                if w:
                    bad(vio, f, 'the settings of an element that belongs to a domain are written')
                elif v != 0:
                    bad(vio, f, 'a refused write is reported as done')
                elif not R.said(st):
                    bad(vio, f, 'a write is refused without error text')
                continue
            if outcome(st, 'tun') and any(x[4] for x in outcome(st, 'tun')):
                continue
            if [x[0] for x in w] != [lab]:
                bad(vio, f, 'the settings given are not written')
                continue
            x = w[0]
            if not R.elem_is(x[2][0]):
                bad(vio, f, 'the settings of another element are written')
            if R.par(0) not in (x[2][1], castless(e, x[2][1])) and x[3][1] != refparam(e, R.fr, f.params[0]):
                bad(vio, f, 'other settings than those given are written')
            if x[3][2] != refparam(e, R.fr, f.params[-1]):
                bad(vio, f, 'the reason of the failure is lost')
            if v is None or bool(v) != bool(x[4]):
                bad(vio, f, 'the outcome reported is not the one of the write')
    return n


class Rogue(Evts):
    K = KEXIT = 60

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        nm = fi.get('n')
        if tg & self.cnt:
            st.auto = st.auto + (('cnt', obj),)
            return [(st, eng.T.mk('in', 'cnt'))]
        if not fi.get('repo') and obj is not None and 'list' in (fi.get('cls') or ''):
            if nm == 'size':
                return [(st, eng.T.mk('in', 'ls'))]
            if nm == 'empty':
                return [(st, eng.T.mk('eq', r(eng.T.mk('in', 'ls')), r(eng.const(0))))]
            if nm in ('front', 'back'):
                l = eng.T.mk('Lder', r(eng.T.mk('in', nm)))
                st.heap[l] = eng.T.mk('in', nm)
                return [(st, l)]
        return None


def rogue(m, vio):
    n = 0
    q = CE + '::isRogue'
    agg = {f.id for f in m.funcs.values() if f.cls == 'CConfigurableElementAggregator' and f.rt == 'void' and not f.ctor
           and len(f.params) == 1}
    cnt = ids(m, CE + '::getBelongingDomainCount')
    for f in m.fn(q):
        c = Rogue(m, {'agg': (agg, 'void')})
        c.cnt = cnt
        e = Engine(m, c)
        T = e.T
        outs = e.run(f)
        this = T.mk('this', 0)
        for k in (0, 1, 2):
            for ls, mine in ((0, 0), (1, 0), (1, 1), (2, 0), (3, 0)):
                def eq(x, s):
                    a, b = castless_ptr(e, u(x[1])), castless_ptr(e, u(x[2]))
                    if {a, b} in ({T.mk('in', 'front'), this}, {T.mk('in', 'back'), this}):
                        return mine if ls else None
                    va, vb = s(u(x[1])), s(u(x[2]))
                    return None if va is None or vb is None else int(va == vb)
                en = {T.mk('in', 'cnt'): k, T.mk('in', 'ls'): ls, 'eq': eq}
                for st, rt in outs:
                    if rt is None or not feasible(e, st, en):
                        continue
                    n += 1
                    v = ev(e, rt, en)
                    want = k == 0 and ls == 1 and mine
                    if v is None:
                        raise AnalysisError('the rogue test is not understood: ' + e.T.show(rt)[:80])
                    if bool(v) != bool(want):
                        bad(vio, f, 'an element with %d domains above, %d collected elements%s is %srogue' % (
                            k, ls, ', itself' if mine else '', '' if v else 'not '))
                    if want and not (outcome(st, 'agg') and all(castless_ptr(e, x[2][0]) == this for x in outcome(st, 'agg'))):
                        bad(vio, f, 'the descendants of the element are not looked at')
                    if want and not outcome(st, 'cnt') or any(x[1] not in (this, e.lder(this)) for x in outcome(st, 'cnt')):
                        bad(vio, f, 'the domains of the element and its ancestors are not counted')
        # the criterion of the collection
        crit = [x for x in f.nodes if x['k'] == 'Construct' and (x.get('f') or {}).get('cls') == 'CConfigurableElementAggregator']
        for x in crit:
            n += 1
            if not any(g.q == CE + '::hasNoDomainAssociated' for g in refs(m, f, x)):
                bad(vio, f, 'the elements collected are not those without domain')
    # belonging domains
    n += belonging(m, vio)
    n += aggregate(m, vio)
    return n


def refs(m, f, n):
    out, todo = [], list(n.get('c', []))
    while todo:
        x = f.nodes[todo.pop()]
        if x['k'] in ('Ref', 'Member') and (x.get('d') or {}).get('k') in ('func', 'method', 'fn'):
            i = x['d'].get('f')
            i = i.get('id') if isinstance(i, dict) else i
            if i in m.funcs:
                out.append(m.funcs[i])
        todo += x.get('c', [])
    return out


class Up(Evts):
    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if tg & self.kind:
            q = st.copy()
            self.add(q, ('kind', 0))
            self.add(st, ('kind', 1))
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if not fi.get('repo') and obj is not None and fi.get('n') in ('insert', 'push_back', 'emplace_back', 'splice', 'merge', 'assign') \
                and (obj == self.out or eng.islv(obj) and obj == self.out):
            txt = ' '.join(eng.T.show(eng.rd(st, a) if eng.islv(a) else a, 0) for a in args)
            own = self.own in txt
            self.add(st, ('ins', own, fi['n']))
        return None


def copies(f, own):
    """a loop over the whole own list adds each item to the list given, whatever the path"""
    d = decls(f)
    for L in loops(f):
        if L.kind != 'full' or L.exits or L.source != ('field', own) or bypasses(f, L):
            continue
        for i in L.nodes():
            x = f.nodes[i]
            if x['k'] != 'Call' or (x.get('f') or {}).get('n') not in ('push_back', 'emplace_back') or len(x.get('c') or ()) < 1:
                continue
            o = callobj(f, x)
            if o is None or varref(f, o) != f.params[0]['u'] or not L.every_iteration(i):
                continue
            item = varref(f, x['c'][-1])
            if item == L.var or item in d and any(
                    y['k'] == 'Ref' and y['d'].get('u') == L.var for y in sub(f, d[item].get('init'))) or \
                    any(y['k'] == 'Ref' and y['d'].get('u') == L.var for y in sub(f, x['c'][-1])):
                return True
    return False


def sub(f, i):
    todo = [i] if i is not None else []
    while todo:
        n = f.nodes[todo.pop()]
        yield n
        todo += n.get('c', [])
        for k in ('obj', 'callee'):
            if k in n:
                todo.append(n[k])


def belonging(m, vio):
    n = 0
    own = fields(m, CE, lambda t: 'list<' in t and 'CConfigurableDomain' in t)
    for f in m.fn(CE + '::getBelongingDomains'):
        copied = copies(f, own)
        up = {f.id}
        c = Up(m, {'up': (up, 'void')})
        c.kind = {g.id for g in m.funcs.values() if g.q == CE + '::isOfConfigurableElementType'}
        c.own = own
        e = Engine(m, c)
        fr0 = []

        def setup(eng, st, fr):
            refparams(eng, st, fr)
            c.out = refparam(eng, fr, f.params[0])
            fr0.append(fr)
        e2 = e.run(f, setup)
        for st, rt in e2:
            n += 1
            ins = [x for x in st.auto if x[0] == 'ins']
            k = [x[1] for x in st.auto if x[0] == 'kind']
            if not copied and not any(x[1] for x in ins):
                bad(vio, f, 'the domains of the element itself are not counted')
            if 1 in k and not outcome(st, 'up'):
                bad(vio, f, 'the domains of the parent are not counted')
            for x in outcome(st, 'up'):
                if x[3][0] != c.out:
                    bad(vio, f, 'the domains of the parent are put elsewhere')
                if 'getParent' not in e.T.show(x[1]) and '_pParent' not in e.T.show(x[1]):
                    bad(vio, f, 'the domains of another element than the parent are counted')
    # up to the system class: everything that has a parent
    par = fields(m, 'CElement', lambda t: bare(t).startswith('CElement'))
    for f in m.fn(CE + '::isOfConfigurableElementType'):
        class Par(Checker):
            SMALL = 60
        e = Engine(m, Par())
        P = e.T.mk('in', 'elem')
        G = e.T.mk('in', 'parent')

        def setup2(eng, st, fr):
            st.env[('v', fr.id, f.params[0]['u'])] = P
            st.facts[P] = True
            st.heap[eng.lfld(eng.lder(P), par)] = G
        for st, rt in e.run(f, setup2):
            for k in (0, 1):
                en = {P: 1, G: k}
                if rt is None or not feasible(e, st, en):
                    continue
                n += 1
                v = ev(e, rt, en)
                if v is None or bool(v) != bool(k):
                    bad(vio, f, 'an ancestor %s is %staken for a configurable element' % (
                        'below the root' if k else 'without parent', '' if v else 'not '))
    for f in m.fn(CE + '::getBelongingDomainCount'):
        ts = ids(m, CE + '::getBelongingDomains')
        c = Evts(m, {'get': (ts, 'void')})
        e = Engine(m, c)
        for st, rt in e.run(f):
            n += 1
            x = e.T.get(rt)
            if len(outcome(st, 'get')) != 1 or not (x[0] == 'lib' and str(x[1]).endswith('::size')):
                bad(vio, f, 'the count is not the number of belonging domains')
    for f in m.fn(CE + '::hasNoDomainAssociated'):
        e = Engine(m, Checker())
        for st, rt in e.run(f):
            n += 1
            for k in (0, 1, 2):
                def lib(x, s):
                    nm = str(x[1]).split('::')[-1]
                    if own not in e.T.show(u(x[2])):
                        return None
                    return k if nm == 'size' else int(k == 0) if nm == 'empty' else None

                def lfl(x, s):
                    return None
                if not feasible(e, st, {'lib': lib}):
                    continue
                v = ev(e, rt, {'lib': lib})
                if v is None:
                    raise AnalysisError('the test for own domains is not understood')
                if bool(v) != (k == 0):
                    bad(vio, f, 'an element with %d domains %s' % (k, 'has none' if v else 'has some'))
    return n


def fields(m, cls, pred):
    x = [x['u'] for x in m.classes[cls]['fields'] if pred(x['t'])]
    if len(x) != 1:
        raise AnalysisError('anchor vanished: field of ' + cls)
    return x[0]


class Make(Evts):
    K = KEXIT = 60

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if n['k'] == 'New' or n['k'] == 'Construct' and (fi.get('cls') or n.get('t')) in (EH, 'CParameterHandle'):
            self.add(st, ('made', args[0] if args else None))
        return None


def creation(m, vio):
    n = 0
    look = ids(m, MGR + '::getConfigurableElement')
    sysc = ids(m, MGR + '::getSystemClass')
    par = spec(m)['par'][0]
    for q, isp in (('createElementHandle', 0), ('createParameterHandle', 1)):
        for f in m.fn(MGR + '::' + q):
            c = Make(m, {'look': (look, 'ptr'), 'sys': (sysc, 'obj'), 'par': (par, 'bool')})
            e = Engine(m, c)
            fr0 = []

            def setup(eng, st, fr):
                refparams(eng, st, fr)
                fr0.append(fr)
            for st, rt in e.run(f, setup):
                if rt is None:
                    continue
                n += 1
                made = outcome(st, 'made')
                null = e.truth(st, rt) is False
                found = [x for x in outcome(st, 'look') if x[4] != 0] + outcome(st, 'sys')
                pars = outcome(st, 'par')
                ok = found and (not isp or pars and pars[-1][4])
                if outcome(st, 'sys') and not any(pol and isinstance(k, int) and e.T.get(k)[0] == 'eq' and 'strlit(/)' in e.T.show(k)
                                                  for k, pol in st.facts.items()):
                    bad(vio, f, 'a handle on the root is made for another path than /')
                if ok and null:
                    bad(vio, f, 'no handle is made for an element found')
                if not ok and made:
                    bad(vio, f, 'a handle is made without %s' % ('an element' if not found else 'the element being a parameter'))
                if null:
                    v = e.rd(st, refparam(e, fr0[0], f.params[1]))
                    if e.T.get(v)[0] == 'init':
                        bad(vio, f, 'no handle is made and no reason is given')
                for x in outcome(st, 'look'):
                    if x[3][0] != refparam(e, fr0[0], f.params[0]) and x[2][0] != e.T.mk('init', -1, f.params[0]['u']):
                        bad(vio, f, 'the element looked up is not the one named')
                if made and found:
                    a = made[-1][1]
                    a = e.addr(a) if a is not None and e.islv(a) else a
                    if a is not None and castless_ptr(e, a) not in [castless_ptr(e, x[4]) for x in found]:
                        bad(vio, f, 'the handle stands for another element than the one found')
    return n


def check(m, tier):
    vio = []
    sp = spec(m)
    inl = {f.id for f in m.funcs.values() if f.cls == EH or f.q.startswith('getUserInputSize')}
    n = 0
    sets = sorted((f for f in m.funcs.values() if f.cls == EH and f.rt == 'bool' and '<' not in f.q.split('::')[-1]
                   and f.q.split('::')[-1].startswith(('setAs', 'getAs'))), key=lambda f: f.q)
    if len(sets) < 24:
        raise AnalysisError('anchor vanished: accesses of a handle')
    for f in sets:
        nm = f.q.split('::')[-1]
        if nm in ('setAsXML', 'setAsBytes'):
            n += whole(m, f, sp, inl, vio, 'xmlset' if nm == 'setAsXML' else 'byteset')
        elif nm not in ('getAsXML', 'getAsBytes'):
            n += typed(m, f, sp, inl, vio)
    n += rogue(m, vio) + creation(m, vio) + lengths(m, vio)
    return result(None, {'instances_checked': n}, dedup(vio))


class Len(Evts):
    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if (n.get('f') or {}).get('n') == 'getArrayLength' and not any(self.m.funcs[t].cls == EH for t in tg):
            self.add(st, ('len', eng.addr(obj) if obj is not None and eng.islv(obj) else obj))
            return [(st, eng.T.mk('in', 'len'))]
        return None


def lengths(m, vio):
    n = 0
    for q in ('getArrayLength', 'isArray'):
        for f in m.fn(EH + '::' + q):
            c = Len(m, {}, {g.id for g in m.fn(EH + '::getArrayLength')})
            e = Engine(m, c)
            for st, rt in e.run(f):
                if rt is None:
                    continue
                for k in (0, 1, 2, 7):
                    en = {e.T.mk('in', 'len'): k}
                    if not feasible(e, st, en):
                        continue
                    n += 1
                    v = ev(e, rt, en)
                    want = k if outcome(st, 'len') else 0
                    if q == 'isArray':
                        want = int(want != 0)
                    if v is None or int(v) != want:
                        bad(vio, f, 'an element of array length %d %s' % (k, 'is reported with length %s' % v if q != 'isArray' else
                                                                           'is reported %san array' % ('' if v else 'not ')))
    return n
