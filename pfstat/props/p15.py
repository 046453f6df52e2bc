"""Selection criteria hold what the client set. (a) On every path of the state setter, evaluated over a table of old and
new states, the stored state is the new one and the modification count grows by one exactly when the state changed; the
getter returns the stored state, and the modified flag is the count being non zero. (b) Every path of an application of
configurations resets the count, after the domains were applied, for every criterion. (c) A value pair is accepted only
on paths where the literal was found absent, the number was compared with those of all pairs, and, for an inclusive type
(evaluated over a table of numbers), has exactly one bit set; it is stored as given. (d) Literal to number and number to literal
lookups return the two halves of the same stored pair, and fail when there is none."""
from .common import *
from ..loops import each, loops, strip
from ..evalterm import ev, feasible
from .p14 import u, ids, bad, castless

TECHNIQUE = 'path enumeration with constant propagation over finite decision tables; fact analysis of the lookups; loop coverage; call-order typestate'
NOTE = ''
CRIT, CTYPE, MGR = 'CSelectionCriterion', 'CSelectionCriterionType', 'CParameterMgr'
NUMS = (0, 1, 2, 3, 4, 5, 6, 8, 12, 0x30, 0x40000000, 0x40000001)


class Small(Checker):
    SMALL = 60
    K = 40
    KEXIT = 40

    def __init__(self, m, cls):
        self.m, self.cls = m, cls

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == self.cls and len(f.nodes) < 300}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        # text only
        fi = n.get('f') or {}
        if fi.get('n') in ('getFormattedDescription', 'getFormattedState', 'getName') or \
                'log::' in (fi.get('cls') or '') and n['k'] == 'Call':
            if (fi.get('rt') or '').endswith('&') and obj is not None:
                return [(st, obj)]
            return [(st, eng.T.mk('txt', fr.id, i))]
        return None


def counter_field(m):
    """data member the modified flag tests"""
    f = m.fn1(CRIT + '::hasBeenModified')
    us = {n['d']['u'] for n in f.nodes if n['k'] == 'Member' and n['d']['k'] == 'field'}
    if len(us) != 1:
        raise AnalysisError('anchor vanished: modification count of a criterion')
    return us.pop()


class Order(Checker):
    SMALL = 40

    def __init__(self, m):
        self.m = m
        self.apply = ids(m, 'CConfigurableDomains::apply')
        self.reset = ids(m, CRIT + '::resetModifiedStatus')
        self.mod = ids(m, CRIT + '::hasBeenModified')
        self.all = {f.id for f in m.funcs.values() if self.visits(f)[0] is not False} if self.reset else set()
        self.n = 0
        if not (self.apply and self.reset):
            raise AnalysisError('anchor vanished: reset of the criteria')

    def visits(self, f):
        """every criterion is reset (a criterion that was not modified may be skipped)"""
        skip = any(x['k'] == 'Call' and self.m.targets(f, x) & self.mod for x in f.nodes)
        return each(self.m, f, self.reset, conditional=skip)

    def relevant(self, eng):
        return {x for x in self.m.reaching(self.apply | self.all) if self.m.funcs[x].cls in (MGR, 'CSelectionCriteria')}

    def init(self, eng, f):
        return ''

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.apply:
            self.n += 1
            st.auto = 'applied'
            return [(st, None)]
        if tg & self.all:
            self.n += 1
            st.auto = 'reset' if st.auto == 'applied' else st.auto
            return [(st, None)]
        return None

    def on_exit(self, eng, st, fr, ret):
        if st.auto == 'applied':
            eng.report(fr, -1, 'the modification counts of the criteria are not reset after the configurations were applied')


def check(m, tier):
    vio, n = [], 0
    state = getter_field(m, CRIT + '::getCriterionState')
    cnt = counter_field(m)
    # (a) setter
    for f in m.fn(CRIT + '::setCriterionState'):
        c = Small(m, CRIT)
        e = Engine(m, c)
        O, N, C = e.T.mk('in', 'old'), e.T.mk('in', 'new'), e.T.mk('in', 'count')
        this = [None]

        def setup(eng, st, fr):
            b = eng.lder(fr.this)
            this[0] = b
            st.heap[eng.lfld(b, state)] = O
            st.heap[eng.lfld(b, cnt)] = C
            st.env[('v', fr.id, f.params[0]['u'])] = N
        outs = e.run(f, setup)
        for o in (0, 1, 2, 3, -1):
            for w in (0, 1, 2, 3, -1):
                for k in (0, 1, 2):
                    env = {O: o, N: w, C: k}
                    for st, rt in outs:
                        if not feasible(e, st, env):
                            continue
                        n += 1
                        s2 = ev(e, e.rd(st, e.lfld(this[0], state)), env)
                        k2 = ev(e, e.rd(st, e.lfld(this[0], cnt)), env)
                        if s2 is not None and s2 != w:
                            bad(vio, f, 'after setting a state the criterion holds another one')
                        if k2 is not None and k2 != k + (o != w):
                            bad(vio, f, 'the modification count does not grow by one exactly when the state changes')
    for f in m.fn(CRIT + '::hasBeenModified'):
        e = Engine(m, Small(m, CRIT))
        C = e.T.mk('in', 'count')
        outs = e.run(f, lambda g, st, fr: st.heap.__setitem__(g.lfld(g.lder(fr.this), cnt), C))
        for k in (0, 1, 2, 5):
            n += 1
            got = {ev(e, rt, {C: k}) for st, rt in outs if rt is not None and feasible(e, st, {C: k})}
            if any(x is not None and bool(x) != bool(k) for x in got):
                bad(vio, f, 'the modified flag is not the modification count being non zero')
    for f in m.fn(CRIT + '::resetModifiedStatus'):
        e = Engine(m, Small(m, CRIT))
        for st, rt in e.run(f):
            n += 1
            v = e.rd(st, e.lfld(e.lder(e.T.mk('this', 0)), cnt))
            if not (e.isconst(v) and e.cval(v) == 0):
                bad(vio, f, 'the modification count is not reset')
    # nobody else writes them
    for f in m.funcs.values():
        if f.q in (CRIT + '::setCriterionState', CRIT + '::resetModifiedStatus') or f.ctor:
            continue
        if (state in m.direct_mod(f) or cnt in m.direct_mod(f)) and (
                f.cls != CRIT or not any(g.q in (CRIT + '::setCriterionState', CRIT + '::resetModifiedStatus')
                                         for g in m.funcs.values() if f.id in m.reachable([g.id]))):
            bad(vio, f, 'the state of a criterion is changed outside of its setter')
    # (b) reset
    c = Order(m)
    if not c.all:
        bad(vio, m.fn1(CRIT + '::resetModifiedStatus'), 'the reset does not reach every criterion')
    for f in m.funcs.values():
        if f.cls == 'CSelectionCriteriaDefinition' and f.n == 'resetModifiedStatus':
            ok, why = c.visits(f)
            n += 1
            if ok is False:
                bad(vio, f, 'the reset does not reach every criterion: ' + why)
    for f in sorted(m.reaching(c.apply), key=str):
        g = m.funcs[f]
        if g.cls == MGR and not g.lam and any(m.targets(g, x) & c.apply for x in g.nodes if x['k'] == 'Call'):
            e = Engine(m, c)
            # the outermost method of the manager that applies
            tops = [h for h in m.funcs.values() if h.cls == MGR and h.n == 'doApplyConfigurations'] or [g]
            for h in tops:
                e.run(h)
            vio += e.violations
    n += c.n
    vio += pairs(m)
    n += 10
    return result(None, {'instances_checked': n, 'decision_table': 75 + len(NUMS)}, dedup(vio))


def pairs(m):
    out = []
    inc = getter_field(m, CTYPE + '::isTypeInclusive')
    maps = [x['u'] for x in m.classes[CTYPE]['fields'] if 'map<' in x['t'] or 'Map' in x['t']]
    if len(maps) != 1:
        raise AnalysisError('anchor vanished: value pairs of a criterion type')
    mp = maps[0]

    def libname(e, t):
        x = e.T.get(t)
        return str(x[1]).split('::')[-1] if x[0] == 'lib' else ''

    def mapq(e, t, lit, d=0):
        """t is a lookup of the literal in the map: 'find', 'count' or None"""
        t = castless(e, t)
        x = e.T.get(t)
        if x[0] == 'lib' and d < 4:
            if libname(e, t) in ('find', 'count', 'contains', 'lower_bound') and len(x) > 3 and isinstance(x[3], tuple) and \
                    any(castless(e, u(y)) == lit for y in x[3]):
                return libname(e, t)
            for y in x[2:]:
                if hasattr(y, 'i'):
                    z = mapq(e, y.i, lit, d + 1)
                    if z:
                        return z
        return None

    def isend(e, t):
        s = e.T.show(castless(e, t))
        return '::end' in s or '::cend' in s

    def second(e, t):
        """base of t when t is <base>.second"""
        x = e.T.get(castless(e, t))
        if x[0] == 'fld' and str(x[2]).endswith('::second'):
            return x[1]
        return None
    for f in m.fn(CTYPE + '::addValuePair'):
        pi = [p['u'] for p in f.params if p['t'] == 'int']
        ps = [p['u'] for p in f.params if p['t'].startswith('const') and 'string' in p['t']]
        if not pi or not ps:
            raise AnalysisError('anchor vanished: arguments of addValuePair')
        for k in (0, 1):
            c = Small(m, CTYPE)
            ins = []

            def on_call(eng, st, fr, i, nn, tg, obj, args):
                fi = nn.get('f') or {}
                if fi.get('n') in ('insert', 'emplace') and (fi.get('cls') or '').startswith('std::map') or \
                        fi.get('n') == 'operator[]' and (fi.get('cls') or '').startswith('std::map'):
                    st.auto = (st.auto or frozenset()) | {fi['n']}
                return None
            c.on_call = on_call
            e = Engine(m, c)
            V, S = e.T.mk('in', 'value'), e.T.mk('in', 'literal')

            def setup(eng, st, fr):
                st.heap[eng.lfld(eng.lder(fr.this), inc)] = eng.const(k)
                st.env[('v', fr.id, pi[0])] = V
                st.env[('v', fr.id, ps[0])] = S
            outs = e.run(f, setup)
            acc = [(st, rt) for st, rt in outs if rt is None or e.truth(st, rt) is not False]
            if not acc:
                bad(out, f, 'no value pair is ever accepted')
            dup = False
            for st, rt in outs:
                for t, pol in st.facts.items():
                    if isinstance(t, int) and pol and e.T.get(t)[0] == 'eq' and rt is not None and \
                            e.truth(st, rt) is False:
                        a, b = castless(e, u(e.T.get(t)[1])), castless(e, u(e.T.get(t)[2]))
                        if V in (a, b) and (second(e, a) or second(e, b)):
                            dup = True
            if not dup and not any(x['k'] == 'Lambda' for x in f.nodes):
                bad(out, f, 'a number already used by another literal is accepted')
            for st, rt in acc:
                look = False
                for t, pol in st.facts.items():
                    if not isinstance(t, int):
                        continue
                    x = e.T.get(t)
                    if x[0] == 'eq':
                        a, b = u(x[1]), u(x[2])
                        if pol and V in (castless(e, a), castless(e, b)) and (second(e, a) or second(e, b)):
                            bad(out, f, 'a number already used by another literal is accepted')
                        for p, q in ((a, b), (b, a)):
                            z = mapq(e, p, S)
                            if z == 'find' and isend(e, q) and pol:
                                look = True
                            if z == 'count' and pol and e.isconst(q) and e.cval(q) == 0:
                                look = True
                    elif mapq(e, t, S) in ('count', 'contains') and not pol:
                        look = True
                if not look and not (st.auto or frozenset()) & {'insert', 'emplace'}:
                    bad(out, f, 'a literal already present is accepted')
                if 'operator[]' in (st.auto or ()):
                    lvs = [v for h, v in st.heap.items() if e.T.get(h)[0] == 'Lidx' and castless(e, u(e.T.get(h)[2])) == S]
                    if not lvs or castless(e, lvs[0]) != V:
                        bad(out, f, 'the pair stored is not the one given')
                elif not (st.auto or frozenset()) & {'insert', 'emplace'}:
                    bad(out, f, 'an accepted value pair is not stored')
            if k:
                for v in NUMS:
                    one = v > 0 and v & (v - 1) == 0
                    if not one and any(feasible(e, st, {V: v}) for st, rt in acc):
                        bad(out, f, 'number 0x%x is accepted by an inclusive type' % v)
                    if one and not any(feasible(e, st, {V: v}) for st, rt in acc):
                        bad(out, f, 'number 0x%x is refused by an inclusive type' % v)
            else:
                for v in NUMS:
                    if not any(feasible(e, st, {V: v}) for st, rt in acc):
                        bad(out, f, 'number 0x%x is refused by an exclusive type' % v)
        for L in loops(f):
            if L.kind == 'partial':
                bad(out, f, 'not every pair is compared: the loop ' + (L.why or ''))
    # (d) lookups
    for q, key, val in (('getLiteralValue', 'second', 'first'), ('getAtomicNumericalValue', 'first', 'second')):
        for f in m.fn(CTYPE + '::' + q):
            inp = [p['u'] for p in f.params if not p['t'].endswith('&') or p['t'].startswith('const')]
            dst = [p for p in f.params if p['t'].endswith('&') and not p['t'].startswith('const')]
            if len(inp) != 1 or len(dst) != 1:
                raise AnalysisError('anchor vanished: arguments of ' + q)
            c = Small(m, CTYPE)
            e = Engine(m, c)
            I = e.T.mk('in', 'key')

            def setup(eng, st, fr):
                refparams(eng, st, fr)
                st.env[('v', fr.id, inp[0])] = I
            D = e.T.mk('Lvar', -1, dst[0]['u'])
            acc = 0
            for st, rt in e.run(f, setup):
                if rt is not None and e.truth(st, rt) is False:
                    continue
                acc += 1
                x = e.T.get(castless(e, e.rd(st, D)))
                if x[0] != 'fld':
                    if x[0] in ('init', 'int'):
                        bad(out, f, 'a lookup succeeds without a result')
                    continue
                if not str(x[2]).endswith('::' + val):
                    bad(out, f, 'the lookup returns the wrong half of the pair')
                found = None
                for t, pol in st.facts.items():
                    if not isinstance(t, int) or e.T.get(t)[0] != 'eq':
                        continue
                    for a, b in ((e.T.get(t)[1], e.T.get(t)[2]), (e.T.get(t)[2], e.T.get(t)[1])):
                        a, b = u(a), u(b)
                        y = e.T.get(castless(e, a))
                        if y[0] == 'fld' and str(y[2]).endswith('::' + key) and castless(e, b) == I:
                            ok = pol and y[1] == x[1]
                            found = ok or found
                        if q == 'getAtomicNumericalValue' and isend(e, b):
                            found = (not pol) or found
                if found is None or found is False:
                    bad(out, f, 'the lookup succeeds for a pair that was not matched with the key')
            if not acc:
                bad(out, f, 'the lookup never succeeds')
            for L in loops(f):
                if L.kind == 'partial':
                    bad(out, f, 'not every pair is looked up: the loop ' + (L.why or ''))
    # the states written in a text
    for f in m.fn(CTYPE + '::getFormattedState'):
        for L in loops(f):
            for b in L.body:
                c = f.blocks[b].get('cond')
                if c is None or not any(t not in L.body for t in f.blocks[b]['s']):
                    continue
                x = f.nodes[strip(f, c)]
                if x['k'] == 'Bin' and x.get('op') in ('<', '!=', '<='):
                    y = f.nodes[strip(f, x['c'][1])]
                    if y.get('cv') is not None:
                        top = int(y['cv']) + (x['op'] == '<=')
                        if top not in (31, 32):
                            bad(out, f, 'not every state of an inclusive type is written')
    return out
