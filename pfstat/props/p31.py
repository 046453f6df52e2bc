"""Every element owns its bytes. (a) Layout: setOffset stores the given offset on every path and gives child k the offset
plus the footprints of children 0..k-1; getFootPrint is the sum over all children (loop recurrences evaluated for 0 to 4
children with distinct footprints). (b) Footprint of each leaf class evaluated against its declared size: scalar size, size *
length for arrays, maximum length + 1 for strings, 0 for bit parameters, the block size for bit blocks; the sizes stored by
the structure readers are the declared bits / 8 and the declared lengths. (c) Every blackboard access of a parameter, with
all callers up to the public entry in context, is made with the item size and at base + (start + k) * size in iteration
k, and only for items inside the array (a list or an index that does not fit reaches no access); a string
is written only when it fits. (d) Raw bytes are written only when their number is the footprint. (e) Typestate of the start: offsets from 0 are
given to the system class, then the live settings sized with the footprint of the same element, after the structure
is complete."""
import re
from .common import *
from ..recur import Recur
from ..evalterm import ev, feasible
from ..loops import each
from .p14 import u, ids, bad, castless

TECHNIQUE = 'path enumeration with evaluated loop recurrences (constant propagation); typestate of the start sequence'
NOTE = 'elements are assumed not to be added to the structure after the start (no such call exists outside the loader, which is checked)'
CE, BB, PC = 'CConfigurableElement', 'CParameterBlackboard', 'CParameterAccessContext'
LEAVES = ('CParameter', 'CArrayParameter', 'CStringParameter', 'CBitParameter', 'CBitParameterBlock')


class Lay(Checker):
    SMALL = 60
    K = 60
    KEXIT = 60

    def __init__(self, m, inline=()):
        self.m = m
        self.inline = set(inline)
        self.rec = Recur()
        self.events = []
        self.leaf = {}
        for q, nm in (('CParameterType::getSize', 'S'), ('CBitParameterBlockType::getSize', 'S'),
                      ('CTypeElement::getArrayLength', 'N'), ('CStringParameterType::getMaxLength', 'L'),
                      ('CElement::getNbChildren', 'NC'), (PC + '::getBaseOffset', 'B'), (CE + '::getOffset', 'O')):
            for f in m.fn(q):
                self.leaf[f.id] = nm
        self.child = ids(m, 'CElement::getChild')
        self.fp = {f.id for f in m.funcs.values() if f.n == 'getFootPrint'}
        self.so = ids(m, CE + '::setOffset')
        self.bbops = {f.id: f.n for f in m.funcs.values() if f.cls == BB}
        self.skip = {f.id for f in m.funcs.values() if f.n in ('sync', 'appendParameterPathToError', 'getPath', 'setError',
                                                               'appendToError', 'toBlackboard', 'fromBlackboard',
                                                               'getCurrentPath')}
        self.opaque_fp = True

    def relevant(self, eng):
        return self.inline

    def init(self, eng, f):
        return frozenset()

    def L(self, eng, nm):
        return eng.T.mk('in', nm)

    def on_store(self, eng, st, fr, i, lv, val):
        x = eng.T.get(lv)
        if self.off and x[0] == 'Lfld' and x[2] == self.off and x[1] == r(eng.lder(eng.T.mk('this', 0))):
            self.events.append((st.copy(), 'stored', (val,), fr, i))
            st.auto = st.auto | {'stored'}

    def on_back(self, eng, st, fr, hd):
        self.rec.end(eng, st, fr, hd)

    def on_phi(self, eng, st, new, olds):
        self.rec.note(eng, st, new, olds)

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}

        def val(k):
            return eng.rd(st, args[k]) if eng.islv(args[k]) else args[k]

        def tgt(o):
            o = eng.rd(st, o) if eng.islv(o) else o
            while T.get(o)[0] in ('cast', 'drf', 'addr'):
                y = T.get(o)
                o = u(y[2] if y[0] == 'cast' else y[1])
            return o
        x = tg & set(self.leaf)
        if x:
            return [(st, self.L(eng, self.leaf[min(x)]))]
        if tg & self.child and args:
            return [(st, T.mk('child', r(val(0))))]
        if tg & self.so and fr.depth >= 0 and obj is not None:
            self.events.append((st.copy(), 'setOffset', (tgt(obj), val(0)), fr, i))
            return [(st, None)]
        if tg & self.fp and self.opaque_fp:
            o = tgt(obj) if obj is not None else None
            y = T.get(o) if o is not None else ('?',)
            return [(st, T.mk('fp', r(o)) if y[0] == 'child' else self.L(eng, 'FP'))]
        for t in tg & set(self.bbops):
            nm = self.bbops[t]
            if nm in ('readInteger', 'writeInteger', 'readString', 'writeString', 'readBytes', 'writeBytes', 'setSize'):
                self.events.append((st.copy(), nm, tuple(val(k) for k in range(len(args))), fr, i))
                if nm == 'readInteger' and args and not eng.islv(args[0]):
                    p = T.get(args[0])
                    if p[0] == 'addr':
                        eng.wr(st, p[1].i, T.mk('blk', fr.id, i), ('w', fr.id, i))
                return [(st, None)]
        if fi.get('n') == 'toBlackboard' and args:
            y = T.get(val(0))
            while y[0] in ('cast', 'fcast', 'drf', 'addr') or y[0] == 'lib' and y[1] and len(y) > 2 and hasattr(y[2], 'i') and \
                    'operator[]' not in y[1]:
                y = T.get(u(y[1] if y[0] in ('drf', 'addr') else y[2]))
            if y[0] == 'lib' and 'operator[]' in str(y[1]):
                y = ('idx', y[2], y[3][0]) if len(y) > 3 and isinstance(y[3], tuple) and y[3] else ('?',)
            eng.wr(st, T.mk('Lvar', -9, 'item'), y[2].i if y[0] in ('Lidx', 'idx') and hasattr(y[2], 'i') else eng.NULL, ('w', 0))
        if tg & self.skip:
            if fi.get('rt', '') == 'bool' or any(self.m.funcs[t].rt == 'bool' for t in tg if t in self.m.funcs):
                return [(st, eng.TRUE), (st.copy(), eng.FALSE)]
            return 'summ'
        nm = fi.get('n')
        if nm == 'operator>>' and args and eng.islv(args[-1]) and 'IDX' in self.want:
            eng.wr(st, args[-1], self.L(eng, 'IDX'), ('w', fr.id, i))
            st.auto = st.auto | {'idx'}
            return [(st, None)]
        if nm in ('stoul', 'strtoul', 'stoull', 'strtoull') and 'IDX' in self.want:
            st.auto = st.auto | {'idx'}
            return [(st, self.L(eng, 'IDX'))]
        if nm == 'convertTo' and len(args) == 2 and eng.islv(args[1]):
            q = st.copy()
            if 'IDX' in self.want:
                eng.wr(st, args[1], self.L(eng, 'IDX'), ('w', fr.id, i))
                st.auto = st.auto | {'idx'}
            else:
                eng.wr(st, args[1], T.mk('unk', fr.id, i, 'cv'), ('w', fr.id, i))
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if nm == 'size' and not fi.get('repo') and obj is not None and T.get(obj)[0] != 'Lfld':
            return [(st, self.L(eng, 'NB'))]
        if nm in ('length',) and not fi.get('repo'):
            return [(st, self.L(eng, 'LEN'))]
        return None
    want = ()
    off = None


W = (3, 50, 700, 11000, 130000)


def fpenv(eng, nc):
    def fp(x, s):
        c = eng.T.get(x[1].i)
        k = s(c[1].i) if c[0] == 'child' else None
        return W[k] if k is not None and 0 <= k < nc else None
    return fp


def check(m, tier):
    vio, n = [], 0
    off = getter_field(m, CE + '::getOffset')

    def env(eng, **kw):
        return {eng.T.mk('in', k): v for k, v in kw.items()}
    # (a) layout
    for q in (CE + '::setOffset', CE + '::getFootPrint'):
        f = m.fn1(q)
        for nc in range(5):
            c = Lay(m)
            c.off = off
            e = Engine(m, c)
            OFF = e.T.mk('in', 'OFF')

            def setup(eng, st, fr):
                for p in f.params:
                    st.env[('v', fr.id, p['u'])] = OFF
            outs = e.run(f, setup)
            en = env(e, OFF=9000000, NC=nc)
            en['fp'] = fpenv(e, nc)
            autos = {a for a, _ in c.rec.inc} | {frozenset()}
            for a in autos:
                its = c.rec.iterate(e, en, a, nc + 2)
                for st, kind, v, fr, i in c.events:
                    if kind == 'stored':
                        for at in its:
                            for (vv,) in c.rec.combos(e, at, v, en, a, st):
                                n += 1
                                if vv is not None and vv != 9000000:
                                    bad(vio, f, 'the offset stored is not the offset given', i)
                        continue
                    if kind != 'setOffset':
                        continue
                    o, v = v
                    y = e.T.get(castless(e, o)) if o is not None else ('?',)
                    if y[0] != 'child':
                        continue
                    for at in its:
                        for kk, vv in c.rec.combos(e, at, (y[1].i, v), en, a, st):
                            n += 1
                            if kk is None or vv is None or not 0 <= kk < nc:
                                continue
                            if vv != 9000000 + sum(W[:kk]):
                                bad(vio, f, 'child %d is not placed right after the children before it' % kk, i)
                for st, rt in outs:
                    if q.endswith('setOffset'):
                        n += 1
                        if 'stored' not in st.auto:
                            bad(vio, f, 'the offset is not stored')
                    elif rt is not None:
                        for at in its:
                            for (vv,) in c.rec.combos(e, at, (rt,), en, a, st):
                                n += 1
                                if vv is not None and vv != sum(W[:nc]):
                                    bad(vio, f, 'the size is not the sum of the sizes of the children')
        tg = ids(m, CE + '::setOffset') if q.endswith('setOffset') else {g.id for g in m.funcs.values() if g.n == 'getFootPrint'}
        v, why = each(m, f, tg)
        n += 1
        if v is False:
            bad(vio, f, 'not every child is covered: ' + why)
    # (b) leaf footprints
    for cls, want in (('CParameter', lambda k: k['S']), ('CArrayParameter', lambda k: k['S'] * k['N']),
                      ('CStringParameter', lambda k: k['L'] + 1), ('CBitParameter', lambda k: 0),
                      ('CBitParameterBlock', lambda k: k['S'])):
        f = [g for g in m.funcs.values() if g.cls == cls and g.n == 'getFootPrint']
        if not f:
            bad(vio, m.fn1(CE + '::getFootPrint'), 'the size of %s is not its own' % cls)
            continue
        c = Lay(m, {g.id for g in m.funcs.values() if g.cls in LEAVES and g.n in ('getSize', 'getFootPrint', 'getArrayLength')})
        c.opaque_fp = False
        # virtual getSize: the one of the class itself
        e = Engine(m, c)
        old = c.on_call
        over = {g.id for g in m.funcs.values() if g.cls == cls and g.n == 'getSize'}

        def on_call(eng, st, fr, i, nn, tg, obj, args, over=over, old=old):
            # the call is made on an object of this very class
            if over and tg & over and len(tg) > 1:
                c2 = Lay(m)
                c2.opaque_fp = False
                e2 = Engine(m, c2)
                e2.T = eng.T
                return [(st.copy(), rt) for _, rt in e2.run(m.funcs[min(over)])]
            return old(eng, st, fr, i, nn, tg, obj, args)
        c.on_call = on_call
        for st, rt in e.run(f[0]):
            for k in ({'S': 4, 'N': 7, 'L': 20}, {'S': 2, 'N': 1, 'L': 0}, {'S': 1, 'N': 0, 'L': 255}):
                n += 1
                en = env(e, **k)
                if rt is None or not feasible(e, st, en):
                    continue
                v = ev(e, rt, en)
                if v is not None and v != want(k):
                    bad(vio, f[0], 'size %d for item size %d, length %d, maximum length %d' % (v, k['S'], k['N'], k['L']))
    n += sizes(m, vio)
    n += access(m, vio, env)
    n += raw(m, vio, env)
    n += start(m, vio)
    return result(None, {'instances_checked': n}, dedup(vio))


def sizes(m, vio):
    """sizes and lengths stored by the structure readers"""
    n = 0
    ss = ids(m, 'CParameterType::setSize')
    fields = {}
    for q, a in (('CBitParameterBlockType::getSize', 'Size'), ('CStringParameterType::getMaxLength', 'MaxLength'),
                 ('CTypeElement::getArrayLength', 'ArrayLength')):
        fields[q.split('::')[0]] = (getter_field(m, q), a)
    fields['CParameterType'] = (getter_field(m, 'CParameterType::getSize'), 'Size')
    for f in m.funcs.values():
        if f.n != 'fromXml' or f.cls not in m.classes or not f.blocks:
            continue
        cls = f.cls
        hit = [fields[cls]] if cls in fields and cls != 'CParameterType' else []
        if not hit and not any(x['k'] == 'Call' and (m.targets(f, x) & ss) for x in f.nodes):
            continue
        c = Lay(m, ss)
        e = Engine(m, c)
        got = set()

        def on_call(eng, st, fr, i, nn, tg, obj, args):
            fi = nn.get('f') or {}
            if fi.get('n') == 'getAttribute' and len(args) == 2:
                s = [fr.f.nodes[j]['v'] for j in fr.f.subtree(nn['c'][0]) if fr.f.nodes[j]['k'] == 'Str']
                q = st.copy()
                if eng.islv(args[1]) and s:
                    eng.wr(st, args[1], eng.T.mk('in', s[0]), ('w', fr.id, i))
                    st.auto = st.auto | {s[0]}
                return [(st, eng.TRUE), (q, eng.FALSE)]
            if fi.get('n') == 'hasAttribute' and args:
                return [(st, eng.TRUE), (st.copy(), eng.FALSE)]
            if fi.get('n') in ('fromXml', 'convertTo'):
                return [(st, eng.TRUE), (st.copy(), eng.FALSE)]
            return None
        c.on_call = on_call
        outs = e.run(f)
        if hit and not any(hit[0][1] in st.auto for st, rt in outs if rt is None or e.truth(st, rt) is not False):
            bad(vio, f, 'the declared %s is not read' % hit[0][1])
        fixed = re.match(r'CIntegerParameterType<(\w+), (\d+)>', f.cls)
        for st, rt in outs:
            if rt is not None and e.truth(st, rt) is False:
                continue
            b = e.lder(e.T.mk('this', 0))
            if hit:
                fl, a = hit[0]
                div = 8 if a == 'Size' else 1
            else:
                fl, a, div = fields['CParameterType'][0], 'Size', 8
            v = e.rd(st, e.lfld(b, fl))
            if fixed:
                n += 1
                w = ev(e, v, {})
                if w is not None and w * 8 != int(fixed.group(2)):
                    bad(vio, f, 'an integer of %s bits is given %d bytes' % (fixed.group(2), w))
                continue
            for z in ((8, 16, 32, 64) if div == 8 else (0, 1, 5, 300)):
                n += 1
                en = {e.T.mk('in', a): z}
                if not feasible(e, st, en):
                    continue
                w = ev(e, v, en)
                if a not in st.auto:
                    continue
                if w is not None and w != z // div:
                    bad(vio, f, 'declared %s %d is stored as %d' % (a, z, w))
    return n + builder(m, vio)


def builder(m, vio):
    """the integer type built has the declared size and sign"""
    n = 0
    for f in m.funcs.values():
        news = [i for i, x in enumerate(f.nodes) if x['k'] == 'Construct' and 'CIntegerParameterType<' in x.get('t', '')]
        if not news or f.n != 'createElement':
            continue
        c = Lay(m)
        e = Engine(m, c)
        built = []

        def on_call(eng, st, fr, i, nn, tg, obj, args):
            fi = nn.get('f') or {}
            x = re.search(r'CIntegerParameterType<(\w+), (\d+)>', nn.get('t', '')) if nn['k'] == 'Construct' else None
            if x:
                built.append((st.copy(), x.group(1) == 'true', int(x.group(2)), fr, i))
                return [(st, None)]
            if fi.get('n') == 'getAttribute' and len(args) == 2:
                s = [fr.f.nodes[j]['v'] for j in fr.f.subtree(nn['c'][0]) if fr.f.nodes[j]['k'] == 'Str']
                q = st.copy()
                if s and eng.islv(args[1]):
                    eng.wr(st, args[1], eng.T.mk('in', s[0]), ('w', fr.id, i))
                    st.auto = st.auto | {s[0]}
                return [(st, eng.TRUE), (q, eng.FALSE)]
            return None
        c.on_call = on_call
        e.run(f)
        for z in (8, 16, 32, None):
            for sg in (0, 1, None):
                en = {}
                if z:
                    en[e.T.mk('in', 'Size')] = z
                if sg is not None:
                    en[e.T.mk('in', 'Signed')] = sg
                ok = False
                for st, s, b, fr, i in built:
                    if ('Size' in st.auto) != (z is not None) or ('Signed' in st.auto) != (sg is not None):
                        continue
                    if not feasible(e, st, en):
                        continue
                    n += 1
                    ok = True
                    if b != (z or 32) or s != bool(sg):
                        bad(vio, f, 'an integer declared with %s bits (signed: %s) becomes a %s integer of %d bits' % (
                            z or 'no', sg, 'signed' if s else 'unsigned', b), i)
                if not ok and built:
                    bad(vio, f, 'an integer of %s bits is not built' % z)
    return n


def access(m, vio, env):
    """(c) blackboard accesses of parameters"""
    n = 0
    inl = {g.id for g in m.funcs.values() if g.cls in ('CParameter', 'CArrayParameter', 'CStringParameter',
                                                       'CBitParameterBlock')}
    seen_kinds = set()
    for f in sorted((g for g in m.funcs.values() if g.id in inl and not g.ctor and not g.dtor and not g.lam),
                    key=lambda g: g.id):
        top = f.n in ('accessValue', 'access', 'doSetValue', 'doGetValue', 'setDefaultValues', 'logValue')
        if not top:
            continue
        arr = f.cls == 'CArrayParameter'
        c = Lay(m, inl)
        c.want = ('IDX',)
        e = Engine(m, c)
        OFF = e.T.mk('in', 'OFF')

        def setup(eng, st, fr):
            refparams(eng, st, fr)
            for p in f.params:
                if bare(p['t']) in ('unsigned long', 'size_t', 'std::size_t') and not p['t'].endswith('&'):
                    st.env[('v', fr.id, p['u'])] = OFF
        e.run(f, setup)
        direct = any(bare(p['t']) in ('unsigned long', 'size_t', 'std::size_t') for p in f.params)
        vec = any('vector' in p['t'] for p in f.params)
        for (S, N, NB, IDX) in ((4, 3, 3, 1), (4, 3, 2, 1), (2, 5, 5, 0), (1, 4, 1, 3), (4, 3, 3, 0), (4, 3, 4, 0),
                                (4, 3, 1, 3), (4, 3, 1, 1 << 40), (4, 2, 2, 1), (2, 1, 1, 0)):
            if vec and NB != N:
                continue
            start = 5000
            en = env(e, S=S, N=N, NB=NB, IDX=IDX, O=start, B=0, OFF=start, L=20)  # P05 decides the base
            autos = {x[0].auto for x in c.events}
            for a in autos:
                its = c.rec.iterate(e, en, a, N + 4)
                for st, kind, args, fr, i in c.events:
                    if st.auto != a or kind not in ('readInteger', 'writeInteger'):
                        continue
                    seen_kinds.add((f.cls, kind))
                    # a loop over the items of the list itself has no index to bound it
                    cap = NB if c.rec.combos(e, its[-1], (args[2],), en, a, st) else len(its)
                    for k, at in enumerate(its[:cap]):
                        it = e.rd(st, e.T.mk('Lvar', -9, 'item'))
                        it = it if kind == 'writeInteger' and it != e.NULL else e.const(k)
                        for sz, of, kk in c.rec.combos(e, at, (args[1], args[2], it), en, a, st):
                            n += 1
                            if sz is not None and sz != S:
                                bad(vio, fr.f, 'accessed with %d bytes per item instead of %d' % (sz, S), i)
                            if of is None:
                                continue
                            if not arr:
                                if of != start:
                                    bad(vio, fr.f, 'accessed away from its offset', i)
                                continue
                            rel = of - start
                            if rel < 0 or rel >= S * N or rel % S:
                                bad(vio, fr.f, 'array of %d items of %d bytes: access at %d bytes from its start '
                                    '(list of %d values, index %s)' % (N, S, rel, NB, IDX if 'idx' in a else 'none'), i)
                                continue
                            s0 = IDX if 'idx' in a else 0
                            inloop = any(e.T.get(p)[0] == 'phi' for p in c.rec.phis(e, args[2]))
                            if inloop:
                                kk = k if kk is None else kk
                                if rel != (s0 + kk) * S:
                                    bad(vio, fr.f, 'item %d of the list is accessed at item %s of the array' % (
                                        kk, rel // S if s0 == 0 else '%d for index %d' % (rel // S, s0)), i)
                            elif rel != s0 * S:
                                bad(vio, fr.f, 'index %d accesses item %d' % (s0, rel // S), i)
        if f.cls == 'CStringParameter':
            for L in (0, 5, 255):
                for ln in (0, L, L + 1, L + 2, 1000):
                    for st, kind, args, fr, i in c.events:
                        if kind == 'writeString':
                            n += 1
                            y = e.T.get(args[0])
                            if y[0] == 'strlit' and not y[1]:
                                continue
                            if feasible(e, st, env(e, L=L, LEN=ln, NB=ln)) and ln > L:
                                bad(vio, fr.f, 'a string of %d characters is written in a parameter of at most %d' % (ln, L), i)
    if not any(k == 'writeInteger' for _, k in seen_kinds):
        raise AnalysisError('anchor vanished: integer accesses of parameters')
    return n


def raw(m, vio, env):
    n = 0
    for f in m.fn(CE + '::setSettingsAsBytes') + m.fn(CE + '::getSettingsAsBytes'):
        c = Lay(m)
        e = Engine(m, c)
        e.run(f)
        for st, kind, args, fr, i in c.events:
            if kind == 'writeBytes':
                for fpv, nb in ((4, 4), (4, 5), (4, 3), (4, 0), (0, 1)):
                    n += 1
                    if fpv != nb and feasible(e, st, env(e, FP=fpv, NB=nb)):
                        bad(vio, fr.f, '%d bytes are written over an element of %d bytes' % (nb, fpv), i)
            if kind in ('writeBytes', 'readBytes'):
                n += 1
                v = ev(e, args[1], env(e, O=700, B=200))
                if v is not None and v != 500:
                    bad(vio, fr.f, 'raw bytes are not those at the offset of the element', i)
    return n


class Start(Checker):
    SMALL = 0

    def __init__(self, m):
        self.m = m
        self.so = ids(m, CE + '::setOffset')
        self.ss = ids(m, BB + '::setSize')
        self.fp = {f.id for f in m.funcs.values() if f.n == 'getFootPrint'}
        self.grow = {f.id for f in m.funcs.values() if f.n in ('xmlParse', 'instantiateElement', 'addChild', 'loadSubsystems',
                                                               'mapSubsystemElements')}
        self.n = 0

    def relevant(self, eng):
        return {t for t in self.m.reaching(self.so) | self.m.reaching(self.ss)
                if self.m.funcs[t].cls in ('CParameterMgr', CE, 'CSystemClass')} - self.so - self.ss

    def init(self, eng, f):
        return frozenset()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        def val(x):
            return castless(eng, eng.rd(st, x) if eng.islv(x) else x)
        if tg & self.so:
            self.n += 1
            if val(args[0]) != eng.const(0):
                eng.report(fr, i, 'the system class does not start at offset 0')
            st.auto = st.auto | {('off', val(obj))}
            return [(st, None)]
        if tg & self.fp and obj is not None:
            return [(st, eng.T.mk('fp', r(val(obj))))]
        if tg & self.ss:
            self.n += 1
            x = eng.T.get(val(args[0]))
            st.auto = st.auto | {('size', x[1].i if x[0] == 'fp' else None)}
            return [(st, None)]
        if tg & self.grow or self.m.reaching(self.grow) & tg and not tg & self.relevant(eng):
            st.auto = frozenset()
        return None

    def on_exit(self, eng, st, fr, ret):
        if ret is not None and eng.truth(st, ret) is False:
            return
        self.n += 1
        o = {x[1] for x in st.auto if x[0] == 'off'}
        s = {x[1] for x in st.auto if x[0] == 'size'}
        if not o:
            eng.report(fr, -1, 'the structure is loaded without placing its elements')
        elif not s:
            eng.report(fr, -1, 'the structure is loaded without sizing the live settings')
        elif s != o:
            eng.report(fr, -1, 'the live settings are not sized with the element that was placed')


def start(m, vio):
    c = Start(m)
    e = Engine(m, c)
    e.run(m.fn1('CParameterMgr::loadStructure'))
    vio += e.violations
    n = c.n
    ok = set()
    for f in m.funcs.values():
        for i, x in enumerate(f.nodes):
            if x['k'] == 'Call' and m.targets(f, x) & c.so and f.id not in c.so:
                n += 1
                ok.add(f.id)
                if f.cls != 'CParameterMgr':
                    bad(vio, f, 'an element is placed outside the loading of the structure', i)
    return n
