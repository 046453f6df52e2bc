"""A bit parameter owns exactly its bits. (a) Conversion, merge and mask: every path of the writing conversions yields
(block & ~mask) | (value << pos), of the reading ones (block & mask) >> pos, of the merge (origin & ~mask) | (new & mask), with
mask = the declared bits; the returned terms are evaluated over a table of positions, sizes, blocks and values, 64 bit
blocks included. (b) The structure reader accepts a bit parameter only when position plus size fit in the block and the
maximum fits in its bits (evaluated over a table). (c) Typestate of the accessors: read the block, convert that
value, write the converted value back with the same size and offset, and nothing is written when the conversion fails; access as a
boolean only for a single bit. (d) The whole element read as raw bytes and copied between areas goes through the merge."""
from .common import *
from ..evalterm import ev, feasible
from .p14 import u, ids, bad, castless

TECHNIQUE = 'path enumeration with constant propagation over finite tables; read-modify-write typestate'
NOTE = ''
TYPE, PAR, BLK, BIT, BB = ('CBitParameterType', 'CBitParameter', 'CBitParameterBlockType', 'CBitwiseAreaConfiguration',
                           'CParameterBlackboard')
M64 = (1 << 64) - 1
GEOM = ((0, 1), (1, 1), (7, 1), (0, 8), (3, 5), (8, 8), (0, 32), (31, 2), (32, 32), (40, 24), (63, 1), (0, 63), (1, 63), (0, 64))
OLDS = (0, M64, 0xA5A5A5A5A5A5A5A5, 0x0123456789ABCDEF)


def mask(p, s):
    return (M64 >> (64 - s) << p) & M64


def attr_fields(m):
    """(position, size, max) members, from the attributes the structure reader fills"""
    f = m.fn1(TYPE + '::fromXml')
    out = {}
    for n in f.nodes:
        if n['k'] == 'Call' and (n.get('f') or {}).get('n') == 'getAttribute' and len(n.get('c', [])) == 2:
            s = [f.nodes[i]['v'] for i in f.subtree(n['c'][0]) if f.nodes[i]['k'] == 'Str']
            d = f.nodes[f.strip(n['c'][1])]
            if s and d['k'] == 'Member':
                out[s[0]] = d['d']['u']
    if not {'Pos', 'Size', 'Max'} <= set(out):
        raise AnalysisError('anchor vanished: attributes of bit parameters')
    return out['Pos'], out['Size'], out['Max']


class Conv(Checker):
    SMALL = 60
    K = 40
    KEXIT = 40
    WIDTHS = True

    def __init__(self, m, cls=TYPE):
        self.m, self.cls = m, cls
        self.shown = []
        self.V = None
        self.conv = {f.id for f in m.funcs.values() if f.n == 'convertTo'}

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == self.cls and f.n not in (
            'fromXml', 'toXml', 'showProperties', 'doInstantiate')}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if tg & self.conv or fi.get('n') == 'convertTo':
            q = st.copy()
            eng.wr(st, args[1], self.V, ('w', fr.id, i))
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if fi.get('n') in ('operator<<', 'to_string') and args and not fi.get('repo'):
            a = args[-1]
            pt = (fi.get('pt') or [''])[-1]
            if bare(pt) in ('unsigned long', 'unsigned int', 'int', 'long', 'unsigned long long', 'long long', 'uint64_t',
                            'std::uint64_t', 'uint32_t'):
                self.shown.append((st.copy(), eng.rd(st, a) if eng.islv(a) else a))
        return None


class Rmw(Checker):
    """accessors of CBitParameter"""
    SMALL = 60
    K = 30

    def __init__(self, m):
        self.m = m
        self.rd = ids(m, BB + '::readInteger')
        self.wr = ids(m, BB + '::writeInteger')
        self.to = ids(m, TYPE + '::toBlackboard')
        self.fr = ids(m, TYPE + '::fromBlackboard')
        self.mg = ids(m, TYPE + '::merge', PAR + '::merge')
        self.one = ids(m, TYPE + '::getBitSize')
        self.n = 0
        self.isbool = False

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls in (PAR, BIT)} - self.mg

    def init(self, eng, f):
        return frozenset()

    def a(self, eng, st, x):
        y = eng.T.get(x)
        return y[1].i if y[0] == 'addr' else x if eng.islv(x) else None

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T

        def val(k):
            return eng.rd(st, args[k]) if eng.islv(args[k]) else args[k]
        if tg & self.rd:
            self.n += 1
            lv = self.a(eng, st, args[0])
            t = T.mk('blk', fr.id, i)
            if lv is not None:
                eng.wr(st, lv, t, ('w', fr.id, i))
            o = eng.addr(obj) if eng.islv(obj) else obj
            st.auto = st.auto | {('rd', t, val(1), val(2), o)}
            return [(st, None)]
        if tg & self.to:
            self.n += 1
            lv = args[1]
            d = eng.rd(st, lv) if eng.islv(lv) else lv
            if self.isbool:
                B = T.mk('in', 'bool')
                for k in (0, 1):
                    w = ev(eng, val(0), {B: k})
                    if feasible(eng, st, {B: k}) and w is not None and w != k:
                        eng.report(fr, i, 'the boolean written is not the one given')
            if not any(x[0] == 'rd' and x[1] == d for x in st.auto):
                eng.report(fr, i, 'the value is merged into something else than the block just read')
            q = st.copy()
            q.auto = q.auto | {('no',)}
            t = T.mk('conv', fr.id, i, r(d))
            eng.wr(st, lv, t, ('w', fr.id, i))
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.fr:
            self.n += 1
            d = val(1)
            if not any(x[0] == 'rd' and x[1] == castless(eng, d) for x in st.auto):
                eng.report(fr, i, 'the value is taken from something else than the block read')
            st.auto = st.auto | {('got',)}
            if self.isbool and eng.islv(args[0]):
                eng.wr(st, args[0], T.mk('in', 'got'), ('w', fr.id, i))
                return [(st, None)]
            return 'summ'
        if tg & self.mg:
            self.n += 1
            return [(st, T.mk('conv', fr.id, i, r(castless(eng, val(0)))))]
        if tg & self.one:
            t = T.mk('bits', 0)
            return [(st, t)]
        if tg & self.wr:
            self.n += 1
            lv = self.a(eng, st, args[0])
            v = eng.rd(st, lv) if lv is not None else None
            o = eng.addr(obj) if eng.islv(obj) else obj
            x = T.get(v) if v is not None else ('?',)
            if ('no',) in st.auto:
                eng.report(fr, i, 'the block is written although the value was refused')
            if x[0] == 'blk':
                eng.report(fr, i, 'the block is written without merging the value into it')
            elif x[0] == 'conv':
                d = u(x[3])
                src = [y for y in st.auto if y[0] == 'rd' and y[1] == d]
                if src and (src[0][2] != val(1) or src[0][3] != val(2)):
                    eng.report(fr, i, 'the block is written back with another size or at another place')
                if src and src[0][4] != o:
                    eng.report(fr, i, 'the block is merged with one blackboard and written to another')
            st.auto = st.auto | {('wr',)}
            return [(st, None)]
        return None

    def on_exit(self, eng, st, fr, ret):
        acc = {x[0] for x in st.auto} & {'wr', 'got'}
        if self.isbool and 'got' in acc:
            G = eng.T.mk('in', 'got')
            for k in (0, 1):
                w = ev(eng, eng.rd(st, self.out), {G: k, eng.T.mk('bits', 0): 1})
                if w is not None and feasible(eng, st, {G: k}) and bool(w) != bool(k):
                    eng.report(fr, -1, 'the boolean read is not the value of the bit')
        if self.isbool and acc and (ret is None or eng.truth(st, ret) is not False):
            B = eng.T.mk('bits', 0)
            if any(feasible(eng, st, {B: k}) for k in (2, 3, 32)) and any(x[0] == 'rd' for x in st.auto):
                eng.report(fr, -1, 'a parameter of several bits is accessed as a boolean')


def check(m, tier):
    vio, n = [], 0
    pos, size, mx = attr_fields(m)

    def base(e, p, s, extra=None):
        def setup(eng, st, fr):
            refparams(eng, st, fr)
            b = eng.lder(fr.this)
            st.heap[eng.lfld(b, pos)] = e.T.mk('in', 'pos')
            st.heap[eng.lfld(b, size)] = e.T.mk('in', 'size')
            st.heap[eng.lfld(b, mx)] = e.T.mk('in', 'max')
            if extra:
                extra(eng, st, fr)
        return setup
    # (a) conversions
    for f in m.fn(TYPE + '::toBlackboard') + m.fn(TYPE + '::fromBlackboard') + m.fn(TYPE + '::merge'):
        c = Conv(m)
        e = Engine(m, c)
        P, S, X = (e.T.mk('in', k) for k in ('pos', 'size', 'max'))
        OLD, VAL = e.T.mk('in', 'old'), e.T.mk('in', 'val')
        c.V = VAL
        blk = [p for p in f.params if bare(p['t']) in ('unsigned long', 'uint64_t', 'std::uint64_t')]
        kind = f.n

        def extra(eng, st, fr):
            if kind == 'toBlackboard':
                out = [p for p in f.params if p['t'].endswith('&') and not p['t'].startswith('const') and p in blk]
                inp = [p for p in blk if p not in out]
                for p in out:
                    eng.wr(st, refparam(eng, fr, p), OLD, ('w', 0))
                for p in inp:
                    st.env[('v', fr.id, p['u'])] = VAL
            elif kind == 'fromBlackboard':
                p = blk[-1]
                if p['t'].endswith('&'):
                    st.env[('v', fr.id, p['u'])] = ('@', refparam(eng, fr, p))
                    eng.wr(st, refparam(eng, fr, p), OLD, ('w', 0))
                else:
                    st.env[('v', fr.id, p['u'])] = OLD
            else:
                st.env[('v', fr.id, blk[0]['u'])] = OLD
                st.env[('v', fr.id, blk[1]['u'])] = VAL
        outs = e.run(f, base(e, pos, size, extra))

        def compare(t, st, want, env, bits=64):
            if t is None or not feasible(e, st, env):
                return
            e.undef = False
            v = ev(e, t, env)
            if e.undef:
                bad(vio, f, 'bits %d..%d: a shift by more than the width of its operand' % (env[P], env[P] + env[S] - 1))
                return True
            if v is not None and v & ((1 << bits) - 1) != want & ((1 << bits) - 1):
                bad(vio, f, 'bits %d..%d, block 0x%x, value 0x%x: result 0x%x instead of 0x%x' % (
                    env[P], env[P] + env[S] - 1, env[OLD], env.get(VAL, 0), v & M64, want & M64))
                return True
        for (p, s) in GEOM:
            hit = False
            for old in OLDS:
                top = M64 >> (64 - s)
                for val in sorted({0, 1, top, top >> 1, 0x5555555555555555 & top}):
                    n += 1
                    env = {P: p, S: s, X: top, OLD: old, VAL: val}
                    w = {'toBlackboard': (old & ~mask(p, s)) | (val << p), 'fromBlackboard': (old & mask(p, s)) >> p,
                         'merge': (old & ~mask(p, s)) | (val & mask(p, s))}[kind]
                    if kind == 'toBlackboard':
                        out = [q for q in f.params if q['t'].endswith('&') and not q['t'].startswith('const') and q in blk]
                        ok = False
                        for st, rt in outs:
                            t = rt is not None and e.truth(st, rt)
                            if t is not False and feasible(e, st, env):
                                ok = True
                                hit = hit or compare(e.rd(st, e.T.mk('Lvar', -1, out[0]['u'])), st, w, env)
                        if not ok:
                            bad(vio, f, 'value 0x%x of %d bits is refused' % (val, s))
                            hit = True
                        for st, rt in outs:
                            # one above the maximum
                            if rt is not None and e.truth(st, rt) is True and s < 64 and \
                                    feasible(e, st, {P: p, S: s, X: top >> 1, OLD: old, VAL: top}) and top >> 1 < top:
                                bad(vio, f, 'a value above the maximum is accepted')
                                hit = True
                    elif kind == 'merge':
                        for st, rt in outs:
                            hit = hit or compare(rt, st, w, env)
                    else:
                        dst = [q for q in f.params if q['t'].endswith('&') and not q['t'].startswith('const') and
                               bare(q['t']) in ('unsigned int', 'uint32_t', 'std::uint32_t')]
                        if dst:
                            for st, rt in outs:
                                hit = hit or compare(e.rd(st, e.T.mk('Lvar', -1, dst[0]['u'])), st, w, env, 32)
                        else:
                            for st, t in c.shown:
                                hit = hit or compare(t, st, w, env)
                    if hit:
                        break
                if hit:
                    break
            if hit:
                break
        if kind == 'fromBlackboard' and not c.shown and 'string' in f.params[0]['t']:
            bad(vio, f, 'no value is written in the text')
    # (b) structure reader
    for f in m.fn(TYPE + '::fromXml'):
        c = Conv(m)
        e = Engine(m, c)
        P, S, X, Z = (e.T.mk('in', k) for k in ('pos', 'size', 'max', 'block'))
        gs = ids(m, BLK + '::getSize')

        def on_call(eng, st, fr, i, nn, tg, obj, args):
            fi = nn.get('f') or {}
            if fi.get('n') == 'getAttribute' and len(args) == 2:
                s = [fr.f.nodes[j]['v'] for j in fr.f.subtree(nn['c'][0]) if fr.f.nodes[j]['k'] == 'Str']
                w = {'Pos': P, 'Size': S, 'Max': X}.get(s[0] if s else '')
                q = st.copy()
                if w is not None:
                    eng.wr(st, args[1], w, ('w', fr.id, i))
                    st.auto = (st.auto or frozenset()) | {s[0]}
                return [(st, eng.TRUE), (q, eng.FALSE)]
            if tg & gs:
                return [(st, Z)]
            if fi.get('n') == 'fromXml':
                return [(st, eng.TRUE), (st.copy(), eng.FALSE)]
            return None
        c.on_call = on_call
        outs = e.run(f)
        for st, rt in outs:
            if rt is not None and e.truth(st, rt) is False:
                continue
            at = st.auto or frozenset()
            if not {'Pos', 'Size'} <= at:
                continue
            b = e.lder(e.T.mk('this', 0))
            for z in (1, 2, 4, 8):
                for p in (0, 1, 7, 8, 31, 63, M64):
                    for s in (0, 1, 2, 8, 9, 16, 32, 33, 64):
                        n += 1
                        env = {P: p, S: s, Z: z, X: 0}
                        if p + s > 8 * z or not s:
                            if feasible(e, st, env):
                                bad(vio, f, 'bits %d..%d are accepted in a block of %d bits' % (p, p + s - 1, 8 * z))
                            continue
                        top = M64 >> (64 - s)
                        for x in (0, 1, top, top + 1):
                            if x > M64:
                                continue
                            env[X] = x
                            if not feasible(e, st, env):
                                continue
                            v = ev(e, e.rd(st, e.lfld(b, mx)), env)
                            if v is not None and v & M64 > top:
                                bad(vio, f, 'a maximum above the capacity of the bits is accepted')
                            for fl, w in ((pos, p), (size, s)):
                                v = ev(e, e.rd(st, e.lfld(b, fl)), env)
                                if v is not None and v != w:
                                    bad(vio, f, 'the position or size stored is not the one declared')
        if not any(rt is None or e.truth(st, rt) is not False for st, rt in outs):
            bad(vio, f, 'no bit parameter is ever accepted')
    # (c) accessors
    for f in m.funcs.values():
        if f.cls in (PAR, BIT) and not f.ctor and not f.lam and f.n in (
                'doSet', 'doGet', 'doSetValue', 'doGetValue', 'access', 'copyTo', 'copyFrom'):
            c = Rmw(m)
            c.isbool = f.n == 'access' and any(p['t'] == 'bool &' for p in f.params)
            e = Engine(m, c)

            def setup(eng, st, fr):
                refparams(eng, st, fr)
                for p in f.params:
                    if p['t'] == 'bool &':
                        c.out = refparam(eng, fr, p)
                        eng.wr(st, c.out, eng.T.mk('in', 'bool'), ('w', 0))
            e.run(f, setup if c.isbool else None)
            n += c.n
            vio += e.violations
    return result(None, {'instances_checked': n, 'geometries': len(GEOM)}, dedup(vio))
