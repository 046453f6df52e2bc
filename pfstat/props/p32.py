"""Values accepted are in range and read back unchanged. (a) For every kind of scalar parameter, every path of the conversions from
and to the blackboard is enumerated; conditions and stored terms are evaluated over tables of ranges, sizes, values and texts
(text streams, text-to-number and float conversions modelled): a setter accepts what the declared range holds and nothing
else, what it stores fits in the parameter's bytes and, truncated to them, comes back through the matching getter; the text
shown, whatever the value space and the raw format, is accepted again and gives the same bytes. An enumeration
stores the number of an enumerator it has compared with, and name and number come from the same one. (b) The text-to-number conversion
itself: every accepting path has excluded blanks, a minus sign for unsigned types, a base for floating points and text left
over; the 8 bit ones go through a wider type and its bounds. (c) The scalar accessors: converted value to blackboard with the size
of the parameter, only when accepted; a cleared word filled from the blackboard to the converter."""
import math
import struct
from .common import *
from ..evalterm import ev, feasible, WIDTH, wrap
from ..textval import handlers, Streams, Scans, convert, f32, FLT_MAX
from ..loops import each
from .p14 import u, ids, bad, castless

TECHNIQUE = 'path enumeration with constant propagation of values and texts over finite tables; typestate of the accessors'
NOTE = ''
PT, PAR, CTX = 'CParameterType', 'CParameter', 'CParameterAccessContext'
M32 = (1 << 32) - 1


class Conv(Streams, Checker):
    SMALL = 60
    K = 400
    KEXIT = 400
    WIDTHS = True

    def __init__(self, m, classes):
        self.m, self.classes = m, classes
        self.files = {f.file for f in m.funcs.values() if f.cls in classes}
        self.raw = ids(m, CTX + '::valueSpaceIsRaw')
        self.hex = ids(m, CTX + '::outputRawFormatIsHex')
        self.size = ids(m, PT + '::getSize')
        self.nb = ids(m, 'CElement::getNbChildren')
        self.child = {f.id for f in m.fn('CElement::getChild')}
        self.num = ids(m, 'CEnumValuePair::getNumerical')
        self.name = ids(m, 'CElement::getName')
        self.adf = {f.id for f in m.funcs.values() if f.n == 'fromUserValue'}
        self.adt = {f.id for f in m.funcs.values() if f.n == 'toUserValue'}
        self.ad = ids(m, 'CElement::findChildOfKind')

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls in self.classes and f.n not in (
            'fromXml', 'toXml', 'showProperties', 'doInstantiate', 'handleValueSpaceAttribute', 'getKind')
            and not self.reporter(f)} | {f.id for f in self.m.funcs.values() if not f.cls and f.file in self.files}

    @staticmethod
    def reporter(f):
        return f.rt == 'void' and any(CTX in p['t'] for p in f.params)

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}
        if tg & self.raw:
            return [(st, T.mk('in', 'raw', 'B'))]
        if tg & self.hex:
            return [(st, T.mk('in', 'hex', 'B'))]
        if tg & self.size:
            return [(st, T.mk('in', 'S'))]
        if tg & self.nb:
            return [(st, T.mk('in', 'nb'))]
        if tg & self.child and len(args) == 1:
            a = args[0]
            return [(st, T.mk('child', r(eng.rd(st, a) if eng.islv(a) else a)))]
        if obj is not None and (tg & self.num or tg & self.name):
            o = eng.addr(obj) if eng.islv(obj) else obj
            o = castless(eng, o)
            if T.get(o)[0] == 'child':
                return [(st, T.mk('num' if tg & self.num else 'name', r(o)))]
        if tg & self.ad:
            return [(st, T.mk('new', 'adaptation', 0, 0))]
        if tg & self.adf and args:
            return [(st, T.mk('in', 'adapted'))]
        if tg & self.adt and args:
            return [(st, T.mk('back', r(eng.rd(st, args[0]) if eng.islv(args[0]) else args[0])))]
        if fi.get('n') in ('setError', 'appendToError'):
            return [(st, None)]
        if fi.get('n') == 'getKind':
            return [(st, T.mk('strlit', 'kind'))]
        if any(t in self.m.funcs and self.reporter(self.m.funcs[t]) for t in tg):
            return [(st, None)]
        return self.stream_call(eng, st, fr, i, n, tg, obj, args)


def hierarchy(m, cls):
    out, todo = [], [cls]
    while todo:
        c = todo.pop(0)
        if c in m.classes and c not in out:
            out.append(c)
            todo += sorted(m.bases.get(c, ()))
    return out


class Kind:
    """conversions of one parameter type class"""

    def __init__(self, m, cls, fields):
        self.m, self.cls, self.fields = m, cls, fields
        self.h = [c for c in hierarchy(m, cls)]
        self.runs = {}

    def method(self, name, ty):
        """most derived definition of name whose value parameter is ty"""
        for c in self.h:
            for f in self.m.funcs.values():
                if f.cls == c and f.n == name and len(f.params) == 3:
                    p = f.params[0]
                    t = 'std::string' if 'basic_string' in p['t'] else bare(p['t'].replace('&', '').strip())
                    if t == ty and f.virt:
                        return f
        return None

    def run(self, name, ty):
        k = (name, ty)
        if k not in self.runs:
            f = self.method(name, ty)
            if f is None:
                raise AnalysisError('anchor vanished: %s::%s(%s)' % (self.cls, name, ty))
            c = Conv(self.m, set(self.h))
            c.DYN = self.cls
            e = Engine(self.m, c)
            fields = self.fields

            def setup(eng, st, fr):
                refparams(eng, st, fr)
                b = eng.lder(fr.this)
                for lv, nm in fields.items():
                    st.heap[eng.lfld(b, lv)] = eng.T.mk('in', nm)
                p, q = f.params[0], f.params[1]
                for w, x in ((p, 'val'), (q, 'old')):
                    if w['t'].endswith('&'):
                        eng.wr(st, refparam(eng, fr, w), eng.T.mk('in', x), ('w', 0))
                    else:
                        st.env[('v', fr.id, w['u'])] = eng.T.mk('in', x)
            outs = e.run(f, setup)
            o = f.params[1] if name == 'toBlackboard' else f.params[0]
            res = []
            for st, rt in outs:
                t = None if rt is None else e.truth(st, rt)
                res.append((st, rt, t, e.rd(st, e.T.mk('Lvar', -1, o['u']))))
            self.runs[k] = (f, e, res)
        return self.runs[k]

    def outcomes(self, name, ty, env):
        """[(accepted, value out)] of the paths not excluded by env {leaf name: value}"""
        f, e, res = self.run(name, ty)
        leaf = {e.T.mk('in', k): v for k, v in env.items() if not isinstance(k, tuple)}
        for k in ('raw', 'hex'):
            leaf[e.T.mk('in', k, 'B')] = env.get(k, 0)
        leaf.update(self.hs())
        out = []
        for st, rt, t, w in res:
            for x in self.worlds(e, st, (rt, w), leaf, env):
                e.undef = False
                if not feasible(e, st, x):
                    continue
                ok = t
                if ok is None and rt is not None:
                    v = ev(e, rt, x)
                    ok = None if v is None else bool(v)
                v = ev(e, w, x)
                if e.undef:
                    v = None
                    out.append(('undef', None))
                    continue
                out.append((ok, v))
        return out

    HS = None

    def hs(self):
        if Kind.HS is None:
            Kind.HS = handlers({'back': lambda x, s: s(u(x[1]))})
        return Kind.HS

    def worlds(self, e, st, terms, leaf, env):
        """assignments of the enumerators met on the path"""
        enums = env.get(('enums',))
        if not enums:
            return [leaf]
        ch = set()

        def walk(t, d=0):
            x = e.T.get(t)
            if x[0] == 'child':
                ch.add(t)
            if d < 12:
                for y in x[1:]:
                    if hasattr(y, 'i'):
                        walk(y.i, d + 1)
                    elif isinstance(y, tuple):
                        for z in y:
                            if hasattr(z, 'i'):
                                walk(z.i, d + 1)
        for k in st.facts:
            if isinstance(k, int):
                walk(k)
        for k in st.facts:
            if not isinstance(k, int) and k[0] == 'v':
                walk(k[1])
                if isinstance(st.facts[k], int):
                    walk(st.facts[k])
        for t in terms:
            if t is not None:
                walk(t)
        res = [dict(leaf)]
        from ..engine import r
        for c in sorted(ch):
            res = [dict(x, **{}) | {e.T.mk('num', r(c)): v, e.T.mk('name', r(c)): nm} for x in res for nm, v in enums]
        return res[:64]


def low(v, s):
    return v & ((1 << 8 * s) - 1)


def sx(v, s):
    v = low(v, s)
    return v - (1 << 8 * s) if v >> (8 * s - 1) else v


class Judge:
    def __init__(self, vio):
        self.vio, self.n, self.said = vio, 0, set()

    def say(self, f, msg, key):
        if (f.id, key) not in self.said:
            self.said.add((f.id, key))
            bad(self.vio, f, msg)

    def set(self, K, ty, env, want, what, must=True):
        """run the setter; want(stored) -> True when that outcome is fine, or None = refusal expected. Returns stored values"""
        f = K.method('toBlackboard', ty)
        self.n += 1
        outs = K.outcomes('toBlackboard', ty, env)
        stored = []
        for ok, v in outs:
            if ok == 'undef':
                self.say(f, 'undefined shift or conversion for %s' % what, 'ub')
                continue
            if ok is not False and want is None:
                self.say(f, '%s is accepted' % what, 'acc')
            elif ok is not False:
                if v is None:
                    self.say(f, '%s: the value stored is not determined by the value given' % what, 'undet')
                elif not want(v):
                    self.say(f, '%s is stored as 0x%x' % (what, v & M32) if isinstance(v, int) else
                             '%s is stored as %r' % (what, v), 'st')
                else:
                    stored.append(v)
            elif want is not None and must and not any(o[0] is not False for o in outs):
                self.say(f, '%s is refused' % what, 'ref')
        return stored

    def get(self, K, ty, env, want, what):
        f = K.method('fromBlackboard', ty)
        self.n += 1
        res = []
        for ok, v in K.outcomes('fromBlackboard', ty, env):
            if ok == 'undef':
                self.say(f, 'undefined shift or conversion reading %s' % what, 'ub')
            elif ok is False:
                self.say(f, '%s can not be read' % what, 'ref')
            elif v is None:
                self.say(f, '%s: the value read is not determined by the one stored' % what, 'undet')
            elif not want(v):
                self.say(f, '%s reads back as %s' % (what, hex(v) if isinstance(v, int) and ty != 'std::string' else repr(v)), 'rb')
            else:
                res.append(v)
        return res


STR = None


def texts(n, s, signed):
    yield '%d' % n, n
    if n >= 0:
        yield '0x%X' % n, n


def integers(m, J):
    out = 0
    for cls in sorted(m.classes):
        if not cls.startswith('CIntegerParameterType<'):
            continue
        a = cls[cls.index('<') + 1:-1].split(',')
        signed, bits = a[0].strip() in ('true', '1'), int(a[1])
        s = bits // 8
        mn, mx = attr(m, cls, ('Min', 'Max'))
        K = Kind(m, cls, dict(sizefield(m), **{mn: 'min', mx: 'max'}))
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        rng = [(lo, hi), (3, 100), (hi - 1, hi), (lo, lo + 1), (0, 0)]
        if signed:
            rng += [(-5, 5), (-7, -3)]
        else:
            rng += [(hi // 2 - 2, hi // 2 + 3)]
        for a, b in rng:
            base = {'min': a, 'max': b, 'S': s}
            pts = sorted({a - 1, a, a + 1, b - 1, b, b + 1, 0, 1, -1, lo, hi, lo - 1, hi + 1, (1 << bits) + a, (1 << bits) - 1,
                          (1 << bits) + b, (1 << (bits - 1)), 1 << 31, M32, -(1 << 31), (a + b) // 2, 1 << 32, (1 << 32) + a})
            for ty, l, h in (('unsigned int', 0, M32), ('int', -(1 << 31), (1 << 31) - 1)):
                match = signed == (ty == 'int')
                for v in pts:
                    if not l <= v <= h:
                        continue
                    inr = a <= v <= b
                    what = '%d given to a parameter of [%d, %d]' % (v, a, b)

                    def fine(w):
                        x = sx(w, s) if signed else low(w, s)
                        return a <= x <= b and (x - v) % (1 << 32) == 0
                    st = J.set(K, ty, dict(base, val=v), fine if inr or not match else None, what, match)
                    for w in st:
                        J.get(K, ty, dict(base, old=low(w, s)), lambda y: (y - v) % (1 << (32 if match else bits)) == 0, what)
            for v in pts:
                for raw in (0, 1):
                    for t, nv in ([('%d' % v, v)] + ([('0x%X' % v, v)] if v >= 0 else [])):
                        x = nv
                        if t[:2] == '0x':
                            x = None if nv >= 1 << bits else sx(nv, s) if signed else nv
                        inr = x is not None and a <= x <= b
                        what = "'%s' given to a parameter of [%d, %d]" % (t, a, b)
                        st = J.set(K, 'std::string', dict(base, val=t, raw=raw),
                                   (lambda w: (sx(w, s) if signed else low(w, s)) == x) if inr else None, what)
                        for w in set(st):
                            for hx in (0, 1):
                                txt = J.get(K, 'std::string', dict(base, old=low(w, s), raw=raw, hex=hx),
                                            lambda y: isinstance(y, str), what)
                                for y in set(txt):
                                    J.set(K, 'std::string', dict(base, val=y, raw=raw), lambda z: low(z, s) == low(w, s),
                                          "'%s', the text shown for %d in [%d, %d]," % (y, x, a, b))
            for ad in pts + [1 << 40, -(1 << 40)]:
                what = '%d, converted from the user value, given to a parameter of [%d, %d]' % (ad, a, b)
                outs = J.set(K, 'double', dict(base, adapted=ad),
                             (lambda w: (sx(w, s) if signed else low(w, s)) == ad) if a <= ad <= b else None, what)
                for w in set(outs):
                    f = K.method('fromBlackboard', 'double')
                    for ok, y in K.outcomes('fromBlackboard', 'double', dict(base, old=low(w, s))):
                        if ok is not False and y is not None and y != ad:
                            J.say(f, '%d is converted to a user value as %r' % (ad, y), 'ad')
        for t in ('', ' 1', '1 ', 'x', '0x', '1.5', '0xG', '1e1', '--1'):
            J.set(K, 'std::string', {'min': lo, 'max': hi, 'S': s, 'val': t}, None, "'%s'" % t)
        out += 1
    if out < 6:
        raise AnalysisError('anchor vanished: integer parameter types')


def attr(m, cls, names):
    f = m.fn1(cls + '::fromXml')
    out = {}
    for n in f.nodes:
        if n['k'] == 'Call' and (n.get('f') or {}).get('n') == 'getAttribute' and len(n.get('c', [])) == 2:
            s = [f.nodes[i]['v'] for i in f.subtree(n['c'][0]) if f.nodes[i]['k'] == 'Str']
            d = f.nodes[f.strip(n['c'][1])]
            if s and d['k'] == 'Member':
                out[s[0]] = d['d']['u']
    if not set(names) <= set(out):
        raise AnalysisError('anchor vanished: attributes of ' + cls)
    return [out[k] for k in names]


def sizefield(m):
    return {getter_field(m, PT + '::getSize'): 'S'}


def fixed(m, J):
    cls = 'CFixedPointParameterType'
    fi, ff = attr(m, cls, ('Integral', 'Fractional'))
    K = Kind(m, cls, dict(sizefield(m), **{fi: 'I', ff: 'F'}))
    for s, I, F in ((1, 0, 7), (1, 3, 4), (1, 2, 3), (1, 0, 0), (1, 7, 0), (2, 0, 15), (2, 8, 7), (2, 3, 4), (4, 0, 31), (4, 31, 0),
                    (4, 15, 16), (4, 3, 20), (4, 0, 3)):
        base = {'S': s, 'I': I, 'F': F}
        unit = 2.0 ** -F
        top, bot = (1 << (I + F)) - 1, -(1 << (I + F))
        q = sorted({bot - 1, bot, bot + 1, -1, 0, 1, top - 1, top, top + 1, top // 3, bot // 3, 2 * top, 2 * bot})
        vals = [x * unit for x in q] + [(top + 0.25) * unit, (bot - 0.25) * unit, 0.3 * unit, -0.3 * unit, 0.7 * unit, (top // 2 + 0.4) * unit,
                                        1e300, -1e300, math.inf, -math.inf, math.nan]

        def held(w):
            return (sx(w, s) >> (8 * s - I - F - 1)) * unit
        for v in vals:
            inr = bot * unit <= v <= top * unit
            what = '%r given to a Q%d.%d of %d bytes' % (v, I, F, s)

            def fine(w):
                return abs(held(w) - v) <= unit / 2 and -(1 << (8 * s - 1)) <= wrap('int', w) < 1 << (8 * s - 1)
            for w in set(J.set(K, 'double', dict(base, val=v), fine if inr else None, what)):
                J.get(K, 'double', dict(base, old=low(w, s)), lambda y: y == held(w), what)
            if not math.isfinite(v) or abs(v) > 1e20:
                continue
            t = '%.*f' % (F + 3, v)
            n = float(t)
            v2 = v
            v = n
            inr = bot * unit <= v <= top * unit
            for w in set(J.set(K, 'std::string', dict(base, val=t), fine if inr else None,
                               "'%s' given to a Q%d.%d of %d bytes" % (t, I, F, s))):
                for y in set(J.get(K, 'std::string', dict(base, old=low(w, s)), lambda y: isinstance(y, str), t)):
                    J.set(K, 'std::string', dict(base, val=y), lambda z: low(z, s) == low(w, s),
                          "'%s', the text shown for 0x%x in Q%d.%d of %d bytes," % (y, low(w, s), I, F, s))
            v = v2
        lo, hi = -(1 << (8 * s - 1)), (1 << (8 * s - 1)) - 1
        for x in sorted({lo - 1, lo, lo + 1, -1, 0, 1, hi, hi + 1, 2 * hi + 1, 2 * hi + 2, M32, 1 << 31, 1 << 32}):
            for t, ok in [('%d' % x, lo <= x <= hi)] + ([('0x%X' % x, x < 1 << 8 * s)] if x >= 0 else []):
                st = J.set(K, 'std::string', dict(base, val=t, raw=1), (lambda w: low(w, s) == low(x, s)) if ok else None,
                           "raw value '%s' given to a parameter of %d bytes" % (t, s))
                for w in set(st):
                    for hx in (0, 1):
                        for y in set(J.get(K, 'std::string', dict(base, old=low(w, s), raw=1, hex=hx), lambda y: isinstance(y, str), t)):
                            J.set(K, 'std::string', dict(base, val=y, raw=1), lambda z: low(z, s) == low(w, s),
                                  "'%s', the raw text shown for 0x%x," % (y, low(w, s)))
        for t in ('0x1', '', 'x', '1 ', '1x'):
            J.set(K, 'std::string', dict(base, val=t), None, "'%s', in real value space," % t)


def floats(m, J):
    cls = 'CFloatingPointParameterType'
    mn, mx = attr(m, cls, ('Min', 'Max'))
    K = Kind(m, cls, dict(sizefield(m), **{mn: 'min', mx: 'max'}))

    def bits(v):
        return struct.unpack('I', struct.pack('f', v))[0]

    def fl(b):
        return struct.unpack('f', struct.pack('I', b & M32))[0]
    for a, b in ((-FLT_MAX, FLT_MAX), (-1.0, 2.5), (0.0, 0.0), (f32(0.1), f32(1e20)), (1.0, FLT_MAX)):
        base = {'min': a, 'max': b, 'S': 4}
        pts = [a, b, (a / 2 + b / 2), a - 1.0, b + 1.0, f32(0.3), 1.0, -1.0, 0.0, f32(1.1), f32(16777217.0), f32(0.12345678),
               1e39, -1e39, 3.5e38, math.inf, -math.inf, math.nan, fl(1), fl(0x00012345), fl(0x7f7fffff), fl(0x3f800001), 0.1, 2.4999999999,
               2.5000000001 if b != 2.5 else 2.6]
        for v in pts:
            inr = math.isfinite(v) and abs(v) <= FLT_MAX and a <= f32(v) <= b
            what = '%r given to a parameter of [%g, %g]' % (v, a, b)
            for w in set(J.set(K, 'double', dict(base, val=v), (lambda w: low(w, 4) == bits(f32(v))) if inr else None, what)):
                J.get(K, 'double', dict(base, old=low(w, 4)), lambda y: y == f32(v), what)
            if not math.isfinite(v):
                continue
            t = '%.12g' % v
            x = f32(float(t))
            inr = math.isfinite(x) and a <= x <= b
            for w in set(J.set(K, 'std::string', dict(base, val=t), (lambda w: low(w, 4) == bits(x)) if inr else None, what)):
                for y in set(J.get(K, 'std::string', dict(base, old=low(w, 4)), lambda y: isinstance(y, str), what)):
                    J.set(K, 'std::string', dict(base, val=y), lambda z: low(z, 4) == low(w, 4),
                          "'%s', the text shown for the float 0x%08x," % (y, low(w, 4)))
        for w in (0, 1, 0x12345, 0x80000000, 0x80000001, 0x3f800000, 0x3f800001, 0xbf800000, 0x40200000, 0x40200001, 0x7f7fffff, 0xff7fffff,
                  0x7f800000, 0xff800000, 0x7fc00000, M32):
            v = fl(w)
            ok = math.isfinite(v) and a <= v <= b
            for t in ('%d' % w, '0x%x' % w):
                for z in set(J.set(K, 'std::string', dict(base, val=t, raw=1), (lambda z: low(z, 4) == w) if ok else None,
                                   "raw value '%s' given to a parameter of [%g, %g]" % (t, a, b))):
                    for hx in (0, 1):
                        for y in set(J.get(K, 'std::string', dict(base, old=low(z, 4), raw=1, hex=hx), lambda y: isinstance(y, str), t)):
                            J.set(K, 'std::string', dict(base, val=y, raw=1), lambda q: low(q, 4) == w,
                                  "'%s', the raw text shown for 0x%x," % (y, w))
        J.set(K, 'std::string', dict(base, val=str(1 << 32), raw=1), None, 'a raw value of 33 bits')
        for t in ('0x1', '', 'x', '1 ', '1x', 'nan', 'inf', '1e400'):
            J.set(K, 'std::string', dict(base, val=t), None, "'%s', in real value space," % t)


def booleans(m, J):
    cls = 'CBooleanParameterType'
    K = Kind(m, cls, sizefield(m))
    base = {'S': 1}
    for raw in (0, 1):
        for t, x in (('1', 1), ('0', 0), ('0x1', 1), ('0x0', 0), ('2', None), ('', None), ('true', None), ('10', None), ('0x2', None), (' 1', None)):
            for w in set(J.set(K, 'std::string', dict(base, val=t, raw=raw), (lambda w: w == x) if x is not None else None, "'%s'" % t)):
                for hx in (0, 1):
                    for y in set(J.get(K, 'std::string', dict(base, old=w, raw=raw, hex=hx), lambda y: isinstance(y, str), t)):
                        J.set(K, 'std::string', dict(base, val=y, raw=raw), lambda z: z == w, "'%s', the text shown for %d," % (y, w))
    for v in (0, 1, 2, 255, 256, M32):
        for w in set(J.set(K, 'unsigned int', dict(base, val=v), (lambda w: w == v) if v < 2 else None, '%d' % v)):
            J.get(K, 'unsigned int', dict(base, old=low(w, 1)), lambda y: y == v, '%d' % v)
        if v < 2:
            for w in set(J.set(K, 'bool', dict(base, val=v), lambda w: w == v, '%d' % v)):
                J.get(K, 'bool', dict(base, old=low(w, 1)), lambda y: y == v, '%d' % v)


def enums(m, J):
    cls = 'CEnumParameterType'
    K = Kind(m, cls, sizefield(m))
    E = ('enums',)
    for s in (1, 2, 4):
        lo, hi = -(1 << (8 * s - 1)), (1 << (8 * s - 1)) - 1
        for k in sorted({0, 1, -1, lo, hi, 5}):
            j = 3
            base = {'S': s, E: (('lit', k), ('other', j))}
            what = 'the enumerator %d of %d bytes' % (k, s)
            for w in set(J.set(K, 'int', dict(base, val=k), lambda w: sx(w, s) == k, what)):
                J.get(K, 'int', dict(base, old=low(w, s)), lambda y: wrap('int', y) == k, what)
            for v in (k + 1, k - 1, k + (1 << 8 * s), k - (1 << 8 * s), k ^ 0x40):
                if -(1 << 31) <= v < 1 << 31 and v != j:
                    for raw in (0, 1):
                        J.set(K, 'int', dict(base, val=v, raw=raw),
                              None if not raw or sx(v, s) not in (k, j) or not -(1 << (8 * s - 1)) <= v < 1 << 8 * s else (lambda w: sx(w, s) in (k, j)),
                              '%d, which is no enumerator,' % v, False)
            # numbers and literals, in logical value space
            for t, x in (('lit', k), ('other', j), ('%d' % k, k), ('nolit', None), ('%d' % (k + 1), None), ('', None)):
                for w in set(J.set(K, 'std::string', dict(base, val=t), (lambda w: sx(w, s) == x) if x is not None else None, "'%s'" % t)):
                    f = K.method('fromBlackboard', 'std::string')
                    got = [y for ok, y in K.outcomes('fromBlackboard', 'std::string', dict(base, old=low(w, s), val='?'))
                           if y != '?' and ok is not False]
                    for y in got:
                        if y != ('lit' if x == k else 'other'):
                            J.say(f, 'enumerator %d is shown as %r instead of its name' % (x, y), 'lit')
                    if not got:
                        J.say(f, 'enumerator %d is not shown by its name' % x, 'nolit')
            # raw
            for t in ('%d' % low(k, s), '0x%X' % low(k, s)):
                for w in set(J.set(K, 'std::string', dict(base, val=t, raw=1), lambda w: sx(w, s) == k, "raw '%s'" % t)):
                    for hx in (0, 1):
                        for y in set(J.get(K, 'std::string', dict(base, old=low(w, s), raw=1, hex=hx), lambda y: isinstance(y, str), t)):
                            J.set(K, 'std::string', dict(base, val=y, raw=1), lambda z: sx(z, s) == k,
                                  "'%s', the raw text shown for enumerator %d of %d bytes," % (y, k, s))
            if s < 4:
                J.set(K, 'std::string', dict(base, val='0x%X' % (low(k, s) + (1 << 8 * s)), raw=1), None,
                      "raw value 0x%X in %d bytes" % (low(k, s) + (1 << 8 * s), s))
        base = {'S': s, E: (('lit', hi + 1), ('other', lo - 1))}
        if s < 4:
            for v in (hi + 1, lo - 1):
                J.set(K, 'int', dict(base, val=v), None, 'the enumerator %d, which does not fit in %d bytes,' % (v, s))
    tg = {f.id for f in m.fn('CElement::getChild')}
    for f in m.funcs.values():
        if f.cls == cls and not f.ctor and any(n['k'] == 'Call' and m.targets(f, n) & tg for n in f.nodes):
            J.n += 1


class Parse(Scans, Streams, Checker):
    SMALL = 60
    K = 200
    KEXIT = 200

    def __init__(self, m):
        self.m = m
        self.files = {f.file for f in m.funcs.values() if f.n == 'convertTo' and not f.cls}

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if not f.cls and f.file in self.files}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        h = self.scan_call(eng, st, fr, i, n, tg, obj, args)
        if h is not None:
            return h
        return None


TEXTS = ('', '0', '1', '-1', '+1', '12', '-0', '007', '1 ', ' 1', '1\t', '\n1', '1x', 'x', '-', '1-', '0x', '0x1', '0xfF', '0x1G', '-0x1', '0x-1', '0x 1',
         '0X1', '1.5', '1.', '.5', '1e3', '-2.5e-3', '1e', '1e400', '1e39', 'nan', 'inf', 'true', 'TRUE', 'false', '2', 'True', '127', '128', '-128',
         '-129', '255', '256', '32767', '32768', '65535', '65536', '-32768', '-32769', '2147483647', '2147483648', '-2147483648', '-2147483649',
         '4294967295', '4294967296', '0x7f', '0x80', '0xff', '0x100', '0xFFFF', '0x10000', '0x7fffffff', '0x80000000', '0xFFFFFFFF', '0x100000000',
         '9223372036854775807', '9223372036854775808', '18446744073709551615', '18446744073709551616', '-9223372036854775808', '1,5', '1-2')


def parsers(m, J):
    fs = [f for f in m.funcs.values() if f.n == 'convertTo' and not f.cls and len(f.params) == 2 and not f.q.startswith('details::')]
    if not fs:
        raise AnalysisError('anchor vanished: text to number conversions')
    h = handlers()
    for f in sorted(fs, key=lambda f: f.id):
        ty = bare(f.params[1]['t'].rstrip('& '))
        e = Engine(m, Parse(m))

        def setup(eng, st, fr):
            refparams(eng, st, fr)
            p, q = f.params
            if p['t'].endswith('&'):
                eng.wr(st, refparam(eng, fr, p), eng.T.mk('in', 'val'), ('w', 0))
            else:
                st.env[('v', fr.id, p['u'])] = eng.T.mk('in', 'val')
            eng.wr(st, refparam(eng, fr, q), eng.T.mk('in', 'old'), ('w', 0))
        outs = e.run(f, setup)
        V = e.T.mk('in', 'val')
        for t in TEXTS:
            J.n += 1
            env = dict(h)
            env[V] = t
            want = convert(ty, t)
            res = set()
            for st, rt in outs:
                if not feasible(e, st, env):
                    continue
                k = e.truth(st, rt)
                if k is None:
                    v = ev(e, rt, env)
                    k = None if v is None else bool(v)
                res.add((k, ev(e, e.rd(st, e.T.mk('Lvar', -1, f.params[1]['u'])), env) if k else None))
            if want is None:
                if any(k is not False for k, v in res):
                    J.say(f, 'the text %r is accepted as a %s' % (t, ty), 'acc')
            elif not any(k is not False for k, v in res):
                J.say(f, 'the text %r is refused as a %s' % (t, ty), 'ref')
            else:
                for k, v in res:
                    if k is not False and (v is None or v != want):
                        J.say(f, 'the text %r is converted to %s as %r' % (t, ty, v), 'val')


class Access(Checker):
    SMALL = 60
    K = 60
    KEXIT = 60

    def __init__(self, m):
        self.m = m
        bb = 'CParameterBlackboard::'
        self.rd, self.wr = ids(m, bb + 'readInteger'), ids(m, bb + 'writeInteger')
        self.size = ids(m, PT + '::getSize', PAR + '::getSize')
        sub = m.subclasses(PT)
        self.to = {f.id for f in m.funcs.values() if f.cls in sub and f.n == 'toBlackboard'}
        self.fr = {f.id for f in m.funcs.values() if f.cls in sub and f.n == 'fromBlackboard'}
        self.n = 0

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == PAR and f.n != 'getSize'}

    def init(self, eng, f):
        return frozenset()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T

        def val(k):
            return eng.rd(st, args[k]) if eng.islv(args[k]) else args[k]

        def lv(x):
            y = T.get(x)
            return y[1].i if y[0] == 'addr' else x if eng.islv(x) else None
        if tg & self.size:
            return [(st, T.mk('in', 'S'))]
        if tg & self.to and len(args) == 3:
            self.n += 1
            if val(0) != T.mk('in', 'val'):
                eng.report(fr, i, 'what is converted is not the value given')
            q = st.copy()
            q.auto = q.auto | {'no'}
            eng.wr(st, args[1], T.mk('conv'), ('w', fr.id, i))
            eng.wr(q, args[1], T.mk('refused'), ('w', fr.id, i))
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.wr and len(args) == 3:
            self.n += 1
            p = lv(args[0])
            v = None if p is None else castless(eng, eng.rd(st, p))
            if 'no' in st.auto:
                eng.report(fr, i, 'the blackboard is written although the value was refused')
            elif v is None or T.get(v)[0] != 'conv':
                eng.report(fr, i, 'what is written in the blackboard is not the converted value')
            if castless(eng, val(1)) != T.mk('in', 'S'):
                eng.report(fr, i, 'the blackboard is not written with the size of the parameter')
            st.auto = st.auto | {'wr'}
            return [(st, None)]
        if tg & self.rd and len(args) == 3:
            self.n += 1
            p = lv(args[0])
            v = None if p is None else castless(eng, eng.rd(st, p))
            if v is None or T.get(v) != ('int', 0):
                eng.report(fr, i, 'the word read from the blackboard is not cleared first')
            if castless(eng, val(1)) != T.mk('in', 'S'):
                eng.report(fr, i, 'the blackboard is not read with the size of the parameter')
            if p is not None:
                eng.wr(st, p, T.mk('blk'), ('w', fr.id, i))
            return [(st, None)]
        if tg & self.fr and len(args) == 3:
            self.n += 1
            if T.get(castless(eng, val(1)))[0] != 'blk':
                eng.report(fr, i, 'what is converted is not the word read from the blackboard')
            q = st.copy()
            q.auto = q.auto | {'no'}
            if eng.islv(args[0]):
                eng.wr(st, args[0], T.mk('got'), ('w', fr.id, i))
            return [(st, eng.TRUE), (q, eng.FALSE)]
        fi = n.get('f') or {}
        if fi.get('n') == 'sync':
            return [(st, eng.TRUE)]
        if fi.get('n') in ('appendParameterPathToError', 'setError', 'appendToError'):
            return [(st, None)]
        return None


def accessors(m, J):
    fs = [f for f in m.funcs.values() if f.cls == PAR and f.n in ('access', 'doSetValue', 'doGetValue') and len(f.params) == 3]
    if not fs:
        raise AnalysisError('anchor vanished: accessors of scalar parameters')
    for f in sorted(fs, key=lambda f: f.id):
        for setting in ((True,) if f.n == 'doSetValue' else (False,) if f.n == 'doGetValue' else (True, False)):
            c = Access(m)
            e = Engine(m, c)

            def setup(eng, st, fr):
                refparams(eng, st, fr)
                p, q = f.params[:2]
                if p['t'].endswith('&'):
                    eng.wr(st, refparam(eng, fr, p), eng.T.mk('in', 'val'), ('w', 0))
                else:
                    st.env[('v', fr.id, p['u'])] = eng.T.mk('in', 'val')
                if q['t'] == 'bool':
                    st.env[('v', fr.id, q['u'])] = eng.TRUE if setting else eng.FALSE
            outs = e.run(f, setup)
            J.n += c.n
            if not c.n:
                raise AnalysisError('anchor vanished: conversion in ' + f.id)
            J.vio += e.violations
            for st, rt in outs:
                k = None if rt is None or f.rt == 'void' else e.truth(st, rt)
                if 'no' in st.auto and k is not False and f.rt != 'void':
                    J.say(f, 'success is returned although the conversion refused the value', 'lost')
                if 'no' in st.auto or k is False:
                    continue
                if setting and 'wr' not in st.auto:
                    J.say(f, 'success is returned although nothing was written', 'nowr')
                if not setting:
                    v = e.rd(st, e.T.mk('Lvar', -1, f.params[0]['u']))
                    if v is None or e.T.get(v)[0] != 'got':
                        J.say(f, 'what is returned is not the converted value', 'noget')


def check(m, tier):
    vio = []
    J = Judge(vio)
    integers(m, J)
    fixed(m, J)
    floats(m, J)
    booleans(m, J)
    enums(m, J)
    parsers(m, J)
    accessors(m, J)
    return result(None, {'instances_checked': J.n}, dedup(vio))
