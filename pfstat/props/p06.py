"""Value domains. (A) Every conversion of a user value to its stored form (toBlackboard overrides of the parameter
types) is analysed path by path: on each path that reports success the facts must compare the stored value's source
with both bounds of the declared domain, in the right direction and on the un-narrowed value (integers, bit fields,
reals), or show it equal to a declared member (enumerations), or 0/1 (booleans); text must have been converted by a
conversion that reported success. (B) Every integer written to a blackboard by a parameter is the output of such a
conversion that succeeded on that path; a string is written only when shorter than its storage. (C) Array elements
are accessed only at an index proven below the array length."""
from .common import *
from ..ranges import Ranges, Lin
from ..engine import WIDTH

TECHNIQUE = 'path-sensitive dataflow: branch facts required on every accepting path'
NOTE = 'Decides that bounds are enforced on every accepting path; the arithmetic that derives a bound (fixed-point range, size masks) is decided by P30 only as far as shifts and masks go.'
CONV = {'convertTo', 'convertToVia'}
PARSE = {'strtol', 'strtoul', 'strtoll', 'strtoull', 'strtod', 'strtof', 'atoi', 'atol', 'atoll', 'atof', 'sscanf'}


def strip(T, t, narrow=True):
    """source of a converted value; narrow=False: only through conversions that keep the value's width"""
    while True:
        x = T.get(t)
        if x[0] == 'cast':
            a, d = WIDTH.get(x[1].replace('const ', '')), WIDTH.get((x[3] if len(x) > 3 else '').replace('const ', ''))
            if not narrow and a and d and a[0] < d[0]:
                return t
            t = x[2].i
        elif x[0] in ('fcast',):
            t = x[2].i
        else:
            return t


def subs(T, t, out=None, d=0):
    out = set() if out is None else out
    if t in out or d > 25:
        return out
    out.add(t)
    for y in T.get(t)[1:]:
        for z in (y if isinstance(y, tuple) else (y,)):
            if hasattr(z, 'i'):
                subs(T, z.i, out, d + 1)
    return out


class A(Checker):
    SMALL = 70
    K = 150
    KEXIT = 150

    def __init__(self, m, f, dom):
        self.m, self.dom = m, dom
        self.exits = 0

    def relevant(self, eng):
        m = self.m
        out = set()
        for f in m.funcs.values():
            if f.cls and m.derives(f.cls, 'CParameterType') or (f.cls or '').startswith('CIntegerParameterType<'):
                if f.n not in ('isEncodable', 'signExtend', 'setOutOfRangeError', 'getKind', 'getSize', 'fromXml', 'toXml') \
                        and not f.ctor and not f.dtor:
                    out.add(f.id)
        return out

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}
        nm = fi.get('n')
        if nm in CONV:
            q = st.copy()
            v = T.mk('conv', fr.id, i, r(eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]))
            eng.wr(st, args[1], v, ('w', fr.id, 'op', i))
            eng.wr(q, args[1], T.mk('unconverted', fr.id, i), ('w', fr.id, 'op', i))
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if nm == 'binaryCopy' and args:
            v = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
            return [(st, T.mk('bits', r(v)))]
        if nm == 'signExtend' and args:
            v = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
            if eng.islv(args[0]):
                eng.wr(st, args[0], T.mk('sext', r(v)), ('w', fr.id, 'op', i))
            return [(st, eng.const(0))]
        if nm == 'isEncodable':
            v = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
            return [(st, T.mk('encodable', r(strip(T, v, False)), 'B'))]
        return None

    def bound(self, eng, t, which):
        """t stands for the lower ('min') / upper ('max') bound of the domain"""
        T = eng.T
        s = strip(T, t)
        x = T.get(s)
        if self.dom[which]:
            return x[0] == 'fld' and x[2] in self.dom[which]
        sb = subs(T, s)
        return any(T.get(z)[0] == 'fld' and T.get(z)[2] in self.dom['derived'] or
                   T.get(z)[0] == 'lib' and str(T.get(z)[1]).startswith('std::numeric_limits') for z in sb)

    def on_exit(self, eng, st, fr, ret):
        T = eng.T
        if ret is None or eng.truth(st, ret) is False:
            return
        self.exits += 1
        kind = self.dom['kind']
        outp = [p for p in fr.f.params if p['t'] in ('unsigned int &', 'unsigned long &', 'unsigned long long &')][0]
        W = eng.rd(st, refparam(eng, fr, outp))
        allw = subs(T, W)
        f = fr.f
        txt = 'basic_string' in f.params[0]['t']
        if any(T.get(z)[0] == 'unconverted' for z in allw):
            return eng.report(fr, -1, 'text that could not be converted is accepted')
        if txt:
            bad = [z for z in allw if T.get(z)[0] in ('lib', 'libcall', 'ret') and str(T.get(z)[1]).split('::')[-1] in PARSE]
            if bad:
                return eng.report(fr, -1, 'text is accepted without checking that all of it is a number')
        if T.get(W)[0] == 'init' and T.get(W)[1] == -1:
            return eng.report(fr, -1, 'success is reported without producing a value')
        if kind == 'bool':
            w = strip(T, W)
            if T.get(w)[0] == 'int':
                if T.get(w)[1] not in (0, 1):
                    eng.report(fr, -1, 'a value that is neither 0 nor 1 is stored')
                return
            if f.params[0]['t'] == 'bool' or eng.isbool(w):
                return
            ok = False
            for k, pol in st.facts.items():
                if isinstance(k, int) and T.get(k)[0] == 'lt':
                    a, b = T.get(k)[1].i, T.get(k)[2].i
                    if T.get(a) == ('int', 1) and not pol and strip(T, b, False) == strip(T, W, False):
                        ok = True
                    if T.get(b) == ('int', 2) and pol and strip(T, a, False) == strip(T, W, False):
                        ok = True
            if not ok:
                eng.report(fr, -1, 'a value that may be neither 0 nor 1 is accepted')
            return
        # raw fixed point: encodability
        w0 = strip(T, W)
        if kind == 'fixed':
            for z in allw | {w0}:
                if st.facts.get(T.mk('encodable', r(z), 'B')) is True or st.facts.get(
                        T.mk('encodable', r(strip(T, z, False)), 'B')) is True:
                    return
        lo = hi = pos = False
        member = kind != 'enum'
        srcs = {strip(T, z) for z in allw}

        def linked(t, exact):
            u = strip(T, t, not exact)
            if exact:
                if self.dom['kind'] == 'bits':
                    return u in allw
                return strip(T, u) == w0 and (u == w0 or T.get(u)[0] == 'cast' and strip(T, u, False) == w0)
            if self.dom['kind'] in ('float', 'fixed'):
                s2 = {z for z in subs(T, u) if T.get(z)[0] in ('init', 'conv')}
                return bool(s2 & {z for z in allw if T.get(z)[0] in ('init', 'conv')})
            return False
        real = kind in ('float', 'fixed')
        for k, pol in st.facts.items():
            if not isinstance(k, int):
                continue
            x = T.get(k)
            if x[0] == 'eq' and pol and kind == 'enum':
                for a, b in ((x[1].i, x[2].i), (x[2].i, x[1].i)):
                    z = T.get(strip(T, a))
                    if z[0] == 'fld' and z[2] in self.dom['member'] and strip(T, b) == w0:
                        member = True
            if x[0] in ('lt', 'flt', 'le'):
                a, b = x[1].i, x[2].i
                # a<b / a<=b is `pol`
                if pol:
                    if self.bound(eng, a, 'min') and linked(b, not real):
                        lo = True
                        pos = True
                    if self.bound(eng, b, 'max') and linked(a, not real):
                        hi = True
                        pos = True
                else:
                    if self.bound(eng, b, 'min') and linked(a, not real):
                        lo = True
                    if self.bound(eng, a, 'max') and linked(b, not real):
                        hi = True
            if x[0] in ('lib', 'call') and pol and 'isfinite' in str(x[1]):
                pos = True
        if kind == 'bits':
            lo = True
        if not member:
            eng.report(fr, -1, 'a number that is not one of the declared values is accepted')
        elif not lo:
            eng.report(fr, -1, 'a value that may be below the declared range is accepted')
        elif not hi:
            eng.report(fr, -1, 'a value that may be above the declared range is accepted')
        elif real and not pos:
            eng.report(fr, -1, 'a value that is not a number (NaN) may be accepted')




class B(Ranges):
    SMALL = 40

    def __init__(self, m):
        Ranges.__init__(self)
        self.m = m
        self.wr_int = {f.id for f in m.fn('CParameterBlackboard::writeInteger')}
        self.wr_str = {f.id for f in m.fn('CParameterBlackboard::writeString')}
        self.tb = {f.id for f in m.funcs.values() if f.n == 'toBlackboard'}
        self.fb = {f.id for f in m.funcs.values() if f.n == 'fromBlackboard'}
        self.al = getter_len(m)

    def interesting(self, eng, st, lv):
        return False

    def relevant(self, eng):
        use = self.m.reaching(self.wr_int | self.wr_str | {f.id for f in self.m.fn('CParameterBlackboard::readInteger')})
        out = {x for x in use if x in self.m.funcs and self.m.funcs[x].cls and
               self.m.derives(self.m.funcs[x].cls, 'CBaseParameter')}
        return out | {f.id for f in self.m.fn('CArrayParameter::getIndex')}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        if tg & self.tb:
            if len(args) > 1 and eng.islv(args[1]):
                q = st.copy()
                eng.wr(st, args[1], T.mk('accepted', fr.id, i), ('w', fr.id, 'op', i))
                eng.wr(q, args[1], T.mk('refused', fr.id, i), ('w', fr.id, 'op', i))
                return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.wr_int:
            x = T.get(args[0])
            v = eng.rd(st, x[1].i) if x[0] == 'addr' else None
            self.sites.add((fr.f.id, i))
            if v is None or T.get(v)[0] != 'accepted':
                eng.report(fr, i, 'a value that was not accepted by the type of the parameter is written')
            return None
        if tg & self.wr_str:
            self.sites.add((fr.f.id, i))
            a = args[0]
            v = T.get(eng.rd(st, a)) if eng.islv(a) else T.get(a)
            if v[0] == 'strlit' or 'strlit' in T.show(eng.rd(st, a) if eng.islv(a) else a):
                return None
            ok = False
            z = self.size(eng, st, a)
            for k, pol in st.facts.items():
                if isinstance(k, int) and T.get(k)[0] == 'lt':
                    p, q = T.get(k)[1].i, T.get(k)[2].i
                    lz = self.lin(eng, z)
                    if pol:      # p < q : len(+c) < max+1
                        d = self.lin(eng, q).add(self.lin(eng, p), -1).add(lz)      # q - p + len
                        s = -1
                    else:        # q <= p
                        d = self.lin(eng, p).add(self.lin(eng, q), -1).add(lz)
                        s = 0
                    # len <= d + s ; d must be maxLength + c with c + s <= 0 (room for the terminator)
                    if len(d.d) == 1:
                        (t, co), = d.d.items()
                        if co == 1 and T.get(t)[0] == 'fld' and 'ength' in T.get(t)[2] and d.c + s <= 0:
                            ok = True
            if not ok:
                eng.report(fr, i, 'a string is written without being proven to fit its storage with its terminator')
        return Ranges.on_call(self, eng, st, fr, i, n, tg, obj, args)


def getter_len(m):
    return getter_field(m, 'CParameterType::getArrayLength') if m.byq.get('CParameterType::getArrayLength') else None


class Arr(Ranges):
    """array element accesses"""
    SMALL = 0

    def __init__(self, m):
        Ranges.__init__(self)
        self.m = m

    def interesting(self, eng, st, lv):
        return False

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.n not in ('doSet', 'doGet', 'getArrayLength') and
                (f.cls == 'CArrayParameter' or f.file.endswith('/ArrayParameter.cpp') or f.file == 'ArrayParameter.cpp')} \
            - {f.id for f in self.m.funcs.values() if f.n in ('setDefaultValues',)}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}
        if fi.get('n') == 'getArrayLength':
            return [(st, T.mk('hvs', 'arraylength'))]
        if fi.get('n') == 'convertTo' or fi.get('n') == 'operator>>':
            return None
        if fi.get('n') in ('doSet', 'doGet') and fr.f.cls == 'CArrayParameter':
            self.sites.add((fr.f.id, i))
            if not self.elem(eng, st, fr):
                eng.report(fr, i, 'an array element is accessed at an index that is not proven below the array length')
        if fi.get('n') == 'doGetValue' and (fi.get('cls') == 'CParameter'):
            self.sites.add((fr.f.id, i))
            v = eng.rd(st, args[1]) if eng.islv(args[1]) else args[1]
            idx = [T.get(z) for z in subs(T, v) if T.get(z)[0] == 'bin' and T.get(z)[1] == '*']
            al = T.mk('hvs', 'arraylength')
            if not any(self.proves(eng, st, eng.arith('+', y.i, eng.const(1)), al) for x in idx for y in x[2:4]):
                eng.report(fr, i, 'an array element is read at an index that is not proven below the array length')
        return Ranges.on_call(self, eng, st, fr, i, n, tg, obj, args)

    def elem(self, eng, st, fr):
        """some loop counter c (plus the start index) is proven below the array length"""
        T = eng.T
        al = T.mk('hvs', 'arraylength')
        als = self.lin(eng, al)
        cnt = {}
        for k, pol in st.facts.items():
            if isinstance(k, int) and T.get(k)[0] == 'lt' and pol:
                a = T.get(k)[1].i
                if T.get(a)[0] in ('phi',) or T.get(strip(T, a))[0] in ('phi', 'int'):
                    cnt[a] = T.get(k)[2].i
            if isinstance(k, int) and T.get(k)[0] == 'eq' and not pol:
                for a, b in ((1, 2), (2, 1)):
                    z = T.get(k)[a].i
                    if T.get(z)[0] == 'phi':
                        cnt[z] = T.get(k)[b].i
        start = [p for p in fr.f.params if p['t'] == 'unsigned long']
        base = eng.const(0)
        if len(start) > 1 or (start and 'ffset' not in start[0]['n']):
            base = eng.rd(st, eng.resolve_var(st, fr, start[0]['u']))
        for c, lim in cnt.items():
            # the counter goes up to lim; start + lim <= array length
            if self.proves(eng, st, eng.arith('+', lim, base), al):
                return True
        return False


def domains(m):
    out = {}
    for f in m.funcs.values():
        c = f.cls or ''
        if f.n != 'toBlackboard' or c == 'CParameterType':
            continue
        if c.startswith('CIntegerParameterType<'):
            kind = 'int'
        else:
            kind = {'CBitParameterType': 'bits', 'CBooleanParameterType': 'bool', 'CEnumParameterType': 'enum',
                    'CFixedPointParameterType': 'fixed', 'CFloatingPointParameterType': 'float'}.get(c)
        if kind is None:
            raise AnalysisError('parameter type %s has no domain rule' % c)
        fl = m.classes[c]['fields'] if c in m.classes else []
        d = {'kind': kind, 'min': {x['u'] for x in fl if 'min' in x['n'].lower()},
             'max': {x['u'] for x in fl if 'max' in x['n'].lower()}, 'member': set(), 'derived': set()}
        if kind == 'enum':
            d['member'] = {getter_field(m, 'CEnumValuePair::getNumerical')}
            d['min'] = d['max'] = set()
            d['derived'] = {getter_field(m, 'CParameterType::getSize')}
        if kind == 'fixed':
            d['derived'] = {x['u'] for x in fl}
        out[f.id] = d
    return out


def check(m, tier):
    vio, paths, exits, ops = [], 0, 0, 0
    doms = domains(m)
    if len(doms) < 10:
        raise AnalysisError('conversions vanished')
    seen = set()
    for fid, d in sorted(doms.items()):
        f = m.funcs[fid]
        if f.acc != PUBLIC:
            continue
        c = A(m, f, d)
        eng = Engine(m, c)
        eng.run(f, refparams)
        ops += 1
        exits += c.exits
        paths += eng.stats['path_states']
        vio += eng.violations
    wr = set()
    for f in m.funcs.values():
        if not f.cls or not m.derives(f.cls, 'CBaseParameter') or f.ctor or f.dtor or f.n in ('setDefaultValues',):
            continue
        if f.n in ('accessValue', 'access', 'serializeXmlSettings', 'doSetValue', 'doSet') and f.cls != 'CBaseParameter' \
                or f.n in ('accessValue', 'serializeXmlSettings'):
            c = B(m)
            eng = Engine(m, c)
            eng.run(f)
            wr |= c.sites
            paths += eng.stats['path_states']
            vio += eng.violations
    arr = set()
    for f in m.funcs.values():
        if f.cls != 'CArrayParameter' or f.ctor or f.dtor or f.acc != PUBLIC and f.n not in (
                'getValues', 'setValues', 'accessValue', 'doSetValue', 'doGetValue', 'access'):
            continue
        if any(p['t'] == 'unsigned long' for p in f.params) and f.n in ('setValues', 'getValues') and len(f.params) > 2:
            continue
        c = Arr(m)
        eng = Engine(m, c)
        eng.run(f)
        arr |= c.sites
        paths += eng.stats['path_states']
        vio += eng.violations
    if not wr or not arr:
        raise AnalysisError('no parameter write found')
    return result(None, {'instances_checked': ops + len(wr) + len(arr), 'conversions': ops, 'accepting_exits': exits,
                         'parameter_writes': len(wr), 'array_accesses': len(arr), 'path_states': paths}, dedup(vio))
