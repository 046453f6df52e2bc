"""Floating point values, strings, streams and text-to-number conversions over the terms of the path engine (handlers for evalterm.ev).
Terms: ('text', type1, R1, type2, R2...) = what was streamed; ('cvok', T, R) / ('cv', T, R) = does convertTo<T> accept the text / its result;
('pun', T, R) = the same bytes seen as a T."""
import math
import re
import struct
from .evalterm import WIDTH, wrap
from .model import bare

FLT_MAX = struct.unpack('f', struct.pack('I', 0x7f7fffff))[0]


def f32(v):
    try:
        return struct.unpack('f', struct.pack('f', v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def convert(ty, s):
    """utility's convertTo<ty>: value or None when refused (model, itself checked against the source)"""
    ty = bare(ty)
    if ty == 'bool':
        return {'0': 0, 'FALSE': 0, 'false': 0, '1': 1, 'TRUE': 1, 'true': 1}.get(s)
    if any(c in s for c in '\r\n\t\v '):
        return None
    if ty in ('float', 'double'):
        if s[:2] == '0x' or not re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', s):
            return None
        v = float(s)
        if ty == 'float':
            v = f32(v)
        return v if math.isfinite(v) else None
    w = WIDTH.get(ty)
    if w is None:
        return None
    if '-' in s and not w[1]:
        return None
    if s[:2] == '0x':
        if not re.fullmatch(r'[0-9a-fA-F]+', s[2:]):
            return None
        v = int(s[2:], 16)
    else:
        if not re.fullmatch(r'[+-]?\d+', s):
            return None
        v = int(s)
    lo, hi = (-(1 << (w[0] - 1)), (1 << (w[0] - 1)) - 1) if w[1] else (0, (1 << w[0]) - 1)
    return v if lo <= v <= hi else None


def scan(ty, base, s):
    """formatted extraction of the standard streams: (value, failed, at end)"""
    ty = bare(ty)
    k = len(s) - len(s.lstrip(' \t\n\v\f\r'))
    t = s[k:]
    if ty in ('float', 'double'):
        g = re.match(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', t)
        if not g:
            return 0.0, 1, int(not t)
        v = float(g.group(0))
        v = f32(v) if ty == 'float' else v
        return (v, 0, int(g.end() == len(t))) if math.isfinite(v) else (FLT_MAX, 1, int(g.end() == len(t)))
    if ty == 'bool':
        g = re.match(r'[+-]?\d+', t)
        if not g or int(g.group(0)) not in (0, 1):
            return 0, 1, int(not t or bool(g) and g.end() == len(t))
        return int(g.group(0)), 0, int(g.end() == len(t))
    w = WIDTH.get(ty)
    if ty in ('unsigned char', 'signed char', 'char'):
        return (ord(t[0]), 0, 0) if t else (0, 1, 1)
    g = re.match(r'[+-]?(0[xX])?[0-9a-fA-F]+' if base == 16 else r'[+-]?\d+', t)
    if not g:
        return 0, 1, int(not t)
    v = int(g.group(0).replace('0x', '').replace('0X', '') if base == 16 else g.group(0), base)
    end = int(g.end() == len(t))
    if w[1]:
        lo, hi = -(1 << (w[0] - 1)), (1 << (w[0] - 1)) - 1
    else:
        hi = (1 << w[0]) - 1
        lo = -hi
    if not lo <= v <= hi:
        return (hi if v > hi else lo), 1, end
    return v % (1 << w[0]) if not w[1] else v, 0, end


def show_float(v, fixed, prec):
    if fixed:
        return '%.*f' % (prec, v)
    return '%.*g' % (prec or 1, v)


def plain(q):
    """last component of a qualified name, template arguments dropped"""
    if 'operator' in q:
        return q[q.rindex('operator'):].split('<char')[0]
    while '<' in q and re.search(r'<[^<>]*>', q):
        q = re.sub(r'<[^<>]*>', '', q)
    return q.split('::')[-1]


class Stream:
    def __init__(s):
        s.base, s.upper, s.showbase, s.fixed, s.prec, s.width, s.fill = 10, False, False, False, 6, 0, ' '
        s.out = ''

    def put(s, t):
        s.out += t.rjust(s.width, s.fill)
        s.width = 0

    def num(s, ty, v):
        ty = bare(ty)
        if isinstance(v, float) or ty in ('float', 'double'):
            return s.put(show_float(float(v), s.fixed, s.prec))
        if ty == 'bool':
            return s.put(str(int(bool(v))))
        w = WIDTH.get(ty)
        if w is None:
            return False
        if ty in ('unsigned char', 'signed char', 'char'):
            return s.put(chr(v & 255))
        v = wrap(ty, v)
        if s.base == 16:
            t = '%x' % (v & ((1 << w[0]) - 1))
            t = ('0x' if s.showbase and v else '') + t
            return s.put(t.upper() if s.upper else t)
        return s.put(str(v))


def handlers(extra=None):
    h = {}

    def i_(x):
        return x.i if hasattr(x, 'i') else x
    box = {}

    def fcast(x, s):
        v = s(i_(x[2]))
        if v is None or isinstance(v, str):
            return None
        ty = bare(x[1])
        if ty == 'float':
            return f32(float(v))
        if ty == 'double':
            return float(v)
        if isinstance(v, float):
            if not math.isfinite(v):
                return None
            v = int(v)
            w = WIDTH.get(ty)
            if w and wrap(ty, v) != v:
                box['ub'] = True
                return None
        return v

    def lib(x, s):
        n = plain(x[1]) if isinstance(x[1], str) else ''
        if len(x) == 3 and x[2] == 'default' and x[1].startswith('std::basic_string<'):
            return ''
        lst = next((y for y in x[2:] if isinstance(y, tuple)), ())
        a = [s(i_(y)) for y in lst if hasattr(y, 'i') or isinstance(y, int)]
        if 'numeric_limits<' in x[1] and not a:
            ty = bare(x[1].split('numeric_limits<', 1)[1].split('>')[0])
            if ty == 'float':
                return {'max': FLT_MAX, 'lowest': -FLT_MAX, 'min': 2.0 ** -126, 'infinity': math.inf}.get(n)
            if ty == 'double':
                return {'max': 1.7976931348623157e308, 'lowest': -1.7976931348623157e308, 'min': 2.0 ** -1022, 'infinity': math.inf}.get(n)
            w = WIDTH.get(ty)
            if w:
                return {'max': (1 << (w[0] - w[1])) - 1, 'min': -(1 << (w[0] - 1)) if w[1] else 0,
                        'lowest': -(1 << (w[0] - 1)) if w[1] else 0}.get(n)
        if 'operator+' in x[1] and len(a) == 2:
            if None in a:
                return None
            a = [chr(y) if isinstance(y, int) else y for y in a]
            return a[0] + a[1] if all(isinstance(y, str) for y in a) else None
        if n == 'to_string' and len(a) == 1 and a[0] is not None:
            return str(a[0]) if isinstance(a[0], int) else '%f' % a[0]
        o = x[2] if len(x) > 2 and hasattr(x[2], 'i') else None
        if o is not None:
            t = s(o.i)
            if isinstance(t, str) and None not in a:
                if n.startswith(('find', 'rfind')) and a and isinstance(a[0], int):
                    a[0] = chr(a[0] & 255)
                if n == 'rfind' and isinstance(a[0], str):
                    k = t.rfind(a[0], 0, len(t) if len(a) < 2 or a[1] >= len(t) else a[1] + len(a[0]))
                    return k if k >= 0 else (1 << 64) - 1
                if n == 'compare' and len(a) == 3 and isinstance(a[2], str):
                    p = t[a[0]:a[0] + a[1]]
                    return (p > a[2]) - (p < a[2])
                if n == 'compare' and len(a) == 1 and isinstance(a[0], str):
                    return (t > a[0]) - (t < a[0])
                if n == 'substr' and a and 0 <= a[0] <= len(t):
                    return t[a[0]:] if len(a) < 2 else t[a[0]:a[0] + a[1]]
                if n in ('size', 'length'):
                    return len(t)
                if n == 'empty':
                    return int(not t)
                if n in ('c_str', 'str'):
                    return t
                if n in ('find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of') and a and isinstance(a[0], str):
                    k = [j for j, c in enumerate(t) if (c in a[0]) == (not n.endswith('_not_of'))]
                    return k[-1 if 'last' in n else 0] if k else (1 << 64) - 1
                if n == 'find' and a and isinstance(a[0], str):
                    k = t.find(a[0])
                    return k if k >= 0 else (1 << 64) - 1
                if n in ('front', 'back') and t:
                    return ord(t[0 if n == 'front' else -1])
                if n in ('at', 'operator[]') and len(a) == 1 and 0 <= a[0] < len(t):
                    return ord(t[a[0]])
        if len(a) == 1 and a[0] is not None and not isinstance(a[0], str):
            v = a[0]
            try:
                if n == 'isfinite':
                    return int(math.isfinite(v))
                if n == 'isnan':
                    return int(math.isnan(v))
                if n == 'isinf':
                    return int(math.isinf(v))
                if n in ('fabs', 'abs'):
                    return abs(v)
                if n in ('round', 'lround', 'llround', 'roundf'):
                    w = math.floor(abs(v) + 0.5) if abs(v) < 2.0 ** 52 else abs(v)
                    w = math.copysign(w, v)
                    return float(w) if n in ('round', 'roundf') else int(w)
                if n in ('floor', 'ceil', 'trunc'):
                    return float(getattr(math, n)(v))
                if n in ('rint', 'nearbyint'):
                    return float(round(v))
            except (OverflowError, ValueError):
                return None
        if n in ('max', 'min') and len(a) == 2 and None not in a:
            return (max if n == 'max' else min)(a)
        if n in ('pow', 'ldexp') and len(a) == 2 and None not in a:
            return float(a[0]) ** a[1] if n == 'pow' else math.ldexp(a[0], int(a[1]))
        return None

    def text(x, s):
        o = Stream()
        for ty, t in zip(x[1::2], x[2::2]):
            if ty == 'm':
                k = t
                if k in ('hex', 'dec', 'oct'):
                    o.base = {'hex': 16, 'dec': 10, 'oct': 8}[k]
                elif k in ('uppercase', 'nouppercase'):
                    o.upper = k == 'uppercase'
                elif k in ('showbase', 'noshowbase'):
                    o.showbase = k == 'showbase'
                elif k == 'fixed':
                    o.fixed = True
                elif k == 'defaultfloat':
                    o.fixed = False
                elif k in ('boolalpha', 'scientific', 'hexfloat', 'left', 'internal', 'showpos'):
                    return None
                continue
            v = s(i_(t))
            if ty in ('setw', 'setprecision', 'setfill', 'setbase'):
                if v is None:
                    return None
                if ty == 'setw':
                    o.width = v
                elif ty == 'setprecision':
                    o.prec = v
                elif ty == 'setbase':
                    o.base = v
                else:
                    o.fill = chr(v)
                continue
            if v is None:
                return None
            if isinstance(v, str):
                o.put(v)
            elif o.num(ty, v) is False:
                return None
        return o.out

    def pun(x, s):
        v = s(i_(x[2]))
        if v is None:
            return None
        ty = bare(x[1])
        if ty == 'float':
            return v if isinstance(v, float) else struct.unpack('f', struct.pack('I', v & 0xffffffff))[0]
        if isinstance(v, float):
            return struct.unpack('I', struct.pack('f', v))[0]
        return wrap(ty, v)

    def fl(x, s):
        try:
            return float(x[1])
        except ValueError:
            return None

    def sizeof(x, s):
        w = WIDTH.get(bare(x[1]))
        return w[0] // 8 if w else {'float': 4, 'double': 8, 'bool': 1}.get(bare(x[1]))

    def cvok(x, s):
        t = s(i_(x[2]))
        return None if not isinstance(t, str) else int(convert(x[1], t) is not None)

    def cv(x, s):
        t = s(i_(x[2]))
        return None if not isinstance(t, str) else convert(x[1], t)
    def glob(x, s):
        q = str(x[1])
        if q.endswith('::npos'):
            return (1 << 64) - 1
        if 'numeric_limits<' not in q:
            return None
        ty, n = bare(q.split('numeric_limits<', 1)[1].split('>')[0]), q.split('::')[-1]
        if ty in ('float', 'double'):
            k = ty == 'double'
            return {'digits': (24, 53)[k], 'digits10': (6, 15)[k], 'max_digits10': (9, 17)[k], 'is_signed': 1, 'is_integer': 0}.get(n)
        w = WIDTH.get(ty)
        if w:
            return {'digits': w[0] - w[1], 'digits10': int((w[0] - w[1]) * 0.30103), 'is_signed': w[1], 'is_integer': 1}.get(n)
        return None
    def scanned(k):
        def h_(x, s):
            t = s(i_(x[3]))
            return scan(x[1], x[2], t)[k] if isinstance(t, str) else None
        return h_
    h.update({'scan': scanned(0), 'sfail': scanned(1), 'seof': scanned(2), 'glob': glob, 'strlit': lambda x, s: x[1], 'float': fl, 'fcast': fcast, 'lib': lib, 'text': text, 'pun': pun,
              'sizeof': sizeof, 'cvok': cvok, 'cv': cv})
    h.update(extra or {})
    return h


class Scans:
    """mixin: formatted extraction from a text stream"""
    SRC = None

    def scan_call(self, eng, st, fr, i, n, tg, obj, args):
        from .engine import r
        T = eng.T
        fi = n.get('f') or {}
        nm, q = fi.get('n', ''), fi.get('q', '')
        if fi.get('repo'):
            return None

        def val(a):
            return eng.rd(st, a) if eng.islv(a) else a
        if n['k'] == 'Construct' and 'stringstream' in q and args:
            st.env[('src', -1)] = val(args[0])
            return None
        if nm == 'operator>>':
            if len(args) == 2:
                o, a = args
            elif obj is not None:
                o, a = obj, args[0]
            else:
                return None
            x = T.get(val(a))
            if x[0] == 'fn':
                k = str(x[1]).split('(')[0].split('::')[-1]
                if k in ('hex', 'dec', 'oct'):
                    st.env[('base', -1)] = T.mk('int', {'hex': 16, 'dec': 10, 'oct': 8}[k])
                return [(st, o)]
            src, bs = st.env.get(('src', -1)), st.env.get(('base', -1))
            if src is None or not eng.islv(a):
                return None
            ty = bare((fi.get('pt') or [''])[-1].rstrip('& '))
            b = T.get(bs)[1] if bs is not None else 10
            eng.wr(st, a, T.mk('scan', ty, b, r(src)), ('w', fr.id, i))
            st.env[('got', -1)] = T.mk('scan', ty, b, r(src))
            return [(st, o)]
        if nm in ('eof', 'fail', 'bad', 'good', 'operator bool', 'operator!') and 'basic_ios' in q:
            g = st.env.get(('got', -1))
            if g is None:
                return [(st, eng.FALSE if nm in ('eof', 'fail', 'bad', 'operator!') else eng.TRUE)]
            x = T.get(g)
            if nm == 'bad':
                return [(st, eng.FALSE)]
            e, f = (T.mk(k, *x[1:]) for k in ('seof', 'sfail'))
            if nm == 'good':
                return [(st, T.mk('and', r(T.mk('not', r(e))), r(T.mk('not', r(f)))))]
            return [(st, e if nm == 'eof' else f if nm in ('fail', 'operator!') else T.mk('not', r(f)))]
        return None


class Streams:
    """mixin for Checker: models text streams and conversions; call `stream_call` from on_call"""

    def stream_call(self, eng, st, fr, i, n, tg, obj, args):
        from .engine import r
        T = eng.T
        fi = n.get('f') or {}
        nm = fi.get('n', '')

        def val(a):
            return eng.rd(st, a) if eng.islv(a) else a
        if nm == 'convertTo' and len(args) == 2:
            ty = bare((fi.get('pt') or ['', ''])[1].rstrip('& '))
            t = val(args[0])
            if t is None or not eng.islv(args[1]):
                return None
            q = st.copy()
            ok = T.mk('cvok', ty, r(t))
            if eng.assume(st, ok, True) is False:
                return [(q, eng.FALSE)]
            eng.assume(q, ok, False)
            w = T.mk('cv', ty, r(t))
            j = (n.get('c') or [None, None])[-1]
            while j is not None and fr.f.nodes[j]['k'] in ('ECast', 'ICast', 'Paren'):
                y = fr.f.nodes[j]
                if y.get('ck') == 'LValueBitCast':
                    ot = fr.f.nodes[y['c'][0]].get('t', '')
                    w = T.mk('cast', ot, r(w), ty)
                j = y['c'][0] if y.get('c') else None
            eng.wr(st, args[1], w, ('w', fr.id, i))
            eng.wr(q, args[1], T.mk('cvbad', fr.id, i), ('w', fr.id, i))
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if fi.get('q', '') == 'utility::binaryCopy' or nm == 'binaryCopy':
            return [(st, T.mk('pun', bare(n.get('t', '')), r(val(args[0]))))]
        if nm == 'operator<<' and not fi.get('repo'):
            if len(args) == 2:
                o, a = args
            elif obj is not None:
                o, a = obj, args[0]
            else:
                return None
            if not eng.islv(o):
                return None
            x = T.get(a)
            pt = bare((fi.get('pt') or [''])[-1])
            v = val(a)
            x = T.get(v)
            if x[0] == 'fn':
                d = ('m', str(x[1]).split('(')[0].split('::')[-1])
            elif x[0] == 'lib' and x[1].split('<')[0].split('::')[-1] in ('setw', 'setprecision', 'setfill', 'setbase'):
                lst = next((y for y in x[2:] if isinstance(y, tuple)), ())
                d = (x[1].split('<')[0].split('::')[-1], lst[0])
            else:
                d = (pt, r(v))
            key = ('strm', -1, o)
            cur = st.env.get(key)
            cx = T.get(cur) if cur is not None else ('text',)
            if cx[0] != 'text':
                return [(st, o)]
            st.env[key] = T.mk(*(cx + d)) if len(cx) < 60 else None
            return [(st, o)]
        if nm == 'str' and 'stringstream' in fi.get('q', '') and obj is not None and eng.islv(obj):
            key = ('strm', -1, obj)
            if not args:
                return [(st, st.env.get(key) or T.mk('text'))]
            x = T.get(val(args[0]))
            st.env[key] = T.mk('text') if x == ('strlit', '') else T.mk('text', 'std::string', r(val(args[0])))
            return [(st, None)]
        return None
