"""Value of a term for given values of its leaves (constant propagation over the terms of the path engine)."""


def ev(eng, t, env, depth=0):
    """int value of term t, or None when it is not determined by env {term: int} ({kind of term: function} also works)"""
    if t in env:
        return env[t]
    if depth > 40:
        return None
    x = eng.T.get(t)
    k = x[0]
    if k in env:
        return env[k](x, lambda y: ev(eng, y, env, depth + 1))
    if k == 'int':
        return x[1]
    if k == 'null':
        return 0

    def s(i):
        return ev(eng, x[i].i, env, depth + 1)
    if k == 'not':
        v = s(1)
        return None if v is None else int(not v)
    if k in ('eq', 'lt', 'flt', 'le', 'and', 'or'):
        a, b = s(1), s(2)
        if a is None or b is None:
            return None
        return int({'eq': a == b, 'lt': a < b, 'flt': a < b, 'le': a <= b, 'and': bool(a and b), 'or': bool(a or b)}[k])
    if k == 'bin':
        a, b = s(2), s(3)
        if a is None or b is None:
            return None
        op = x[1]
        if op in ('<<', '>>') and not 0 <= b < 64:
            eng.undef = True
            return None
        try:
            return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '+': lambda: a + b, '-': lambda: a - b,
                    '*': lambda: a * b, '<<': lambda: a << b, '>>': lambda: a >> b,
                    '/': lambda: (a / b if isinstance(a, float) or isinstance(b, float) else
                                  (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))) if b else None, '%': lambda: a - b * int(a / b) if b else None,
                    '&&': lambda: int(bool(a and b)), '||': lambda: int(bool(a or b))}[op]()
        except (KeyError, ValueError, OverflowError, TypeError):
            return None
    if k == 'un':
        v = s(2)
        if v is None:
            return None
        return ~v if x[1] == '~' and isinstance(v, int) else {'-': -v, '+': v, '!': int(not v)}.get(x[1]) if not isinstance(v, str) else None
    if k == 'cast':
        v = s(2)
        if v is None:
            return None
        y = eng.T.get(x[2].i)
        if y[:2] == ('bin', '<<') and WIDTH.get(x[1].replace('const ', ''), (64,))[0] <= (ev(eng, y[3].i, env) or 0):
            eng.undef = True
            return None
        return int(bool(v)) if x[1] == 'bool' else wrap(x[1], v)
    if k in ('Lder', 'drf') and hasattr(x[1], 'i') and eng.T.get(x[1].i)[0] == 'lib':
        return s(1)
    if k == 'lib' and isinstance(x[1], str) and x[1].split('<')[0] in ('std::max', 'std::min', 'max', 'min'):
        l = next((y for y in x[2:] if isinstance(y, tuple)), ())
        a = [ev(eng, y.i, env, depth + 1) for y in l if hasattr(y, 'i')]
        return None if len(a) != 2 or None in a else (max if 'max' in x[1] else min)(a)
    if k == 'cond':
        c = s(1)
        return None if c is None else s(2) if c else s(3)
    return None


WIDTH = {'unsigned char': (8, 0), 'uint8_t': (8, 0), 'std::uint8_t': (8, 0), 'signed char': (8, 1), 'char': (8, 1),
         'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0),
         'int32_t': (32, 1), 'std::int32_t': (32, 1), 'uint32_t': (32, 0), 'std::uint32_t': (32, 0),
         'long': (64, 1), 'unsigned long': (64, 0), 'size_t': (64, 0), 'std::size_t': (64, 0),
         'long long': (64, 1), 'unsigned long long': (64, 0)}


def wrap(ty, v):
    w = WIDTH.get(ty.replace('const ', ''))
    if w is None:
        return v
    v &= (1 << w[0]) - 1
    if w[1] and v >> (w[0] - 1):
        v -= 1 << w[0]
    return v


def feasible(eng, st, env):
    """False when a fact of the path is false for env; facts not determined by env do not exclude the path"""
    for k, pol in st.facts.items():
        if isinstance(k, int):
            v = ev(eng, k, env)
            if v is not None and bool(v) != pol:
                return False
        elif k[0] == 'v':
            a, b = ev(eng, k[1], env), ev(eng, st.facts[k], env)
            if a is not None and b is not None and a != b:
                return False
    return True
