"""Path-sensitive interprocedural dataflow (property simulation) over the clang CFGs.

Abstract state = value-numbered environment/heap + branch facts + a property automaton state.
 * branch conditions refine the facts and prune contradictory paths (no solver: table look-ups on
   canonical comparison atoms);
 * loops: variables/fields modified by the loop are havocked at the head, the body is analysed once per
   automaton state until no new automaton state reaches the head;
 * calls that can reach something the property cares about are analysed in the caller's context
   (context-sensitive, virtual targets enumerated by class hierarchy); the others are replaced by their
   modification summary.
"""
import sys, re, collections
from .model import Model, bare, mutref
from .extract import AnalysisError

sys.setrecursionlimit(20000)

INT = re.compile(r'^(const )?(bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|'
                 r'unsigned long|long long|unsigned long long|wchar_t)$')
WIDTH = {'bool': (1, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1),
         'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1),
         'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}


class Terms:
    def __init__(s):
        s.tab = {}
        s.rev = []

    def mk(s, *a):
        i = s.tab.get(a)
        if i is None:
            i = len(s.rev)
            s.tab[a] = i
            s.rev.append(a)
        return i

    def get(s, i):
        return s.rev[i]

    def show(s, i, d=0):
        if i is None:
            return '?'
        t = s.rev[i]
        if d > 8:
            return '..'
        return '%s(%s)' % (t[0], ','.join(
            ('%' + s.show(x.i, d + 1)) if isinstance(x, R) else
            '[' + ','.join(s.show(y.i, d + 1) if isinstance(y, R) else str(y) for y in x) + ']' if isinstance(x, tuple) else str(x)
            for x in t[1:]))


class R:
    """wraps a term id inside another term (so that ids and plain ints are distinguishable)"""
    __slots__ = ('i',)

    def __init__(s, i):
        s.i = i

    def __eq__(s, o):
        return isinstance(o, R) and o.i == s.i

    def __hash__(s):
        return hash(('R', s.i))


_R = {}


def r(i):
    x = _R.get(i)
    if x is None:
        x = _R[i] = R(i)
    return x


class State:
    __slots__ = ('env', 'heap', 'ver', 'facts', 'auto', 'temps')

    def __init__(s):
        s.env, s.heap, s.ver, s.facts, s.auto, s.temps = {}, {}, {}, {}, None, {}

    def copy(s):
        n = State.__new__(State)
        n.env = dict(s.env)
        n.heap = dict(s.heap)
        n.ver = dict(s.ver)
        n.facts = dict(s.facts)
        n.auto = s.auto
        n.temps = dict(s.temps)
        return n

    def key(s):
        return (s.auto, frozenset(s.facts.items()), frozenset(s.env.items()), frozenset(s.heap.items()),
                frozenset(s.ver.items()), frozenset(s.temps.items()))


class Frame:
    __slots__ = ('id', 'parent', 'block', 'node', 'f', 'this', 'lex', 'depth', 'args')

    def chain(s):
        out = []
        x = s
        while x is not None:
            out.append(x)
            x = x.parent
        return out[::-1]


class Checker:
    """Hooks of a property; every one may be overridden."""
    K = 12
    KEXIT = 6
    MAXDEPTH = 14
    SMALL = 40
    WIDTHS = False  # keep the width of narrow integer operations in the terms
    DYN = None      # dynamic class of the object the entry function is called on

    def relevant(self, eng):
        """ids of functions that must be analysed in context when called"""
        return set()

    def init(self, eng, f):
        return None

    def on_call(self, eng, st, fr, i, n, tgts, obj, args):
        return None

    def on_store(self, eng, st, fr, n, lv, val):
        return None

    def on_exit(self, eng, st, fr, ret):
        return None

    def on_return(self, eng, st, fr, ret):
        """inlined callee returned"""
        return None

    def on_enter(self, eng, st, fr):
        return None

    def on_dtor(self, eng, st, fr, e):
        return None

    def on_read(self, eng, st, fr, n, lv):
        return None

    def on_throw(self, eng, st, fr, n):
        return None

    def exc_autos(self, eng, pre, posts):
        """what the automaton may have seen when a call raised; posts: the states after it, had it returned"""
        out = [pre.auto]
        for q in posts:
            if q.auto not in out:
                out.append(q.auto)
        return out

    def on_loop(self, eng, st, fr, hd, vs, fl):
        """loop head: variables vs and fields fl are modified by the loop"""
        return None

    def on_back(self, eng, st, fr, hd):
        """end of an iteration of the loop of head hd, its facts still known"""
        return None

    def on_phi(self, eng, st, new, olds):
        """fresh value standing for any of olds (loop head or join)"""
        return None


SMARTPTR = re.compile(r'^(const )?std::(unique_ptr|shared_ptr)<')


class Engine:
    def __init__(s, model, checker):
        s._decls = {}
        s.m = model
        s.ck = checker
        s.T = Terms()
        s.frames = {}
        s.nframes = 0
        s.violations = []
        s._viokeys = set()
        s.stats = collections.Counter()
        s.rel = None
        s.inlined = set()
        s._small = {}
        s._ment = {}
        s.TRUE = s.T.mk('int', 1)
        s.FALSE = s.T.mk('int', 0)
        s.NULL = s.T.mk('null')
        s.budget = 400000

    # ------------------------------------------------------------ terms
    def const(s, v):
        return s.T.mk('int', int(v))

    def isconst(s, t):
        return t is not None and s.T.get(t)[0] == 'int'

    def cval(s, t):
        return s.T.get(t)[1]

    def neg(s, t):
        x = s.T.get(t)
        if x[0] == 'int':
            return s.const(0 if x[1] else 1)
        if x[0] == 'not':
            return x[1].i
        return s.T.mk('not', r(t))

    def cmp(s, op, a, b, isfloat=False):
        T = s.T
        if op == '!=':
            return s.neg(s.cmp('==', a, b))
        if op == '>':
            return s.cmp('<', b, a, isfloat)
        if op == '>=':
            return s.cmp('<=', b, a, isfloat)
        A, B = T.get(a), T.get(b)
        if op == '==':
            if a == b and not isfloat:
                return s.TRUE
            if A[0] == 'int' and B[0] == 'int':
                return s.const(A[1] == B[1])
            if A[0] == 'null' and B[0] == 'int' or B[0] == 'null' and A[0] == 'int':
                return s.const((A[1] if A[0] == 'int' else B[1]) == 0)
            nn = ('addr', 'new', 'this', 'strlit', 'fn', 'lambda')
            if (A[0] == 'null' and B[0] in nn) or (B[0] == 'null' and A[0] in nn):
                return s.FALSE
            if A[0] == 'strlit' and B[0] == 'strlit':
                return s.const(A[1] == B[1])
            if b < a:
                a, b = b, a
            return T.mk('eq', r(a), r(b))
        if A[0] == 'int' and B[0] == 'int':
            return s.const(A[1] < B[1] if op == '<' else A[1] <= B[1])
        if op == '<=':
            if isfloat:
                return T.mk('le', r(a), r(b))
            return s.neg(s.cmp('<', b, a))
        if a == b:
            return s.FALSE
        return T.mk('flt' if isfloat else 'lt', r(a), r(b))

    def truth(s, st, t):
        """True / False / None under the facts of st"""
        T = s.T
        x = T.get(t)
        k = x[0]
        if k == 'int':
            return bool(x[1])
        if k == 'null':
            return False
        if k in ('addr', 'new', 'strlit', 'fn', 'lambda'):
            return True
        if k == 'not':
            v = s.truth(st, x[1].i)
            return None if v is None else not v
        v = st.facts.get(t)
        if v is not None:
            return v
        if k == 'eq':
            a, b = x[1].i, x[2].i
            va, vb = s.valof(st, a), s.valof(st, b)
            if va is not None and vb is not None:
                c = s.cmp('==', va, vb)
                if c != t and s.isconst(c):
                    return bool(s.cval(c))
            for p, q in ((a, b), (b, a)):
                if T.get(q)[0] in ('null',) or (T.get(q)[0] == 'int' and s.cval(q) == 0):
                    v = st.facts.get(p)
                    if v is not None:
                        return not v
            for p, q in ((a, b), (b, a)):
                if st.facts.get(s.T.mk('lt', r(p), r(q))):
                    return False
            # equality of two booleans whose truth is known
            if s.isbool(a) and s.isbool(b):
                ta, tb = s.truth(st, a), s.truth(st, b)
                if ta is not None and tb is not None:
                    return ta == tb
        elif k == 'lt':
            a, b = x[1].i, x[2].i
            va, vb = s.valof(st, a), s.valof(st, b)
            if va is not None and vb is not None and s.isconst(va) and s.isconst(vb):
                return s.cval(va) < s.cval(vb)
            if st.facts.get(T.mk('lt', r(b), r(a))):
                return False
            lo, hi = (a, b) if a < b else (b, a)
            if st.facts.get(T.mk('eq', r(lo), r(hi))):
                return False
        else:
            c = st.facts.get(('v', t))
            if c is not None:
                return s.truth(st, c)
            e = st.facts.get(T.mk('eq', r(min(t, s.NULL)), r(max(t, s.NULL))))
            if e is not None:
                return not e
            e = st.facts.get(T.mk('eq', r(min(t, s.FALSE)), r(max(t, s.FALSE))))
            if e is not None:
                return not e
        return None

    def valof(s, st, t):
        if s.T.get(t)[0] in ('int', 'null'):
            return t
        c = st.facts.get(('v', t))
        return c

    def isbool(s, t):
        x = s.T.get(t)
        if x[0] in ('eq', 'lt', 'flt', 'le', 'not'):
            return True
        if x[0] == 'int':
            return x[1] in (0, 1)
        return x[-1] == 'B' if isinstance(x[-1], str) else False

    def assume(s, st, t, pol):
        """refine st; False when contradictory"""
        T = s.T
        v = s.truth(st, t)
        if v is not None:
            return v == pol
        x = T.get(t)
        if x[0] == 'not':
            return s.assume(st, x[1].i, not pol)
        if x[0] == 'and':
            if pol:
                return s.assume(st, x[1].i, True) and s.assume(st, x[2].i, True)
        if x[0] == 'or':
            if not pol:
                return s.assume(st, x[1].i, False) and s.assume(st, x[2].i, False)
        st.facts[t] = pol
        if x[0] == 'eq':
            a, b = x[1].i, x[2].i
            if pol:
                for p, q in ((a, b), (b, a)):
                    if T.get(q)[0] in ('int', 'null', 'enum', 'strlit'):
                        st.facts[('v', p)] = q
            if (s.isbool(a) and s.isbool(b)):
                for p, q in ((a, b), (b, a)):
                    tv = s.truth(st, q)
                    if tv is not None and s.truth(st, p) is None:
                        if not s.assume(st, p, tv == pol):
                            return False
            for p, q in ((a, b), (b, a)):
                if q in (s.NULL, s.FALSE):
                    if T.get(p)[0] not in ('int', 'null'):
                        st.facts[p] = not pol
        else:
            # boolean atom: propagate through known equalities with other booleans
            if s.isbool(t):
                for k, kv in list(st.facts.items()):
                    if isinstance(k, int):
                        y = T.get(k)
                        if y[0] == 'eq' and (y[1].i == t or y[2].i == t):
                            o = y[2].i if y[1].i == t else y[1].i
                            if s.isbool(o) and s.truth(st, o) is None:
                                if not s.assume(st, o, pol == kv):
                                    return False
        return True

    # ------------------------------------------------------------ frames
    def frame(s, parent, block, node, f, this=None, lex=None):
        key = (parent.id if parent else -1, block, node, f.id)
        fr = s.frames.get(key)
        if fr is None:
            fr = Frame()
            fr.id = len(s.frames)
            fr.parent, fr.block, fr.node, fr.f = parent, block, node, f
            fr.depth = parent.depth + 1 if parent else 0
            s.frames[key] = fr
        fr.this, fr.lex = this, lex
        return fr

    def site(s, fr, block, node, tag, *more):
        return s.T.mk(tag, fr.id, block, node, *more)

    # ------------------------------------------------------------ lvalues
    def lder(s, p):
        x = s.T.get(p)
        if x[0] == 'addr':
            return x[1].i
        return s.T.mk('Lder', r(p))

    def addr(s, lv):
        x = s.T.get(lv)
        if x[0] == 'Lder':
            return x[1].i
        return s.T.mk('addr', r(lv))

    def lfld(s, base, name):
        return s.T.mk('Lfld', r(base), name)

    def islv(s, t):
        return s.T.get(t)[0] in ('Lvar', 'Lfld', 'Lder', 'Lidx', 'Ltmp', 'Lglob')

    def declares(s, f, u):
        d = s._decls.get(f.id)
        if d is None:
            d = s._decls[f.id] = {p['u'] for p in f.params} | {
                v['u'] for n in f.nodes if n['k'] == 'Decl' for v in n['vars']}
        return u in d

    def resolve_var(s, st, fr, u):
        """lvalue for a local/param of frame fr (or of its lexical parents for captures)"""
        x = fr
        while x is not None:
            key = ('v', x.id, u)
            if key in st.env:
                break
            x = x.lex
        else:
            x = fr
            while x.lex is not None and x.f.lam and not s.declares(x.f, u):
                x = x.lex
            key = ('v', x.id, u)
        v = st.env.get(key)
        if isinstance(v, tuple) and v[0] == '@':
            return v[1]
        return s.T.mk('Lvar', key[1], u)

    def rd(s, st, lv, ty=''):
        T = s.T
        x = T.get(lv)
        k = x[0]
        B = ('B',) if ty == 'bool' or ty == 'const bool' else ()
        if k == 'Lvar':
            v = st.env.get(('v', x[1], x[2]))
            if v is None:
                return T.mk('init', x[1], x[2], *B)
            if isinstance(v, tuple):
                return s.rd(st, v[1], ty)
            return v
        if k == 'Lglob':
            v = st.heap.get(lv)
            return v if v is not None else T.mk('glob', x[1], *B)
        v = st.heap.get(lv)
        if v is not None:
            return v
        if k == 'Lfld':
            return T.mk('fld', x[1], x[2], st.ver.get(x[2], 0), *B)
        if k == 'Lder':
            return T.mk('drf', x[1], st.ver.get('*', 0), *B)
        if k == 'Lidx':
            b = x[1].i
            return T.mk('idx', r(s.rd(st, b) if s.islv(b) else b), x[2], *B)
        if k == 'Ltmp':
            return T.mk('tmpv', r(lv), *B)
        return lv

    def mentions_lv(s, t, lv):
        key = (t, lv)
        c = s._ment.get(key)
        if c is None:
            c = t == lv or any(s.mentions_lv(y.i, lv) for y in s._subs(t))
            s._ment[key] = c
        return c

    def _subs(s, t):
        for y in s.T.get(t)[1:]:
            if isinstance(y, R):
                yield y
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, R):
                        yield z

    def wr(s, st, lv, val, tok):
        """store val; tok = version token of this site"""
        T = s.T
        x = T.get(lv)
        k = x[0]
        if k == 'Lvar':
            v = st.env.get(('v', x[1], x[2]))
            if isinstance(v, tuple):
                return s.wr(st, v[1], val, tok)
            st.env[('v', x[1], x[2])] = val
        elif k == 'Lfld':
            for h in [h for h in st.heap if T.get(h)[0] == 'Lfld' and T.get(h)[2] == x[2] and h != lv
                      and not s.distinct(T.get(h)[1].i, x[1].i)]:
                del st.heap[h]
            st.ver[x[2]] = tok
            st.heap[lv] = val
        elif k == 'Lder':
            for h in [h for h in st.heap if T.get(h)[0] == 'Lder' and h != lv]:
                del st.heap[h]
            st.ver['*'] = tok
            st.heap[lv] = val
        elif k == 'Lidx':
            s.wr(st, x[1].i, T.mk('upd', tok), tok)
            st.heap[lv] = val
        elif k in ('Ltmp', 'Lglob'):
            st.heap[lv] = val
        else:
            return
        # parts of lv are overwritten too
        for h in [h for h in st.heap if h != lv and s.mentions_lv(h, lv)]:
            del st.heap[h]

    def distinct(s, a, b):
        """two base objects that cannot be the same"""
        A, B = s.T.get(a), s.T.get(b)
        loc = ('Lvar', 'Ltmp')
        if A[0] in loc and B[0] in loc:
            return a != b
        if A[0] == 'Lder' and B[0] == 'Lder':
            p, q = s.T.get(A[1].i), s.T.get(B[1].i)
            if p[0] == 'new' and q[0] == 'new':
                return p != q
        return False

    def bump(s, st, fields, tok):
        T = s.T
        for f in fields:
            st.ver[f] = tok
        if fields:
            for h in [h for h in st.heap if s._hasfield(h, fields)]:
                del st.heap[h]

    def _hasfield(s, h, fields):
        while True:
            x = s.T.get(h)
            if x[0] == 'Lfld':
                if x[2] in fields:
                    return True
                h = x[1].i
            elif x[0] == 'Lidx':
                h = x[1].i
            elif x[0] == 'Lder':
                return '*' in fields
            else:
                return False

    # ------------------------------------------------------------ violations
    def report(s, fr, node, msg, construct=None):
        chain = []
        for x in fr.chain():
            chain.append(x.f.q)
        loc = fr.f.loc(node) if node is not None and node >= 0 else '%s:%s' % (fr.f.file, fr.f.line)
        key = (fr.f.id, node, msg)
        if key in s._viokeys:
            return
        s._viokeys.add(key)
        s.violations.append({'where': loc, 'function': fr.f.q, 'message': msg, 'path': ' > '.join(chain)})

    # ------------------------------------------------------------ evaluation
    def ty(s, fr, i):
        return fr.f.nodes[i].get('t', '')

    def val(s, st, fr, b, i):
        """rvalue term of node i (reads lvalues)"""
        t = s.ev(st, fr, b, i)
        if t is not None and s.islv(t):
            return s.rd(st, t, s.ty(fr, i))
        return t

    def ev(s, st, fr, b, i):
        k = (fr.id, i)
        v = st.temps.get(k)
        if v is not None:
            return v
        v = s._ev(st, fr, b, i)
        if v is None:
            v = s.site(fr, b, i, 'unk')
        return v

    def _ev(s, st, fr, b, i):
        T = s.T
        n = fr.f.nodes[i]
        k = n['k']
        c = n.get('c', [])
        if 'cv' in n and k not in ('Call',) and not n.get('lv'):
            return s.const(int(n['cv']))
        if k in ('Paren', 'DefArg', 'DefInit'):
            return s.ev(st, fr, b, c[0])
        if k == 'MatTemp':
            v = s.ev(st, fr, b, c[0])
            if v is not None and s.islv(v):
                return v
            lv = T.mk('Ltmp', fr.id, b, i)
            if st.heap.get(lv) != v:
                st.heap[lv] = v
            return lv
        if k in ('ICast', 'ECast'):
            ck = n.get('ck')
            sub = c[0]
            if ck == 'LValueToRValue':
                v = s.ev(st, fr, b, sub)
                if s.islv(v):
                    return s.rd(st, v, n.get('t', ''))
                return v
            if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
                v = s.val(st, fr, b, sub)
                a, d = n.get('t', ''), s.ty(fr, sub)
                if s.isconst(v):
                    return v
                wa, wd = WIDTH.get(a.replace('const ', '')), WIDTH.get(d.replace('const ', ''))
                if wa and wd and (wa[0] > wd[0] and (wa[1] or not wd[1]) or wa == wd):
                    return v
                return T.mk('cast', a, r(v), d)
            if ck == 'IntegralToBoolean':
                v = s.val(st, fr, b, sub)
                if s.isbool(v):
                    return v
                return s.neg(s.cmp('==', v, s.FALSE))
            if ck in ('PointerToBoolean',):
                v = s.val(st, fr, b, sub)
                return s.neg(s.cmp('==', v, s.NULL))
            if ck == 'NullToPointer':
                return s.NULL
            if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
                v = s.val(st, fr, b, sub)
                return T.mk('fcast', n.get('t', ''), r(v))
            return s.ev(st, fr, b, sub)
        if k == 'Bool':
            return s.TRUE if n['v'] else s.FALSE
        if k == 'Int':
            return s.const(int(n.get('cv', 0)))
        if k == 'Float':
            return T.mk('float', n['v'])
        if k == 'Str':
            return T.mk('strlit', n.get('v', ''))
        if k == 'Null':
            return s.NULL
        if k == 'This':
            return s.this(fr)
        if k == 'Ref':
            d = n['d']
            if d['k'] in ('local', 'parm'):
                return s.resolve_var(st, fr, d['u'])
            if d['k'] == 'enum':
                return s.const(d['v'])
            if d['k'] == 'func':
                return T.mk('fn', d['f']['id'])
            if d['k'] == 'global':
                return T.mk('Lglob', d['u'])
            return T.mk('ref', d.get('u', d['n']))
        if k == 'Member':
            d = n['d']
            base = c[0]
            if d['k'] == 'field':
                if n.get('arrow'):
                    p = s.val(st, fr, b, base)
                    o = s.lder(p)
                else:
                    o = s.ev(st, fr, b, base)
                    if not s.islv(o):
                        pass
                return s.lfld(o, d['u'])
            if d['k'] == 'func':
                return T.mk('fn', d['f']['id'])
            if d['k'] == 'enum':
                return s.const(d['v'])
            return T.mk('Lglob', d.get('u', d['n']))
        if k == 'Un':
            op = n['op']
            if op == '!':
                return s.neg(s.boolterm(st, fr, b, c[0]))
            if op == '*':
                p = s.val(st, fr, b, c[0])
                return s.lder(p)
            if op == '&':
                v = s.ev(st, fr, b, c[0])
                if s.islv(v):
                    return s.addr(v)
                return v
            if op in ('++', '--', '++post', '--post'):
                return None  # effect handled in step
            v = s.val(st, fr, b, c[0])
            if op == '-' and s.isconst(v):
                return s.const(-s.cval(v))
            if op == '+':
                return v
            v = T.mk('un', op, r(v))
            w = WIDTH.get(n.get('t', '').replace('const ', '')) if s.ck.WIDTHS else None
            return T.mk('cast', n['t'], r(v), n['t']) if w and w[0] < 64 else v
        if k == 'Bin':
            op = n['op']
            if op == ',':
                return s.ev(st, fr, b, c[1])
            if op in ('&&', '||'):
                rhs = s.boolterm(st, fr, b, c[1])
                return rhs
            if op in ('==', '!=', '<', '<=', '>', '>='):
                a, d = s.val(st, fr, b, c[0]), s.val(st, fr, b, c[1])
                t = s.ty(fr, c[0])
                return s.cmp(op, a, d, t in ('double', 'float', 'long double'))
            if op.endswith('='):
                return s.ev(st, fr, b, c[0])
            if op in ('->*', '.*'):
                return T.mk('pm', r(s.val(st, fr, b, c[0])), r(s.val(st, fr, b, c[1])))
            a, d = s.val(st, fr, b, c[0]), s.val(st, fr, b, c[1])
            v = s.arith(op, a, d)
            w = WIDTH.get(n.get('t', '').replace('const ', '')) if s.ck.WIDTHS else None
            if w and w[0] < 64 and op in ('<<', '+', '-', '*') and not s.isconst(v):
                return T.mk('cast', n['t'], r(v), n['t'])
            return v
        if k == 'Cond':
            w = st.temps.get((fr.id, i, 'arm'))
            if w is not None:
                return s.ev(st, fr, b, c[1] if w else c[2])
            return T.mk('cond', r(s.val(st, fr, b, c[0])), r(s.val(st, fr, b, c[1])), r(s.val(st, fr, b, c[2])))
        if k == 'Index':
            base = s.ev(st, fr, b, c[0])
            idx = s.val(st, fr, b, c[1])
            return T.mk('Lidx', r(base), r(idx))
        if k == 'SizeOf':
            return T.mk('sizeof', n.get('at', ''))
        if k == 'InitList':
            if len(c) == 1:
                return s.val(st, fr, b, c[0])
            return T.mk('list', tuple(r(s.val(st, fr, b, x)) for x in c))
        if k == 'New':
            return T.mk('new', fr.id, b, i)
        if k == 'Lambda':
            return T.mk('lambda', fr.id, i, n['f']['id'])
        if k in ('CXXScalarValueInitExpr', 'ImplicitValueInitExpr'):
            return s.FALSE if INT.match(n.get('t', '')) else s.NULL if n.get('t', '').endswith('*') else None
        return None

    def arith(s, op, a, d):
        T = s.T
        A, D = T.get(a), T.get(d)
        if A[0] == 'int' and D[0] == 'int':
            try:
                x, y = A[1], D[1]
                v = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}.get(op)
                if v is not None:
                    return s.const(v)
            except Exception:
                pass
        if op in ('+', '*', '&', '|', '^') and d < a:
            a, d = d, a
        if op == '+' and (A == ('int', 0) or D == ('int', 0)):
            return d if T.get(a) == ('int', 0) else a
        return T.mk('bin', op, r(a), r(d))

    def this(s, fr):
        x = fr
        while x is not None and x.this is None and x.lex is not None:
            x = x.lex
        if x is None or x.this is None:
            return s.T.mk('this', fr.id if x is None else x.id)
        return x.this

    def boolterm(s, st, fr, b, i):
        v = s.val(st, fr, b, i)
        if s.isbool(v) or s.T.get(v)[0] in ('int',):
            return v
        t = s.ty(fr, i).replace('const ', '')
        if t == 'bool':
            return v
        if t.endswith('*') or SMARTPTR.match(t):
            return s.neg(s.cmp('==', v, s.NULL))
        if INT.match(t):
            return s.neg(s.cmp('==', v, s.FALSE))
        return v

    # ------------------------------------------------------------ relevance
    def relevant(s, fid):
        if s.rel is None:
            s.rel = s.ck.relevant(s)
        return fid in s.rel

    def small(s, fid):
        v = s._small.get(fid)
        if v is None:
            f = s.m.funcs.get(fid)
            v = False
            if f is not None and not f.rec.get('nocfg'):
                nb = [b for b in f.blocks.values() if b['e']]
                if len(f.nodes) <= s.ck.SMALL and len(nb) <= 6:
                    calls = [n for n in f.nodes if n['k'] == 'Call' and n.get('f', {}).get('repo')]
                    v = len(calls) <= 2
            s._small[fid] = v
        return v

    # ------------------------------------------------------------ stepping
    def run(s, f, setup=None):
        """analyse entry function f; returns list of (state, ret)"""
        fr = s.frame(None, None, None, f)
        st = State()
        st.auto = s.ck.init(s, f)
        this = None
        if f.cls and not f.static:
            fr.this = s.T.mk('this', 0)
        if setup:
            setup(s, st, fr)
        outs = s.func(fr, [st])
        for (o, ret) in outs:
            s.ck.on_exit(s, o, fr, ret)
        return outs

    def crossnodes(s, f):
        c = f.rec.get('_cross')
        if c is None:
            where = {}
            for bid, bl in f.blocks.items():
                for e in bl['e']:
                    if isinstance(e, int):
                        where[e] = bid
            c = set()
            for i, n in enumerate(f.nodes):
                pb = where.get(i)
                if pb is None:
                    continue
                for x in f.subtree(i):
                    if x != i and x in where and where[x] != pb:
                        c.add(x)
            for bid, bl in f.blocks.items():
                for key in ('cond', 'tn'):
                    if bl.get(key) is not None and bl[key] >= 0:
                        for x in f.subtree(bl[key]):
                            if where.get(x, bid) != bid or where.get(x) is None:
                                c.add(x)
                        c.add(bl[key])
            f.rec['_cross'] = c
        return c

    def modvars(s, f, body):
        """locals possibly modified in the blocks; fields possibly modified"""
        key = ('_mv', frozenset(body))
        c = f.rec.get(key)
        if c is not None:
            return c
        vs, fl = set(), set()

        def var(i):
            while i is not None and i >= 0:
                n = f.nodes[i]
                if n['k'] == 'Ref' and n['d']['k'] in ('local', 'parm'):
                    return n['d']['u']
                if n['k'] in ('Paren', 'ICast', 'ECast', 'MatTemp', 'Index', 'Member') and n.get('c'):
                    if n['k'] == 'Member' and n.get('arrow'):
                        return None
                    i = n['c'][0]
                elif n['k'] == 'Call' and n.get('obj', -1) >= 0 and n.get('f', {}).get('n') in s.m.MUTFREE:
                    i = n['obj']
                else:
                    return None
            return None
        for b in body:
            for e in f.blocks[b]['e']:
                if isinstance(e, dict):
                    continue
                n = f.nodes[e]
                k = n['k']
                if k == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                    v = var(n['c'][0])
                    if v:
                        vs.add(v)
                    x = s.m.field_of(f, n['c'][0])
                    if x:
                        fl.add(x)
                    elif not v:
                        fl.add('*')
                elif k == 'Un' and n['op'].rstrip('post') in ('++', '--'):
                    v = var(n['c'][0])
                    if v:
                        vs.add(v)
                    x = s.m.field_of(f, n['c'][0])
                    if x:
                        fl.add(x)
                elif k == 'Decl':
                    for v in n.get('vars', []):
                        vs.add(v['u'])
                elif k in ('Call', 'Construct'):
                    fi = n.get('f')
                    if fi:
                        for t in s.m.targets(f, n):
                            fl |= s.m.modset(t)
                        if n.get('obj', -1) >= 0 and not fi.get('const') and fi['n'] not in s.m.MUTFREE and \
                                not f.nodes[n['obj']].get('t', '').endswith('*'):
                            v = var(n['obj'])
                            if v:
                                vs.add(v)
                            if not fi['repo']:
                                x = s.m.field_of(f, n['obj'])
                                if x:
                                    fl.add(x)
                        for a, t in zip(n.get('c', []), fi.get('pt', [])):
                            if mutref(t):
                                v = var(a)
                                if v:
                                    vs.add(v)
                                x = s.m.field_of(f, a)
                                if x and not t.endswith('&&'):
                                    fl.add(x)
                            elif t.endswith('*') and not t.startswith('const '):
                                mm = f.nodes[f.strip(a)]
                                if mm['k'] == 'Un' and mm.get('op') == '&':
                                    v = var(mm['c'][0])
                                    if v:
                                        vs.add(v)
                    else:
                        for t in s.m.targets(f, n):
                            fl |= s.m.modset(t)
                elif k == 'Lambda':
                    fl |= s.m.modset(n['f']['id'])
                    for cp in n.get('caps', []):
                        if cp.get('ref') and 'd' in cp:
                            vs.add(cp['d']['u'])
        f.rec[key] = (vs, fl)
        return vs, fl

    def stale(s, t, fr, body):
        """term was produced by an evaluation inside the loop body of frame fr"""
        key = (t, fr.id, body)
        c = s._ment.get(key)
        if c is not None:
            return c
        x = s.T.get(t)
        res = False
        if x[0] in ('unk', 'ret', 'hv', 'new', 'tmpv', 'inc', 'hvr', 'mrgv', 'phi', 'Ltmp') and isinstance(x[1], int):
            res = s.inbody(x[1], x[2], fr, body)
        elif x[0] in ('Lvar', 'init'):
            res = x[1] != fr.id and s.inbody(x[1], None, fr, body)
        if not res:
            for y in x[1:]:
                if isinstance(y, R):
                    if s.stale(y.i, fr, body):
                        res = True
                        break
                elif isinstance(y, tuple):
                    if s.staletok(y, fr, body):
                        res = True
                        break
        s._ment[key] = res
        return res

    def staletok(s, y, fr, body):
        if len(y) >= 3 and isinstance(y[0], str) and y[0] in ('w', 'L', 'm', 'c'):
            return s.inbody(y[1], y[2], fr, body)
        for z in y:
            if isinstance(z, R):
                if s.stale(z.i, fr, body):
                    return True
            elif isinstance(z, tuple) and s.staletok(z, fr, body):
                return True
        return False

    def inbody(s, fid, block, fr, body):
        if fid == fr.id:
            return block in body
        x = s.framebyid(fid)
        while x is not None and x.parent is not None:
            if x.parent.id == fr.id:
                return x.block in body
            x = x.parent
        return False

    def framebyid(s, i):
        l = getattr(s, '_fl', None)
        if l is None or len(l) != len(s.frames):
            s._fl = l = [None] * len(s.frames)
            for x in s.frames.values():
                l[x.id] = x
        return l[i] if i >= 0 else None

    def loophead(s, st, fr, hd, body, back):
        vs, fl = s.modvars(fr.f, body)
        st = st.copy()
        fb = frozenset(body)
        if back:
            s.ck.on_back(s, st, fr, hd)
            T = s.T
            for k in [k for k in st.facts if s.stale(k if isinstance(k, int) else k[1], fr, fb)
                      or (not isinstance(k, int) and s.stale(st.facts[k], fr, fb))]:
                del st.facts[k]
            for k in [k for k, v in st.heap.items() if s.stale(k, fr, fb) or s.stale(v, fr, fb)]:
                del st.heap[k]
            for k in [k for k, v in st.env.items() if not isinstance(v, tuple) and s.stale(v, fr, fb)]:
                if k[1] == fr.id and k[2] in vs:
                    continue
                st.env[k] = s.T.mk('phi', fr.id, hd, str(k))
        for v in vs:
            key = ('v', fr.id, v)
            lx = fr
            cur = st.env.get(key)
            if cur is None:
                # captured variable of a lexical parent
                x = fr.lex
                while x is not None and ('v', x.id, v) not in st.env:
                    x = x.lex
                if x is None:
                    continue
                key = ('v', x.id, v)
                cur = st.env[key]
            if isinstance(cur, tuple):
                # reference declared outside: its target is modified; declared inside: rebound anyway
                lv = cur[1]
                if not s.stale(lv, fr, fb):
                    if s.T.get(lv)[0] == 'Lvar':
                        x = s.T.get(lv)
                        if not (isinstance(st.env.get(('v', x[1], x[2])), int) and s.isconst(st.env[('v', x[1], x[2])])):
                            old = st.env.get(('v', x[1], x[2]))
                            st.env[('v', x[1], x[2])] = s.T.mk('phi', fr.id, hd, str(x[2]))
                            if isinstance(old, int):
                                s.ck.on_phi(s, st, st.env[('v', x[1], x[2])], [old])
                continue
            if s.T.get(cur)[0] == 'int' and s.cval(cur) in (0, 1) and s.isboolvar(fr.f, v):
                continue
            st.env[key] = s.T.mk('phi', fr.id, hd, v)
            s.ck.on_phi(s, st, st.env[key], [cur])
        if fl:
            tok = ('L', fr.id, hd)
            s.bump(st, fl, tok)
        s.ck.on_loop(s, st, fr, hd, vs, fl)
        return st

    def isboolvar(s, f, u):
        c = f.rec.get('_bv')
        if c is None:
            c = set()
            for n in f.nodes:
                if n['k'] == 'Decl':
                    for v in n.get('vars', []):
                        if v.get('t', '') in ('bool',):
                            c.add(v['u'])
                if n['k'] == 'Ref' and n['d']['k'] in ('local', 'parm') and n['d'].get('t') in ('bool', 'bool &'):
                    c.add(n['d']['u'])
            f.rec['_bv'] = c
        return u in c

    def partkey(s, st, fr):
        bv = []
        for k, v in st.env.items():
            if k[1] == fr.id and isinstance(v, int) and s.isboolvar(fr.f, k[2]):
                x = s.T.get(v)
                if x[0] == 'int':
                    bv.append((k[2], x[1]))
                else:
                    t = st.facts.get(v)
                    if t is not None:
                        bv.append((k[2], t))
        return (st.auto, frozenset(bv), s.ck.partition(s, st, fr) if hasattr(s.ck, 'partition') else None)

    def covers(s, old, st):
        """was everything `st` allows already explored from `old`? (what `old` assumes holds in `st`)"""
        for k, v in old.facts.items():
            if st.facts.get(k) != v and not (isinstance(k, int) and s.truth(st, k) == v):
                return False
        return True

    def merge(s, states, fr, b):
        """join: keep what all states agree on"""
        base = states[0].copy()
        tok = ('m', fr.id, b)
        T = s.T
        others = states[1:]
        for k in list(base.facts):
            v = base.facts[k]
            for o in others:
                if o.facts.get(k) != v:
                    # derived truth is enough for int keys
                    if isinstance(k, int) and s.truth(o, k) == v:
                        continue
                    del base.facts[k]
                    break
        for k in set().union(*[set(o.env) for o in states]):
            v = base.env.get(k)
            if any(o.env.get(k) != v for o in others):
                if any(isinstance(o.env.get(k), tuple) for o in states):
                    base.env[k] = T.mk('mrgv', fr.id, b, str(k))
                else:
                    base.env[k] = T.mk('mrgv', fr.id, b, str(k))
                    s.ck.on_phi(s, base, base.env[k], [o.env.get(k) for o in states])
        bumpf = set()
        for k in set().union(*[set(o.ver) for o in states]):
            if any(o.ver.get(k) != base.ver.get(k) for o in others):
                bumpf.add(k)
        for k in set().union(*[set(o.heap) for o in states]):
            v = base.heap.get(k)
            if any(o.heap.get(k) != v for o in others):
                base.heap.pop(k, None)
                x = T.get(k)
                if x[0] == 'Lfld':
                    bumpf.add(x[2])
                elif x[0] == 'Lder':
                    bumpf.add('*')
        for k in bumpf:
            # keep agreeing heap entries; unknown ones get a fresh version
            base.ver[k] = tok
        for k in set().union(*[set(o.temps) for o in states]):
            v = base.temps.get(k)
            if any(o.temps.get(k) != v for o in others):
                if len(k) == 2 and isinstance(v, int):
                    base.temps[k] = T.mk('mrgv', fr.id, b, 't%s' % (k,))
                    s.ck.on_phi(s, base, base.temps[k], [o.temps.get(k) for o in states])
                else:
                    base.temps.pop(k, None)
        return base

    def func(s, fr, entry):
        f = fr.f
        if f.rec.get('nocfg'):
            return [(st, s.site(fr, 0, 0, 'unk')) for st in entry]
        s.inlined.add(f.id)
        f.cfg()
        s.stats['functions_in_context'] += 1
        for st in entry:
            s.ck.on_enter(s, st, fr)
        pend = {f.entry: [(st, False) for st in entry]}
        headseen = collections.defaultdict(dict)
        exits = []
        snaps = []
        hstate = {}
        hcount = collections.Counter()
        while True:
            if not pend:
                if f.handlers:
                    todo = collections.OrderedDict()
                    for x, q in snaps:
                        cts = {t for tr in f.tryr[x] for t in tr}
                        for h in f.handlers:
                            if f.blocks[h]['label'].get('ct') in cts:
                                todo.setdefault((h, q.auto), []).append(q)
                    snaps = []
                    more = False
                    for (h, a), qs in todo.items():
                        old = hstate.get((h, a))
                        every = ([old] if old is not None else []) + qs
                        hcount[h, a] += 1
                        st = s.merge(every, fr, ('exc', h, hcount[h, a])) if len(every) > 1 else qs[0].copy()
                        if hcount[h, a] > 4:
                            if hcount[h, a] > 5:
                                continue
                            s.havoc(st, fr, h)
                        elif old is not None and old.key() == st.key():
                            continue
                        st.auto = a
                        for k in [k for k in st.temps if k[0] == fr.id]:
                            del st.temps[k]
                        hstate[h, a] = st.copy()
                        if hasattr(s.ck, 'on_catch'):
                            s.ck.on_catch(s, st, fr, h)
                        pend.setdefault(h, []).append((st, False))
                        more = True
                    if more:
                        continue
                break
            b = min(pend, key=lambda x: f.rpoidx[x])
            sts = pend.pop(b)
            s.budget -= len(sts)
            s.stats['path_states'] += len(sts)
            if s.budget < 0:
                raise AnalysisError('state budget exhausted in ' + f.q)
            bl = f.blocks[b]
            if b in f.loops:
                nsts = []
                for st, back in sts:
                    st = s.loophead(st, fr, b, f.loops[b], back)
                    k = s.partkey(st, fr)
                    seen = headseen[b].setdefault(k, [])
                    if back:
                        if any(s.covers(o, st) for o in seen):
                            continue
                        if len(seen) > 4:
                            st = s.merge(seen + [st], fr, b)
                    seen.append(st)
                    nsts.append(st)
                sts = nsts
                if len(sts) > 1:
                    sts = s.reduce(sts, fr, b, 1)
            else:
                sts = [x for x, _ in sts]
                sts = s.reduce(sts, fr, b, s.ck.K)
            for st in sts:
                res = [st]
                dead = False
                for ei, e in enumerate(bl['e']):
                    nres = []
                    x = e if isinstance(e, int) else e.get('x')
                    tried = f.handlers and x in f.tryr and s.mayraise(f, x)
                    for q in res:
                        pre = q.copy() if tried else None
                        rs = s.step(q, fr, b, e)
                        if tried:
                            for a in s.ck.exc_autos(s, pre, rs):
                                t = s.merge([pre] + rs, fr, ('exc', x)) if rs else pre.copy()
                                t.auto = a
                                snaps.append((x, t))
                        nres.extend(rs)
                    res = nres
                    if not res:
                        break
                    if len(res) > 4 * s.ck.K:
                        res = s.reduce(res, fr, b, s.ck.K)
                if bl.get('noret') or not res:
                    continue
                if b == f.exit:
                    for q in res:
                        exits.append(q)
                    continue
                for q in res:
                    s.branch(q, fr, b, bl, pend)
        # group exits
        out = []
        for q in exits:
            ret = q.temps.get((fr.id, 'ret'))
            out.append((q, ret))
        out = s.reduce_exits(out, fr)
        return out

    def mayraise(s, f, x):
        """node x raises something that the handlers around it catch; when none of the function is known to, any call does"""
        from .effects import effects
        E = effects(s.m)
        if any(E.raises(f.id, y) for y in f.tryr):
            return E.raises(f.id, x)
        return f.nodes[x]['k'] in ('Call', 'Construct', 'New', 'Throw')

    def havoc(s, st, fr, h):
        """forget what the function may have modified"""
        f = fr.f
        vs, fl = s.modvars(f, set(f.blocks))
        s.bump(st, fl, ('L', fr.id, h))
        for v in vs:
            key = ('v', fr.id, v)
            if isinstance(st.env.get(key), tuple):
                # a reference keeps its target, whose value may have changed
                x = s.T.get(st.env[key][1])
                if x[0] == 'Lvar':
                    st.env[('v', x[1], x[2])] = s.T.mk('phi', fr.id, h, str(x[2]))
                continue
            st.env[key] = s.T.mk('phi', fr.id, h, v)

    def reduce(s, sts, fr, b, K):
        if len(sts) <= 1:
            return sts
        uniq = {}
        for st in sts:
            uniq.setdefault(st.key(), st)
        sts = list(uniq.values())
        if len(sts) <= K:
            return sts
        groups = collections.OrderedDict()
        for st in sts:
            groups.setdefault(s.partkey(st, fr), []).append(st)
        out = []
        for g in groups.values():
            out.append(s.merge(g, fr, b) if len(g) > 1 else g[0])
        if len(out) > 8 * K:
            groups = collections.OrderedDict()
            for st in out:
                groups.setdefault(st.auto, []).append(st)
            out = [s.merge(g, fr, b) if len(g) > 1 else g[0] for g in groups.values()]
        return out

    def reduce_exits(s, outs, fr):
        for q, _ in outs:
            # leave the frame: locals and temporaries disappear
            for k in [k for k in q.env if k[1] == fr.id]:
                del q.env[k]
            for k in [k for k in q.temps if k[0] == fr.id]:
                del q.temps[k]
        uniq = collections.OrderedDict()
        for q, ret in outs:
            uniq.setdefault((q.key(), ret), (q, ret))
        outs = list(uniq.values())
        if len(outs) <= s.ck.KEXIT:
            return outs
        groups = collections.OrderedDict()
        for q, ret in outs:
            rc = None
            if ret is not None:
                x = s.T.get(ret)
                if x[0] in ('int', 'null'):
                    rc = x
                else:
                    t = s.truth(q, ret)
                    rc = ('truth', t) if t is not None else ('other',)
            extra = s.ck.partition(s, q, fr) if hasattr(s.ck, 'partition') else None
            groups.setdefault((q.auto, rc, extra), []).append((q, ret))
        res = []
        for (a, rc, ex), g in groups.items():
            if len(g) == 1:
                res.append(g[0])
                continue
            rets = {x for _, x in g}
            m = s.merge([x for x, _ in g], fr, 'exit')
            if len(rets) == 1:
                ret = g[0][1]
            elif rc and rc[0] in ('int',):
                ret = g[0][1]
            else:
                isb = fr.f.rt == 'bool'
                ret = s.T.mk('mrgv', fr.id, 'exit', 'ret', *(('B',) if isb else ()))
                if rc and rc[0] == 'truth':
                    s.assume(m, ret, rc[1])
            res.append((m, ret))
        return res

    def branch(s, st, fr, b, bl, pend):
        f = fr.f
        succ = bl['s']
        tk = bl.get('tk')
        cross = s.crossnodes(f)

        def go(q, t):
            if t is None or t < 0:
                return
            # drop temporaries that no other block can use
            for k in [k for k in q.temps if k[0] == fr.id and len(k) == 2 and isinstance(k[1], int) and k[1] not in cross]:
                del q.temps[k]
            back = (b, t) in f.backedges
            pend.setdefault(t, []).append((q, back))
        live = [x for x in succ if x is not None]
        if not tk or len(succ) <= 1 or tk in ('CXXTryStmt',):
            for t in succ:
                go(st.copy() if len(succ) > 1 else st, t)
            return
        if tk == 'SwitchStmt':
            cond = bl.get('cond')
            v = s.val(st, fr, b, cond) if cond is not None and cond >= 0 else None
            labels = []
            default = None
            for t in succ:
                if t < 0:
                    continue
                lab = f.blocks[t].get('label') or {}
                if lab.get('k') == 'CaseStmt':
                    cv = f.nodes[lab['v']].get('cv')
                    labels.append((t, None if cv is None else s.const(int(cv))))
                else:
                    default = t
            for t, c in labels:
                q = st.copy()
                if v is not None and c is not None and not s.assume(q, s.cmp('==', v, c), True):
                    continue
                go(q, t)
            if default is not None:
                q = st.copy()
                ok = True
                for t, c in labels:
                    if v is not None and c is not None and not s.assume(q, s.cmp('==', v, c), False):
                        ok = False
                if ok:
                    go(q, default)
            return
        cond = bl.get('cond')
        if cond is None or cond < 0:
            for t in succ:
                go(st.copy(), t)
            return
        # range-for and friends have their condition as an expression too
        t = s.boolterm(st, fr, b, cond)
        for idx, tgt in enumerate(succ[:2]):
            if tgt < 0:
                continue
            pol = idx == 0
            q = st.copy()
            if not s.assume(q, t, pol):
                continue
            if tk == 'BinaryOperator':
                tn = bl['tn']
                op = f.nodes[tn]['op']
                key = (fr.id, tn)
                short = pol == (op == '||')
                while True:
                    if short:
                        q.temps[key] = s.TRUE if pol else s.FALSE
                    else:
                        q.temps.pop(key, None)
                    up = (f.parents().get(key[1]) or [None])[0]
                    while up is not None and f.nodes[up]['k'] == 'Paren':
                        key = (fr.id, up)
                        up = (f.parents().get(up) or [None])[0]
                    if up is None or f.nodes[up]['k'] != 'Bin' or f.nodes[up].get('op') != op or f.nodes[up]['c'][0] != key[1]:
                        break
                    key = (fr.id, up)
            elif tk == 'ConditionalOperator':
                q.temps[(fr.id, bl['tn'], 'arm')] = pol
                q.temps.pop((fr.id, bl['tn']), None)
            go(q, tgt)

    # ------------------------------------------------------------ one CFG element
    def step(s, st, fr, b, e):
        T = s.T
        f = fr.f
        if isinstance(e, dict):
            if e['e'] == 'init':
                if 'field' in e and e.get('x', -1) >= 0:
                    v = s.val(st, fr, b, e['x'])
                    lv = s.lfld(s.lder(s.this(fr)), e['field'])
                    s.ck.on_store(s, st, fr, e['x'], lv, v)
                    s.wr(st, lv, v, ('w', fr.id, b, e['x']))
                return [st]
            s.ck.on_dtor(s, st, fr, e)
            return [st]
        n = f.nodes[e]
        k = n['k']
        c = n.get('c', [])
        key = (fr.id, e)
        if k in ('Call', 'Construct'):
            return s.call(st, fr, b, e, n)
        if k == 'Bin':
            op = n['op']
            if op in ('&&', '||'):
                if key in st.temps:
                    return [st]
                v = s.boolterm(st, fr, b, c[1])
                st.temps[key] = v
                return [st]
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                lv = s.ev(st, fr, b, c[0])
                v = s.val(st, fr, b, c[1])
                if op != '=':
                    v = s.arith(op[:-1], s.rd(st, lv) if s.islv(lv) else lv, v)
                s.ck.on_store(s, st, fr, e, lv, v)
                s.wr(st, lv, v, ('w', fr.id, b, e))
                st.temps[key] = lv
                return [st]
            st.temps[key] = s._evn(st, fr, b, e)
            return [st]
        if k == 'Un' and n['op'] in ('++', '--', '++post', '--post'):
            lv = s.ev(st, fr, b, c[0])
            old = s.rd(st, lv) if s.islv(lv) else lv
            one = s.const(1)
            new = s.arith('+' if n['op'].startswith('+') else '-', old, one)
            s.ck.on_store(s, st, fr, e, lv, new)
            s.wr(st, lv, new, ('w', fr.id, b, e))
            st.temps[key] = old if n['op'].endswith('post') else lv
            return [st]
        if k == 'Decl':
            for v in n.get('vars', []):
                ek = ('v', fr.id, v['u'])
                ini = v.get('init')
                t = v.get('t', '')
                if ini is not None and ini >= 0:
                    if t.endswith('&'):
                        lv = s.ev(st, fr, b, ini)
                        if s.islv(lv):
                            st.env[ek] = ('@', lv)
                        else:
                            st.env[ek] = lv
                    else:
                        x = s.val(st, fr, b, ini)
                        st.env[ek] = x
                        lv = T.mk('Lvar', fr.id, v['u'])
                        for h in [h for h in st.heap if s.mentions_lv(h, lv)]:
                            del st.heap[h]
                        cn = f.nodes[f.strip(ini)]
                        s.adopt(st, fr, ini, lv)
                else:
                    st.env[ek] = T.mk('hv', fr.id, b, e, v['u'])
            return [st]
        if k == 'Return':
            if c and c[0] >= 0:
                v = s.ev(st, fr, b, c[0])
                if f.rt == 'bool' and s.islv(v):
                    v = s.rd(st, v, 'bool')
                elif s.islv(v) and not f.rt.endswith('&'):
                    v = s.rd(st, v, f.rt)
                if s.islv(v) and s.T.get(v)[0] == 'Lvar' and s.T.get(v)[1] == fr.id:
                    v = s.rd(st, v)
                if f.rt == 'bool' and not s.isconst(v):
                    tv = s.truth(st, v)
                    if tv is not None:
                        v = s.const(tv)
                st.temps[(fr.id, 'ret')] = v
            st.temps[(fr.id, 'retnode')] = e
            return [st]
        if k == 'Throw':
            s.ck.on_throw(s, st, fr, e)
            return []
        if k in ('Ref', 'Int', 'Bool', 'Str', 'Null', 'This', 'Float'):
            if k == 'Ref':
                return [st]
            return [st]
        if k == 'Delete':
            s.ck.on_delete(s, st, fr, e, s.val(st, fr, b, c[0])) if hasattr(s.ck, 'on_delete') else None
            return [st]
        if k == 'Cond':
            st.temps[key] = s._evn(st, fr, b, e)
            return [st]
        if k == 'ICast' and n.get('ck') == 'LValueToRValue':
            lv = s.ev(st, fr, b, c[0])
            st.temps[key] = s.rd(st, lv, n.get('t', '')) if s.islv(lv) else lv
            s.ck.on_read(s, st, fr, e, lv)
            return [st]
        if k in ('Lambda', 'New', 'Index', 'Member', 'ICast', 'ECast', 'MatTemp', 'Un', 'Paren', 'InitList'):
            v = s._evn(st, fr, b, e)
            st.temps[key] = v
            return [st]
        return [st]

    def adopt(s, st, fr, ini, lv):
        """object constructed in place: constructor stores went to a temporary object; rename it"""
        old = st.temps.get((fr.id, fr.f.strip(ini), 'obj'))
        if old is None:
            return
        for h in list(st.heap):
            x = s.T.get(h)
            if x[0] == 'Lfld' and x[1].i == old:
                st.heap[s.T.mk('Lfld', r(lv), x[2])] = st.heap[h]
        # keep the property's knowledge about that object
        if hasattr(s.ck, 'on_adopt'):
            s.ck.on_adopt(s, st, fr, old, lv)

    def _evn(s, st, fr, b, e):
        v = s._ev(st, fr, b, e)
        if v is None:
            v = s.site(fr, b, e, 'unk', *(('B',) if fr.f.nodes[e].get('t') == 'bool' else ()))
        return v

    # ------------------------------------------------------------ calls
    def call(s, st, fr, b, e, n):
        T = s.T
        f = fr.f
        key = (fr.id, e)
        fi = n.get('f')
        args = [s.ev(st, fr, b, a) for a in n.get('c', [])]
        obj = None
        objnode = n.get('obj', -1)
        ctor = n['k'] == 'Construct'
        if objnode is not None and objnode >= 0:
            o = s.ev(st, fr, b, objnode)
            ot = s.ty(fr, objnode)
            if s.islv(o) and not ot.endswith('*'):
                obj = o
            else:
                v = s.rd(st, o, ot) if s.islv(o) else o
                obj = s.lder(v)
        elif ctor:
            obj = T.mk('Ltmp', fr.id, b, e)
            for h in [h for h in st.heap if s.mentions_lv(h, obj)]:
                del st.heap[h]
            st.temps[(fr.id, e, 'obj')] = obj
        if ctor and len(args) == 1 and fi and (fi.get('cls') or '').startswith('lambda@'):
            st.temps[key] = s.rd(st, args[0]) if s.islv(args[0]) else args[0]
            return [st]
        tg = s.m.targets(f, n)
        if s.ck.DYN and len(tg) > 1 and obj is not None and fi is not None and obj == s.lder(T.mk('this', 0)):
            o = s.m.final_overrider(fi['id'], s.ck.DYN)
            tg = {o} if o in tg else tg
        s.stats['calls'] += 1
        # pointer-to-member call
        if fi is None and n.get('callee', -1) >= 0:
            cn = f.nodes[f.strip(n['callee'])]
            if cn['k'] == 'Bin' and cn['op'] in ('->*', '.*'):
                o = s.ev(st, fr, b, cn['c'][0])
                v = s.rd(st, o) if s.islv(o) and cn['op'] == '->*' else o
                obj = s.lder(v) if cn['op'] == '->*' else v
            else:
                v = s.val(st, fr, b, n['callee'])
                x = T.get(v)
                if x[0] == 'fn':
                    tg = {x[1]}
        if fi is not None and fi['n'] == 'operator()' and obj is not None:
            v = s.rd(st, obj) if s.islv(obj) else obj
            x = T.get(v)
            if x[0] == 'lambda':
                tg = {x[3]}
        h = s.ck.on_call(s, st, fr, e, n, tg, obj, args)
        if h is not None:
            if h == 'stop':
                return []
            if isinstance(h, list):
                out = []
                for (q, ret) in h:
                    q.temps[key] = ret if ret is not None else s.site(fr, b, e, 'ret')
                    out.append(q)
                return out
        # smart pointers and trivial wrappers are transparent
        if fi is not None and not fi['repo']:
            return s.extcall(st, fr, b, e, n, fi, obj, args, tg)
        # decide: analyse in context, or summarise
        ctxt, rest = [], []
        for t in sorted(tg):
            fn = s.m.funcs.get(t)
            if fn is None:
                rest.append(t)
                continue
            deep = fr.depth >= s.ck.MAXDEPTH or sum(1 for x in fr.chain() if x.f.id == t) >= 2
            if not deep and (s.relevant(t) or (len(tg) == 1 and (s.small(t) or fn.lam))):
                ctxt.append(fn)
            else:
                if deep and s.relevant(t):
                    s.stats['recursion_cut'] += 1
                rest.append(t)
        out = []
        if rest or not ctxt:
            q = st.copy() if ctxt else st
            out += s.summary(q, fr, b, e, n, fi, obj, args, set(rest))
        for fn in ctxt:
            q = st.copy() if (len(ctxt) > 1 or rest) else st
            lex = None
            this = s.addr(obj) if obj is not None else None
            if fn.lam:
                x = T.get(s.rd(st, obj)) if obj is not None and s.islv(obj) else (T.get(obj) if obj is not None else ('',))
                lex = s.framebyid(x[1]) if x[0] == 'lambda' else fr
                this = None
            nf = s.frame(fr, b, e, fn, this, lex)
            s.bind(q, fr, b, nf, n, args)
            for q2, ret in s.func(nf, [q]):
                s.ck.on_return(s, q2, nf, ret)
                if ctor:
                    v = T.mk('obj', r(obj))
                    q2.temps[key] = v
                else:
                    q2.temps[key] = ret if ret is not None else s.site(fr, b, e, 'ret')
                out.append(q2)
        if len(out) > s.ck.KEXIT * 2:
            groups = collections.OrderedDict()
            for q in out:
                rt = q.temps.get(key)
                x = T.get(rt)
                groups.setdefault((s.partkey(q, fr), x if x[0] in ('int', 'null') else s.truth(q, rt)), []).append(q)
            out = [s.merge(g, fr, b) if len(g) > 1 else g[0] for g in groups.values()]
        return out

    def bind(s, st, fr, b, nf, n, args):
        for p, a in zip(nf.f.params, args):
            k = ('v', nf.id, p['u'])
            t = p['t']
            if t.endswith('&') and s.islv(a):
                st.env[k] = ('@', a)
            else:
                st.env[k] = s.rd(st, a, t) if s.islv(a) else a
        for p in nf.f.params[len(args):]:
            st.env[('v', nf.id, p['u'])] = s.T.mk('hv', nf.id, b, p['u'])

    def refset(s, fid):
        c = getattr(s, '_rs', None)
        if c is None:
            c = s._rs = {}
        if fid in c:
            return c[fid]
        out = set()
        for x in s.m.reachable([fid]):
            fn = s.m.funcs.get(x)
            if fn:
                for nn in fn.nodes:
                    if nn['k'] == 'Member' and nn['d']['k'] == 'field':
                        out.add(nn['d']['u'])
        c[fid] = out
        return out

    def summary(s, st, fr, b, e, n, fi, obj, args, tg):
        """call replaced by its effects"""
        T = s.T
        key = (fr.id, e)
        tok = ('c', fr.id, b, e)
        mods = set()
        for t in tg:
            mods |= s.m.modset(t)
        rt = (fi or {}).get('rt', '')
        B = ('B',) if rt == 'bool' else ()
        pure = bool(tg) and not mods
        pts = (fi or {}).get('pt', [])
        outs = []
        for a, t in zip(args, pts):
            if mutref(t) and s.islv(a):
                if bare(t) not in s.m.classes:
                    outs.append(a)
            elif t.endswith('*') and not t.startswith('const ') and not t.endswith('const *'):
                x = T.get(a)
                if x[0] == 'addr':
                    if bare(t) not in s.m.classes:
                        outs.append(x[1].i)
        argv = tuple(r(s.rd(st, a) if s.islv(a) and T.get(a)[0] in ('Lvar', 'Lfld', 'Ltmp') else a) for a in args)
        if pure and tg and fi:
            refs = set()
            for t in tg:
                refs |= s.refset(t)
            vers = tuple(sorted((k, v) for k, v in st.ver.items() if k in refs))
            ret = T.mk('call', fi['id'], r(obj) if obj is not None else None, argv, vers, *B)
            if outs:
                pass
        else:
            ret = s.site(fr, b, e, 'ret', *B)
        if mods:
            s.bump(st, mods, tok)
        for lv in outs:
            s.wr(st, lv, T.mk('hvr', fr.id, b, e, r(lv)), tok)
        if n['k'] == 'Construct':
            ret = T.mk('obj', r(obj), argv)
        if rt.endswith('&'):
            ret = T.mk('Lder', r(ret))
        st.temps[key] = ret
        s.ck.on_summary(s, st, fr, e, n, tg, ret) if hasattr(s.ck, 'on_summary') else None
        return [st]

    PRED = {'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not'}

    def predicate(s, st, fr, b, e, n, name, cls, args):
        """algorithms that apply a predicate to a range: result tied to the predicate's outcome on some element"""
        T = s.T
        if len(args) != 3 or fr.depth >= s.ck.MAXDEPTH:
            return None
        x = T.get(s.rd(st, args[2]) if s.islv(args[2]) else args[2])
        lf = s.m.funcs.get(x[3]) if x[0] == 'lambda' else None
        if lf is None or len(lf.params) != 1 or not (s.relevant(lf.id) or len(lf.nodes) <= 80):
            return None
        key = (fr.id, e)
        last = s.rd(st, args[1]) if s.islv(args[1]) else args[1]
        elem = T.mk('elem', fr.id, b, e)
        hit, out = [], []
        q = st.copy()
        nf = s.frame(fr, b, e, lf, None, s.framebyid(x[1]))
        p = lf.params[0]
        q.env[('v', nf.id, p['u'])] = ('@', T.mk('Lder', r(elem))) if p['t'].endswith('&') else s.rd(q, T.mk('Lder', r(elem)))
        want = name in ('any_of', 'none_of', 'find_if')
        for q2, ret in s.func(nf, [q]):
            t = s.truth(q2, ret) if ret is not None else None
            if t is None and ret is not None:
                if not s.assume(q2, ret, want):
                    continue
            elif t is not None and t != want:
                continue
            hit.append(q2)
        mods = s.m.modset(lf.id)
        if mods:
            s.bump(st, mods, ('w', fr.id, b, e))
        if name in ('any_of', 'all_of', 'none_of'):
            yes = s.TRUE if name == 'any_of' else s.FALSE
            for q2 in hit:
                q2.temps[key] = yes
            st.temps[key] = s.neg(yes)
            return hit + [st]
        it = T.mk('found', fr.id, b, e)
        for q2 in hit:
            q2.temps[key] = it
            q2.facts[s.cmp('==', it, last)] = False
        st.temps[key] = last
        return hit + [st]

    IDENT = {'get', 'operator->', 'operator*', 'move', 'forward', 'addressof'}

    def extcall(s, st, fr, b, e, n, fi, obj, args, tg):
        T = s.T
        key = (fr.id, e)
        name = fi['n']
        cls = fi.get('cls', '') or ''
        rt = fi.get('rt', '')
        B = ('B',) if rt == 'bool' else ()
        out = [st]
        if n['k'] == 'Construct':
            # copy / move / converting construction of library values keeps the value
            if len(args) >= 1 and (len(args) == 1 or all(fr.f.nodes[c]['k'] == 'DefArg' for c in n['c'][1:])):
                a = args[0]
                v = s.rd(st, a) if s.islv(a) else a
                if SMARTPTR.match(cls + '<') or cls.startswith(('std::unique_ptr', 'std::shared_ptr')):
                    st.temps[key] = v
                    return [st]
                if bare(s.ty(fr, n['c'][0])) in (cls, bare(cls)) or cls.startswith(('std::basic_string', '__gnu_cxx::__normal_iterator',
                                                                       'std::_Rb_tree_const_iterator', 'std::_List_const_iterator')):
                    st.temps[key] = v
                    return [st]
                st.temps[key] = T.mk('lib', cls, r(v))
                if mutref(fi['pt'][0]) and s.islv(a):
                    st.temps[key] = T.mk('lib', cls, r(a))
                return [st]
            st.temps[key] = T.mk('lib', cls, tuple(r(s.rd(st, a) if s.islv(a) else a) for a in args))
            if not args:
                st.temps[key] = T.mk('lib', cls, 'default')
            return [st]
        if name in ('operator*', 'operator->') and obj is not None:
            x = T.get(s.rd(st, obj) if s.islv(obj) else obj)
            if x[0] == 'found':
                lv = T.mk('Lder', r(T.mk('elem', *x[1:])))
                st.temps[key] = lv if name == 'operator*' else s.addr(lv)
                return [st]
        if name in ('get', 'operator->', 'operator*') and cls.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__uniq_ptr')):
            v = s.rd(st, obj) if s.islv(obj) else obj
            st.temps[key] = s.lder(v) if name == 'operator*' else v
            return [st]
        if name in ('move', 'forward', 'addressof') and not cls and args:
            st.temps[key] = args[0] if name != 'addressof' else s.addr(args[0])
            return [st]
        if name == 'operator bool' and cls.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr')):
            st.temps[key] = s.neg(s.cmp('==', s.rd(st, obj), s.NULL))
            return [st]
        if name in ('operator==', 'operator!=') and len(args) + (1 if obj is not None else 0) == 2:
            l = ([obj] if obj is not None else []) + args
            v = [s.rd(st, a) if s.islv(a) else a for a in l]
            st.temps[key] = s.cmp('==' if name == 'operator==' else '!=', v[0], v[1])
            return [st]
        if name == 'operator=' and obj is not None and len(args) == 1:
            v = s.rd(st, args[0]) if s.islv(args[0]) else args[0]
            s.ck.on_store(s, st, fr, e, obj, v)
            s.wr(st, obj, v, ('w', fr.id, b, e))
            st.temps[key] = obj
            return [st]
        if name == 'reset' and obj is not None and cls.startswith(('std::unique_ptr', 'std::shared_ptr')):
            v = (s.rd(st, args[0]) if s.islv(args[0]) else args[0]) if args else s.NULL
            s.ck.on_store(s, st, fr, e, obj, v)
            s.wr(st, obj, v, ('w', fr.id, b, e))
            return [st]
        pts = fi.get('pt', [])
        tok = ('w', fr.id, b, e)
        argv = tuple(r(s.rd(st, a) if s.islv(a) else a) for a in args)
        objv = None
        if obj is not None:
            objv = s.rd(st, obj) if s.islv(obj) else obj
        mutobj = obj is not None and not fi.get('const') and name not in s.m.MUTFREE
        h = s.predicate(st, fr, b, e, n, name, cls, args) if not cls and name in s.PRED else None
        if h is not None:
            return h
        # lambdas handed to the library may run now (those of another thread do not: they run in no state known here)
        thread = name in ('async', 'thread', 'jthread') and not cls or cls in ('std::thread', 'std::jthread')
        for a in () if thread else args:
            x = T.get(s.rd(st, a) if s.islv(a) else a)
            if x[0] == 'lambda':
                lf = s.m.funcs.get(x[3])
                if lf is not None:
                    mods = s.m.modset(lf.id)
                    if s.relevant(lf.id) and fr.depth < s.ck.MAXDEPTH:
                        nout = []
                        for q in out:
                            nout.append(q.copy())
                            nf = s.frame(fr, b, e, lf, None, s.framebyid(x[1]))
                            q = q.copy()
                            for p in lf.params:
                                q.env[('v', nf.id, p['u'])] = T.mk('hv', nf.id, b, p['u'])
                            for q2, ret in s.func(nf, [q]):
                                nout.append(q2)
                                if q2.auto != q.auto:        # may be called again
                                    q3 = q2.copy()
                                    for p in lf.params:
                                        q3.env[('v', nf.id, p['u'])] = T.mk('hv', nf.id, b, 'again', p['u'])
                                    nout += [x3 for x3, _ in s.func(nf, [q3])]
                        out = nout
                    elif mods:
                        for q in out:
                            s.bump(q, mods, tok)
        for st in out:
            muts = False
            for a, t in zip(args, pts):
                if mutref(t) and not t.endswith('&&') and s.islv(a):
                    s.ck.on_store(s, st, fr, e, a, None)
                    s.wr(st, a, T.mk('hvr', fr.id, b, e, r(a)), tok)
                    muts = True
                elif t.endswith('*') and not t.startswith('const '):
                    x = T.get(a)
                    if x[0] == 'addr':
                        s.ck.on_store(s, st, fr, e, x[1].i, None)
                        s.wr(st, x[1].i, T.mk('hvr', fr.id, b, e, x[1]), tok)
                        muts = True
            if mutobj and s.islv(obj):
                s.ck.on_store(s, st, fr, e, obj, None)
                s.wr(st, obj, T.mk('hvr', fr.id, b, e, r(obj)), tok)
            if mutobj or muts or rt == 'void':
                ret = s.site(fr, b, e, 'ret', *B)
                if rt.endswith('&') and obj is not None and name.startswith('operator'):
                    ret = obj
            elif rt.endswith('&'):
                if name in ('operator[]', 'at') and args and obj is not None:
                    ret = T.mk('Lidx', r(obj), argv[0])
                else:
                    ret = T.mk('Lidx', r(obj), r(T.mk('fnr', name, argv))) if obj is not None else T.mk('Lder', r(T.mk('lib', name, argv)))
            else:
                ret = T.mk('lib', fi['q'], r(objv) if objv is not None else None, argv, *B)
            st.temps[key] = ret
        return out
