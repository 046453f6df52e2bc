"""Symbolic container extents: iterators, sizes and library copies over linear terms.

Container sizes are pseudo data members '#size'; iterators and element addresses are ('it', container, offset)."""
from .engine import Checker, r
from .model import bare

CONT = ('std::vector<', 'std::basic_string<', 'std::array<', 'std::__cxx11::basic_string<')
ITER = ('__gnu_cxx::__normal_iterator<',)
COPIES2 = {'copy', 'transform', 'move', 'uninitialized_copy', 'copy_backward'}        # (first, last, dest)
COPYN = {'copy_n'}                                                  # (first, n, dest)
MEM = {'memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove', 'strncpy'}       # (dest, src, n)
SEARCH = {'find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound', 'max_element', 'min_element', 'remove',
          'remove_if', 'unique', 'partition', 'adjacent_find', 'search', 'find_first_of'}
RANGEFN = {'assign', 'accumulate', 'for_each', 'fill', 'equal', 'count', 'count_if', 'any_of', 'all_of', 'none_of',
           'sort', 'append', 'insert', 'mismatch', 'distance', 'replace', 'reverse', 'generate', 'iota', 'lexicographical_compare'}


def iscont(t):
    return bare(t).startswith(CONT)


class Lin:
    __slots__ = ('d', 'c')

    def __init__(s, d=None, c=0):
        s.d = {k: v for k, v in (d or {}).items() if v}
        s.c = c

    def add(s, o, k=1):
        d = dict(s.d)
        for a, v in o.d.items():
            d[a] = d.get(a, 0) + k * v
        return Lin(d, s.c + k * o.c)

    def isconst(s):
        return not s.d


class Ranges(Checker):
    """mix-in; interesting(eng, st, lv) selects the containers whose accesses are obligations"""
    def interesting(self, eng, st, lv):
        return True

    def obligation(self, eng, st, fr, i, lv, end, what):
        pass

    def __init__(self):
        self.sites = set()

    # ---- linear terms
    def lin(self, eng, t):
        T = eng.T
        x = T.get(t)
        if x[0] == 'int':
            return Lin({}, x[1])
        if x[0] == 'bin' and x[1] in ('+', '-'):
            return self.lin(eng, x[2].i).add(self.lin(eng, x[3].i), 1 if x[1] == '+' else -1)
        if x[0] == 'bin' and x[1] == '*':
            a, b = self.lin(eng, x[2].i), self.lin(eng, x[3].i)
            if a.isconst() or b.isconst():
                k, o = (a.c, b) if a.isconst() else (b.c, a)
                return Lin({n: v * k for n, v in o.d.items()}, o.c * k)
        if x[0] == 'un' and x[1] == '-':
            return Lin().add(self.lin(eng, x[2].i), -1)
        if x[0] == 'cast' and ('long' in x[1]):
            return self.lin(eng, x[2].i)
        return Lin({t: 1})

    def szlv(self, eng, lv):
        return eng.lfld(lv, '#size')

    def size(self, eng, st, lv):
        return eng.rd(st, self.szlv(eng, lv))

    def setsize(self, eng, st, lv, t, tok):
        st.heap[self.szlv(eng, lv)] = t

    def newsize(self, eng, st, fr, i, lv):
        self.setsize(eng, st, lv, eng.T.mk('hvs', fr.id, i, r(lv)), None)

    def asit(self, eng, st, t):
        T = eng.T
        if t is None:
            return None
        if eng.islv(t):
            t = eng.rd(st, t)
        for _ in range(4):
            x = T.get(t)
            if x[0] == 'it':
                return x[1].i, x[2].i
            if x[0] == 'addr' and T.get(x[1].i)[0] == 'Lidx':
                y = T.get(x[1].i)
                return y[1].i, y[2].i
            if x[0] == 'lib' and str(x[1]).startswith(ITER) and len(x) == 3 and not isinstance(x[2], (tuple, str)):
                t = x[2].i
                continue
            if x[0] == 'bin' and x[1] in ('+', '-'):
                for p, q in ((x[2].i, x[3].i), (x[3].i, x[2].i)):
                    y = self.asit(eng, st, p)
                    if y and (x[1] == '+' or p == x[2].i):
                        return y[0], eng.arith(x[1], y[1], q)
            return None
        return None

    def mkit(self, eng, lv, off):
        return eng.T.mk('it', r(lv), r(off))

    # ---- proving
    def facts(self, eng, st):
        T = eng.T
        out, later = [], []
        for k, pol in st.facts.items():
            if not isinstance(k, int):
                continue
            x = T.get(k)
            if x[0] == 'lt' or x[0] == 'eq' and pol:
                a, b = self.lin(eng, x[1].i), self.lin(eng, x[2].i)
                ds = [a.add(b, -1), b.add(a, -1)] if x[0] == 'eq' else [b.add(a, -1).add(Lin({}, -1)) if pol else a.add(b, -1)]
                # a difference of sizes wraps around: the comparison says what it reads only when it does not
                w = [y for y in (a, b) if not y.isconst() and (y.c < 0 or any(v < 0 for v in y.d.values()))]
                if w:
                    later.append((ds, w))
                else:
                    out += ds
        todo = True
        while todo:
            todo = False
            for z in list(later):
                if all(self.implied(eng, out, y) for y in z[1]):
                    out += z[0]
                    later.remove(z)
                    todo = True
        return out

    def implied(self, eng, fs, t):
        """t >= 0 follows from at most two facts"""
        if self.nonneg(eng, t):
            return True
        us = [t.add(d, -1) for d in fs]
        return any(self.nonneg(eng, u) for u in us) or \
            any(self.nonneg(eng, u.add(e, -1)) for i, u in enumerate(us) for e in fs[i + 1:])

    def nonneg(self, eng, l):
        return l.c >= 0 and all(v >= 0 and eng.T.get(a)[0] in ('fld', 'hvs', 'cast', 'init', 'lib', 'call')
                                and self.unsigned(eng, a) for a, v in l.d.items())

    def unsigned(self, eng, a):
        x = eng.T.get(a)
        return x[0] == 'hvs' or (x[0] == 'fld' and x[2] == '#size')

    def proves(self, eng, st, lo, hi):
        """lo <= hi"""
        return self.implied(eng, self.facts(eng, st), self.lin(eng, hi).add(self.lin(eng, lo), -1))

    def access(self, eng, st, fr, i, lv, end, what):
        """container lv accessed up to (excluding) offset end"""
        if not self.interesting(eng, st, lv):
            return
        self.sites.add((fr.f.id, i))
        ok = end is not None and self.proves(eng, st, end, self.size(eng, st, lv))
        if not ok:
            eng.report(fr, i, what)

    def dist(self, eng, st, a, b):
        """b - a"""
        x, y = self.asit(eng, st, a), self.asit(eng, st, b)
        if x and y:
            return eng.arith('-', y[1], x[1]) if x[0] == y[0] else None
        if x or y:
            return None
        A = self.lin(eng, eng.rd(st, a) if eng.islv(a) else a)
        B = self.lin(eng, eng.rd(st, b) if eng.islv(b) else b)
        d = B.add(A, -1)
        return self.unlin(eng, d)

    def unlin(self, eng, l):
        t = eng.const(l.c)
        for a, v in l.d.items():
            for _ in range(abs(v)):
                t = eng.arith('+' if v > 0 else '-', t, a)
        return t

    # ---- hooks
    def on_store(self, eng, st, fr, i, lv, val):
        x = eng.T.get(lv)
        if x[0] == 'Lder':
            it = self.asit(eng, st, x[1].i)
            if it:
                self.access(eng, st, fr, i, it[0], eng.arith('+', it[1], eng.const(1)),
                            'store through an iterator that is not proven inside the storage')
        if x[0] == 'Lidx':
            pass

    def rangecall(self, eng, st, fr, i, n, tg, obj, args):
        """handles library calls on containers; None when not one of them"""
        T = eng.T
        fi = n.get('f')
        if fi is None or fi['repo']:
            return None
        name, cls = fi['n'], fi.get('cls') or ''
        f = fr.f
        argv = [eng.rd(st, a) if eng.islv(a) else a for a in args]
        cobj = None
        if obj is not None and cls.startswith(CONT):
            cobj = obj
        elif not cls and name in ('begin', 'end', 'cbegin', 'cend', 'size', 'data') and len(args) == 1 and \
                iscont(fi['pt'][0] if fi.get('pt') else ''):
            cobj = args[0]
        if cobj is not None and not eng.islv(cobj):
            cobj = eng.lder(eng.T.mk('addrof', r(cobj)))
        R = lambda v: [(st, v)]
        if cobj is not None and n['k'] != 'Construct':
            sz = lambda: self.size(eng, st, cobj)
            if name in ('begin', 'cbegin', 'data', 'c_str'):
                return R(self.mkit(eng, cobj, eng.const(0)))
            if name in ('end', 'cend'):
                return R(self.mkit(eng, cobj, sz()))
            if name in ('size', 'length'):
                return R(sz())
            if name == 'empty':
                return R(eng.cmp('==', sz(), eng.const(0)))
            if name in ('operator[]', 'at'):
                if name == 'operator[]':
                    self.access(eng, st, fr, i, cobj, eng.arith('+', argv[0], eng.const(1)),
                                'element access that is not proven inside the storage')
                return R(T.mk('Lidx', r(cobj), r(argv[0])))
            if name in ('front', 'back'):
                return R(T.mk('Lidx', r(cobj), r(eng.const(0) if name == 'front' else eng.arith('-', sz(), eng.const(1)))))
            if name == 'resize':
                self.setsize(eng, st, cobj, argv[0], None)
                st.temps[(fr.id, i)] = eng.const(0)
                return R(eng.const(0))
            if name == 'clear':
                self.setsize(eng, st, cobj, eng.const(0), None)
                return R(eng.const(0))
            if name in ('reserve', 'shrink_to_fit', 'capacity', 'max_size', 'get_allocator'):
                return R(eng.site(fr, 'op', i, 'ret'))
            if name == 'push_back' or name == 'emplace_back':
                self.setsize(eng, st, cobj, eng.arith('+', sz(), eng.const(1)), None)
                return R(eng.const(0))
        its = [self.asit(eng, st, a) for a in args]
        if n['k'] == 'Construct' and cls.startswith(ITER) and len(its) == 1 and its[0]:
            return R(self.mkit(eng, *its[0]))
        # iterator arithmetic
        if obj is not None and cls.startswith(ITER):
            it = self.asit(eng, st, obj)
            if it:
                if name in ('operator+', 'operator-') and args and not its[0]:
                    return R(self.mkit(eng, it[0], eng.arith(name[-1], it[1], argv[0])))
                if name == 'operator-' and args and its[0]:
                    return R(self.dist(eng, st, args[0], obj) or eng.site(fr, 'op', i, 'ret'))
                if name in ('operator++', 'operator--', 'operator+=', 'operator-=') and eng.islv(obj):
                    d = argv[0] if name.endswith('=') else eng.const(1)
                    new = self.mkit(eng, it[0], eng.arith(name[8], it[1], d))
                    eng.wr(st, obj, new, ('w', fr.id, 'op', i))
                    return R(new if args else new)
                if name in ('operator*', 'operator->', 'operator[]'):
                    off = it[1] if name != 'operator[]' else eng.arith('+', it[1], argv[0])
                    self.access(eng, st, fr, i, it[0], eng.arith('+', off, eng.const(1)),
                                'element access through an iterator that is not proven inside the storage')
                    lv = T.mk('Lidx', r(it[0]), r(off))
                    return R(lv if name != 'operator->' else eng.addr(lv))
        if name in ('next', 'advance') and its and its[0]:
            return R(self.mkit(eng, its[0][0], eng.arith('+', its[0][1], argv[1] if len(argv) > 1 else eng.const(1))))
        # constructors of containers: record the size
        if n['k'] == 'Construct' and cls.startswith(CONT):
            lv = obj
            real = [a for a, c in zip(args, n['c']) if f.nodes[c]['k'] != 'DefArg' and
                    not bare(f.nodes[c].get('t', '')).startswith('std::allocator<')]
            if not real:
                self.setsize(eng, st, lv, eng.const(0), None)
            elif len(real) >= 2 and self.asit(eng, st, real[0]) and self.asit(eng, st, real[1]):
                a, b = self.asit(eng, st, real[0]), self.asit(eng, st, real[1])
                self.access(eng, st, fr, i, b[0], b[1], 'range that is not proven inside the storage')
                d = self.dist(eng, st, real[0], real[1])
                self.setsize(eng, st, lv, d if d is not None else T.mk('hvs', fr.id, i, r(lv)), None)
            elif self.asit(eng, st, real[0]) and len(real) == 2:
                a = self.asit(eng, st, real[0])
                self.access(eng, st, fr, i, a[0], eng.arith('+', a[1], eng.rd(st, real[1]) if eng.islv(real[1]) else real[1]),
                            'range that is not proven inside the storage')
                self.newsize(eng, st, fr, i, lv)
            elif self.asit(eng, st, real[0]) and fi['pt'][0].endswith('*'):
                a = self.asit(eng, st, real[0])
                self.access(eng, st, fr, i, a[0], None, 'unterminated read: no bound for the length')
                self.newsize(eng, st, fr, i, lv)
            elif fi['pt'][0] in ('unsigned long', 'size_type') or (cls.startswith('std::vector<') and fi['pt'][0].endswith('long')):
                self.setsize(eng, st, lv, eng.rd(st, real[0]) if eng.islv(real[0]) else real[0], None)
            elif eng.islv(real[0]) and iscont(fi['pt'][0]):
                self.setsize(eng, st, lv, self.size(eng, st, real[0]), None)
            else:
                self.newsize(eng, st, fr, i, lv)
            return None
        # copies
        def dest(d, ln, what):
            it = self.asit(eng, st, d)
            if it:
                end = None if ln is None else eng.arith('+', it[1], ln)
                self.access(eng, st, fr, i, it[0], end, what)
                return self.mkit(eng, it[0], end if end is not None else eng.site(fr, 'op', i, 'hv'))
            return eng.site(fr, 'op', i, 'ret')
        W = 'bytes copied into a container are not proven to fit its size'
        RD = 'bytes copied from a container are not proven to be inside it'
        if name in COPIES2 and not cls and len(args) >= 3:
            ln = self.dist(eng, st, args[0], args[1])
            if its[0] and its[1]:
                self.access(eng, st, fr, i, its[1][0], its[1][1], RD)
            return R(dest(args[2], ln, W))
        if name in COPYN and len(args) >= 3:
            ln = argv[1]
            if its[0]:
                self.access(eng, st, fr, i, its[0][0], eng.arith('+', its[0][1], ln), RD)
            return R(dest(args[2], ln, W))
        if name in MEM and len(args) >= 3:
            if its[1]:
                self.access(eng, st, fr, i, its[1][0], eng.arith('+', its[1][1], argv[2]), RD)
            dest(args[0], argv[2], W)
            return R(argv[0])
        if name in SEARCH and len(its) >= 2 and its[0] and its[1]:
            self.access(eng, st, fr, i, its[1][0], its[1][1], RD)
            off = eng.site(fr, 'op', i, 'pos')
            # first <= pos <= last
            st.facts[T.mk('lt', r(its[1][1]), r(off))] = False
            st.facts[T.mk('lt', r(off), r(its[0][1]))] = False
            return R(self.mkit(eng, its[1][0], off))
        for k in range(len(its)):
            if its[k]:
                nx = its[k + 1] if k + 1 < len(its) else None
                if nx and nx[0] == its[k][0]:
                    self.access(eng, st, fr, i, nx[0], nx[1], RD)
                elif k > 0 and its[k - 1] and its[k - 1][0] == its[k][0]:
                    pass
                elif k + 1 < len(fi['pt']) and 'long' in fi['pt'][k + 1]:
                    self.access(eng, st, fr, i, its[k][0], eng.arith('+', its[k][1], argv[k + 1]), RD)
                elif name in ('back_inserter', 'insert', 'erase', 'operator==', 'operator!=', 'operator<', 'operator<<') \
                        or n['k'] == 'Construct' and cls.startswith(ITER) or name in ('operator=',) and cls.startswith(ITER):
                    if name == 'operator<<' and not (fi.get('pt') or [''])[-1].endswith('char *'):
                        pass
                else:
                    self.access(eng, st, fr, i, its[k][0], None,
                                'storage handed to %s without a proven length' % name)
        if cobj is not None and not fi.get('const') and name not in ('operator=',):
            self.newsize(eng, st, fr, i, cobj)
        elif cobj is not None and name == 'operator=' and args:
            if eng.islv(args[0]) and iscont(fi['pt'][0]):
                z = self.size(eng, st, args[0])
            else:
                z = T.mk('hvs', fr.id, i, r(cobj))
            eng.wr(st, cobj, T.mk('hvr', fr.id, 'op', i, r(cobj)), ('w', fr.id, 'op', i))
            self.setsize(eng, st, cobj, z, None)
            return R(cobj)
        return None

    def on_loop(self, eng, st, fr, hd, vs, fl):
        T = eng.T
        tg = set()
        for v in vs:
            tg.add(eng.resolve_var(st, fr, v))
        for k in [k for k in st.heap if T.get(k)[0] == 'Lfld' and T.get(k)[2] == '#size']:
            c = T.get(k)[1].i
            root, hit = c, c in tg
            while T.get(root)[0] in ('Lfld', 'Lidx'):
                if T.get(root)[0] == 'Lfld' and T.get(root)[2] in fl:
                    hit = True
                root = T.get(root)[1].i
                hit = hit or root in tg
            if hit or T.get(root)[0] == 'Lder' and fl:
                st.heap[k] = T.mk('hvs', fr.id, 'loop', hd, r(c))

    def on_adopt(self, eng, st, fr, old, lv):
        z = st.heap.get(self.szlv(eng, old))
        if z is not None:
            st.heap[self.szlv(eng, lv)] = z

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        return self.rangecall(eng, st, fr, i, n, tg, obj, args)
