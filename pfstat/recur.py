"""Values of loop-carried variables, iteration by iteration: the path engine gives each one a term (phi) and reports what
flows into it; the incoming terms are a recurrence, evaluated from the values at loop entry for given values of the leaves."""
import itertools
from .evalterm import ev, feasible


class Facts:
    def __init__(s, f):
        s.facts = dict(f)


class Recur:
    def __init__(s):
        s.inc = {}
        s.alt = {}
        s.back = {}

    def end(s, eng, st, fr, hd):
        s.back.setdefault((st.auto, fr.id, hd), set()).add(frozenset(st.facts.items()))

    def goes_on(s, eng, env, at, auto, fr, hd):
        """can iteration `at` of the loop be followed by another one?"""
        fss = s.back.get((auto, fr, hd))
        if fss is None:
            return True
        for fs in fss:
            if s.combos(eng, at, (), env, auto, Facts(fs)):
                return True
        return False

    def note(s, eng, st, new, olds):
        x = eng.T.get(new)
        d = s.inc if x[0] == 'phi' else s.alt
        w = d.setdefault((st.auto, new), set())
        fs = frozenset(st.facts.items())
        if len(w) > 40:
            fs = frozenset()
        w.update((o if isinstance(o, int) else None, fs) for o in olds)

    def phis(s, eng, t, d=0, acc=None):
        acc = set() if acc is None else acc
        x = eng.T.get(t)
        if x[0] in ('phi', 'mrgv'):
            acc.add(t)
        elif d < 16:
            for y in x[1:]:
                if hasattr(y, 'i'):
                    s.phis(eng, y.i, d + 1, acc)
                elif isinstance(y, tuple):
                    for z in y:
                        if hasattr(z, 'i'):
                            s.phis(eng, z.i, d + 1, acc)
        return acc

    def vals(s, eng, t, env, at, auto, lim=32):
        """set of values of t (None: undetermined) when the loop variables take the values `at` {phi: set}"""
        ps = sorted(s.phis(eng, t))
        opts = []
        for p in ps:
            o = at.get(p)
            if o is None and eng.T.get(p)[0] == 'mrgv' and (auto, p) in s.alt:
                o = set()
                for a, fs in s.alt[(auto, p)]:
                    if not feasible(eng, Facts(fs), env):
                        continue
                    o |= {None} if a is None or p in s.phis(eng, a) else s.vals(eng, a, env, at, auto)
            opts.append(sorted({None} if o is None else o, key=str))
        out = set()
        for n, combo in enumerate(itertools.product(*opts)):
            if n > lim:
                out.add(None)
                break
            e = dict(env)
            e.update({p: v for p, v in zip(ps, combo) if v is not None})
            out.add(ev(eng, t, e))
        return out

    def iterate(s, eng, env, auto, n):
        """[{phi: set of values}] at the start of iterations 0..n-1 of every loop"""
        mine = {p: v for (a, p), v in s.inc.items() if a == auto}
        head = {p: eng.T.get(p)[1:3] for p in mine}
        first, step = {}, {}
        for p, v in mine.items():
            for o, fs in v:
                if not feasible(eng, Facts(fs), env):
                    continue  # this path is not taken for these values of the leaves
                back = o is None or any(head.get(q) == head[p] for q in s.deep(eng, o, auto))
                (step if back else first).setdefault(p, set()).add(o)
        cur = {}
        for _ in range(3):
            for p in mine:
                cur[p] = set().union(*[s.vals(eng, o, env, cur, auto) for o in first.get(p, ())]) or {None}
        out = [cur]
        for _ in range(n - 1):
            nxt = {}
            live = {h: s.goes_on(eng, env, out[-1], auto, *h) for h in set(head.values())}
            for p in mine:
                if not live[head[p]]:
                    nxt[p] = set()
                    continue
                # a variable the loop sets again each time without using its previous value
                fs = step.get(p, set())
                nxt[p] = set().union(*[{None} if o is None else s.vals(eng, o, env, out[-1], auto) for o in fs]) or {None}
                if len(nxt[p]) > 16:
                    nxt[p] = {None}
            out.append(nxt)
        return out

    def deep(s, eng, t, auto, d=0):
        out = set()
        for p in s.phis(eng, t):
            out.add(p)
            if eng.T.get(p)[0] == 'mrgv' and d < 6:
                for a, _ in s.alt.get((auto, p), ()):
                    if a is not None and a != p:
                        out |= s.deep(eng, a, auto, d + 1)
        return out

    def combos(s, eng, at, terms, env, auto, st, lim=64):
        """values of `terms` (tuple) on a path: one per choice of the loop variables that its facts allow"""
        ps = set()
        for t in terms:
            ps |= s.phis(eng, t)
        for k in st.facts:
            if isinstance(k, int):
                ps |= s.phis(eng, k)
        ps = sorted(ps)
        opts = []
        for p in ps:
            o = at.get(p)
            if o is None and eng.T.get(p)[0] == 'mrgv':
                o = s.vals(eng, p, env, at, auto)
            opts.append(sorted({None} if o is None else o, key=str))
        out = set()
        for n, combo in enumerate(itertools.product(*opts)):
            if n > lim:
                break
            e = dict(env)
            e.update({p: v for p, v in zip(ps, combo) if v is not None})
            if feasible(eng, st, e):
                out.add(tuple(ev(eng, t, e) for t in terms))
        return out
