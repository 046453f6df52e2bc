"""Rebasing of saved settings. In all code that can run on a context whose blackboard belongs to a configuration
(reachable from the functions that give a context a base offset) every path is followed into the blackboard
operations: the offset passed, as a linear term, must contain the element offset exactly once and the context's
base offset exactly once, negatively. Wherever a context is directed to a blackboard, the base offset given with it
must be the offset of the configured element (zero for the live one)."""
from .common import *
from ..ranges import Ranges

TECHNIQUE = 'interprocedural symbolic value tracking (offset/base-offset coefficients) to every blackboard access'
NOTE = 'Every path of every element operation reachable with a rebased context; value tracking is linear and ignores wrap-around.'
CTX = ('CParameterAccessContext', 'CConfigurationAccessContext')


def fields(m):
    off = getter_field(m, 'CConfigurableElement::getOffset')
    base = getter_field(m, 'CParameterAccessContext::getBaseOffset')
    bb = getter_field(m, 'CParameterAccessContext::getParameterBlackboard')
    return off, base, bb


def bbops(m):
    """operations of the blackboard taking an offset -> index of the offset parameter"""
    out = {}
    for f in m.funcs.values():
        if f.cls == 'CParameterBlackboard' and f.acc == PUBLIC and not f.ctor:
            k = [j for j, p in enumerate(f.params) if p['t'] in ('size_t', 'unsigned long', 'std::size_t')]
            if k:
                out[f.id] = k[-1]
    if len(out) < 8:
        raise AnalysisError('blackboard operations vanished')
    return out


def isctx(t):
    return bare(t) in CTX and t.endswith(('&', '*'))


class C(Checker):
    SMALL = 30

    def __init__(self, m, off, base, ops, rel):
        self.m, self.off, self.base, self.ops, self.rel = m, off, base, ops, rel
        self.sites = set()
        self.q = {}

    def relevant(self, eng):
        return self.rel

    # coefficients of (element offset, base offset) in a term; None when inconsistent
    def coef(self, eng, t, d=0):
        x = eng.T.get(t)
        if d > 30:
            return (0, 0)
        if t in self.q:
            return self.q[t]
        if x[0] == 'fld':
            return (1, 0) if x[2] == self.off else (0, 1) if x[2] == self.base else (0, 0)
        if x[0] == 'bin' and x[1] in '+-':
            a, b = self.coef(eng, x[2].i, d + 1), self.coef(eng, x[3].i, d + 1)
            if a is None or b is None:
                return None
            k = 1 if x[1] == '+' else -1
            return (a[0] + k * b[0], a[1] + k * b[1])
        if x[0] == 'un' and x[1] == '-':
            a = self.coef(eng, x[2].i, d + 1)
            return a and (-a[0], -a[1])
        if x[0] in ('cast', 'lib'):
            for y in x[1:]:
                if hasattr(y, 'i'):
                    return self.coef(eng, y.i, d + 1)
        if x[0] == 'bin':
            a, b = self.coef(eng, x[2].i, d + 1), self.coef(eng, x[3].i, d + 1)
            return (0, 0) if a == (0, 0) and b == (0, 0) else None
        return (0, 0)

    def on_phi(self, eng, st, new, olds):
        cs = {self.coef(eng, o) if isinstance(o, int) else (0, 0) for o in olds}
        if new in self.q:
            cs.add(self.q[new])
        self.q[new] = cs.pop() if len(cs) == 1 else None

    def phis(self, eng, t, d=0):
        x = eng.T.get(t)
        out = {t} if x[0] == 'phi' else set()
        if d < 12:
            for y in x[1:]:
                if hasattr(y, 'i'):
                    out |= self.phis(eng, y.i, d + 1)
        return out

    def on_store(self, eng, st, fr, i, lv, val):
        if val is None:
            return
        for p in self.phis(eng, val):
            if p in self.q and self.q[p] not in (None, (0, 0)) and self.coef(eng, val) != self.q[p] \
                    and eng.T.get(lv)[0] == 'Lvar' and eng.T.get(lv)[2] == eng.T.get(p)[3]:
                eng.report(fr, i, 'the offset is rebased differently from one iteration to the next')

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        for t in tg & set(self.ops):
            k = self.ops[t]
            if k >= len(args):
                continue
            a = args[k]
            v = eng.rd(st, a) if eng.islv(a) else a
            c = self.coef(eng, v)
            self.sites.add((fr.f.id, i))
            if c != (1, -1):
                why = {(1, 0): 'the offset in the live settings is used without subtracting the base offset',
                       (0, 0): 'the offset does not depend on the element'}.get(
                    c, 'the offset is not rebased exactly once')
                eng.report(fr, i, why + ' in code that also serves settings saved in a configuration')
            return 'summ'
        return None


class W(Checker):
    """contexts directed to a blackboard"""
    SMALL = 60

    def __init__(self, m, off, base, bbf, main):
        self.m, self.off, self.base, self.bbf, self.main = m, off, base, bbf, main
        self.sites = set()
        self.area = {x['u'] for x in m.classes.get('CAreaConfiguration', {}).get('fields', [])}
        self.find = {f.id for f in m.fn('CConfigurableDomain::findConfigurationBlackboard')}

    def relevant(self, eng):
        return {x for x in self.m.reaching(self.find) if x in self.m.funcs} - self.find

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        T = eng.T
        if tg & self.find:
            for a, p in zip(args, fi['pt']):
                if p in ('unsigned long &', 'size_t &') and eng.islv(a):
                    eng.wr(st, a, T.mk('cfgoff', fr.id, i), ('w', fr.id, 'op', i))
                elif p == 'bool &' and eng.islv(a):
                    eng.wr(st, a, T.mk('cfglast', fr.id, i, 'B'), ('w', fr.id, 'op', i))
            return [(st, T.mk('cfgbb', fr.id, i))]
        if not fi.get('repo') or bare(fi.get('cls') or '') in CTX or n['k'] == 'Construct':
            return None
        for a, p in zip(args, fi.get('pt', [])):
            if not isctx(p):
                continue
            if not eng.islv(a):
                x = T.get(a)
                a = x[1].i if x[0] == 'addr' else eng.lder(a)
            b = eng.rd(st, eng.lfld(a, self.bbf))
            x = T.get(b)
            v = eng.rd(st, eng.lfld(a, self.base))
            y = T.get(v)
            if x[0] == 'addr' and T.get(x[1].i)[0] == 'Lfld' and T.get(x[1].i)[2] in self.area:
                self.sites.add((fr.f.id, i))
                if not (y[0] == 'fld' and y[2] == self.off):
                    eng.report(fr, i, 'a context is directed to the settings of a configuration without their base offset')
            elif x[0] == 'cfgbb':
                self.sites.add((fr.f.id, i))
                if not (y[0] == 'cfgoff' and y[1:3] == x[1:3]):
                    eng.report(fr, i, 'a context is directed to the settings of a configuration without their base offset')
            elif x[0] in ('fld', 'Lfld') and x[2] == self.main:
                self.sites.add((fr.f.id, i))
                if y != ('int', 0):
                    eng.report(fr, i, 'a context directed to the live settings keeps a base offset')
        return None

class F(Checker):
    """findConfigurationBlackboard: returned blackboard and base offset belong to the same element"""
    K = KEXIT = 40
    def __init__(self, off):
        self.off = off
        self.sites = set()

    def relevant(self, eng):
        return set()

    def on_exit(self, eng, st, fr, ret):
        if ret is None or eng.T.get(ret)[0] == 'null' or eng.T.get(ret) == ('int', 0):
            return
        self.sites.add(fr.f.id)
        outp = [p for p in fr.f.params if p['t'].replace('std::', '') in ('size_t &', 'unsigned long &')]
        if not outp:
            raise AnalysisError('anchor vanished: base offset output')
        v = eng.rd(st, refparam(eng, fr, outp[0]))
        x = eng.T.get(v)
        if x[0] != 'fld' or x[2] != self.off:
            eng.report(fr, -1, 'the base offset returned with the settings of a configuration is not the offset of an element')
            return
        elem = x[1].i
        # the element must be an argument of the call that produced the blackboard
        y = eng.T.get(ret)
        txt = eng.T.show(ret)
        if eng.T.show(elem) not in txt and not self.inside(eng, st, ret, elem):
            eng.report(fr, -1, 'the settings returned and their base offset belong to different elements')

    def inside(self, eng, st, t, e, d=0):
        if t == e or d > 10:
            return t == e
        x = eng.T.get(t)
        if x[0] == 'addr' and self.inside(eng, st, x[1].i, e, d + 1):
            return True
        for y in x[1:]:
            for z in (y if isinstance(y, tuple) else (y,)):
                if hasattr(z, 'i') and self.inside(eng, st, z.i, e, d + 1):
                    return True
        z = eng.T.get(e)
        if z[0] in ('Lder',) and d == 0:
            return self.inside(eng, st, t, z[1].i, d + 1)
        return False


def constzero(f, i):
    i = f.strip(i)
    return f.nodes[i].get('v') == 0 and f.nodes[i]['k'] == 'Int'


def ctxreach(m, roots):
    """functions reached by handing the context on"""
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x in seen or x not in m.funcs:
            continue
        seen.add(x)
        f = m.funcs[x]
        for n in f.nodes:
            if n['k'] == 'Lambda' and n.get('f'):
                todo.append(n['f']['id'] if isinstance(n['f'], dict) else n['f'])
            fi = n.get('f')
            if n['k'] in ('Call', 'Construct', 'MCall') and isinstance(fi, dict) and \
                    any(isctx(p) for p in fi.get('pt', [])):
                todo += list(m.targets(f, n))
    return seen


def check(m, tier):
    off, base, bbf = fields(m)
    ops = bbops(m)
    setters = {f.id for f in m.fn('CParameterAccessContext::setBaseOffset')}
    ctors = {f.id for f in m.funcs.values() if f.ctor and f.cls in CTX and
             len([p for p in f.params if p['t'] in ('size_t', 'unsigned long')])}
    find = {f.id for f in m.fn('CConfigurableDomain::findConfigurationBlackboard')}
    finders = m.reaching(find)
    main = getter_field(m, 'CParameterMgr::getParameterBlackboard')
    # functions that direct a context to the settings of a configuration
    dirs = {f.id for f in m.funcs.values() if not f.lam and (
        (f.cls == 'CAreaConfiguration' and any(isctx(p['t']) for p in f.params)) or
        (f.cls == 'CParameterMgr' and f.id in finders))}
    if len(dirs) < 2:
        raise AnalysisError('anchor vanished: no context is directed to the settings of a configuration')
    for f in m.funcs.values():
        for n in f.nodes:
            i = (n.get('f') or {}).get('id')
            if i in setters or i in ctors:
                if f.cls in CTX:
                    continue
                if i in ctors:
                    k = [j for j, p in enumerate(n['f']['pt']) if p in ('size_t', 'unsigned long', 'std::size_t')]
                    if not k or k[-1] >= len(n['c']) or f.nodes[n['c'][k[-1]]]['k'] == 'DefArg' or \
                            constzero(f, n['c'][k[-1]]):
                        continue
                dirs.add(f.id)
    if not dirs:
        raise AnalysisError('nothing sets a base offset')
    R = ctxreach(m, dirs)
    use = m.reaching(set(ops))
    rel = {x for x in R & use if x in m.funcs and m.funcs[x].cls != 'CParameterBlackboard'}
    vio, sites, paths, roots = [], set(), 0, []
    for x in sorted(rel):
        f = m.funcs[x]
        if not m.derives(f.cls, 'CConfigurableElement') or f.ctor or f.dtor or f.lam:
            continue
        if not any(isctx(p['t']) for p in f.params):
            continue
        if any(p['t'] in ('size_t', 'unsigned long') for p in f.params):
            continue
        c = C(m, off, base, ops, rel)
        eng = Engine(m, c)
        eng.run(f)
        roots.append(f.q)
        sites |= c.sites
        paths += eng.stats['path_states']
        vio += eng.violations
    # directing contexts
    w = 0
    for f in sorted((m.funcs[x] for x in dirs), key=lambda f: f.id):
        c = W(m, off, base, bbf, main)
        eng = Engine(m, c)
        eng.run(f)
        w += len(c.sites)
        vio += eng.violations
    wf = 0
    for f in m.fn('CConfigurableDomain::findConfigurationBlackboard'):
        c = F(off)
        eng = Engine(m, c)
        eng.run(f, refparams)
        wf += len(c.sites)
        vio += eng.violations
    if not w or not wf:
        raise AnalysisError('no context is directed to a configuration')
    return result(None, {'instances_checked': len(sites) + w + wf, 'blackboard_accesses': len(sites),
                         'element_operations_analysed': len(roots), 'roots': sorted(set(roots)), 'path_states': paths,
                         'context_directions': w}, dedup(vio))
