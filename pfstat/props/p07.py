"""Automatic synchronisation. Path by path: (1) every operation of the elements that writes a value through an access
context and reports success has, after its last write, run the syncer with success, unless the context is known to have
automatic synchronisation off, in which case it runs no syncer; it runs no syncer before a value was accepted and
written and never reports success after a failed one. (2) Every context handed to such an operation for writing carries
the auto-sync state of the manager when it is directed to the live settings (client handles: always on), and
auto-sync off when directed to a configuration. (3) Writing live settings from XML and restoring a configuration
synchronise when auto-sync is on, and only then. (4) Auto-sync is stored on only after a successful synchronisation,
an explicit synchronisation is served only while it is off, and a failed one is reported."""
from .common import *

TECHNIQUE = 'path-sensitive typestate (written / synchronised) plus value tracking of the access context'
NOTE = 'Every path of every operation; which syncers belong to an element and the order of transmissions are not decided here.'


def writers(m):
    w = {f.id for f in m.funcs.values() if f.cls == 'CParameterBlackboard' and f.acc == PUBLIC and not f.const and
         f.n not in ('setSize',) and not f.ctor}
    if len(w) < 3:
        raise AnalysisError('blackboard writers vanished')
    return w


def syncs(m):
    s = {f.id for f in m.fn('CSyncerSet::sync')}
    y = set()
    for c in m.classes.values():
        if c['q'] == 'ISyncer':
            y |= {x['id'] for x in c['methods'] if x['n'] == 'sync'}
    if not s or not y:
        raise AnalysisError('syncers vanished')
    return s, y


class Base(Checker):
    SMALL = 30

    def partition(self, eng, st, fr):
        return tuple(field_truth(eng, st, getattr(self, x)) for x in ('auto', 'flag') if hasattr(self, x))

    def __init__(self, m):
        self.m = m
        self.w = writers(m)
        self.ss, self.ys = syncs(m)
        self.allsync = set(self.ss) | self.ys
        for y in self.ys:
            self.allsync |= m.all_overriders(y)
        self.sites = set()

    def issync(self, n, tg):
        fi = n.get('f') or {}
        return bool(tg & self.ss) or fi.get('id') in self.ys or fi.get('id') in self.allsync

    def isback(self, eng, st, n, args):
        for a, p in zip(args, n['f']['pt']):
            if p == 'bool':
                return eng.truth(st, eng.rd(st, a) if eng.islv(a) else a)

    def fork(self, eng, st, ok, bad):
        out = []
        for v, ev in ((1, ok), (0, bad)):
            s = st.copy()
            ev(s)
            out.append((s, eng.T.mk('int', v)))
        return out


def context_ops(m):
    """element operations that write through an access context"""
    out = []
    w = writers(m)
    rw = m.reaching(w)
    for f in m.funcs.values():
        if not f.cls or not m.derives(f.cls, 'CConfigurableElement') or f.ctor or f.dtor:
            continue
        if f.acc == 2 or f.n in ('setDefaultValues', 'serializeXmlSettings') or f.id not in rw:
            continue
        if not any(bare(p['t']) == 'CParameterAccessContext' for p in f.params):
            continue
        if f.rt != 'bool':
            continue
        out.append(f)
    return out


class Op(Base):
    """automaton: N nothing written, R refused, W written, S synchronised, F synchronisation failed"""
    def __init__(self, m, auto, roots):
        Base.__init__(self, m)
        self.auto, self.roots = auto, roots
        self.reach = m.reaching(self.w | self.ss | self.ys)

    def relevant(self, eng):
        return {x for x in self.reach if x in self.m.funcs and
                (self.m.funcs[x].cls is None or self.m.funcs[x].lam or self.m.derives(self.m.funcs[x].cls, 'CConfigurableElement'))
                and self.m.funcs[x].n != 'accessValue' and x not in self.w}

    def init(self, eng, f):
        return 'N'

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.w:
            self.sites.add((fr.f.id, i))
            st.auto = 'W'
            return None
        if (n.get('f') or {}).get('n') == 'toBlackboard' and n['f'].get('rt') == 'bool':
            def same(s): pass

            def ref(s): s.auto = 'R'
            res = self.fork(eng, st, same, ref)
            for s, _ in res:
                for a, p in zip(args, n['f']['pt']):
                    if p.endswith('&') and not p.startswith('const') and eng.islv(a):
                        eng.wr(s, a, eng.site(fr, 'op', i, 'hv'), ('w', fr.id, 'op', i))
            return res
        if self.issync(n, tg):
            self.sites.add((fr.f.id, i))
            if st.auto == 'R':
                eng.report(fr, i, 'the syncer runs though the value was refused')
            if field_truth(eng, st, self.auto) is not True:
                eng.report(fr, i, 'the syncer runs without automatic synchronisation being known to be on')
            if self.isback(eng, st, n, args) is not False:
                eng.report(fr, i, 'a value that was set is overwritten by a back synchronisation')

            def ok(s): s.auto = 'S'

            def bad(s): s.auto = 'F'
            return self.fork(eng, st, ok, bad)
        return None

    def on_exit(self, eng, st, fr, ret):
        if ret is not None and eng.truth(st, ret) is False:
            return
        if st.auto == 'W' and field_truth(eng, st, self.auto) is not False:
            eng.report(fr, -1, 'a value is written and success reported without synchronisation though automatic '
                               'synchronisation may be on')
        if st.auto == 'F':
            eng.report(fr, -1, 'a failed synchronisation is reported as success')


class Ctx(Base):
    """contexts handed to element operations by the interfaces"""
    MAXDEPTH = 8

    def __init__(self, m, roots, f):
        Base.__init__(self, m)
        self.roots = roots
        self.bbf = getter_field(m, 'CParameterAccessContext::getParameterBlackboard')
        self.autof = getter_field(m, 'CParameterAccessContext::getAutoSync')
        self.main = getter_field(m, 'CParameterMgr::getParameterBlackboard')
        self.flag = getter_field(m, 'CParameterMgr::autoSyncOn')
        self.reach = m.reaching(set(roots))

    def relevant(self, eng):
        r = {x for x in self.reach if x in self.m.funcs and x not in self.roots and
             not (self.m.funcs[x].cls and self.m.derives(self.m.funcs[x].cls, 'CElement') and
                  self.m.funcs[x].cls != 'CParameterMgr')}
        return r | {f.id for f in self.m.funcs.values() if f.cls in ('CParameterAccessContext', 'CConfigurationAccessContext')}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        if not (tg & self.roots):
            return None
        fi = n['f']
        bset, ctx = None, None
        has = False
        for a, p in zip(args, fi['pt']):
            if p == 'bool':
                has = True
                bset = eng.truth(st, eng.rd(st, a) if eng.islv(a) else a)
            if bare(p) == 'CParameterAccessContext':
                ctx = a
        if ctx is None or has and bset is False:
            return None
        if fi.get('n', '').startswith('get') or fi.get('const') and False:
            return None
        self.sites.add((fr.f.id, i))
        c = ctx if eng.islv(ctx) else eng.lder(ctx)
        bb = eng.rd(st, eng.lfld(c, self.bbf))
        au = eng.rd(st, eng.lfld(c, self.autof))
        x = T.get(bb)
        tr = eng.truth(st, au)
        y = T.get(au)
        if x[0] == 'fld' and x[2] == self.main:
            root = fr.chain()[0].f
            client = root.cls in ('ElementHandle', 'CParameterHandle') and \
                not any(g.f.n in ('setSettingsAsBytes',) for g in fr.chain())
            if y[0] == 'fld' and y[2] == self.flag:
                return None
            fl = field_truth(eng, st, self.flag)
            if client and tr is True or tr is not None and fl is not None and tr == fl:
                return None
            eng.report(fr, i, 'a live value is set with automatic synchronisation that does not follow the auto-sync mode')
        elif tr is not False:
            eng.report(fr, i, 'a value of a configuration is set with automatic synchronisation possibly on')
        return None


class Flow(Base):
    """manager level operations: synchronise when the mode is on and only then"""
    def __init__(self, m, need=True):
        Base.__init__(self, m)
        self.flag = getter_field(m, 'CParameterMgr::autoSyncOn')
        self.main = getter_field(m, 'CParameterMgr::getParameterBlackboard')
        self.reach = m.reaching(self.ss | self.ys)
        self.need = need

    def relevant(self, eng):
        return {x for x in self.reach if x in self.m.funcs and x not in self.allsync and
                not self.m.funcs[x].cls in ('CDomainConfiguration',)} | \
            {f.id for f in self.m.funcs.values() if self.flag in self.m.direct_mod(f) or
             f.rt == 'bool' and f.cls == 'CParameterMgr' and any(p['t'] == 'bool' for p in f.params)}

    def init(self, eng, f):
        return ()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if fi.get('n') == 'restore' and fi.get('cls') == 'CDomainConfiguration':
            self.sites.add((fr.f.id, i))
            bt = None
            for a, p in zip(args, fi['pt']):
                if p == 'bool':
                    bt = eng.rd(st, a) if eng.islv(a) else a
            out = []
            for b in (True, False):
                q = st.copy()
                if bt is not None:
                    if eng.truth(q, bt) is not None:
                        if eng.truth(q, bt) is not b:
                            continue
                    elif not eng.assume(q, bt, b):
                        continue
                if b and field_truth(eng, q, self.flag) is not True:
                    eng.report(fr, i, 'a configuration is restored with synchronisation though auto-sync may be off')

                def ok(s): s.auto = tuple(sorted(set(s.auto) | {'restored'} | ({'sync'} if b else set())))

                def bad(s): s.auto = tuple(sorted(set(s.auto) | {'fail'}))
                out += self.fork(eng, q, ok, bad)
            return out
        if self.issync(n, tg):
            self.sites.add((fr.f.id, i))
            self.at_sync(eng, st, fr, i)

            def ok(s): s.auto = tuple(sorted(set(s.auto) | {'sync'}))

            def bad(s): s.auto = tuple(sorted(set(s.auto) | {'fail'}))
            return self.fork(eng, st, ok, bad)
        return None

    def at_sync(self, eng, st, fr, i):
        if field_truth(eng, st, self.flag) is not True:
            eng.report(fr, i, 'the syncers run though auto-sync may be off')

    def on_exit(self, eng, st, fr, ret):
        if ret is not None and eng.truth(st, ret) is False:
            return
        if 'fail' in st.auto:
            eng.report(fr, -1, 'a failed synchronisation is reported as success')
        if self.need and 'sync' not in st.auto and field_truth(eng, st, self.flag) is not False:
            eng.report(fr, -1, 'live settings are changed and success reported without synchronisation though auto-sync may be on')


class Explicit(Flow):
    def at_sync(self, eng, st, fr, i):
        if field_truth(eng, st, self.flag) is not False:
            eng.report(fr, i, 'explicit synchronisation is served though auto-sync may be on')

    def on_exit(self, eng, st, fr, ret):
        if ret is not None and eng.truth(st, ret) is False:
            return
        if 'fail' in st.auto:
            eng.report(fr, -1, 'a failed synchronisation is reported as success')
        if 'sync' not in st.auto:
            eng.report(fr, -1, 'explicit synchronisation reports success without having run the syncers')


class Mode(Flow):
    def at_sync(self, eng, st, fr, i):
        pass

    def on_store(self, eng, st, fr, i, lv, val):
        x = eng.T.get(lv)
        if x[0] == 'Lfld' and x[2] == self.flag:
            self.sites.add((fr.f.id, i))
            t = None if val is None else eng.truth(st, val)
            if t is not False and 'sync' not in st.auto and field_truth(eng, st, self.flag) is not True:
                if t is None and val is not None:
                    s2 = st.copy()
                    if not eng.assume(s2, val, True) or field_truth(eng, s2, self.flag) is True:
                        return
                eng.report(fr, i, 'auto-sync is switched on without a successful synchronisation')

    def on_exit(self, eng, st, fr, ret):
        T = eng.T
        p = [p for p in fr.f.params if p['t'] == 'bool']
        if ret is not None and eng.truth(st, ret) is False:
            if any(T.get(l)[0] == 'Lfld' and T.get(l)[2] == self.flag for l in st.heap):
                eng.report(fr, -1, 'a refused switch of auto-sync changes the mode')
            return
        want = T.mk('init', fr.id, p[0]['u'], 'B')
        wt, cur = eng.truth(st, want), field_truth(eng, st, self.flag)
        ok = any(T.get(l)[0] == 'Lfld' and T.get(l)[2] == self.flag and v == want for l, v in st.heap.items())
        if not ok and not (wt is not None and wt == cur):
            eng.report(fr, -1, 'success is reported without having stored the requested auto-sync mode')
        if 'fail' in st.auto:
            eng.report(fr, -1, 'a failed synchronisation is reported as success')


class Area(Base):
    """restoring one area"""
    def relevant(self, eng):
        return {x for x in self.m.reaching(self.allsync) if x in self.m.funcs and x not in self.allsync}

    def init(self, eng, f):
        return 'N'

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if self.issync(n, tg):
            self.sites.add((fr.f.id, i))

            def ok(s): s.auto = 'S'

            def bad(s): s.auto = 'F'
            return self.fork(eng, st, ok, bad)
        return None

    def on_exit(self, eng, st, fr, ret):
        T = eng.T
        p = [p for p in fr.f.params if p['t'] == 'bool']
        want = eng.truth(st, T.mk('init', fr.id, p[0]['u'], 'B'))
        if st.auto != 'N' and want is not True:
            eng.report(fr, -1, 'an area is synchronised though the caller did not ask for it')
        if ret is not None and eng.truth(st, ret) is False:
            return
        if st.auto == 'N' and want is not False:
            eng.report(fr, -1, 'an area is restored without the synchronisation the caller asked for')
        if st.auto == 'F':
            eng.report(fr, -1, 'a failed synchronisation is reported as success')


class Areas(Base):
    """restoring a configuration hands the request on to every area"""
    def __init__(self, m, area):
        Base.__init__(self, m)
        self.area = area

    def relevant(self, eng):
        return self.m.reaching(self.area) - self.area

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.area:
            self.sites.add((fr.f.id, i))
            root = fr.chain()[0]
            p = [p for p in root.f.params if p['t'] == 'bool']
            want = eng.T.mk('init', root.id, p[0]['u'], 'B')
            for a, t in zip(args, n['f']['pt']):
                if t == 'bool':
                    v = eng.rd(st, a) if eng.islv(a) else a
                    if v != want and (eng.truth(st, v) is None or eng.truth(st, v) != eng.truth(st, want)):
                        eng.report(fr, i, 'the synchronisation request is not handed on to the areas of the configuration')
        return None


def check(m, tier):
    auto = getter_field(m, 'CParameterAccessContext::getAutoSync')
    ops = context_ops(m)
    roots = {f.id for f in ops}
    base = {q for q in roots}
    vio, sites, paths, n = [], set(), 0, {}

    def go(c, f, what):
        nonlocal paths
        eng = Engine(m, c)
        eng.run(f)
        for s in c.sites:
            sites.add((what,) + s)
        n[what] = n.get(what, 0) + 1
        paths += eng.stats['path_states']
        vio.extend(eng.violations)
    for f in ops:
        if f.n == 'accessValue' and f.cls == 'CConfigurableElement':
            continue
        if f.n.startswith(('doSet', 'setValues')):
            continue
        go(Op(m, auto, roots), f, 'element operations')
    # operations as seen through their static declaration
    decl = set(roots)
    for x in list(roots):
        decl |= set(m.root_methods(x))
    entry = [f for f in m.funcs.values() if f.cls in ('CParameterMgr', 'ElementHandle', 'CParameterHandle') and not f.ctor and not f.dtor]
    rr = m.reaching(decl)
    for f in entry:
        if f.id in rr and (f.acc == PUBLIC or f.n.endswith('Process')) and not f.lam:
            go(Ctx(m, decl, f), f, 'interface operations')
    for q in ('CParameterMgr::setSettingsAsXML', 'CParameterMgr::restoreConfiguration'):
        for f in m.fn(q):
            go(Flow(m), f, 'bulk operations')
    for f in m.fn('CParameterMgr::sync'):
        go(Explicit(m), f, 'explicit synchronisation')
    for f in m.fn('CParameterMgr::setAutoSync'):
        go(Mode(m), f, 'mode switch')
    area = m.fn('CAreaConfiguration::restore')
    for f in area:
        go(Area(m), f, 'area restore')
    for f in m.fn('CDomainConfiguration::restore'):
        c = Areas(m, {a.id for a in area})
        go(c, f, 'configuration restore')
        if not c.sites:
            raise AnalysisError('area restore vanished from the configuration restore')
    return result(None, {'instances_checked': len(sites), 'roots': n, 'path_states': paths}, dedup(vio))
