"""Tuning sessions and automatic application. Every public entry point that can reach the application of the
configurable domains is analysed path by path: the application is performed only with the tuning flag known
false, or forced on the path that leaves tuning mode (or at start-up); a path of the mode switch that turns
the flag off must have force-applied the domains, one that reports success must have stored the requested mode,
one that turns it on must know that tuning is permitted; a request for application outside tuning mode must
reach the application; no other entry point stores the flag."""
from .common import *

TECHNIQUE = 'path-sensitive interprocedural typestate over clang CFGs'
NOTE = 'Covers every path of every entry point that can apply configurations; values other than flags are abstracted.'
from . import p01


class C(Checker):
    def __init__(self, m, flag, allowed, apply):
        self.m, self.flag, self.allowed, self.apply = m, flag, allowed, apply
        self.sites = set()
        self.stores = set()

    def relevant(self, eng):
        rel = self.m.reaching(self.apply) | {f.id for f in self.m.funcs.values() if self.flag in self.m.direct_mod(f)}
        return rel - self.apply

    def init(self, eng, f):
        return ()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if not (tg & self.apply):
            return None
        self.sites.add((fr.f.id, i))
        force = None
        for a, p in zip(args, n['f']['pt']):
            if p == 'bool':
                force = eng.truth(st, eng.rd(st, a) if eng.islv(a) else a)
        tune = field_truth(eng, st, self.flag)
        ev = 'force' if force is True else 'plain'
        if tune is not False:
            ev = (ev, fr.f.q, i, 'tuning')
        st.auto = tuple(sorted(set(st.auto) | {ev}, key=str))
        return None

    def on_store(self, eng, st, fr, i, lv, val):
        x = eng.T.get(lv)
        if x[0] == 'Lfld' and x[2] == self.flag:
            self.stores.add((fr.f.id, i))
            t = None if val is None else eng.truth(st, val)
            if t is not False and field_truth(eng, st, self.allowed) is not True:
                eng.report(fr, i, 'tuning mode may be switched on without knowing that the configuration permits it')
            if t is not True and field_truth(eng, st, self.flag) is not False:
                st.auto = tuple(sorted(set(st.auto) | {'off'}, key=str))

    def on_exit(self, eng, st, fr, ret):
        f = fr.f
        name = f.n
        tune = field_truth(eng, st, self.flag)
        for ev in st.auto:
            if isinstance(ev, tuple) and name != 'start':
                if not (ev[0] == 'force' and tune is False and 'off' in st.auto):
                    eng.report(fr, -1, 'configurations may be applied by %s (in %s) while tuning mode is on' % (f.q, ev[1]))
        if 'off' in st.auto and tune is not True:
            if not any(e == 'force' or isinstance(e, tuple) and e[0] == 'force' for e in st.auto):
                eng.report(fr, -1, 'tuning mode is left without force-applying the selected configurations')


class Switch(C):
    """exit rules of the mode switch itself"""
    def on_exit(self, eng, st, fr, ret):
        C.on_exit(self, eng, st, fr, ret)
        p = [p for p in fr.f.params if p['t'] == 'bool']
        if ret is not None and eng.truth(st, ret) is True and p:
            want = eng.T.mk('init', fr.id, p[0]['u'], 'B')
            wt, cur = eng.truth(st, want), field_truth(eng, st, self.flag)
            stored = any(eng.T.get(l)[0] == 'Lfld' and eng.T.get(l)[2] == self.flag and
                         (v == want or (wt is not None and eng.truth(st, v) == wt)) for l, v in st.heap.items())
            if not stored and not (wt is not None and wt == cur):
                eng.report(fr, -1, 'mode switch reports success without having stored the requested mode')


class Apply(C):
    def on_exit(self, eng, st, fr, ret):
        C.on_exit(self, eng, st, fr, ret)
        if field_truth(eng, st, self.flag) is not True and not st.auto:
            eng.report(fr, -1, 'application request served outside tuning mode does not apply the configurations')


def check(m, tier):
    flag = getter_field(m, 'CParameterMgr::tuningModeOn')
    allowed = getter_field(m, 'CParameterFrameworkConfiguration::isTuningAllowed')
    apply = {f.id for f in m.fn('CConfigurableDomains::apply')}
    vio, sites, stores, paths, ents = [], set(), set(), 0, []
    reach = m.reaching(apply)
    sw = {f.id for f in m.fn('CParameterMgr::setTuningMode') + m.fn('CParameterMgrFullConnector::setTuningMode')}
    ap = {f.id for f in m.fn('CParameterMgr::applyConfigurations') +
          m.fn('CParameterMgrPlatformConnector::applyConfigurations')}
    for f in entries(m) + [m.funcs[i] for i in sw | ap if m.funcs[i].cls == 'CParameterMgr']:
        if f.id not in reach and flag not in m.modset(f.id):
            continue
        cls = Switch if f.id in sw else Apply if f.id in ap else C
        c = cls(m, flag, allowed, apply)
        eng = Engine(m, c)
        eng.run(f)
        ents.append(f.q)
        sites |= c.sites
        stores |= c.stores
        paths += eng.stats['path_states']
        vio += eng.violations
    for f in m.funcs.values():
        if f.id in {x for x, _ in stores} or f.ctor:
            continue
        if flag in m.direct_mod(f) and f.id in m.reachable([e.id for e in entries(m)]):
            vio.append({'where': '%s:%s' % (f.file, f.line), 'function': f.q,
                        'message': 'stores the tuning flag outside the analysed mode switch', 'path': f.q})
    if not sites or not stores:
        raise AnalysisError('application or mode switch vanished')
    return result(None, {'instances_checked': len(ents), 'entry_points': sorted(set(ents)),
                         'application_sites': len(sites), 'flag_stores': len(stores), 'path_states': paths}, dedup(vio))
