"""Tuning gate. Every public entry point and remote command handler is analysed path by path down to the
operations that modify domains, configurations or live parameter values; on each path the tuning-mode flag
(the member returned by the public accessor) must be known true at the operation, and a path on which it is
known false must not report success."""
from .common import *

TECHNIQUE = 'path-sensitive interprocedural dataflow over clang CFGs'
NOTE = 'Every path of every gated entry point down to the mutating operation is covered (loops abstracted); relies on the class-hierarchy call graph.'

# requests that the framework deliberately serves outside tuning sessions
EXEMPT = {'start', 'setTuningMode', 'applyConfigurations', 'setAutoSync', 'sync', 'renameDomain',
          'renameConfiguration', 'setApplicationRule', 'clearApplicationRule', 'accessConfigurationValue'}
EXEMPT_HANDLERS = {'setTuningModeCommandProcess', 'setAutoSyncCommandProcess', 'syncCommandProcess',
                   'renameDomainCommandProcess', 'renameConfigurationCommandProcess', 'setRuleCommandProcess',
                   'clearRuleCommandProcess', 'setConfigurationParameterCommandProcess',
                   'getConfigurationParameterCommandProcess'}
ASSUMPTIONS = ['the requests listed in the property statement as not gated are excluded',
               'client handles follow their own rule (P22)']


def mutators(m):
    """(function id predicate) operations that change domains, configurations or live values"""
    ids = set()
    for x in m.classes['CConfigurableDomains']['methods']:
        f = m.funcs.get(x['id'])
        if f and not f.const and not f.ctor and not f.dtor and not f.static and m.modset(f.id):
            ids.add(f.id)
        # operations that write the live blackboard handed to them
        if f and any(p['t'].replace(' ', '') in ('CParameterBlackboard*', 'CParameterBlackboard&') for p in f.params):
            ids.add(f.id)
    return ids


class C(Checker):
    def __init__(self, m, flag, muts, kinds):
        self.m, self.flag, self.muts, self.kinds = m, flag, muts, kinds
        self.events = 0
        self.sites = set()

    def relevant(self, eng):
        base = set(self.muts)
        for q in ('CConfigurableElement::accessValue', 'CElement::clean', 'CXmlDocSink::process',
                  'CConfigurableElement::setSettingsAsBytes', 'CBaseParameter::accessValue'):
            base |= {f.id for f in self.m.byq.get(q, [])}
        rel = self.m.reaching(base)
        # stay at manager / connector level: the operations themselves are the events
        return {x for x in rel if x in self.m.funcs and
                (self.m.funcs[x].cls in ('CParameterMgr', 'CParameterMgrFullConnector', 'ElementHandle',
                                         'CParameterHandle', 'CParameterMgrPlatformConnector') or self.m.funcs[x].lam
                 or self.m.funcs[x].cls is None)} - self.muts

    def init(self, eng, f):
        return False       # "an operation took place on this path"

    def event(self, eng, st, fr, i, n, tg, args):
        f = fr.f
        fi = n.get('f')
        if fi is None:
            return None
        if tg & self.muts:
            return fi['q']
        if n.get('obj', -1) >= 0 and not fi.get('const') and fi['repo']:
            c, t = static_class(f, n['obj'])
            if c == 'CConfigurableDomains' and any(self.m.modset(x) for x in tg):
                return fi['q']
            if c == 'CXmlMemoryDocSink' and fi['n'] == 'process':
                return fi['q']
        if fi['n'] == 'setSettingsAsBytes' and fi.get('cls') != 'CParameterMgr':
            return fi['q']
        if fi['n'] == 'accessValue' and fi.get('cls') != 'CParameterMgr':
            for a, p in zip(args, fi['pt']):
                if p == 'bool' and eng.truth(st, eng.rd(st, a) if eng.islv(a) else a) is not False:
                    return fi['q'] + ' (write)'
        for a, p in zip(n.get('c', []), fi['pt']):
            if p.endswith(('*', '&')) and not p.startswith('const '):
                c, t = static_class(f, a)
                if c == 'CConfigurableDomains' and not t.startswith('const ') and fi['repo']:
                    return fi['q'] + ' on the domains'
        return None

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        e = self.event(eng, st, fr, i, n, tg, args)
        if e is None:
            return None
        self.events += 1
        self.sites.add((fr.f.id, i))
        st.auto = True
        if field_truth(eng, st, self.flag) is not True:
            eng.report(fr, i, 'operation %s is reachable from %s without tuning mode known to be on'
                       % (e, fr.chain()[0].f.q))
        if tg & self.muts:
            # the operation is an event as a whole: not analysed further
            return [(st, eng.site(fr, 'op', i, 'ret', 'B'))] if (n['f'].get('rt') == 'bool') else None
        return None

    def on_exit(self, eng, st, fr, ret):
        if ret is None or self.kinds is None:
            return
        if field_truth(eng, st, self.flag) is False and not st.auto:
            x = eng.T.get(ret)
            ok = x[0] == 'int' and ((fr.f.rt == 'bool' and x[1] == 1) or
                                    (fr.f.rt != 'bool' and x[1] in self.kinds))
            if ok and not self.isread(eng, st, fr):
                eng.report(fr, -1, 'request reports success although tuning mode is off and nothing was done')

    def isread(self, eng, st, fr):
        for p in fr.f.params:
            if p['t'] == 'bool':
                if eng.truth(st, eng.T.mk('init', fr.id, p['u'], 'B')) is False:
                    return True
        return False


def check(m, tier):
    flag = getter_field(m, 'CParameterMgr::tuningModeOn')
    muts = mutators(m)
    if len(muts) < 10:
        raise AnalysisError('domain operations vanished')
    kinds = set()
    for e in m.enums.values():
        for v in e['vals']:
            if v['n'].endswith(('::ESucceeded', '::EDone')):
                kinds.add(v['v'])
    vio, ent, events, sites, paths = [], 0, 0, set(), 0
    handlers = {f.id for f in command_handlers(m)}
    perentry = {}
    for f in entries(m):
        if (f.id in handlers and f.n in EXEMPT_HANDLERS) or (f.id not in handlers and f.n in EXEMPT):
            continue
        if f.cls in ('ElementHandle', 'CParameterHandle'):
            continue
        c = C(m, flag, muts, kinds)
        eng = Engine(m, c)
        eng.run(f)
        ent += 1
        if c.events:
            perentry[f.q] = len(c.sites)
        events += c.events
        sites |= c.sites
        paths += eng.stats['path_states']
        vio += [v for v in eng.violations if c.events or 'reports success' not in v['message']]
    return result(None, {'instances_checked': len(perentry), 'entry_points_analysed': ent,
                         'gated_entry_points': sorted(perentry), 'operation_sites': len(sites),
                         'operation_visits': events, 'path_states': paths, 'domain_operations': len(muts)}, dedup(vio))
