"""Every repository function that returns a bool or a pointer and has a parameter to explain a failure (an error or result string, an
access / serialisation / import context, a list of errors) is a status function. In every function that calls one,
each call is forked into its success and its failure outcome; no path on which a call failed may leave the function
with a success result (true, a command status other than failed or usage, a non-null object), nor leave a void
function. Handled outcomes: a null diagnostics argument (best effort chosen by the caller), the policy of continuing
without settings, the plug-in fallback, a result transferred into another object or answer (passed on as an argument),
and reads of stored values into an answer (export direction), whose content was validated when it was stored."""
from .common import *

TECHNIQUE = 'path-sensitive typestate of status results (failed, then reported as success or dropped) over every function'
NOTE = 'void/bool/status/pointer returning functions; failures signalled by exceptions are the object of P20'
STR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>> &'
# callee -> reason a failed outcome of it is not the failure of the request
BEST_EFFORT = {
    'CSystemClass::loadPlugins': 'progress indication of the retry loop: the caller fails when plug-ins remain unloaded',
    'CDomainConfiguration::exportOneConfigurableElementSettings': 'export of values validated when stored',
}
# (caller, callee): reason
EXEMPT = {
    ('CParameter::doGetValue', 'CParameter::doGet'): 'export of values validated when stored',
    ('CConfigurableDomains::addDomain', 'CConfigurableDomains::findConfigurableDomain'):
        'absence of a domain of that name is the expected outcome',
    ('CSubsystem::mapSubsystemElements', 'CSubsystem::handleMappingContext'):
        'fails only on an item already set, and the context is fresh',
}
CONNECTORS = ('CParameterMgrFullConnector', 'CParameterMgrPlatformConnector')


def diag(ps):
    """parameter through which a callee explains a failure"""
    for k, (nm, p) in enumerate(ps):
        if p.startswith('const '):
            continue
        nm = nm.lower()
        if p == STR and ('error' in nm or 'result' in nm or nm in ('msg', 'message', 'diagnostic')):
            return k
        b = bare(p)
        if b.endswith('Context') and b.startswith(('C', 'utility')) and 'Mapping' not in b:
            return k
        if b.startswith('std::list<std::basic_string<') and ('error' in nm):
            return k
    return None


class C(Checker):
    SMALL = 40

    def __init__(self, m, status, wrappers, policies):
        self.m, self.status, self.wrappers, self.policies = m, status, wrappers, policies
        self.sites = set()

    def relevant(self, eng):
        return self.wrappers

    def init(self, eng, f):
        return ()

    def plain(self, eng, st, fr, i, fi, obj, args, tg, n):
        return [(q, q.temps[(fr.id, i)]) for q in eng.summary(st, fr, 0, i, n, fi, obj, args, tg)]

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if tg & self.wrappers:
            return None
        if n['k'] == 'Construct' and fi.get('repo') and st.auto:
            # result transferred into an answer object
            for a in args:
                v = eng.rd(st, a) if eng.islv(a) else a
                if eng.T.get(v)[0] == 'int' and eng.cval(v) == 0 and 'bool' in (fi.get('pt') or ()):
                    st.auto = tuple(y for y in st.auto if y[0] == 'out')
        if fi.get('n') == 'serializeOut':
            # direction of a serialisation is fixed for the life of a context
            outs = []
            for v in (0, 1):
                q = st.copy()
                if ('out', 1 - v) in q.auto:
                    continue
                q.auto = tuple(sorted(set(q.auto) | {('out', v)}, key=str))
                outs.append((q, eng.T.mk('int', v)))
            return outs
        if not (tg & set(self.status) or fi.get('id') in self.status):
            return None
        q0 = fi.get('q', '').split('<')[0]
        if q0 in BEST_EFFORT or (fr.f.q.split('<')[0], q0) in EXEMPT:
            return self.plain(eng, st, fr, i, fi, obj, args, tg, n)
        if fi.get('n', '').startswith('serializeXml') and (fr.f.n == 'toXml' or ('out', 1) in st.auto):
            return self.plain(eng, st, fr, i, fi, obj, args, tg, n)                  # export direction
        if fr.f.rt == 'void' and fi.get('n') == fr.f.n and fr.f.cls in CONNECTORS:
            return self.plain(eng, st, fr, i, fi, obj, args, tg, n)                  # deprecated overload without diagnostic
        for t in tg | {fi.get('id')}:
            k = self.status.get(t)
            if k is not None and k < len(args):
                a = eng.T.get(eng.rd(st, args[k]) if eng.islv(args[k]) else args[k])
                if a[0] == 'null':
                    return None          # best effort: the caller provides no place for a diagnostic
        self.sites.add((fr.f.id, i))
        res = []
        ptr = fi.get('rt', '').endswith('*')
        for q in eng.summary(st, fr, 0, i, n, fi, obj, args, tg):
            for v in (1, 0):
                s = q.copy()
                if not v:
                    s.auto = tuple(sorted(set(s.auto) | {(fr.f.id, i)}, key=str))
                if not ptr:
                    res.append((s, eng.T.mk('int', v)))
                elif v:
                    t = eng.T.mk('found', fr.id, i)
                    s.facts = dict(s.facts)
                    s.facts[t] = True
                    res.append((s, t))
                else:
                    res.append((s, eng.T.mk('null')))
        return res

    def on_exit(self, eng, st, fr, ret):
        fails = [a for a in st.auto if a[0] != 'out']
        if not fails:
            return
        f = fr.f
        x = eng.T.get(ret) if ret is not None else ('',)
        if f.rt == 'bool':
            if ret is not None and eng.truth(st, ret) is False:
                return
            how = 'reported as success'
        elif f.rt == 'void' or f.ctor:
            how = 'dropped'
        elif self.fail.get(f.rt):
            if x[0] == 'int' and x[1] in self.fail[f.rt]:
                return
            how = 'reported as success'
        elif f.rt.endswith('*'):
            if x[0] == 'null' or x[0] == 'int' and x[1] == 0:
                return
            how = 'reported as success'
        else:
            return
        for fid, i in fails:
            n = self.m.funcs[fid].nodes[i].get('f', {})
            pol = self.policies.get(n.get('q'))
            if pol and pol(eng, st, fr, ret):
                continue
            eng.report(fr, i, 'failure of %s is %s' % (n.get('q'), how), fid)


def check(m, tier):
    status = {}
    for f in m.funcs.values():
        if f.rt == 'bool' or f.rt.endswith('*') and not f.rt.startswith(('void', 'char')):
            k = diag([(p['n'], p['t']) for p in f.params])
            if k is not None:
                status[f.id] = k
    for x in list(status):
        for y in m.root_methods(x):
            status.setdefault(y, status[x])
    C.fail = {}
    for q, e in m.enums.items():
        if q.endswith('CommandStatus'):
            C.fail[q] = {v['v'] for v in e['vals'] if 'Fail' in v['n'] or 'Usage' in v['n']}
    # functions turning a result into a result (logging helpers) are followed
    wrappers = {f.id for f in m.funcs.values() if f.rt == 'bool' and f.id not in status and len(f.nodes) < 150 and
                any(p['t'] == 'bool' for p in f.params)}
    tolerate = getter_field(m, 'CParameterMgr::getFailureOnFailedSettingsLoad')

    def settings(eng, st, fr, ret):
        return field_truth(eng, st, tolerate) is False

    def fallback(eng, st, fr, ret):
        """true returned only because the caller asked for a fallback"""
        ps = {p['u'] for p in fr.f.params if p['t'] == 'bool'}
        xs = [(eng.T.get(k), v) for k, v in st.facts.items() if isinstance(k, int)] + [(eng.T.get(ret), True)]
        return any(x[0] == 'init' and x[1] == fr.id and x[2] in ps and v for x, v in xs)
    policies = {'CParameterMgr::loadSettingsFromConfigFile': settings,
                'CSystemClass::loadSubsystemsFromSharedLibraries': fallback}
    vio, sites, paths = [], set(), 0
    for f in m.funcs.values():
        if not any(n['k'] in ('Call',) and (m.targets(f, n) & set(status)) for n in f.nodes):
            continue
        c = C(m, status, wrappers, policies)
        eng = Engine(m, c)
        eng.run(f)
        sites |= c.sites
        paths += eng.stats['path_states']
        vio += eng.violations
    return result(None, {'instances_checked': len(sites), 'status_functions': len(status), 'path_states': paths},
                  dedup(vio))
