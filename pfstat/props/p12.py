"""Last applied configuration. (a) In every function of a domain, a configuration is recorded as last applied only after it
was restored on that path. (b) On every path that destroys or detaches a configuration, the record was compared with
it, and forgotten when equal, before the path ends; configurations are destroyed only by their domain. (c) Writing a
value by configuration path writes the saved settings and, exactly when the configuration is the last applied one, the
live settings too; reading by configuration path never reads the live settings."""
from .common import *

TECHNIQUE = 'typestate over all domain operations (recorded => restored; destroyed => forgotten); two-blackboard typestate'
NOTE = ''
DOM, CONF = 'CConfigurableDomain', 'CDomainConfiguration'


class Rec(Checker):
    SMALL = 60

    def __init__(self, m, last):
        self.m, self.last = m, last
        self.rest = {f.id for f in m.fn(CONF + '::restore')}
        self.rm = {f.id for f in m.fn('CElement::removeChild')}
        self.rmall = {f.id for q in ('CElement::removeChildren', 'CElement::clean') for f in m.fn(q)}
        self.n = 0

    def relevant(self, eng):
        out = set()
        for f in self.m.funcs.values():
            if f.cls == DOM:
                for n in f.nodes:
                    if n['k'] == 'Delete' or n['k'] == 'Call' and self.m.targets(f, n) & (self.rest | self.rm):
                        out.add(f.id)
        return {x for x in self.m.reaching(out) if self.m.funcs[x].cls == DOM}

    def init(self, eng, f):
        return frozenset()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.rest:
            p = eng.addr(obj) if eng.islv(obj) else obj
            st.auto = st.auto | {('restored', p)}
            return [(st, eng.T.mk('rr', fr.id, i, 'B'))]
        if tg & self.rm and obj is not None:
            v = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
            self.gone(eng, st, fr, v)
            return [(st, eng.T.mk('rmd', fr.id, i, 'B'))]
        if tg & self.rmall and n.get('obj', -1) >= 0 and static_class(fr.f, n['obj'])[0] == DOM:
            st.auto = st.auto | {('gone', None)}
        return None

    def on_delete(self, eng, st, fr, e, v):
        c = static_class(fr.f, fr.f.nodes[e]['c'][0])[0]
        if c == CONF:
            self.gone(eng, st, fr, v)

    def safe(self, eng, st, fr, v):
        """the record is known to be empty or another configuration"""
        root = fr.chain()[0]
        if root.this is None:
            return False
        cur = eng.rd(st, eng.lfld(eng.lder(root.this), self.last))
        x = eng.T.get(cur)
        return x[0] == 'null' or x[0] == 'int' and x[1] == 0 or eng.truth(st, cur) is False or \
            v is not None and eng.truth(st, eng.cmp('==', v, cur)) is False

    def gone(self, eng, st, fr, v):
        self.n += 1
        if not self.safe(eng, st, fr, v):
            st.auto = st.auto | {('gone', v)}

    def on_store(self, eng, st, fr, n, lv, val):
        x = eng.T.get(lv)
        if x[0] == 'Lfld' and x[2] == self.last:
            self.n += 1
            y = eng.T.get(val)
            if y[0] == 'null' or y[0] == 'int':
                return
            st.auto = st.auto | {('rec', val)}

    def on_exit(self, eng, st, fr, ret):
        for k, v in st.auto:
            if k == 'rec' and ('restored', v) not in st.auto:
                eng.report(fr, -1, 'a configuration that was not restored is recorded as last applied')
            if k == 'restored' and ('rec', v) not in st.auto:
                eng.report(fr, -1, 'a configuration is restored but not recorded as last applied')
            if k == 'gone':
                if self.safe(eng, st, fr, v):
                    continue
                if fr.f.dtor:
                    continue
                eng.report(fr, -1, 'a configuration is destroyed or detached while it may still be recorded as last applied')


class Two(Checker):
    """accesses by configuration path"""
    SMALL = 60

    def __init__(self, m, isset, last):
        self.m, self.isset, self.islast = m, isset, last
        self.find = {f.id for f in m.fn('CConfigurableDomains::findConfigurationBlackboard')}
        self.acc = {f.id for f in m.fn('CParameterMgr::accessValue')}
        self.setbb = {f.id for f in m.fn('CParameterAccessContext::setParameterBlackboard')}
        self.n = 0

    def relevant(self, eng):
        return {x for x in self.m.reaching(self.find) if self.m.funcs[x].cls == 'CParameterMgr'}

    def init(self, eng, f):
        return (frozenset(), ())

    def kind(self, eng, v):
        x = eng.T.get(v)
        return 'saved' if x[0] == 'cfgbb' else 'live'

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        if tg & self.find:
            self.n += 1
            pts = n['f']['pt']
            for a, t in zip(args, pts):
                if t == 'bool &':
                    eng.wr(st, a, eng.const(self.islast), ('w', fr.id, i))
            v = T.mk('cfgbb', fr.id, i)
            ok = st.copy()
            ok.facts[v] = True
            return [(ok, v), (st, eng.NULL)]
        fi = n.get('f') or {}
        if n['k'] == 'Construct' and fi.get('cls') == 'CParameterAccessContext':
            for a, t in zip(args, fi.get('pt', ())):
                if bare(t) == 'CParameterBlackboard' and t.endswith('*'):
                    v = eng.rd(st, a) if eng.islv(a) else a
                    d = dict(st.auto[0])
                    d[obj] = d[None] = self.kind(eng, v)
                    st.auto = (frozenset(d.items()), st.auto[1])
            return [(st, None)]
        if tg & self.setbb:
            v = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
            d = dict(st.auto[0])
            d[obj] = self.kind(eng, v)
            st.auto = (frozenset(d.items()), st.auto[1])
            return [(st, None)]
        if tg & self.acc:
            self.n += 1
            ctx = [a for a, t in zip(args, fi['pt']) if bare(t) == 'CParameterAccessContext']
            d = dict(st.auto[0])
            k = d.get(ctx[0], d.get(None)) if ctx else None
            b = st.copy()
            st.auto = (st.auto[0], st.auto[1] + (k,))
            return [(st, eng.TRUE), (b, eng.FALSE)]
        return None

    def on_exit(self, eng, st, fr, ret):
        if ret is None or eng.truth(st, ret) is not True:
            return
        ev = st.auto[1]
        if any(k is None for k in ev):
            return
        mode = '%s, %s' % ('write' if self.isset else 'read', 'last applied' if self.islast else 'not last applied')
        if 'saved' not in ev:
            eng.report(fr, -1, 'the settings saved in the configuration are not accessed (%s)' % mode)
        if 'live' in ev and not (self.isset and self.islast):
            eng.report(fr, -1, 'the live settings are accessed (%s)' % mode)
        if 'live' not in ev and self.isset and self.islast:
            eng.report(fr, -1, 'the live settings are not updated (%s)' % mode)


def check(m, tier):
    vio, n, paths = [], 0, 0
    lastf = [x['u'] for x in m.classes[DOM]['fields'] if x['t'].replace('const ', '').strip() == CONF + ' *']
    if len(lastf) != 1:
        raise AnalysisError('anchor vanished: last applied configuration of a domain')
    last = lastf[0]
    todo = []
    for f in m.funcs.values():
        if f.cls == DOM and not f.lam and not f.ctor:
            todo.append(f)
        elif any(x['k'] == 'Delete' and static_class(f, x['c'][0])[0] == CONF for x in f.nodes):
            vio.append({'where': '%s:%s' % (f.file, f.line), 'function': f.q, 'path': f.q,
                        'message': 'a configuration is destroyed outside of its domain'})
        elif f.cls != CONF and any(m.targets(f, x) & {g.id for g in m.fn(CONF + '::restore')}
                                   for x in f.nodes if x['k'] == 'Call'):
            vio.append({'where': '%s:%s' % (f.file, f.line), 'function': f.q, 'path': f.q,
                        'message': 'a configuration is restored outside of its domain'})
    for f in todo:
        c = Rec(m, last)
        e = Engine(m, c)
        e.run(f)
        n += c.n
        paths += e.stats['path_states']
        vio += e.violations
    for f in m.fn('CParameterMgr::accessConfigurationValue'):
        bs = [p['u'] for p in f.params if p['t'] == 'bool']
        if not bs:
            raise AnalysisError('anchor vanished: direction flag of accessConfigurationValue')
        for isset in (0, 1):
            for il in (0, 1):
                c = Two(m, isset, il)
                e = Engine(m, c)
                e.run(f, lambda g, st, fr: st.env.__setitem__(('v', fr.id, bs[0]), g.const(isset)))
                n += c.n
                vio += e.violations
    # the record reported for an element is the comparison with the last applied configuration
    for f in m.fn(DOM + '::findConfigurationBlackboard'):
        n += 1
        if not any(x['k'] == 'Member' and x['d'].get('u') == last for x in f.nodes):
            vio.append({'where': '%s:%s' % (f.file, f.line), 'function': f.q, 'path': f.q,
                        'message': 'being last applied is not decided from the record of the domain'})
    return result(None, {'instances_checked': n, 'path_states': paths}, dedup(vio))
