"""Association of configurable elements with domains. The bookkeeping of an association has four places: the element's
list of domains, the domain's list of elements, the domain's syncer set of the element, and one area in each
configuration of the domain. Every public operation of a domain is analysed with its helpers: on every path, an element
entered in (taken out of) one of the places is entered in (taken out of) all of them; it is entered only after it was
found not to belong to the domain already (itself or through an ancestor), except the children of an element being
split. A configuration created later receives an area for every associated element, from XML the configurations
exist before the elements are associated. Merging and splitting copy the settings of every configuration before the
association they come from is removed. The syncers of the domain are extended on every addition and recomputed on
every removal. Destroying a domain informs every associated element, and domains are destroyed before the elements."""
from .common import *
from ..loops import loops, each, strip, algo_calls

TECHNIQUE = 'per-element typestate (set of places it is registered in) over inlined domain operations; loop coverage'
NOTE = 'containers are abstracted to the last element entered or removed'
DOM, EL, CONF = 'CConfigurableDomain', 'CConfigurableElement', 'CDomainConfiguration'
ADD = {'push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front', 'operator[]', 'insert_or_assign',
       'try_emplace'}
DEL = {'remove', 'erase', 'remove_if'}


class C(Checker):
    SMALL = 60
    K = 24

    def __init__(self, m):
        self.m = m
        self.att = {f.id for f in m.fn(EL + '::addAttachedConfigurableDomain')}
        self.det = {f.id for f in m.fn(EL + '::removeAttachedConfigurableDomain')}
        self.belongs = {f.id for f in m.fn(EL + '::belongsTo')}
        self.cadd = {f.id for f in m.fn(CONF + '::addConfigurableElement')}
        self.cdel = {f.id for f in m.fn(CONF + '::removeConfigurableElement')}
        self.merge = {f.id for f in m.fn(CONF + '::merge')}
        self.split = {f.id for f in m.fn(CONF + '::split')}
        self.plus = {f.id for f in m.fn('CSyncerSet::operator+=')}
        self.clear = {f.id for f in m.fn('CSyncerSet::clear')}
        fs = m.classes[DOM]['fields']
        self.lst = [x['u'] for x in fs if 'list<' in x['t'] + ' ' and EL in x['t'] and 'map<' not in x['t']]
        self.mp = [x['u'] for x in fs if 'map<' in x['t'] and EL in x['t']]
        self.sync = [x['u'] for x in fs if x['t'] == 'CSyncerSet' or x['t'].endswith(' CSyncerSet')]
        if len(self.lst) != 1 or len(self.mp) != 1 or len(self.sync) != 1:
            raise AnalysisError('anchor vanished: element list, syncer map and syncer set of CConfigurableDomain')
        self.sites = set()
        self.merges = [0, 0]
        self.allev = self.att | self.det | self.cadd | self.cdel | self.merge | self.split

    def own(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == DOM}

    def relevant(self, eng):
        out = set()
        for f in self.m.funcs.values():
            if f.cls == DOM and not f.lam:
                for n in f.nodes:
                    if n['k'] == 'Call' and (self.m.targets(f, n) & self.allev or n.get('obj', -1) >= 0 and
                                             self.m.field_of(f, n['obj']) in (self.lst + self.mp)
                                             and n['f']['n'] in ADD | DEL):
                        out.add(f.id)
        return {x for x in self.m.reaching(out) if self.m.funcs[x].cls == DOM}

    def init(self, eng, f):
        return frozenset()

    def val(self, eng, st, a):
        v = eng.rd(st, a) if eng.islv(a) else a
        x = eng.T.get(v)
        return v

    def ev(self, st, name, v):
        st.auto = st.auto | {(name, v)}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        m = self.m
        fi = n.get('f') or {}
        nm = fi.get('n', '')
        if tg & (self.att | self.det):
            p = eng.addr(obj) if eng.islv(obj) else obj
            self.sites.add((fr.f.id, i))
            self.ev(st, 'attach' if tg & self.att else 'detach', p)
            a = eng.T.get(self.val(eng, st, args[0]))
            if a[0] != 'this':
                eng.report(fr, i, 'an element is told about another domain than the one concerned')
            return [(st, None)]
        if tg & self.belongs:
            p = eng.addr(obj) if eng.islv(obj) else obj
            q = st.copy()
            self.ev(q, 'free', p)
            return [(st, eng.TRUE), (q, eng.FALSE)]
        for s, name in ((self.cadd, 'area+'), (self.cdel, 'area-'), (self.merge, 'merged'), (self.split, 'splitted')):
            if tg & s:
                self.sites.add((fr.f.id, i))
                v = self.val(eng, st, args[-1] if name == 'merged' else args[0])
                if name in ('merged', 'splitted') and ('listdel', v) in st.auto or \
                        name in ('merged', 'splitted') and ('area-', v) in st.auto:
                    eng.report(fr, i, 'settings are copied from an element whose association is already removed')
                self.ev(st, name, v)
                return [(st, None)]
        if n['k'] == 'Call' and n.get('obj', -1) >= 0 and nm in ADD | DEL:
            fld = m.field_of(fr.f, n['obj'])
            for c, name in ((self.lst, 'list'), (self.mp, 'map')):
                if fld in c:
                    self.sites.add((fr.f.id, i))
                    v = None
                    if args:
                        for a in args:
                            w = self.val(eng, st, a)
                            v = w
                            break
                    self.ev(st, name + ('add' if nm in ADD else 'del'), v)
                    return None
        if n['k'] == 'Call' and nm == 'clear' and n.get('obj', -1) >= 0 and m.field_of(fr.f, n['obj']) in self.sync or \
                tg & self.clear:
            self.ev(st, 'syncclear', 0)
            return None
        if tg & self.plus and n.get('obj', -1) >= 0 and m.field_of(fr.f, n['obj']) in self.sync:
            self.ev(st, 'syncplus', 0)
        return None

    def on_exit(self, eng, st, fr, ret):
        if fr.f.dtor:
            return
        by = {}
        for e, v in st.auto:
            by.setdefault(v, set()).add(e)
        for v, s in by.items():
            for grp, what in ((('attach', 'listadd', 'mapadd'), 'entered in'),
                              (('detach', 'listdel', 'mapdel'), 'taken out of')):
                have = [g for g in grp if g in s]
                if have and len(have) != 3:
                    eng.report(fr, -1, 'an element is %s %s but not %s' % (what, have, [g for g in grp if g not in s]))
            if 'splitted' in s and 'listdel' not in s:
                eng.report(fr, -1, 'a split element remains associated along with its children')
        allv = {e for e, v in st.auto}
        if 'merged' in allv:
            self.merges[0] += 1
            self.merges[1] += 'listdel' in allv
        if 'attach' in allv and 'syncplus' not in allv:
            eng.report(fr, -1, 'the syncers of an added element are not added to those of the domain')
        if 'detach' in allv and 'syncclear' not in allv and fr.f.id not in self.m.reaching(self.att):
            eng.report(fr, -1, 'the syncers of the domain are not recomputed after a removal')
        if fr.f.n in ('addConfigurableElement',) or fr.f.q in self.adders:
            for v, s in by.items():
                if 'listadd' in s and 'free' not in s:
                    eng.report(fr, -1, 'an element is associated without checking that it does not already belong to the domain')

    adders = ()


def check(m, tier):
    vio, n, paths, sites = [], 0, 0, set()

    def bad(f, msg):
        vio.append({'where': '%s:%s' % (f.file, f.line), 'function': f.q, 'message': msg, 'path': f.q})
    c0 = C(m)
    rel = c0.relevant(None)
    pub = [f for f in public_methods(m, DOM)] + [f for f in m.fn(DOM + '::fromXml')]
    for f in {f.id: f for f in pub}.values():
        if f.id not in rel:
            continue
        c = C(m)
        e = Engine(m, c)
        e.run(f)
        sites |= c.sites
        paths += e.stats['path_states']
        if c.merges[0] and not c.merges[1]:
            bad(f, 'elements merged into an ancestor remain associated')
        vio += e.violations
        n += 1
    n += len(sites)
    # bookkeeping containers are modified nowhere else
    for f in m.funcs.values():
        if f.cls == DOM and f.id not in rel and not f.dtor and not f.ctor:
            for i, x in enumerate(f.nodes):
                if x['k'] == 'Call' and x.get('obj', -1) >= 0 and m.field_of(f, x['obj']) in c0.lst + c0.mp and \
                        (x.get('f') or {}).get('n') in ADD | DEL | {'clear', 'pop_back', 'pop_front', 'swap'}:
                    bad(f, 'the element bookkeeping is modified outside of the domain operations')
    # every configuration is informed; every element reaches a new configuration
    dtor = [f for f in m.funcs.values() if f.cls == DOM and f.dtor]
    reqs = []
    for f in m.funcs.values():
        if f.cls != DOM or f.lam:
            continue
        tg = set()
        for i, x in enumerate(f.nodes):
            if x['k'] == 'Call':
                tg |= m.targets(f, x) & (c0.cadd | c0.cdel | c0.merge | c0.split)
        for s in (c0.cadd, c0.cdel, c0.merge, c0.split):
            if tg & s:
                reqs.append((f, s & tg))
    for f in dtor:
        reqs.append((f, c0.det))
    have = set()
    for f, s in reqs:
        n += 1
        have |= s
        v, why = each(m, f, set(s))
        if v is False:
            bad(f, '%s is not performed for every item: %s' % (m.funcs[sorted(s)[0]].q, why))
    for s in (c0.cadd, c0.cdel, c0.merge, c0.split, c0.det):
        if not have & s:
            vio.append({'where': 'parameter/ConfigurableDomain.cpp:0', 'function': DOM, 'path': DOM,
                        'message': '%s is never performed' % m.funcs[sorted(s)[0]].q})
    news = [f for f in m.funcs.values() if f.cls == DOM and
            any(x['k'] == 'New' and bare(x.get('t', '')) == CONF for x in f.nodes)]
    for f in news:
        n += 1
        v, why = each(m, f, c0.cadd)
        if v is False:
            bad(f, 'a new configuration does not receive an area for every associated element: ' + why)
    # XML: configurations before elements
    for f in m.fn(DOM + '::fromXml'):
        c = XmlOrder(m, c0)
        e = Engine(m, c)
        e.run(f)
        vio += e.violations
        n += c.n
    # element side: one entry per call
    for q, ops in ((EL + '::addAttachedConfigurableDomain', ADD), (EL + '::removeAttachedConfigurableDomain', DEL)):
        for f in m.fn(q):
            n += 1
            ok = False
            for i, x in enumerate(f.nodes):
                if x['k'] == 'Call' and (x.get('f') or {}).get('n') in ops:
                    ok = True
            if not ok:
                bad(f, 'the list of domains of the element is not updated')
    # recomputation covers every element
    for f in m.funcs.values():
        if f.cls == DOM and any(x['k'] == 'Call' and m.targets(f, x) & c0.clear or
                                x['k'] == 'Call' and (x.get('f') or {}).get('n') == 'clear' and x.get('obj', -1) >= 0
                                and m.field_of(f, x['obj']) in c0.sync for x in f.nodes):
            n += 1
            v, why = each(m, f, c0.plus)
            if v is False:
                bad(f, 'the recomputed syncers do not cover every element: ' + why)
    # destruction order: later children (domains) first
    for f in m.fn('CElement::removeChildren'):
        n += 1
        for L in loops(f):
            if not L.rev and L.kind == 'full':
                bad(f, 'children are destroyed first to last: elements before the domains that refer to them')
    for f in m.funcs.values():
        if f.cls == 'CParameterMgr' and f.ctor:
            order = []
            for i, x in enumerate(f.nodes):
                if x['k'] == 'New':
                    order.append((x['l'], x.get('col', 0), bare(x.get('t', ''))))
            order = [t for _, _, t in sorted(order)]
            if 'CSystemClass' in order and 'CConfigurableDomains' in order:
                n += 1
                if order.index('CSystemClass') > order.index('CConfigurableDomains'):
                    bad(f, 'domains are created before the elements and would outlive them')
    return result(None, {'instances_checked': n, 'path_states': paths, 'bookkeeping_sites': len(sites)}, dedup(vio))


class XmlOrder(Checker):
    SMALL = 60

    def __init__(self, m, c):
        self.m, self.c = m, c
        self.base = {f.id for f in m.fn('CElement::fromXml')}
        self.n = 0

    def relevant(self, eng):
        return {x for x in self.m.reaching(self.c.att | self.base) if self.m.funcs[x].cls == DOM and
                self.m.funcs[x].acc != 0} | {x for x in self.m.reaching(self.c.att) if self.m.funcs[x].cls == DOM}

    def init(self, eng, f):
        return 'none'

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.base and fr.f.cls == DOM and (n['f'].get('cls') == 'CElement'):
            self.n += 1
            if st.auto == 'elements':
                eng.report(fr, i, 'configurations are created after the elements were associated')
            st.auto = 'configurations' if st.auto == 'none' else st.auto
            return [(st, eng.T.mk('parsed', fr.id, i))]
        if tg & self.c.att:
            self.n += 1
            if st.auto == 'none':
                eng.report(fr, i, 'elements are associated before the configurations exist')
            st.auto = 'elements'
            return [(st, None)]
        return None
