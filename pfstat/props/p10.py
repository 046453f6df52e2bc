"""Application of configurations. (a) CConfigurableDomain::apply is evaluated over all combinations of {syncer set given or
not} x {sequence aware or not} x {forced or not} x {nothing / this / another configuration applied last} x {no / some
applicable configuration}: in each, on every path, the applicable configuration is restored exactly when the domain
takes part in this pass and the configuration is not already the applied one (or the application is forced); the domain
then remembers it as last applied; it is transmitted during the restore exactly in the sequence aware pass, and
otherwise the domain's syncers are handed to the caller. (b) The selection of the applicable configuration examines the
configurations from the first to the last and returns the first applicable one; a configuration is applicable only if
it has a rule and the rule matches. (c) The application of all domains handles every domain in a pass with the common
syncer set, transmits that set once after the whole pass, and only then handles every domain in the sequence aware
pass. (d) A restore writes every element in order, and transmits each element after writing it when asked to.
(e) Children are appended in declaration order."""
from .common import *
from ..loops import loops, each, strip

TECHNIQUE = ('abstract interpretation of the domain application over the complete finite table of its boolean inputs; '
             'event order typestate; loop coverage analysis')
NOTE = 'configurations are identified by the value returned by the selection function'
DOM, CONF = 'CConfigurableDomain', 'CDomainConfiguration'


def selectors(m):
    app = {f.id for f in m.fn(CONF + '::isApplicable')}
    out = []
    for f in m.funcs.values():
        if f.cls == DOM and f.rt.replace('const ', '').strip() == CONF + ' *' and not f.params:
            if any(n['k'] == 'Call' and m.targets(f, n) & app for n in f.nodes) or \
                    any(n['k'] == 'Lambda' and (n.get('f') or {}).get('id') in m.funcs and
                        any(k['k'] == 'Call' and m.targets(m.funcs[n['f']['id']], k) & app
                            for k in m.funcs[n['f']['id']].nodes) for n in f.nodes):
                out.append(f)
    return out


class Apply(Checker):
    SMALL = 60

    def __init__(self, m, sel, applicable, last_field, ctx):
        self.m, self.sel, self.applicable = m, {f.id for f in sel}, applicable
        self.last = last_field
        self.rest = {f.id for f in m.fn(CONF + '::restore')}
        self.plus = {f.id for f in m.fn('CSyncerSet::operator+=') if 'CSyncerSet' in f.params[0]['t']}
        self.sync = {f.id for f in m.fn('CSyncerSet::sync')}
        self.ctx = ctx

    def relevant(self, eng):
        t = self.rest | self.plus | self.sel
        return {x for x in self.m.reaching(t) if self.m.funcs[x].cls == DOM} - self.sel

    def init(self, eng, f):
        return ()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        if tg & self.sel:
            return [(st, self.ctx['A'] if self.applicable else eng.NULL)]
        if tg & self.rest:
            o = obj if obj is not None else None
            p = eng.addr(o) if o is not None and eng.islv(o) else o
            s = eng.truth(st, eng.rd(st, args[1]) if eng.islv(args[1]) else args[1])
            st.auto = st.auto + (('restore', p, s),)
            return [(st, T.mk('restored', fr.id, i))]
        if tg & self.plus:
            p = eng.addr(obj) if eng.islv(obj) else obj
            st.auto = st.auto + (('plus', p),)
            return [(st, T.mk('Lder', r(p)))]
        if tg & self.sync:
            st.auto = st.auto + (('sync',),)
        return None


def table(m, vio):
    f = m.fn1(DOM + '::apply')
    c = m.classes[DOM]
    seqf = getter_field(m, DOM + '::getSequenceAwareness')
    lastf = [x['u'] for x in c['fields'] if x['t'].replace('const ', '').strip() == CONF + ' *']
    if len(lastf) != 1:
        raise AnalysisError('anchor vanished: last applied configuration of a domain')
    lastf = lastf[0]
    setf = [x['u'] for x in c['fields'] if x['t'].replace('const ', '').replace('mutable ', '').strip() == 'CSyncerSet']
    sel = selectors(m)
    if not sel:
        raise AnalysisError('anchor vanished: selection of the applicable configuration')
    ps = {}
    for p in f.params:
        b = bare(p['t'])
        if p['t'].endswith('*') and b == 'CSyncerSet':
            ps['set'] = p['u']
        elif p['t'] == 'bool':
            ps['force'] = p['u']
    if len(ps) != 2:
        raise AnalysisError('anchor vanished: parameters of CConfigurableDomain::apply')
    n = 0
    for given in (0, 1):
        for seq in (0, 1):
            for force in (0, 1):
                for last in ('none', 'same', 'other'):
                    for some in (0, 1):
                        ctx = {}
                        ck = Apply(m, sel, some, lastf, ctx)
                        eng = Engine(m, ck)
                        T = eng.T
                        ctx['A'] = T.mk('new', 'A')
                        B = T.mk('new', 'B')
                        S = T.mk('new', 'S')
                        lv = {}

                        def setup(e, st, fr):
                            for k, v in ((seqf, e.const(seq)),
                                         (lastf, {'none': e.NULL, 'same': ctx['A'], 'other': B}[last])):
                                l = e.lfld(e.lder(fr.this), k)
                                lv[k] = l
                                st.heap[l] = v
                            st.env[('v', fr.id, ps['set'])] = S if given else e.NULL
                            st.env[('v', fr.id, ps['force'])] = e.const(force)
                            st.facts[e.cmp('==', ctx['A'], B)] = False
                        outs = eng.run(f, setup)
                        n += 1
                        want = some and (given != seq) and (force or last != 'same')
                        case = '%s pass, %ssequence aware domain%s, %s applied last, %s' % (
                            'common' if given else 'sequence aware', '' if seq else 'not ', ', forced' if force else '',
                            {'none': 'nothing', 'same': 'the applicable configuration',
                             'other': 'another configuration'}[last],
                            'one applicable' if some else 'none applicable')
                        probs = set()
                        if not outs:
                            probs.add('never returns')
                        for st, ret in outs:
                            ev = [a for a in st.auto if a[0] == 'restore']
                            if want and not ev:
                                probs.add('the applicable configuration is not restored')
                            if not want and ev:
                                probs.add('a configuration is restored')
                            if len(ev) > 1:
                                probs.add('restored more than once')
                            end = eng.rd(st, lv[lastf])
                            if ev:
                                if ev[0][1] != ctx['A']:
                                    probs.add('restores another configuration than the applicable one')
                                if ev[0][2] is not (not given):
                                    probs.add('wrong transmission mode during the restore')
                                if end != ctx['A']:
                                    probs.add('the restored configuration is not remembered as last applied')
                                pl = [k for k, a in enumerate(st.auto) if a[0] == 'plus' and a[1] == S]
                                if given and not pl:
                                    probs.add('the syncers of the domain are not handed over')
                            else:
                                if end == ctx['A'] and last != 'same':
                                    probs.add('a configuration that was not restored is remembered as last applied')
                                if given == seq and end not in ({'none': [eng.NULL], 'same': [ctx['A']],
                                                                 'other': [B]}[last]):
                                    probs.add('the last applied configuration is forgotten in a pass that is not its own')
                        for p in sorted(probs):
                            vio.append({'where': '%s:%s' % (f.file, f.line), 'function': f.q,
                                        'message': '%s [%s]' % (p, case), 'path': f.q})
    return n, sel, eng


class Select(Checker):
    SMALL = 30

    def __init__(self, m):
        self.m = m
        self.app = {f.id for f in m.fn(CONF + '::isApplicable')}
        self.n = 0

    def relevant(self, eng):
        return set()

    def init(self, eng, f):
        return ()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if not tg & self.app:
            return None
        self.n += 1
        p = eng.addr(obj) if eng.islv(obj) else obj
        if st.auto:
            eng.report(fr, i, 'goes on after an applicable configuration was found')
        a, b = st.copy(), st.copy()
        a.auto = (p,)
        return [(a, eng.TRUE), (b, eng.FALSE)]

    def on_exit(self, eng, st, fr, ret):
        x = eng.T.get(ret) if ret is not None else ('',)
        if st.auto:
            if ret is None or x[0] == 'null' or x[0] == 'int':
                eng.report(fr, -1, 'an applicable configuration is found but not returned')
            elif ret != st.auto[0]:
                eng.report(fr, -1, 'another configuration than the first applicable one is returned')
        elif x[0] not in ('null',) and not (x[0] == 'int' and x[1] == 0):
            eng.report(fr, -1, 'a configuration is returned although none was found applicable')


class Order(Checker):
    """common pass of all domains, common transmission, sequence aware pass"""
    SMALL = 60

    def __init__(self, m):
        self.m = m
        self.app = {f.id for f in m.fn(DOM + '::apply')}
        self.sync = {f.id for f in m.fn('CSyncerSet::sync')}
        self.n = 0
        self.seen = set()

    def relevant(self, eng):
        return {x for x in self.m.reaching(self.app | self.sync)
                if self.m.funcs[x].cls == 'CConfigurableDomains'}

    def init(self, eng, f):
        return 'common'

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.app:
            self.n += 1
            v = [eng.rd(st, a) if eng.islv(a) else a for a in args]
            k = [j for j, p in enumerate(n['f']['pt']) if bare(p) == 'CSyncerSet'][0]
            given = eng.truth(st, v[k])
            if given is None:
                return [(st, None)]
            fk = [j for j, p in enumerate(n['f']['pt']) if p == 'bool']
            for j in fk:
                x = eng.T.get(v[j])
                if x[0] != 'init':
                    eng.report(fr, i, 'the requested force mode is not passed on to the domains')
            self.seen.add(given)
            if given and st.auto != 'common':
                eng.report(fr, i, 'a domain is applied with the common syncer set after that set was transmitted')
            if not given:
                if st.auto == 'common':
                    eng.report(fr, i, 'a sequence aware application precedes the common transmission')
                st.auto = 'sequence'
            return [(st, None)]
        if tg & self.sync:
            if st.auto != 'common':
                eng.report(fr, i, 'the common syncer set is not transmitted exactly once, between the two passes')
            st.auto = 'sent' if st.auto == 'common' else st.auto
            return [(st, eng.T.mk('synced', fr.id, i))]
        return None

    def on_exit(self, eng, st, fr, ret):
        if st.auto == 'common':
            eng.report(fr, -1, 'the common syncer set is never transmitted')


class Restore(Checker):
    """one element: written, then transmitted when asked"""
    SMALL = 60

    def __init__(self, m):
        self.m = m
        self.cp = {f.id for f in m.funcs.values() if f.cls == 'CParameterBlackboard' and not f.const and
                   not f.ctor and not f.dtor}
        self.sync = {f.id for f in m.fn('CSyncerSet::sync')}

    def relevant(self, eng):
        return {x for x in self.m.reaching(self.cp | self.sync) if self.m.derives(self.m.funcs[x].cls or '', 'CAreaConfiguration')
                or self.m.funcs[x].cls == 'CAreaConfiguration'}

    def init(self, eng, f):
        return ()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.cp:
            if 's' in st.auto:
                eng.report(fr, i, 'an element is transmitted before it is written')
            st.auto = tuple(sorted(set(st.auto) | {'w'}))
            return [(st, None)]
        if tg & self.sync:
            st.auto = tuple(sorted(set(st.auto) | {'s'}))
            return [(st, eng.T.mk('synced', fr.id, i))]
        return None

    def on_exit(self, eng, st, fr, ret):
        if 'w' not in st.auto:
            eng.report(fr, -1, 'an element is not written')
        if self.asked and 's' not in st.auto:
            eng.report(fr, -1, 'an element is not transmitted although asked to')
        if not self.asked and 's' in st.auto:
            eng.report(fr, -1, 'an element is transmitted although not asked to')


def check(m, tier):
    vio, n = [], 0
    k, sel, eng = table(m, vio)
    n += k
    paths = 0
    for f in sel:
        c = Select(m)
        e = Engine(m, c)
        e.run(f)
        paths += e.stats['path_states']
        vio += e.violations
        n += 1
        for L in loops(f):
            if L.kind == 'partial' or L.rev:
                vio.append({'where': '%s:%s' % (f.file, f.line), 'function': f.q,
                            'message': 'configurations are not examined from the first to the last', 'path': f.q})
    app = m.fn1(CONF + '::isApplicable')
    c = Applicable(m)
    e = Engine(m, c)
    e.run(app)
    vio += e.violations
    n += 1
    if not c.n:
        vio.append({'where': '%s:%s' % (app.file, app.line), 'function': app.q,
                    'message': 'applicability does not depend on the rule', 'path': app.q})
    f = m.fn1('CConfigurableDomains::apply')
    c = Order(m)
    e = Engine(m, c)
    e.run(f)
    vio += e.violations
    n += 1
    for want in (True, False):
        if c.seen and want not in c.seen:
            vio.append({'where': '%s:%s' % (f.file, f.line), 'function': f.q,
                        'message': 'no %s pass' % ('common' if want else 'sequence aware'), 'path': f.q})
    EACH = [(f.q, DOM + '::apply'), (CONF + '::restore', 'CAreaConfiguration::restore')]
    for q, t in EACH:
        for g in m.fn(q):
            tg = {x.id for x in m.fn(t)}
            if g.id in tg:
                continue
            n += 1
            v, why = each(m, g, tg)
            if v is False:
                vio.append({'where': '%s:%s' % (g.file, g.line), 'function': g.q,
                            'message': '%s is not performed for every item in order: %s' % (t, why), 'path': g.q})
            elif v:
                # both passes must be complete
                for L in loops(g):
                    tgts = m.reaching(tg)
                    here = [i for i in L.nodes() if g.nodes[i]['k'] == 'Call' and m.targets(g, g.nodes[i]) & tg]
                    if here and (L.kind == 'partial' or L.rev or L.exits or
                                 not all(L.every_iteration(i) for i in here)):
                        vio.append({'where': '%s:%s' % (g.file, g.line), 'function': g.q,
                                    'message': 'a pass of %s does not cover every item in order' % t, 'path': g.q})
    for a in m.fn('CAreaConfiguration::restore'):
        u = [p['u'] for p in a.params if p['t'] == 'bool']
        if not u:
            raise AnalysisError('anchor vanished: transmission flag of CAreaConfiguration::restore')
        for asked in (0, 1):
            c = Restore(m)
            c.asked = asked
            e = Engine(m, c)
            e.run(a, lambda g, st, fr: st.env.__setitem__(('v', fr.id, u[0]), g.const(asked)))
            vio += e.violations
            n += 1
    # declaration order of children
    kids = [x['u'] for x in m.classes['CElement']['fields'] if 'vector<CElement *' in x['t'] or 'list<CElement *' in x['t']]
    for g in m.funcs.values():
        if g.cls != 'CElement':
            continue
        for i, x in enumerate(g.nodes):
            if x['k'] != 'Call':
                continue
            nm = (x.get('f') or {}).get('n', '')
            if m.field_of(g, x['obj']) in kids if x.get('obj', -1) >= 0 else False:
                n += 1
                bad = nm in ('push_front', 'emplace_front', 'swap', 'sort', 'reverse')
                if nm in ('insert', 'emplace') and x.get('c'):
                    bad = (g.nodes[strip(g, x['c'][0])].get('f') or {}).get('n') not in ('end', 'cend')
                if bad:
                    vio.append({'where': g.loc(i), 'function': g.q, 'path': g.q,
                                'message': 'children are not kept in declaration order'})
            elif not (x.get('f') or {}).get('repo') and nm in ('sort', 'reverse', 'rotate', 'stable_sort', 'swap', 'iter_swap',
                                                              'random_shuffle', 'shuffle', 'partition'):
                if any(m.field_of(g, g.nodes[y]['obj']) in kids for y in g.subtree(i)
                       if g.nodes[y]['k'] == 'Call' and g.nodes[y].get('obj', -1) >= 0):
                    vio.append({'where': g.loc(i), 'function': g.q, 'path': g.q,
                                'message': 'children are reordered'})
    return result(None, {'instances_checked': n, 'decision_table_cases': k, 'path_states': paths}, dedup(vio))


class Applicable(Checker):
    SMALL = 30

    def __init__(self, m):
        self.m = m
        self.mt = {f.id for f in m.fn('CCompoundRule::matches')}
        self.mt |= {y for x in self.mt for y in m.root_methods(x)}
        self.n = 0

    def relevant(self, eng):
        return set()

    def init(self, eng, f):
        return 'unknown'

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.mt:
            self.n += 1
            a, b = st.copy(), st.copy()
            a.auto, b.auto = 'match', 'nomatch'
            return [(a, eng.TRUE), (b, eng.FALSE)]
        return None

    def on_exit(self, eng, st, fr, ret):
        t = eng.truth(st, ret) if ret is not None else None
        if t is not False and st.auto != 'match':
            eng.report(fr, -1, 'a configuration is applicable without a matching rule')
        if t is not True and st.auto == 'match':
            eng.report(fr, -1, 'a configuration whose rule matches is not applicable')
