"""No exception raised by the framework leaves its interfaces. (a) May-throw analysis over the whole call graph: the raising
sites are every throw expression, and the calls into the libraries that raise by contract (asio operations without an error_code,
starting a thread and collecting its result, std::stoX, at(), operations on a stream asked to throw). What a function
lets out is what its own sites and every function it may call (all overriders, functions whose address it takes, lambdas it
creates, destructors) let out, less what the handlers of the try blocks around the site catch, with the derivation of the
exception types; a bare throw lets out again what its function catches. No exception may come out of a public function of the
classes of parameter/include and of those implementing them, of the functions of the C binding, of what runs in a thread
or of a destructor. (b) A handler turns the exception into a failure: from each handler (outside loops) every path
returns a failure value."""
from .common import *
from .p14 import bad
from ..effects import effects

TECHNIQUE = 'interprocedural may-throw effect analysis; path enumeration of the handlers'
NOTE = 'memory exhaustion, mutex errors and the exceptions a plug-in raises itself are outside the property'
FINE = ('success', 'EDone', 'ESucceeded')


def entries(m):
    out = {}
    pub = {c for c, x in m.classes.items() if '/parameter/include/' in '/' + (x.get('file') or '') or (x.get('file') or '').startswith('include/')}
    if len(pub) < 5:
        raise AnalysisError('anchor vanished: classes of the public headers')
    impl = set()
    for c in pub:
        impl |= m.subclasses(c) | {c}
    for f in m.funcs.values():
        if f.cls in pub and f.acc == 0 or f.dtor and f.cls:
            out[f.id] = 'a destructor' if f.dtor else 'the public interface'
        elif f.cls in impl and f.acc == 0 and f.over:
            out[f.id] = 'the public interface'
        elif f.file.startswith('bindings/c/') and not f.cls and not f.static and not f.lam:
            out[f.id] = 'the C binding'
    return out


class H(Checker):
    def __init__(self, m):
        self.m = m

    def relevant(self, eng):
        return set()

    def init(self, eng, f):
        return ()

    def on_catch(self, eng, st, fr, h, *a):
        st.auto = ('caught',)


def check(m, tier):
    vio, n = [], 0
    E = effects(m)
    ent = entries(m)
    kinds = {}
    for fid, what in sorted(ent.items()):
        f = m.funcs[fid]
        n += 1
        kinds[what] = kinds.get(what, 0) + 1
        for t, w in sorted(E.out[fid, None].items()):
            path = ' > '.join(m.funcs[x].q for x, i in w)
            g, i = w[-1]
            vio.append({'function': f.q, 'where': m.funcs[g].loc(i) if i >= 0 else m.funcs[g].where,
                        'message': '%s may come out of %s: %s' % (t, what, path[:300])})
    # what runs in a thread
    for f in m.funcs.values():
        for i, x in enumerate(f.nodes):
            fi = x.get('f')
            if x['k'] in ('Call', 'Construct') and fi and (fi['id'].startswith('std::async<') or fi['id'].startswith('std::thread::thread<')):
                n += 1
                kinds['thread'] = kinds.get('thread', 0) + 1
                seen, todo, got = set(), [x], 0
                while todo:
                    y = todo.pop()
                    d = y.get('d', {})
                    cand = [d['f']['id']] if d.get('k') == 'func' else []
                    if y['k'] == 'Lambda':
                        cand += [v['id'] if isinstance(v, dict) else v for v in (y.get('f'), y.get('op')) if v]
                    for c in cand:
                        if c in m.funcs:
                            got += 1
                            for t, w in E.out[c, None].items():
                                vio.append({'function': f.q, 'where': f.loc(i),
                                            'message': '%s may end the thread: %s' % (t, ' > '.join(m.funcs[z].q for z, _ in w)[:300])})
                    todo += [f.nodes[c] for c in y.get('c', []) if c >= 0]
                if not got:
                    raise AnalysisError('%s: what the thread runs is not understood' % f.q)
    # handlers
    nh = 0
    for f in m.funcs.values():
        f.cfg() if f.blocks else None
        if not f.tryr or f.lam:
            continue
        if f.q == 'main':
            continue
        if f.rt == 'void':
            continue
        ck = H(m)
        e = Engine(m, ck)
        tb = {b for b, bl in f.blocks.items() if any(isinstance(x, int) and x in f.tryr for x in bl['e'])}
        seen, todo = set(), list(f.handlers)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += [y for y in f.blocks[x]['s'] if y >= 0]
        if seen & tb:
            continue  # a loop that goes on with what remains
        en = m.enums.get(f.rt)
        fine = {v['v'] for v in en['vals'] if v['n'].split('::')[-1] in FINE} if en else set()
        isbool = f.rt == 'bool'
        if not isbool and not fine:
            continue
        outs = e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
        some = False
        for st, ret in outs:
            if 'caught' not in st.auto:
                continue
            some = True
            if isbool:
                okv = e.truth(st, ret) is False
            else:
                okv = all(e.truth(st, e.cmp('==', ret, e.const(v))) is False for v in fine)
            if not okv:
                bad(vio, f, 'an exception is caught and the call may still report success', None)
                break
        if some:        # otherwise nothing the framework knows of is raised there
            nh += 1
    if nh < 4:
        raise AnalysisError('anchor vanished: handlers')
    return result(None, {'instances_checked': n + nh, 'functions': len(m.funcs), 'entry_points': kinds, 'handlers': nh,
                         'raising_sites': sum(map(len, E.sites.values())), 'call_edges': sum(map(len, E.edges.values())), 'contexts': len(E.edges)}, dedup(vio))
