"""What may be raised where: sites that raise, handlers that catch, propagated over the call graph."""

PARENT = {'std::ios_base::failure': 'std::system_error', 'std::system_error': 'std::runtime_error', 'std::runtime_error': 'std::exception',
          'std::domain_error': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
          'std::length_error': 'std::logic_error', 'std::logic_error': 'std::exception', 'std::future_error': 'std::logic_error',
          'std::bad_alloc': 'std::exception', 'std::bad_cast': 'std::exception', 'std::bad_function_call': 'std::exception',
          'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error',
          'std::regex_error': 'std::runtime_error', 'asio::system_error': 'std::system_error'}
ASIO = set('open bind listen set_option get_option io_control close shutdown connect accept receive send read write read_some '
           'write_some resolve local_endpoint remote_endpoint cancel run run_one poll poll_one wait non_blocking io_context '
           'basic_socket_acceptor basic_stream_socket'.split())
STO = set('stoi stol stoll stoul stoull stof stod stold'.split())


def bare(t):
    t = t.strip()
    while t.endswith(('&', '*')):
        t = t[:-1].strip()
    if t.startswith('const '):
        t = t[6:]
    return t.strip()


class Eff:
    """effects per (function, exact class of the object it is called on when that is known)"""

    def __init__(self, m):
        self.m = m
        self.sites, self.calls = {}, {}
        for f in m.funcs.values():
            self.collect(f)
        self.out, self.edges = {}, {}
        rev = {}
        todo = [(fid, None) for fid in m.funcs]
        work = []
        while todo:
            k = todo.pop()
            if k in self.edges:
                continue
            self.out[k] = {}
            self.edges[k] = self.resolve(k)
            work.append(k)
            for i, t in self.edges[k]:
                rev.setdefault(t, set()).add(k)
                todo.append(t)
        while work:
            k = work.pop()
            if self.step(k):
                work += list(rev.get(k, ()))

    def resolve(self, k):
        fid, dyn = k
        m, f = self.m, self.m.funcs[fid]
        out = set()
        for i, tg, n in self.calls[fid]:
            cls = None
            if n is not None and n.get('obj', -1) is not None and n.get('obj', -1) >= 0:
                j = n['obj']
                while f.nodes[j]['k'] == 'ICast' and f.nodes[j].get('ck') in ('UncheckedDerivedToBase', 'DerivedToBase', 'NoOp'):
                    j = f.nodes[j]['c'][0]
                o = f.nodes[j]
                if o['k'] == 'This':
                    cls = dyn
                elif o['k'] == 'Ref' and o.get('d', {}).get('k') in ('local', 'var') and o['d'].get('t') in m.classes:
                    cls = o['d']['t']
            if cls and n.get('f') and n['f'].get('virt') and not n.get('nonvirt'):
                h = m.final_overrider(n['f']['id'], cls)
                if h:
                    tg = (h,)
            for t in tg:
                if t in m.funcs:
                    g = m.funcs[t]
                    out.add((i, (t, cls if cls and g.cls and not g.static and (g.cls == cls or m.derives(cls, g.cls)) else None)))
        return sorted(out, key=str)

    def parents(self, t):
        seen, todo = [], [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.append(x)
            if x in PARENT:
                todo.append(PARENT[x])
            todo += [bare(b) for b in self.m.bases.get(x, ())]
        return seen

    def catches(self, hs, t):
        """the handlers of the innermost tries around a site catch t"""
        ps = self.parents(t)
        return any(h == '...' or bare(h) in ps for tr in hs for h in tr)

    def src(self, f, i, n):
        """exceptions a node raises by contract of a library"""
        fi = n.get('f')
        if n['k'] == 'Call' and fi is None and n.get('callee', -1) >= 0:
            # the entry point of a plugin library, called through a pointer held in a variable
            c = f.nodes[f.strip(n['callee'])]
            return 'std::exception' if c['k'] == 'Ref' and c.get('d', {}).get('k') == 'local' else None
        if fi is None or n['k'] not in ('Call', 'Construct'):
            return None
        fid = fi['id']
        head = fid.split('(')[0]
        nm = fi.get('n') or head.split('::')[-1].split('<')[0]
        if head.startswith('asio::'):
            short = nm.split('<')[0]
            if short in ASIO and 'error_code &' not in fid.replace('const std::error_code &', ''):
                return 'std::system_error'
            return None
        if head.startswith('std::'):
            short = head.split('<')[0].split('::')[-1]
            if short in STO:
                return 'std::invalid_argument'
            if short == 'async' or fid.startswith('std::thread::thread<'):
                return 'std::system_error'
            if nm.split('<')[0] == 'at' and n['k'] == 'Call' and n.get('obj', -1) >= 0:
                return 'std::out_of_range'
        return None

    def collect(self, f):
        m = self.m
        sites, edges = [], []
        strict = set()
        held, kept = {}, set()      # lambdas kept in a variable run where the variable is used
        for i, n in enumerate(f.nodes):
            if n['k'] == 'Decl':
                for v in n.get('vars', ()):
                    j = v.get('init', -1)
                    while isinstance(j, int) and j >= 0 and f.nodes[j]['k'] in ('Construct', 'ICast', 'ECast', 'MatTemp', 'Paren', 'InitList', 'Cleanups') \
                            and len(f.nodes[j].get('c', ())) == 1:
                        j = f.nodes[j]['c'][0]
                    if isinstance(j, int) and j >= 0 and f.nodes[j]['k'] == 'Lambda':
                        held[v['u']] = f.nodes[j]['f']['id']
                        kept.add(j)
        for i, n in enumerate(f.nodes):
            if n['k'] == 'Call' and n.get('f') and n['f']['id'].startswith('std::basic_ios<') and '::exceptions(std::_Ios' in n['f']['id']:
                o = f.nodes[f.strip(n['obj'])]
                while o['k'] in ('ICast',):
                    o = f.nodes[o['c'][0]]
                if o.get('d', {}).get('u'):
                    strict.add(o['d']['u'])
                sites.append((i, 'std::ios_base::failure'))
        for i, n in enumerate(f.nodes):
            k = n['k']
            if k == 'Throw':
                sites.append((i, bare(n['tt']) if n.get('tt') else None))
                continue
            if k in ('Call', 'Construct', 'New', 'Delete'):
                t = self.src(f, i, n)
                if t:
                    sites.append((i, t))
            if k in ('Call', 'Construct'):
                edges.append((i, tuple(m.targets(f, n) or ()), n))
            if k == 'Ref':
                d = n.get('d', {})
                if d.get('k') == 'func':
                    edges.append((i, (d['f']['id'],), None))
                if d.get('u') in strict:
                    sites.append((i, 'std::ios_base::failure'))
                if d.get('u') in held:
                    edges.append((i, (held[d['u']],), None))
            if k == 'Lambda' and i not in kept:
                for key in ('f', 'op', 'call'):
                    v = n.get(key)
                    if isinstance(v, dict) and 'id' in v:
                        edges.append((i, (v['id'],), None))
                    elif isinstance(v, str):
                        edges.append((i, (v,), None))
        for b in f.blocks.values():
            for e in b['e']:
                if isinstance(e, dict):
                    if e.get('e') in ('dtor', 'idtor') and e.get('f'):
                        edges.append((-1, (e['f']['id'] if isinstance(e['f'], dict) else e['f'],), None))
        self.sites[f.id] = sites
        self.calls[f.id] = edges

    def raises(self, fid, i):
        """node i of the function may raise something the handlers around it catch"""
        if getattr(self, '_r', None) is None:
            self._r = {}
        if fid not in self._r:
            ns = {x for x, t in self.sites[fid]}
            f = self.m.funcs[fid]
            for x, g in self.edges.get((fid, None), ()):
                if any(self.catches(f.tryr.get(x, ()), t) for t in self.out[g]):
                    ns.add(x)
            self._r[fid] = ns
        return i in self._r[fid]

    def step(self, k):
        fid = k[0]
        f = self.m.funcs[fid]
        out = self.out[k]
        n0 = len(out)
        caught = {}
        for i, t in self.sites[fid]:
            if t is None:
                continue
            (caught if self.catches(f.tryr.get(i, ()), t) else out).setdefault(t, ((fid, i),))
        for i, g in self.edges[k]:
            for t, w in self.out[g].items():
                if self.catches(f.tryr.get(i, ()), t):
                    caught.setdefault(t, ((fid, i),) + w)
                else:
                    out.setdefault(t, ((fid, i),) + w)
        for i, t in self.sites[fid]:
            if t is None:
                for c, w in caught.items():
                    if not self.catches(f.tryr.get(i, ()), c):
                        out.setdefault(c, w)
        return len(out) != n0


def effects(m):
    if getattr(m, '_eff', None) is None:
        m._eff = Eff(m)
    return m._eff
