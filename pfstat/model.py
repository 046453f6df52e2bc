"""Program model: functions with CFGs, class hierarchy, call graph, mod/ref summaries."""
import json, re, collections
from . import extract
from .extract import AnalysisError


def mutref(t):
    """t is a reference through which its target can be modified"""
    if not t.endswith('&'):
        return False
    u = t.rstrip('&').rstrip()
    if u.endswith('const'):
        return False
    if u.endswith('*'):
        return True
    return not u.startswith('const ')


class Func:
    __slots__ = ('id', 'q', 'n', 'cls', 'file', 'line', 'rt', 'params', 'blocks', 'nodes', 'entry', 'exit',
                 'tryr', 'rec', 'virt', 'const', 'static', 'acc', 'over', 'ctor', 'dtor', 'lam', 'preds',
                 'rpo', 'rpoidx', 'backedges', 'loops', '_parents', 'handlers')

    def __init__(s, r):
        s.rec = r
        for k in ('id', 'q', 'n', 'file', 'line', 'rt', 'params', 'ctor', 'dtor'):
            setattr(s, k, r.get(k))
        s.cls = r.get('cls')
        s.virt = r.get('virt', False)
        s.const = r.get('const', False)
        s.static = r.get('static', False)
        s.acc = r.get('acc', 0)
        s.over = r.get('over', [])
        s.lam = r.get('lambda', False)
        s.nodes = r.get('nodes', [])
        s.blocks = {b['id']: b for b in r.get('blocks', [])}
        s.entry = r.get('entry')
        s.exit = r.get('exit')
        s.tryr = {int(k): v for k, v in r.get('try', {}).items()}
        s._parents = None
        s.rpo = None

    def __repr__(s):
        return '<%s>' % s.id

    @property
    def where(s):
        return '%s:%s %s' % (s.file, s.line, s.q)

    def loc(s, nid):
        return '%s:%s' % (s.file, s.nodes[nid].get('l', s.line))

    # ---- CFG helpers
    def cfg(s):
        if s.rpo is not None:
            return
        succ = {b: [x for x in bl['s'] if x >= 0] for b, bl in s.blocks.items()}
        # catch handlers: reachable from the block that opens their try region
        s.handlers = [b for b, bl in s.blocks.items() if bl.get('label', {}).get('k') == 'CXXCatchStmt']
        s.preds = collections.defaultdict(list)
        seen, order = set(), []
        back = set()
        # iterative DFS
        color = {}

        def dfs(root):
            stack = [(root, iter(succ[root]))]
            color[root] = 1
            while stack:
                b, it = stack[-1]
                adv = False
                for t in it:
                    if color.get(t, 0) == 0:
                        color[t] = 1
                        stack.append((t, iter(succ[t])))
                        adv = True
                        break
                    elif color[t] == 1:
                        back.add((b, t))
                if not adv:
                    color[b] = 2
                    order.append(b)
                    stack.pop()
        for h in s.handlers:
            if color.get(h, 0) == 0:
                dfs(h)
        # handlers come after the main body in RPO except for the blocks they join
        if color.get(s.entry, 0) == 0:
            dfs(s.entry)
        for b in s.blocks:
            if color.get(b, 0) == 0:
                dfs(b)
        s.rpo = order[::-1]
        s.rpoidx = {b: i for i, b in enumerate(s.rpo)}
        s.backedges = back
        for b, ts in succ.items():
            for t in ts:
                s.preds[t].append(b)
        # natural loops
        s.loops = {}
        for (src, hd) in back:
            body = s.loops.setdefault(hd, {hd})
            st = [src]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(s.preds[x])

    def reachable_blocks(s):
        s.cfg()
        out, st = set(), [s.entry] + list(s.handlers)
        while st:
            b = st.pop()
            if b in out or b is None:
                continue
            out.add(b)
            st.extend(x for x in s.blocks[b]['s'] if x >= 0)
        return out

    def elements(s):
        """(block, element) pairs of reachable blocks"""
        for b in s.reachable_blocks():
            for e in s.blocks[b]['e']:
                yield b, e

    def strip(s, i):
        while i is not None and i >= 0 and s.nodes[i]['k'] in ('ICast', 'ECast', 'Paren', 'MatTemp', 'DefArg', 'DefInit') \
                and s.nodes[i].get('c'):
            i = s.nodes[i]['c'][0]
        return i

    def parents(s):
        if s._parents is None:
            p = collections.defaultdict(list)
            for i, n in enumerate(s.nodes):
                for c in ([n['obj']] if n.get('obj', -1) >= 0 else []) + n.get('c', []):
                    if c >= 0:
                        p[c].append(i)
            s._parents = p
        return s._parents

    def subtree(s, i):
        st, out = [i], []
        seen = set()
        while st:
            x = st.pop()
            if x is None or x < 0 or x in seen:
                continue
            seen.add(x)
            out.append(x)
            n = s.nodes[x]
            st.extend(n.get('c', []))
            if n.get('obj', -1) >= 0:
                st.append(n['obj'])
            if n['k'] == 'Decl':
                for v in n.get('vars', []):
                    if v.get('init', -1) is not None and v.get('init', -1) >= 0:
                        st.append(v['init'])
        return out


def bare(t):
    """class name behind a type spelling"""
    t = t.replace('const ', '').replace('volatile ', '').strip()
    while t.endswith(('*', '&', ' ')):
        t = t[:-1].strip()
        if t.endswith('const'):
            t = t[:-5].strip()
    return t


SMART = re.compile(r'^std::(unique_ptr|shared_ptr)<(.*)>$')


class Model:
    def __init__(s, debug=False, repo=None):
        repo = repo or extract.REPO
        s.repo = repo
        files, s.tus = extract.run(repo, debug)
        s.funcs, s.classes, s.enums, s.globals = {}, {}, {}, {}
        for f in files:
            for line in open(f, encoding='utf-8', errors='replace'):
                r = json.loads(line)
                k = r['rec']
                if k == 'func':
                    if r['id'] not in s.funcs:
                        s.funcs[r['id']] = Func(r)
                elif k == 'class':
                    s.classes.setdefault(r['q'], r)
                elif k == 'enum':
                    s.enums.setdefault(r['q'], r)
                elif k == 'global':
                    key = (r['q'], r['file'], r['line']) if r.get('slocal') else r['q']
                    if key not in s.globals or (r['def'] and not s.globals[key]['def']):
                        s.globals[key] = r
        s.byq = collections.defaultdict(list)
        s.byname = collections.defaultdict(list)
        for f in s.funcs.values():
            s.byq[f.q].append(f)
            s.byname[f.n].append(f)
        s._hier()
        s._overrides()
        s._cg = None
        s._mod = None

    # ---- hierarchy
    def _hier(s):
        s.derived = collections.defaultdict(set)
        s.bases = collections.defaultdict(set)
        for q, c in s.classes.items():
            for b in c['bases']:
                s.bases[q].add(b)
                s.derived[b].add(q)

    def derives(s, c, base):
        return c == base or (c is not None and c in s.subclasses(base))

    def subclasses(s, q):
        out, st = set(), [q]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(s.derived.get(x, ()))
        return out

    def superclasses(s, q):
        out, st = set(), [q]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(s.bases.get(x, ()))
        return out

    def _overrides(s):
        s.methods = {}       # id -> method record
        s.overriders = collections.defaultdict(set)
        s.overridden = collections.defaultdict(set)
        for q, c in s.classes.items():
            for m in c['methods']:
                m['cls'] = q
                s.methods[m['id']] = m
                for o in m['over']:
                    s.overriders[o].add(m['id'])
                    s.overridden[m['id']].add(o)

    def all_overriders(s, mid):
        out, st = set(), [mid]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(s.overriders.get(x, ()))
        return out

    def root_methods(s, mid):
        """the method and everything it overrides"""
        out, st = set(), [mid]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(s.overridden.get(x, ()))
        return out

    # ---- anchors
    def fn(s, q, nparams=None, pred=None):
        """functions with this qualified name; an anchor that vanished is an analysis error"""
        l = [f for f in s.byq.get(q, ()) if (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))]
        if not l:
            raise AnalysisError('anchor vanished: no definition of ' + q)
        return l

    def fn1(s, q, nparams=None, pred=None):
        l = s.fn(q, nparams, pred)
        if len(l) != 1:
            raise AnalysisError('anchor ambiguous: ' + q + ' ' + str([x.id for x in l]))
        return l[0]

    # ---- call resolution
    def targets(s, f, node):
        """ids of the functions this call/construct node may invoke"""
        fi = node.get('f')
        if fi is None:
            return s._indirect(f, node)
        mid = fi['id']
        if fi.get('virt') and not node.get('nonvirt'):
            cand = s.all_overriders(mid)
            # restrict to the receiver's static class when it is known
            oc = None
            if node.get('obj', -1) is not None and node.get('obj', -1) >= 0:
                i = node['obj']
                while f.nodes[i]['k'] == 'ICast' and f.nodes[i].get('ck') in ('UncheckedDerivedToBase', 'DerivedToBase', 'NoOp', 'LValueToRValue'):
                    if f.nodes[i]['ck'] == 'LValueToRValue':
                        break
                    i = f.nodes[i]['c'][0]
                oc = bare(f.nodes[i].get('t', ''))
            if oc and oc in s.classes and len(cand) > 1:
                sub = s.subclasses(oc)
                sup = s.superclasses(oc)
                keep = {m for m in cand if m in s.methods and s.methods[m]['cls'] in sub}
                # plus the definition inherited by oc itself
                inh = s.final_overrider(mid, oc)
                if inh:
                    keep.add(inh)
                cand = keep or cand
            return cand
        return {mid}

    def final_overrider(s, mid, cls):
        """method that cls inherits/defines for virtual mid"""
        st, seen = [cls], set()
        fam = s.all_overriders(mid) | s.root_methods(mid)
        for r in list(s.root_methods(mid)):
            fam |= s.all_overriders(r)
        level = [cls]
        while level:
            hits = [m['id'] for c in level if c in s.classes for m in s.classes[c]['methods'] if m['id'] in fam]
            if hits:
                return hits[0]
            level = [b for c in level for b in s.bases.get(c, ())]
        return None

    def _indirect(s, f, node):
        c = node.get('callee')
        if c is None:
            return set()
        i = f.strip(c)
        n = f.nodes[i]
        t = n.get('t', '')
        out = set()
        # pointer to member: address-taken methods with the same parameter list
        if n['k'] == 'Bin' and n['op'] in ('->*', '.*'):
            rhs = f.nodes[f.strip(n['c'][1])]
            pt = f.nodes[n['c'][1]].get('t', rhs.get('t', ''))
            sig = pt[pt.rfind('(', 0, pt.rfind(')')):]
            m = re.search(r'\(.*::\*\)(\(.*\).*)$', pt)
            sig = m.group(1) if m else None
            for fid in s.address_taken():
                fn = s.funcs.get(fid)
                if fn is None or not fn.cls:
                    continue
                ps = '(' + ', '.join(p['t'] for p in fn.params) + ')' + (' const' if fn.const else '')
                if sig is None or ps.replace(' ', '') == sig.replace(' ', ''):
                    out.add(fid)
        else:
            # lambda held in a variable has a direct operator() callee; plain function pointer here
            pass
        return out

    def address_taken(s):
        if getattr(s, '_at', None) is None:
            s._at = set()
            for f in s.funcs.values():
                callee = set()
                for n in f.nodes:
                    if n['k'] == 'Call' and n.get('callee', -1) >= 0:
                        pass
                for n in f.nodes:
                    if n['k'] == 'Un' and n.get('op') == '&' and n.get('c'):
                        m = f.nodes[n['c'][0]]
                        if m.get('d', {}).get('k') == 'func':
                            s._at.add(m['d']['f']['id'])
            for g in s.globals.values():
                for n in g.get('nodes', []):
                    if n['k'] == 'Un' and n.get('op') == '&' and n.get('c'):
                        m = g['nodes'][n['c'][0]]
                        if m.get('d', {}).get('k') == 'func':
                            s._at.add(m['d']['f']['id'])
        return s._at

    def dtor_targets(s, fid):
        out = set()
        for t in s.all_overriders(fid):
            out.add(t)
        return out

    def callgraph(s):
        """fid -> {callee id: [(node id)]}; includes lambdas created and functions whose address is taken"""
        if s._cg is not None:
            return s._cg
        cg = {}
        for f in s.funcs.values():
            out = collections.defaultdict(list)
            for b, e in f.elements():
                if isinstance(e, dict):
                    if 'f' in e:
                        out[e['f']].append(None)
                    continue
                n = f.nodes[e]
                k = n['k']
                if k in ('Call', 'Construct'):
                    for t in s.targets(f, n):
                        out[t].append(e)
                    # callables handed to a library function are invoked there
                elif k == 'Lambda':
                    out[n['f']['id']].append(e)
                elif k == 'Un' and n.get('op') == '&' and n.get('c'):
                    m = f.nodes[n['c'][0]]
                    if m.get('d', {}).get('k') == 'func':
                        out[m['d']['f']['id']].append(e)
                elif k == 'Delete':
                    c = bare(n.get('dt', ''))
                    if c in s.classes and s.classes[c].get('dtor'):
                        for t in s.dtor_targets(s.classes[c]['dtor']):
                            out[t].append(e)
            for i, n in enumerate(f.nodes):
                if n['k'] == 'Construct' or n['k'] == 'Call':
                    fi = n.get('f')
                    if fi and fi['id'] in s.funcs and fi['id'] not in out:
                        for t in s.targets(f, n):
                            out[t].append(i)
            cg[f.id] = dict(out)
        s._cg = cg
        return cg

    def callers(s):
        if getattr(s, '_callers', None) is None:
            s._callers = collections.defaultdict(set)
            for a, m in s.callgraph().items():
                for b in m:
                    s._callers[b].add(a)
        return s._callers

    def reaching(s, ids):
        """all functions from which one of ids can be reached (ids included)"""
        cr = s.callers()
        out, st = set(), list(ids)
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(cr.get(x, ()))
        return out

    def reachable(s, ids):
        cg = s.callgraph()
        out, st = set(), list(ids)
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(cg.get(x, ()))
        return out

    # ---- mod / ref
    MUTFREE = {'begin', 'end', 'rbegin', 'rend', 'front', 'back', 'at', 'operator[]', 'find', 'get', 'operator->',
               'operator*', 'data', 'size', 'empty', 'c_str', 'str', 'lower_bound', 'upper_bound', 'good', 'fail',
               'operator bool', 'operator!', 'operator==', 'operator!=', 'count'}

    def field_of(s, f, i):
        """field name when node i designates (part of) a data member"""
        while i is not None and i >= 0:
            n = f.nodes[i]
            k = n['k']
            if k in ('Paren', 'MatTemp') or (k in ('ICast', 'ECast') and n.get('ck') in
                                             ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived')):
                i = n['c'][0]
            elif k == 'Member' and n['d']['k'] == 'field':
                return n['d']['u']
            elif k == 'Index':
                i = n['c'][0]
            elif k == 'ICast' and n.get('ck') in ('ArrayToPointerDecay', 'LValueToRValue'):
                i = n['c'][0]
            elif k == 'Un' and n.get('op') == '*':
                i = n['c'][0]
            elif k == 'Call' and n.get('obj', -1) >= 0 and n.get('f', {}).get('n') in s.MUTFREE:
                i = n['obj']
            else:
                return None
        return None

    def direct_mod(s, f):
        if not hasattr(s, '_dm'):
            s._dm = {}
        if f.id in s._dm:
            return s._dm[f.id]
        out = set()
        for b, e in f.elements():
            if isinstance(e, dict):
                if e.get('e') == 'init' and 'field' in e:
                    pass     # initialises the object under construction only
                continue
            n = f.nodes[e]
            k = n['k']
            if k == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                fl = s.field_of(f, n['c'][0])
                if fl:
                    out.add(fl)
                else:
                    m = f.nodes[f.strip(n['c'][0])]
                    if m['k'] in ('Un', 'Index'):
                        out.add('*')
            elif k == 'Un' and n['op'].rstrip('post') in ('++', '--'):
                fl = s.field_of(f, n['c'][0])
                if fl:
                    out.add(fl)
            elif k == 'Call' and n.get('f'):
                fi = n['f']
                if n.get('obj', -1) >= 0 and not fi.get('const') and fi['n'] not in s.MUTFREE and not fi['repo']:
                    fl = s.field_of(f, n['obj'])
                    if fl:
                        out.add(fl)
                s._argmods(f, n, fi, out)
            elif k == 'Construct' and n.get('f'):
                s._argmods(f, n, n['f'], out)
        s._dm[f.id] = out
        return out

    def _argmods(s, f, n, fi, out):
        for a, t in zip(n.get('c', []), fi.get('pt', [])):
            if mutref(t) and not t.endswith('&&'):
                fl = s.field_of(f, a)
                if fl:
                    out.add(fl)
            elif t.endswith('*') and not t.startswith('const '):
                m = f.nodes[f.strip(a)]
                if m['k'] == 'Un' and m.get('op') == '&':
                    fl = s.field_of(f, m['c'][0])
                    if fl:
                        out.add(fl)

    def modset(s, fid):
        """fields that may be stored by fid or anything it calls"""
        if s._mod is None:
            cg = s.callgraph()
            s._mod = {}
            # SCC-free fixpoint
            ms = {x: set(s.direct_mod(s.funcs[x])) for x in cg}
            callers = s.callers()
            wl = list(cg)
            inwl = set(wl)
            while wl:
                x = wl.pop()
                inwl.discard(x)
                for c in callers.get(x, ()):
                    if c in ms and not ms[x] <= ms[c]:
                        ms[c] |= ms[x]
                        if c not in inwl:
                            wl.append(c)
                            inwl.add(c)
            s._mod = ms
        return s._mod.get(fid, set())


def load(debug=False):
    return Model(debug)


if __name__ == '__main__':
    import time
    t = time.time()
    m = Model()
    print(len(m.funcs), 'funcs', len(m.classes), 'classes', len(m.globals), 'globals', time.time() - t)
    cg = m.callgraph()
    print(sum(map(len, cg.values())), 'edges', time.time() - t)
    m.modset('x')
    print(time.time() - t)
    import sys
    for q in sys.argv[1:]:
        for f in m.byq[q]:
            print(f.id, f.where)
            print('  calls', sorted(cg[f.id]))
            print('  mods', sorted(m.modset(f.id)))
