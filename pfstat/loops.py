"""Shape of loops: which sequence a loop walks, in which direction, whether it can stop early.

A loop is *full* when it visits every position of a sequence from the first to the last: an index from 0 by 1 up to a
count, an iterator from begin() by 1 up to end() (range-for included), or a library algorithm over begin()..end().
Any other shape is 'other' (undecided), except an index or iterator loop whose start, step or bound is visibly
different ('partial')."""
from .model import bare

STRIP = ('ICast', 'Paren', 'MatTemp', 'ECast', 'ExprWithCleanups', 'BindTemp')


def strip(f, i):
    while True:
        n = f.nodes[i]
        if n['k'] in STRIP and n.get('c'):
            i = n['c'][0]
        elif n['k'] == 'Construct' and len(n.get('c') or ()) == 1:
            i = n['c'][0]
        else:
            return i


def varref(f, i):
    n = f.nodes[strip(f, i)]
    if n['k'] == 'Ref' and n['d']['k'] in ('local', 'parm', 'var'):
        return n['d'].get('u')
    return None


def callobj(f, n):
    """receiver expression of a member call"""
    for k in ('obj', 'o', 'recv'):
        if k in n:
            return n[k]
    if 'callee' in n:
        c = f.nodes[n['callee']]
        if c['k'] == 'Member' and c.get('c'):
            return c['c'][0]
    return None


def decls(f):
    out = {}
    for i, n in enumerate(f.nodes):
        if n['k'] == 'Decl':
            for v in n.get('vars', []):
                out[v['u']] = v
    return out


def writes(f, u):
    """nodes that modify local u: ('inc'|'dec'|'skip'|'set'|'other', node)"""
    out = []
    for i, n in enumerate(f.nodes):
        op = n.get('op', '') or ''
        if n['k'] == 'Un' and op[:2] in ('++', '--') and varref(f, n['c'][0]) == u:
            out.append(('inc' if op[:2] == '++' else 'dec', i))
        elif n['k'] == 'Call' and op in ('++', '--'):
            o = callobj(f, n)
            t = o if o is not None else (n.get('c') or [None])[0]
            if t is not None and varref(f, t) == u:
                out.append(('inc' if op == '++' else 'dec', i))
        elif n['k'] == 'Call' and op in ('=', '+=', '-='):
            o = callobj(f, n)
            t = o if o is not None else (n.get('c') or [None])[0]
            if t is not None and varref(f, t) == u:
                if op == '=':
                    out.append(('set', i))
                else:
                    out.append(('other', i))
        elif n['k'] == 'Bin' and op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            if varref(f, n['c'][0]) == u:
                k = 'set' if op == '=' else 'other'
                r = f.nodes[strip(f, n['c'][1])]
                if op == '+=' and r['k'] == 'Int' and r.get('cv') == '1':
                    k = 'inc'
                elif op == '+=' and r['k'] == 'Int' and str(r.get('cv')).isdigit() and int(r['cv']) > 1:
                    k = 'skip'
                out.append((k, i))
    return out


def assigned(f, n):
    if n['k'] == 'Bin':
        return n['c'][1]
    c = n.get('c') or []
    return c[-1] if c else None


class Loop:
    def __init__(s, f, head):
        s.f, s.head, s.body = f, head, f.loops[head]
        s.kind, s.var, s.source, s.why, s.rev = 'other', None, None, '', False
        s.exits = []          # blocks inside the body with an edge leaving it, other than through the condition
        hb = s._cond()
        for b in s.body:
            for t in f.blocks[b]['s']:
                if t >= 0 and t not in s.body and b != hb:
                    s.exits.append(b)
        s._classify(hb)

    def _cond(s):
        """block evaluating the loop condition"""
        f = s.f
        for b in [s.head] + sorted(s.body):
            bl = f.blocks[b]
            if bl.get('tk') in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt') and bl.get('cond') is not None \
                    and any(t not in s.body for t in bl['s']) and b in s.body:
                return b
        return s.head

    def nodes(s):
        for b in s.body:
            for e in s.f.blocks[b]['e']:
                if isinstance(e, int):
                    yield e

    def _classify(s, hb):
        f = s.f
        c = f.blocks[hb].get('cond')
        if c is None:
            return
        n = f.nodes[strip(f, c)]
        op = n.get('op')
        if n['k'] == 'Un' and op == '!':
            m = f.nodes[strip(f, n['c'][0])]
            if m.get('op') == '==':
                n, op = m, '!='
        args = list(n.get('c') or [])
        if n['k'] == 'Call' and len(args) == 1 and callobj(f, n) is not None:
            args = [callobj(f, n)] + args
        if op not in ('<', '!=', '>', '<=', '>=') or len(args) != 2:
            return
        d = decls(f)
        inb = set(s.nodes())
        off = []
        for k in (0, 1):
            x = f.nodes[strip(f, args[k])]
            if x['k'] == 'Bin' and x.get('op') == '+':
                for y, z in ((x['c'][0], x['c'][1]), (x['c'][1], x['c'][0])):
                    w = f.nodes[strip(f, z)]
                    if w['k'] == 'Int' and varref(f, y) is not None:
                        args[k] = y
                        off.append(int(w.get('cv') or 0))
                        break
        for a, b, flip in ((args[0], args[1], False), (args[1], args[0], True)):
            u = varref(f, a)
            if u is None or u not in d:
                continue
            ws = writes(f, u)
            inner = [w for w in ws if w[1] in inb]
            if not inner:
                continue
            s.var = u
            o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op) if flip else op
            outer = [w for w in ws if w[1] not in inb]
            init = d[u].get('init')
            sets = [w for w in outer if w[0] == 'set']
            if sets:
                # last assignment that reaches the loop: the one in the closest preceding block
                blk = {e: bb for bb, bl in f.blocks.items() for e in bl['e'] if isinstance(e, int)}
                sets = [w for w in sets if w[1] in blk]
                pre = [w for w in sets if f.rpoidx[blk[w[1]]] <= f.rpoidx[s.head]]
                if pre:
                    w = max(pre, key=lambda w: (f.rpoidx[blk[w[1]]], w[1]))
                    init = assigned(f, f.nodes[w[1]])
            st = s._start(init, d)
            bd, src = s._bound(b, d)
            steps = {w[0] for w in inner}
            s.source = src
            if bd is None or st is None or 'set' in steps or 'other' in steps:
                s.kind = 'other'
                if bd is not None and st not in (None, 'first') and 'set' not in steps:
                    s.kind, s.why = 'partial', 'does not start at the first item'
                return
            if steps == {'dec'} or len(inner) > 1:
                s.kind, s.why = ('partial' if steps == {'dec'} else 'other'), 'walks backwards'
                return
            if steps == {'skip'}:
                s.kind, s.why = 'partial', 'leaves items out'
            elif st != 'first':
                s.kind, s.why = 'partial', 'does not start at the first item'
            elif bd != 'count' or off and off[0] >= 1 and not (off[0] == 1 and o == '<='):
                s.kind, s.why = 'partial', 'stops before the last item'
            elif off and off[0] == 1 and o == '<=':
                s.kind = 'full'
            elif o not in ('<', '!='):
                s.kind, s.why = 'partial', 'wrong end condition'
            else:
                s.kind = 'full'
            return

    def _start(s, i, d, depth=0):
        """'first', 'later' or None"""
        f = s.f
        if i is None or depth > 6:
            return None
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] == 'Int':
            return 'first' if n.get('cv') == '0' else 'later'
        if n['k'] == 'Ref' and n['d'].get('u') in d:
            u = n['d']['u']
            if all(w[0] != 'set' for w in writes(f, u)):
                ws = writes(f, u)
                x = s._start(d[u].get('init'), d, depth + 1)
                return x if not ws else None
            return None
        if n['k'] == 'Call':
            nm = (n.get('f') or {}).get('n')
            if nm in ('begin', 'cbegin'):
                return 'first'
            if nm in ('rbegin', 'crbegin'):
                s.rev = True
                return 'first'
            if nm in ('next',):
                return 'later'
            if n.get('op') == '+':
                return 'later'
        if n['k'] == 'Construct' and not n.get('c'):
            return None
        return None

    def _bound(s, i, d, depth=0):
        """('count'|'less'|None, what is counted)"""
        f = s.f
        if i is None or depth > 6:
            return None, None
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] == 'Ref' and n['d'].get('u') in d:
            u = n['d']['u']
            if writes(f, u):
                return None, None
            return s._bound(d[u].get('init'), d, depth + 1)
        if n['k'] == 'Bin' and n.get('op') in ('-', '+'):
            b, src = s._bound(n['c'][0], d, depth + 1)
            return ('less' if b else None), src
        if n['k'] == 'Call':
            nm = (n.get('f') or {}).get('n')
            if nm in ('end', 'cend', 'size', 'getNbChildren', 'getNbChildElements', 'rend', 'crend', 'getArgumentCount') or \
                    nm and nm.startswith('getNb'):
                o = callobj(f, n)
                if o is None and n.get('c'):
                    o = n['c'][0]
                return 'count', s._src(o, d, nm)
        return None, None

    def _src(s, o, d, nm, depth=0):
        f = s.f
        if o is None or depth > 6:
            return ('this', nm) if nm.startswith('getNb') else None
        n = f.nodes[strip(f, o)]
        if n['k'] == 'Member':
            return ('field', n['d'].get('u'))
        if n['k'] == 'This':
            return ('this', nm)
        if n['k'] == 'Ref':
            u = n['d'].get('u')
            if u in d and d[u]['n'].startswith('__range'):
                return s._src(d[u].get('init'), d, nm, depth + 1)
            return ('var', u, nm)
        return ('expr', nm)

    def blockof(s, e):
        for b in s.body:
            if e in s.f.blocks[b]['e']:
                return b
        return None

    def every_iteration(s, e):
        """node e is evaluated in every complete iteration"""
        b0 = s.blockof(e)
        if b0 is None:
            return False
        if b0 == s.head:
            return True
        # can an iteration get round the loop without b0?
        seen, st = set(), [t for t in s.f.blocks[s.head]['s'] if t in s.body]
        while st:
            b = st.pop()
            if b == b0 or b in seen:
                continue
            seen.add(b)
            for t in s.f.blocks[b]['s']:
                if t == s.head:
                    return False
                if t in s.body:
                    st.append(t)
        return True


def loops(f):
    f.cfg()
    return [Loop(f, h) for h in f.loops]


def bypasses(f, L, extra=None):
    """conditions under which a call of f ends without reaching the loop (or node): [(block, condition node, outcome)],
    emptiness tests of a sequence excepted"""
    f.cfg()
    head = L.head if isinstance(L, Loop) else next((b for b, bl in f.blocks.items() if L in bl['e']), None)
    if head is None:
        return []
    pred = {}
    for b, bl in f.blocks.items():
        for t in bl['s']:
            if t is not None and t >= 0:
                pred.setdefault(t, []).append(b)
    can, st = set(), [head]
    while st:
        b = st.pop()
        if b not in can:
            can.add(b)
            st += pred.get(b, [])
    seen, st, out = set(), [f.entry], []
    while st:
        b = st.pop()
        if b in seen or b == head:
            continue
        seen.add(b)
        bl = f.blocks[b]
        for k, t in enumerate(bl['s']):
            if t is None or t < 0:
                continue
            if t in can:
                st.append(t)
            elif not noreturn(f, t):
                c = bl.get('cond')
                if c is None or c < 0 or not emptiness(f, c, k == 0) and not (extra and extra(c, k == 0)):
                    out.append((b, c, k == 0))
    return out


def noreturn(f, b):
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == f.exit:
            return False
        if f.blocks[x].get('noret'):
            continue
        st += [t for t in f.blocks[x]['s'] if t is not None and t >= 0]
    return True


def emptiness(f, c, pol):
    """does `c` being `pol` say that a sequence is empty?"""
    n = f.nodes[strip(f, c)]
    if n['k'] == 'Un' and n.get('op') == '!':
        return emptiness(f, n['c'][0], not pol)
    if n['k'] == 'Call':
        nm = (n.get('f') or {}).get('n') or ''
        if nm == 'empty':
            return pol
        if nm in ('size', 'getSize') or nm.startswith('getNb'):
            return not pol
        if n.get('op') in ('==', '!='):
            a = [callobj(f, n)] + list(n.get('c') or [])
            ns = [(f.nodes[strip(f, x)].get('f') or {}).get('n') for x in a if x is not None]
            return (n['op'] == '==') == pol and any(x in ('begin', 'cbegin') for x in ns) and \
                any(x in ('end', 'cend') for x in ns)
    if n['k'] == 'Ref':
        d = decls(f).get(n['d'].get('u'))
        return bool(d) and d.get('init') is not None and not writes(f, n['d']['u']) and emptiness(f, d['init'], pol)
    if n['k'] == 'Bin' and n.get('op') in ('==', '!=', '>', '<', '<=', '>='):
        for a, b, op in ((n['c'][0], n['c'][1], n['op']),
                         (n['c'][1], n['c'][0], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(n['op'], n['op']))):
            w = f.nodes[strip(f, b)]
            if w['k'] == 'Int' and w.get('cv') in ('0', '1') and emptiness(f, a, False):
                v = int(w['cv'])
                # which sizes satisfy `size op v` == pol: emptiness when it is 0 alone
                cmp = {'==': lambda x: x == v, '!=': lambda x: x != v, '<': lambda x: x < v, '>': lambda x: x > v,
                       '<=': lambda x: x <= v, '>=': lambda x: x >= v}[op]
                return [x for x in range(4) if cmp(x) == pol] == [0]
    return False


ALGO = {'for_each', 'accumulate', 'transform', 'copy', 'all_of', 'any_of', 'none_of', 'find_if', 'copy_if', 'count_if',
        'find_if_not'}


def algo_calls(m, f):
    """(node, lambda function, full?) for library algorithms applied with a lambda"""
    out = []
    for i, n in enumerate(f.nodes):
        if n['k'] != 'Call' or (n.get('f') or {}).get('n') not in ALGO:
            continue
        a = n.get('c') or []
        if len(a) < 3:
            continue

        def nm(x):
            y = f.nodes[strip(f, x)]
            return (y.get('f') or {}).get('n')
        full = nm(a[0]) in ('begin', 'cbegin') and nm(a[1]) in ('end', 'cend')
        lam = [x for x in a if 'lambda' in str(f.nodes[strip(f, x)].get('t', '')).lower() or
               f.nodes[strip(f, x)]['k'] == 'Lambda']
        out.append((i, n['f']['n'], full, lam))
    return out


def on_all_paths(f, e):
    """node e lies on every path from entry to exit of f"""
    f.cfg()
    b0 = next((b for b, bl in f.blocks.items() if e in bl['e']), None)
    if b0 is None:
        return False
    seen, st = set(), [f.entry]
    while st:
        b = st.pop()
        if b == b0 or b in seen:
            continue
        seen.add(b)
        ss = [t for t in f.blocks[b]['s'] if t >= 0]
        if not ss and not f.blocks[b].get('noreturn'):
            return False
        st += ss
    return True


def each(m, f, targets, exits=False, conditional=False, depth=3, source=None):
    """Does f perform one of `targets` on every item of a sequence? Returns (verdict, text):
    verdict True (a full loop does), None (a loop of undecided shape does), False (none does, or a partial loop)."""
    f.cfg()
    reach = m.reaching(targets) if not isinstance(targets, frozenset) else targets
    found = []
    ls = loops(f)
    calls = [(i, n) for i, n in enumerate(f.nodes) if n['k'] in ('Call', 'Construct') and
             ((m.targets(f, n) | {(n.get('f') or {}).get('id')}) & reach)]
    for i, n in calls:
        for L in ls:
            if L.blockof(i) is None:
                continue
            if L.kind == 'other':
                found.append((None, 'loop of undecided shape', L))
            elif L.kind == 'partial':
                found.append((False, 'the loop ' + L.why, L))
            elif not conditional and not L.every_iteration(i):
                found.append((False, 'not done for every item', L))
            elif L.exits and not exits:
                found.append((False, 'the loop may stop before the last item', L))
            else:
                found.append((True, 'full', L))
    for i, nm, full, lam in algo_calls(m, f):
        for x in [m.funcs[f.nodes[strip(f, y)]['f']['id']] for y in lam
                  if f.nodes[strip(f, y)]['k'] == 'Lambda' and f.nodes[strip(f, y)]['f']['id'] in m.funcs]:
            for j, n in enumerate(x.nodes):
                if n['k'] == 'Call' and (m.targets(x, n) | {(n.get('f') or {}).get('id')}) & reach:
                    if not full:
                        found.append((False, 'not applied from the first to the last item', None))
                    elif nm in ('for_each', 'accumulate', 'transform') and (conditional or on_all_paths(x, j)):
                        found.append((True, 'full', None))
                    elif nm in ('for_each', 'accumulate', 'transform'):
                        found.append((False, 'not done for every item', None))
                    else:
                        found.append((None, 'algorithm', None))
    if any(v is True for v, _, _ in found):
        return True, 'full'
    if depth and not found:
        best = None
        for i, n in enumerate(f.nodes):
            if n['k'] != 'Call':
                continue
            for t in m.targets(f, n):
                g = m.funcs.get(t)
                if g is not None and g.id != f.id and g.blocks and (g.id in reach) and g.id not in targets:
                    v, why = each(m, g, targets, exits, conditional, depth - 1)
                    if v is True:
                        return True, 'full in ' + g.q
                    if v is None:
                        best = (None, why)
        if best:
            return best
    if any(v is None for v, _, _ in found):
        return None, 'undecided'
    if found:
        return False, found[0][1]
    return False, 'no loop does it'
