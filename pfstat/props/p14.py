"""Application rules decide as written. (a) For every verb of the verb table, the decision of a criterion rule is
evaluated (all paths, over a table of state and value vectors) against the meaning of the verb: Is, IsNot, Includes (all
the states of the value are set), Excludes (none is). Includes and Excludes are the verbs marked as incompatible with
exclusive types. (b) A compound rule returns, on every path and for each type, the conjunction (All) or disjunction
(Any) of the outcomes of the children it asked, and it stops early only once a child decided; the loop visits every child.
(c) A configuration is applicable exactly when it has a rule and this rule matches. (d) A criterion rule is read (text or
XML) with success only when the criterion was found, the verb stored is the entry of the table equal to the given
word, that verb is allowed for the type of the criterion, and the type of the same criterion resolved the value. (e) A rule is replaced only
after a complete parse and by the parsed root. (f) Typestate of the parser: brace depth never goes below zero with
success, the end is accepted only at depth zero and at the last character, children are chained to an existing
parent, an existing root is not replaced, a failed inner step fails the parse. (g) A value of an inclusive type is the union of all
its words, each one known; a dumped or exported rule value covers every state of the value."""
from .common import *
from ..loops import each, loops
from ..evalterm import ev, feasible

TECHNIQUE = 'path enumeration with constant propagation over finite decision tables; path-sensitive typestate of the parser; loop coverage'
NOTE = 'the text syntax itself (delimiters per parser state) is not compared with a grammar'
CRIT, RULE, COMP, CONF, PARS = ('CSelectionCriterion', 'CSelectionCriterionRule', 'CCompoundRule', 'CDomainConfiguration',
                                'CRuleParser')
CTYPE = 'CSelectionCriterionType'
VERBS = {'Is': lambda s, v: s == v, 'IsNot': lambda s, v: s != v, 'Includes': lambda s, v: s & v == v,
         'Excludes': lambda s, v: s & v == 0}
EXCL = {'Is': 1, 'IsNot': 1, 'Includes': 0, 'Excludes': 0}
SAMPLE = (0, 1, 2, 3, 4, 5, 6, 7, 8, 0x40000000, 0x40000001, -1, -2)


def u(x):
    return x.i if hasattr(x, 'i') else x


def ids(m, *qs):
    return {f.id for q in qs for f in m.fn(q)}


def fieldof(m, cls, pred, what):
    x = [x['u'] for x in m.classes[cls]['fields'] if pred(x['t'])]
    if len(x) != 1:
        raise AnalysisError('anchor vanished: ' + what)
    return x[0]


def table(m, cls, elem):
    """global array of cls whose entries are (string[, bool]); list of tuples"""
    for q, g in m.globals.items():
        if g.get('q', q).startswith(cls + '::') and g.get('nodes') and elem(g['t']):
            ns = g['nodes']

            def leaf(i):
                while ns[i]['k'] not in ('Str', 'Bool', 'Int', 'InitList') and ns[i].get('c'):
                    i = ns[i]['c'][0]
                return ns[i]
            top = leaf(g['initroot'])
            rows = []
            for c in top.get('c', []):
                x = leaf(c)
                if x['k'] == 'InitList':
                    rows.append(tuple(v.get('v') if v['k'] == 'Str' else int(v.get('cv', 0)) for v in map(leaf, x['c'])))
                else:
                    rows.append((x.get('v'),))
            if rows:
                return g.get('q', q), rows
    raise AnalysisError('anchor vanished: table of words of ' + cls)


def bad(vio, f, msg, node=None):
    vio.append({'where': f.loc(node) if node is not None else '%s:%s' % (f.file, f.line), 'function': f.q, 'path': f.q,
                'message': msg})


def castless(eng, t):
    while True:
        x = eng.T.get(t)
        if x[0] == 'cast':
            t = u(x[2])
        elif x[0] == 'lib' and len(x) == 3 and hasattr(x[2], 'i'):
            t = u(x[2])
        else:
            return t


class Crit(Checker):
    """decision of one criterion rule"""
    SMALL = 80

    def __init__(self, m):
        self.m = m

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls in (CRIT, RULE)}


class Parent(Checker):
    """outcome of a rule with respect to the rules it asks"""
    SMALL = 80

    def __init__(self, m, target, own=None):
        self.m, self.target = m, target
        self.own = own
        self.getrule = ids(m, CONF + '::getRule')
        self.n = 0

    def relevant(self, eng):
        return set()

    def init(self, eng, f):
        return frozenset()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.getrule:
            q = st.copy()
            p = eng.T.mk('rule', 0)
            q.facts[p] = True
            st.auto = st.auto | {'norule'}
            q.auto = q.auto | {'hasrule'}
            return [(q, p), (st, eng.NULL)]
        if tg & self.target:
            self.n += 1
            q = st.copy()
            st.auto = st.auto | {'T'}
            q.auto = q.auto | {'F'}
            return [(st, eng.TRUE), (q, eng.FALSE)]
        return None


class Read(Checker):
    """a criterion rule read from text or XML"""
    SMALL = 40
    K = 60
    KEXIT = 60

    def __init__(self, m, crit, verb, value, tab, compat):
        self.m, self.crit, self.verb, self.value, self.tab, self.compat = m, crit, verb, value, tab, compat
        self.get = ids(m, 'CSelectionCriteriaDefinition::getSelectionCriterion')
        self.incl = {f.id for f in m.funcs.values() if f.n == 'isTypeInclusive'}
        self.num = {f.id for f in m.funcs.values() if f.n == 'getNumericalValue' and
                    m.derives(f.cls, 'ISelectionCriterionTypeInterface')}
        self.type = {f.id for f in m.funcs.values() if f.n == 'getCriterionType'}
        self.n = 0
        if not (self.get and self.incl and self.num):
            raise AnalysisError('anchor vanished: reading of criterion rules')

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == RULE}

    def init(self, eng, f):
        return frozenset()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        m = self.m
        decl = (n.get('f') or {}).get('n')
        if tg & self.get:
            self.n += 1
            q = st.copy()
            p = eng.T.mk('crit', fr.id, i)
            q.facts[p] = True
            q.auto = q.auto | {('crit', p)}
            return [(q, p), (st, eng.NULL)]
        if tg & self.type:
            return [(st, eng.T.mk('ctype', r(eng.addr(obj) if eng.islv(obj) else obj)))]
        if tg & self.incl or decl == 'isTypeInclusive':
            q = st.copy()
            st.auto = st.auto | {'incl'}
            q.auto = q.auto | {'excl'}
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.num or decl == 'getNumericalValue':
            self.n += 1
            q = st.copy()
            eng.wr(st, args[1], eng.T.mk('num', fr.id, i), ('w', fr.id, i))
            o = eng.addr(obj) if eng.islv(obj) else obj
            st.auto = st.auto | {('num', eng.T.mk('num', fr.id, i), o)}
            eng.wr(q, args[1], eng.T.mk('junk', fr.id, i), ('w', fr.id, i))
            return [(st, eng.TRUE), (q, eng.FALSE)]
        return None

    def on_exit(self, eng, st, fr, ret):
        if ret is not None and eng.truth(st, ret) is False:
            return
        T = eng.T
        base = eng.lder(fr.this)

        def cur(fl):
            return eng.rd(st, eng.lfld(base, fl))
        c = [x[1] for x in st.auto if x[0] == 'crit']
        if not c or castless(eng, cur(self.crit)) not in c:
            eng.report(fr, -1, 'read with success without the criterion it names')
            return
        crit = castless(eng, cur(self.crit))
        nums = [x for x in st.auto if x[0] == 'num']
        if not nums or castless(eng, cur(self.value)) not in [x[1] for x in nums]:
            eng.report(fr, -1, 'read with success without the value resolved by the type of the criterion')
        else:
            o = T.get(nums[-1][2])
            if o[0] == 'ctype' and u(o[1]) != crit:
                eng.report(fr, -1, 'value resolved by the type of another criterion')
        # the verb
        v = castless(eng, cur(self.verb))
        ok = None
        for k, pol in st.facts.items():
            if not isinstance(k, int) or not pol or T.get(k)[0] != 'eq':
                continue
            for side in (u(T.get(k)[1]), u(T.get(k)[2])):
                x = T.get(castless(eng, side))
                if x[0] == 'strlit':
                    w = [j for j, row in enumerate(self.tab[1]) if row[0] == x[1]]
                    if w and eng.isconst(v):
                        ok = eng.cval(v) == w[0]
                idx = entry(eng, self.tab[0], castless(eng, side))
                if idx is not None:
                    j = castless(eng, idx)
                    if j == v or eng.isconst(j) and eng.isconst(v) and eng.cval(j) == eng.cval(v):
                        ok = True
                    elif ok is None and (T.get(v)[0] == 'fld' or
                                         any(ev(eng, v, {j: x}) not in (None, x) for x in range(len(self.tab[1])))):
                        ok = False
        if ok is False:
            eng.report(fr, -1, 'the verb stored is not the one of the table entry that was recognised')
        if ok is None and T.get(v)[0] in ('fld', 'int', 'init'):
            eng.report(fr, -1, 'read with success without a recognised verb')
        comp = None
        for k, pol in st.facts.items():
            if isinstance(k, int) and T.get(k)[0] == 'fld' and T.get(k)[2] == self.compat:
                comp = pol
        if 'incl' not in st.auto and comp is not True and not eng.isconst(v):
            eng.report(fr, -1, 'a verb is accepted without being allowed for the type of the criterion')


def entry(eng, tab, t, d=0):
    """index term of the entry of table tab read by term t"""
    x = eng.T.get(t)
    if x[0] == 'Lidx' or x[0] == 'idx':
        b = eng.T.get(u(x[1]))
        if b[0] in ('Lglob', 'glob') and b[1] == tab:
            return u(x[2])
    if d < 6:
        for y in x[1:]:
            if hasattr(y, 'i'):
                z = entry(eng, tab, y.i, d + 1)
                if z is not None:
                    return z
    return None


class Set(Checker):
    """replacement of the rule of a configuration"""
    SMALL = 60

    def __init__(self, m):
        self.m = m
        self.parse = ids(m, PARS + '::parse')
        self.grab = ids(m, PARS + '::grabRootRule')
        self.child = ids(m, 'CElement::removeChild', 'CElement::removeChildren')
        self.add = ids(m, 'CElement::addChild')
        self.n = 0

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == CONF and
                f.id in self.m.reaching(self.child | self.add)}

    def init(self, eng, f):
        return frozenset()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.parse:
            self.n += 1
            p = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
            if p != eng.NULL:
                eng.report(fr, i, 'a rule is parsed as part of another rule')
            q = st.copy()
            st.auto = st.auto | {'parsed'}
            q.auto = q.auto | {'failed'}
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.grab:
            t = eng.T.mk('root', fr.id, i)
            st.facts[t] = True
            st.auto = st.auto | {('root', t)}
            return [(st, t)]
        if tg & (self.child | self.add):
            self.n += 1
            if 'parsed' not in st.auto or 'failed' in st.auto:
                eng.report(fr, i, 'the rule of a configuration is replaced although the new one was not parsed')
            if tg & self.add:
                v = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
                if ('root', v) not in st.auto:
                    eng.report(fr, i, 'the rule set is not the one parsed')
                st.auto = st.auto | {'set'}
            return [(st, None)]
        return None

    def on_exit(self, eng, st, fr, ret):
        t = eng.truth(st, ret) if ret is not None else None
        if 'failed' in st.auto and t is not False:
            eng.report(fr, -1, 'a rule that does not parse is reported as set')
        if t is not False and 'set' not in st.auto:
            eng.report(fr, -1, 'success is reported without setting the rule')


class Parser(Checker):
    """typestate of the rule parser"""
    SMALL = 100
    K = 40
    KEXIT = 20

    def __init__(self, m, top):
        self.m, self.top = m, top
        self.it = ids(m, PARS + '::iterate')
        self.me = ids(m, PARS + '::parse')
        self.sub = ids(m, RULE + '::parse', COMP + '::parse')
        self.next = ids(m, PARS + '::next')
        self.add = ids(m, 'CElement::addChild')
        self.root = fieldof(m, PARS, lambda t: bare(t) == COMP, 'root rule of the parser')
        self.status = fieldof(m, PARS, lambda t: t.endswith('Status'), 'parser state')
        self.n = 0
        self.n_states = len(m.enums[PARS + '::Status']['vals'])
        self.code = {v['n'].split('::')[-1]: v['v'] for v in m.enums[PARS + '::Status']['vals']}

    def relevant(self, eng):
        x = self.m.reaching(self.it | self.add | self.sub)
        return {i for i in x if self.m.funcs[i].cls == PARS} - self.it - self.me

    def init(self, eng, f):
        return frozenset()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        if tg & self.it:
            self.n += 1
            out = []
            q = st.copy()
            q.auto = q.auto | {'fail'}
            out.append((q, eng.FALSE))
            lv = eng.lfld(eng.lder(fr.chain()[0].this), self.status)
            for v in self.m.enums[PARS + '::Status']['vals']:
                nm = v['n'].split('::')[-1]
                if nm in ('EInit', 'ENbStatuses'):
                    continue
                q = st.copy()
                eng.wr(q, lv, eng.const(v['v']), ('w', fr.id, i, nm))
                q.auto = frozenset(x for x in q.auto if not (isinstance(x, tuple) and x[0] == 'at')) | {('at', nm)}
                out.append((q, eng.TRUE))
            return out
        if tg & (self.sub | self.me):
            self.n += 1
            q = st.copy()
            q.auto = q.auto | {'fail'}
            if tg & self.me:
                p = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
                if eng.truth(st, p) is not True:
                    eng.report(fr, i, 'the content of a rule is parsed without a rule to hold it')
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.add:
            self.n += 1
            o = eng.addr(obj) if eng.islv(obj) else obj
            if eng.truth(st, o) is not True and eng.T.get(o)[0] != 'new':
                eng.report(fr, i, 'a rule is chained to a parent that may not exist')
            st.auto = st.auto | {'chained'}
            return [(st, None)]
        return None

    def on_store(self, eng, st, fr, n, lv, val):
        x = eng.T.get(lv)
        if x[0] == 'Lfld' and x[2] == self.root and fr.chain()[0].f.n == 'parse':
            self.n += 1
            old = eng.rd(st, lv)
            if eng.truth(st, old) is not False:
                eng.report(fr, -1, 'a root rule already parsed is dropped')

    def on_exit(self, eng, st, fr, ret):
        t = eng.truth(st, ret) if ret is not None else None
        if t is False:
            return
        if 'fail' in st.auto:
            eng.report(fr, -1, 'the parse succeeds although a step of it failed')
        at = [x[1] for x in st.auto if isinstance(x, tuple)]
        if at and at[0] not in ('EDone', 'EEndCompoundRule'):
            eng.report(fr, -1, 'the parse succeeds before the end of the rule (%s)' % at[0])
        if at and at[0] == 'EDone':
            rt = eng.rd(st, eng.lfld(eng.lder(fr.this), self.root))
            if eng.truth(st, rt) is not True:
                eng.report(fr, -1, 'the parse succeeds without a rule')


class Iter(Checker):
    """one step of the parser: brace depth and end"""
    SMALL = 60
    K = 40
    KEXIT = 20

    def __init__(self, m, status, done, depth0):
        self.m, self.status, self.done, self.depth0 = m, status, done, depth0
        self.depth = fieldof_depth(m)
        self.n = 0

    def init(self, eng, f):
        return frozenset()

    def on_exit(self, eng, st, fr, ret):
        if ret is not None and eng.truth(st, ret) is False:
            return
        base = eng.lder(fr.this)
        d = eng.rd(st, eng.lfld(base, self.depth))
        s = castless(eng, eng.rd(st, eng.lfld(base, self.status)))
        self.n += 1
        if eng.isconst(d) and (eng.cval(d) < 0 or eng.cval(d) >= 1 << 32) or \
                self.depth0 == 0 and eng.isconst(s) and eng.cval(s) == self.end:
            eng.report(fr, -1, 'a closing brace is accepted without an opening one')
        if eng.isconst(s) and eng.cval(s) == self.done:
            if eng.isconst(d) and eng.cval(d) != 0:
                eng.report(fr, -1, 'the end of the rule is accepted inside braces')
            # position equal to the length of the text
            ok = False
            for k, pol in st.facts.items():
                if not isinstance(k, int):
                    continue
                x = eng.T.get(k)

                def length(y):
                    z = eng.T.get(castless(eng, u(y)))
                    return z[0] == 'lib' and str(z[1]).split('::')[-1] in ('length', 'size')
                if pol and x[0] == 'eq' and (length(x[1]) or length(x[2])) or \
                        not pol and x[0] == 'lt' and length(x[2]):
                    ok = True
            if not ok:
                eng.report(fr, -1, 'characters left after the rule are accepted')
        # the depth follows the braces
        if eng.isconst(s) and eng.isconst(d):
            want = {self.begin: self.depth0 + 1, self.end: self.depth0 - 1}.get(eng.cval(s), self.depth0)
            if self.depth0 == 5 and eng.cval(d) != want:
                eng.report(fr, -1, 'the brace depth does not follow the braces')


def fieldof_depth(m):
    """the counter of the parser stepped by iterate"""
    us = set()
    fl = {x['u'] for x in m.classes[PARS]['fields'] if bare(x['t']) in ('unsigned long', 'size_t', 'std::size_t', 'int',
                                                                       'unsigned int', 'long')}
    for f in m.fn(PARS + '::iterate'):
        for n in f.nodes:
            if n['k'] == 'Un' and n.get('op', '')[:2] in ('++', '--') or n['k'] == 'Bin' and n.get('op') in ('+=', '-='):
                x = f.nodes[f.strip(n['c'][0])]
                if x['k'] == 'Member' and x['d'].get('u') in fl:
                    us.add(x['d']['u'])
    if len(us) != 1:
        raise AnalysisError('anchor vanished: brace depth of the rule parser')
    return us.pop()


def loop_ended(eng, st, fr, f, m, target):
    """the loop that asks the children ended by its condition (True), was left (False), or undecided (None)"""
    for L in loops(f):
        if not any(f.nodes[e]['k'] == 'Call' and m.targets(f, f.nodes[e]) & target for e in L.nodes()):
            continue
        for b in [L.head] + sorted(L.body):
            bl = f.blocks[b]
            if bl.get('cond') is not None and any(t not in L.body for t in bl['s']) and \
                    bl.get('tk') in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt'):
                t = st.temps.get((fr.id, bl['cond']))
                if t is None:
                    t = st.temps.get((fr.id, f.strip(bl['cond'])))
                if t is None:
                    return None
                v = eng.truth(st, t)
                return None if v is None else not v
    return None


def check(m, tier):
    vio, n = [], 0
    # (a) verbs
    tname, rows = table(m, RULE, lambda t: 'MatchingRule' in t or '[' in t)
    words = [x[0] for x in rows]
    f0 = m.fn1(RULE + '::matches')
    if sorted(words) != sorted(VERBS):
        bad(vio, f0, 'the verbs of criterion rules are not Is, IsNot, Includes and Excludes')
    for row in rows:
        if row[0] in EXCL and len(row) > 1 and row[1] != EXCL[row[0]]:
            bad(vio, f0, 'verb %s is marked %s exclusive types' % (row[0], 'compatible with' if row[1] else 'incompatible with'))
    crit = fieldof(m, RULE, lambda t: bare(t) == CRIT, 'criterion of a rule')
    verb = fieldof(m, RULE, lambda t: t.endswith('MatchesWhen'), 'verb of a rule')
    value = fieldof(m, RULE, lambda t: bare(t) in ('int', 'int32_t', 'std::int32_t', '__int32_t'), 'value of a rule')
    state = getter_field(m, CRIT + '::getCriterionState')
    for k, w in enumerate(words):
        c = Crit(m)
        e = Engine(m, c)
        S, V, P = e.T.mk('in', 'S'), e.T.mk('in', 'V'), e.T.mk('in', 'P')

        def setup(eng, st, fr):
            b = eng.lder(fr.this)
            st.heap[eng.lfld(b, verb)] = eng.const(k)
            st.heap[eng.lfld(b, value)] = V
            st.heap[eng.lfld(b, crit)] = P
            st.facts[P] = True
            st.heap[eng.lfld(eng.lder(P), state)] = S
        outs = e.run(f0, setup)
        vio += e.violations
        for s in SAMPLE:
            for v in SAMPLE:
                n += 1
                env = {S: s, V: v}
                got = {ev(e, rt, env) if rt is not None else None for st, rt in outs if feasible(e, st, env)}
                got = {None if x is None else bool(x) for x in got}
                want = VERBS[w](s, v) if w in VERBS else None
                if want is not None and (not want) in got:
                    bad(vio, f0, 'verb %s: state 0x%x, value 0x%x is decided %s' % (
                        w, s & 0xffffffff, v & 0xffffffff, not want))
                    break
            else:
                continue
            break
    # (b) compound rules
    f1 = m.fn1(COMP + '::matches')
    cname, crow = table(m, COMP, lambda t: '[' in t)
    kinds = [x[0] for x in crow]
    if sorted(kinds) != ['All', 'Any']:
        bad(vio, f1, 'the types of compound rules are not Any and All')
    all_ = fieldof(m, COMP, lambda t: t == 'bool', 'type of a compound rule')
    kid = {g.id for g in m.funcs.values() if g.n == 'matches' and m.derives(g.cls, 'CRule')}
    ok, why = each(m, f1, kid, exits=True)
    n += 1
    if ok is False:
        bad(vio, f1, 'not every rule of a compound is asked: ' + why)
    for k, w in enumerate(kinds):
        c = Parent(m, kid)
        e = Engine(m, c)

        def setup(eng, st, fr):
            st.heap[eng.lfld(eng.lder(fr.this), all_)] = eng.const(k)

        class Out(Parent):
            pass
        fr_ = []

        def on_exit(eng, st, fr, ret):
            fr_.append((st, ret, fr))
        c.on_exit = on_exit
        e.run(f1, setup)
        n += c.n
        for st, rt, fr in fr_:
            t = e.truth(st, rt) if rt is not None else None
            if t is None:
                t0 = ev(e, rt, {}) if rt is not None else None
                t = None if t0 is None else bool(t0)
            dec = 'F' if w == 'All' else 'T'
            want = (dec not in st.auto) if w == 'All' else (dec in st.auto)
            if t is not None and t != want:
                bad(vio, f1, 'compound %s: decided %s when the rules asked were %s' % (
                    w, t, '/'.join(sorted({'T': 'true', 'F': 'false'}[x] for x in st.auto if x in 'TF')) or 'none'))
            if dec not in st.auto and loop_ended(e, st, fr, f1, m, kid) is False:
                bad(vio, f1, 'compound %s: decided before every rule was asked' % w)
    # (c) applicability
    for f in m.fn(CONF + '::isApplicable'):
        c = Parent(m, kid)
        e = Engine(m, c)
        for st, rt in e.run(f):
            n += 1
            t = e.truth(st, rt) if rt is not None else None
            if t is None:
                continue
            if 'norule' in st.auto and 'T' not in st.auto and 'F' not in st.auto:
                if t:
                    bad(vio, f, 'a configuration without rule is applicable')
            elif 'T' in st.auto and not t or 'F' in st.auto and t:
                bad(vio, f, 'applicability is not the outcome of the rule')
            elif 'hasrule' in st.auto and not {'T', 'F'} & st.auto:
                bad(vio, f, 'applicability is decided without asking the rule')
    # (d) reading
    compat = None
    desc = next((c for c in m.classes if c.startswith(RULE + '::') and 'Description' in c), None)
    for x in (m.classes.get(desc, {}).get('fields', []) if desc else []):
        if x['t'] == 'bool':
            compat = x['u']
    for q in ('::parse', '::fromXml'):
        for f in m.fn(RULE + q):
            c = Read(m, crit, verb, value, (tname, rows), compat)
            e = Engine(m, c)
            e.run(f)
            n += c.n
            vio += e.violations
    # the type of a compound
    for q in ('::parse', '::fromXml'):
        for f in m.fn(COMP + q):
            n += 1
            vio += compound_read(m, f, all_, cname, kinds)
    # (e) replacement
    for f in m.fn(CONF + '::setApplicationRule'):
        c = Set(m)
        e = Engine(m, c)
        e.run(f)
        n += c.n
        vio += e.violations
    # (f) parser
    codes = None
    for f in m.fn(PARS + '::parse'):
        for top in (0, 1):
            c = Parser(m, top)
            codes = c.code
            e = Engine(m, c)
            p = f.params[0]['u']
            e.run(f, lambda g, st, fr: parent(g, st, fr, p, top, c))
            n += c.n
            vio += e.violations
        status = c.status
    if not codes:
        raise AnalysisError('anchor vanished: rule parser')
    for f in m.fn(PARS + '::iterate'):
        for d0 in (0, 1, 5):
            c = Iter(m, status, codes['EDone'], d0)
            c.begin, c.end = codes['EBeginCompoundRule'], codes['EEndCompoundRule']
            e = Engine(m, c)
            e.run(f, lambda g, st, fr: st.heap.__setitem__(g.lfld(g.lder(fr.this), c.depth), g.const(d0)))
            n += c.n
            vio += e.violations
    # (g) values
    vio += values(m)
    return result(None, {'instances_checked': n, 'verbs': words, 'decision_table': len(SAMPLE) ** 2}, dedup(vio))


def parent(g, st, fr, p, top, c):
    P = g.NULL if top else g.T.mk('in', 'parent')
    st.env[('v', fr.id, p)] = P
    if not top:
        st.facts[P] = True


def compound_read(m, f, all_, cname, kinds):
    """success only with the type of the table entry equal to the given word"""
    out = []

    class C(Checker):
        SMALL = 40
        K = 40
        KEXIT = 40

        def init(self, eng, f):
            return None

        def on_call(self, eng, st, fr, i, n, tg, obj, args):
            fi = n.get('f') or {}
            if f.n == 'fromXml' and fi.get('n') == 'fromXml':
                q = st.copy()
                return [(st, eng.TRUE), (q, eng.FALSE)]
            return None
    e = Engine(m, C())

    def bypath(st):
        """table entries known to differ from / equal the word on this path"""
        eq, ne = set(), set()
        for k, pol in st.facts.items():
            if isinstance(k, int) and e.T.get(k)[0] == 'eq':
                for y in e.T.get(k)[1:3]:
                    t = castless(e, u(y))
                    x = e.T.get(t)
                    if x[0] == 'strlit' and x[1] in kinds:
                        (eq if pol else ne).add(kinds.index(x[1]))
                    j = entry(e, cname, t)
                    if j is not None:
                        j = castless(e, j)
                        (eq if pol else ne).add(e.cval(j) if e.isconst(j) else ('t', j))
        return eq, ne
    for st, rt in e.run(f):
        if rt is not None and e.truth(st, rt) is False:
            continue
        v = e.rd(st, e.lfld(e.lder(e.T.mk('this', 0)), all_))
        eq, ne = bypath(st)
        if not eq:
            bad(out, f, 'a compound rule is read with success without a recognised type')
            continue
        for j in eq:
            if isinstance(j, tuple):
                for val in (0, 1):
                    got = ev(e, v, {j[1]: val})
                    if got is not None and bool(got) != bool(val):
                        bad(out, f, 'the type stored is not the one of the entry recognised')
                    if got is None and e.T.get(castless(e, v))[0] in ('fld', 'init'):
                        bad(out, f, 'the type of the compound rule is not stored')
            else:
                t = e.truth(st, v)
                if t is None and e.T.get(v)[0] == 'eq':
                    t = None
                if t is not None and t != bool(j):
                    bad(out, f, 'the type stored is not the one of the entry recognised')
                if t is None and e.T.get(castless(e, v))[0] == 'fld':
                    bad(out, f, 'the type of the compound rule is not stored')
    return out


class Num(Checker):
    """resolution of the words of a value"""
    SMALL = 60

    def __init__(self, m, atom, inc, incf):
        self.m, self.atom, self.inc, self.incf = m, atom, inc, incf
        self.n = 0

    def init(self, eng, f):
        return frozenset()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & self.atom:
            self.n += 1
            q = st.copy()
            w = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
            t = eng.T.mk('num', fr.id, i)
            eng.wr(st, args[1], t, ('w', fr.id, i))
            st.auto = st.auto | {'ok', ('w', w)}
            q.auto = q.auto | {'bad'}
            return [(st, eng.TRUE), (q, eng.FALSE)]
        return None


def values(m):
    out = []
    inc = getter_field(m, CTYPE + '::isTypeInclusive')
    atom = ids(m, CTYPE + '::getAtomicNumericalValue')
    lit = ids(m, CTYPE + '::getLiteralValue')
    fmt = ids(m, CTYPE + '::getFormattedState')
    tomap = next((x['u'] for x in m.classes[CTYPE]['fields'] if 'map<' in x['t'].replace('std::map', 'map') or 'Map' in x['t']), None)
    for f in m.fn(CTYPE + '::getNumericalValue'):
        pv = [p['u'] for p in f.params if p['t'] == 'int &']
        ps = [p['u'] for p in f.params if p['t'] != 'int &']
        for k in (0, 1):
            c = Num(m, atom, inc, k)
            stores = []

            def on_store(eng, st, fr, nn, lv, val, stores=stores):
                stores.append((lv, val, eng.rd(st, lv) if val is not None else None))
            c.on_store = on_store
            e = Engine(m, c)

            def setup(eng, st, fr):
                st.heap[eng.lfld(eng.lder(fr.this), inc)] = eng.const(k)
                refparams(eng, st, fr)
            for st, rt in e.run(f, setup):
                t = e.truth(st, rt) if rt is not None else None
                if 'bad' in st.auto and t is not False:
                    bad(out, f, 'a value with an unknown word is resolved')
                if k == 0 and t is not False and 'ok' not in st.auto:
                    bad(out, f, 'a value is resolved without looking it up')
            if k == 1:
                # accumulation: the result starts from 0 and every step only adds bits
                lvs = {lv for lv, v, o in stores if v is not None and 'num(' in e.T.show(v)}
                for lv, v, o in stores:
                    if lv in lvs and v is not None:
                        x = e.T.get(castless(e, v))
                        if x[0] == 'num' or x[0] == 'bin' and x[1] != '|':
                            bad(out, f, 'the words of a value are not joined by union')
                if not lvs and m.fn(CTYPE + '::getNumericalValue') and \
                        not any(n.get('op') in ('|', '|=') for g in [f] + [x for x in m.funcs.values() if x.lam and x.q.startswith(f.q)]
                                for n in g.nodes):
                    bad(out, f, 'the words of a value are not joined by union')
        ok, why = each(m, f, atom, exits=True)
        if ok is False:
            bad(out, f, 'not every word of a value is resolved: ' + why)
    # the text of a rule value
    for q in ('::dump', '::toXml'):
        for f in m.fn(RULE + q):
            r_ = m.reachable([f.id])
            if lit & r_ and not fmt & r_ or not (lit | fmt) & r_:
                bad(out, f, 'a value made of several states is lost')
    return out
