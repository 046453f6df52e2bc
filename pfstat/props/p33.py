"""Mapping. (a) Mapping data: over every path, a key already there is refused and changes nothing, a new one is stored with its value; the text
of a mapping attribute is cut in elements, each added, one refused refusing the whole; a lookup answers true exactly when the key is there, with
the value stored. A component asks its own mapping first, then its type's, then the type extended. (b) A mapping context: an item already
set is refused and left alone, a new one takes the key and the value in the place asked; it is set exactly when it has a value; the look-up by key
gives the value of the item of that key. (c) An element adds to the context every key of the subsystem it has a value for, in its
place, and is refused when one is already set (per-iteration obligations, loop coverage). (d) A subsystem object is created only for an
element bearing the key of the creator, with the value for that key, when every ancestor key of the creator's mask is set (decided over
the bits) and the size of the element is at most the creator's, one per element; it is kept, and reported as created; otherwise the creation is
refused exactly when one of these fails. (e) Mapping an element starts from the context on top of the stack, adds its own, stacks it once,
creates the object, requires it for parameters and bit blocks, and dives when none was created; the end takes the context off, once, after a beginning that
succeeded; every child is mapped when diving (path enumeration, loop coverage). (f) A subsystem is loaded only when all its children were
mapped. (g) An amendment is replaced by the value set in the context for its number, and only when one is set."""
from .common import *
from ..evalterm import ev, feasible
from ..loops import each, loops, strip, varref, bypasses
from .p14 import u, ids, bad, castless, fieldof
from .p26 import Evts
from .p35 import S, of, yes, named
from ..textval import handlers

TECHNIQUE = 'path enumeration with events; per-iteration obligations; finite tables over masks, sizes and element types; loop coverage'
NOTE = 'what the creators and objects of a plugin do with the context is outside the repository'
SUB, ICE, CTX, DATA, CRE, FMT = ('CSubsystem', 'CInstanceConfigurableElement', 'CMappingContext', 'CMappingData', 'CSubsystemObjectCreator',
                                'CFormattedSubsystemObject')


class Num:
    """kind 'num': a number of its own per object"""


class Mp(S):
    """events, maps, out parameters"""
    OUTS = {}       # label -> (index of the argument, 'bool' | 'ptr')
    WIPE = ()
    MAPS = ()       # fields that are maps

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        k = next((self.by[t] for t in sorted(tg) if t in self.by), None)
        if k is not None and k[1] == 'num':
            self.n += 1
            t = eng.T.mk('got', k[0], r(eng.addr(obj) if obj is not None and eng.islv(obj) else obj) if obj is not None else 0,
                         *[r(self.val(eng, st, a)) for a in args])
            self.add(st, (k[0], obj, tuple(self.val(eng, st, a) for a in args), tuple(args), t))
            return [(st, t)]
        h = S.on_call(self, eng, st, fr, i, n, tg, obj, args)
        if k is not None and k[0] in self.OUTS and isinstance(h, list):
            at, ty = self.OUTS[k[0]]
            out = []
            for q, ret in h:
                lv = args[at]
                res = q.auto[-1][4]
                if not res:
                    out.append((q, ret))
                elif ty == 'bool':
                    for w in (1, 0):
                        q2 = q.copy()
                        eng.wr(q2, lv, eng.TRUE if w else eng.FALSE, ('w', fr.id, 0, i, w))
                        q2.auto = q2.auto + (('out', k[0], w),)
                        out.append((q2, ret))
                else:
                    t = eng.T.mk('outv', k[0], *[r(self.val(eng, q, a)) for j, a in enumerate(args) if j != at])
                    q.facts = dict(q.facts)
                    q.facts[t] = True
                    eng.wr(q, lv, t, ('w', fr.id, 0, i))
                    out.append((q, ret))
            return out
        return h

    def mapof(self, eng, st, t):
        if t is None:
            return None
        x = eng.T.get(t)
        if x[0] == 'addr':
            x = eng.T.get(x[1].i)
        return x[2] if x[0] in ('Lfld', 'fld') and x[2] in self.MAPS else None

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        mp = self.mapof(eng, st, obj)
        nm = fi.get('n')
        T = eng.T
        if mp and not fi.get('repo'):
            end = T.mk('mend', mp)
            if nm in ('end', 'cend'):
                return [(st, end)]
            key = self.val(eng, st, args[0]) if args else None
            if nm in ('find', 'count', 'contains', 'insert', 'emplace', 'lower_bound') and args:
                ks = tuple(T.show(self.val(eng, st, a)) + T.show(a) for a in args)
                known = [x for x in st.auto if x[0] == 'has' and x[1] == mp]
                out = []
                for w in (1, 0):
                    if known and known[-1][3] != w:
                        continue
                    q = st.copy()
                    if not known:
                        q.auto = q.auto + (('has', mp, ks, w),)
                    it = T.mk('mit', mp, key)
                    if nm in ('insert', 'emplace'):
                        if not w:
                            q.auto = q.auto + (('put', mp, tuple(args), tuple(self.val(eng, q, a) for a in args)),)
                        t = T.mk('mins', w)
                        q.temps[(fr.id, i)] = t
                        out.append((q, t))
                    elif nm == 'find':
                        if w:
                            q.facts = dict(q.facts)
                            q.facts[eng.cmp('==', it, end)] = False
                        out.append((q, it if w else end))
                    else:
                        out.append((q, eng.const(w)))
                return out
            if nm == 'operator[]' and args:
                t = eng.lder(T.mk('mslot', mp, r(key)))
                self.slots[t] = (args[0], key)
                return [(st, t)]
        return S.other(self, eng, st, fr, i, n, tg, obj, args)

    def on_store(self, eng, st, fr, n, lv, val):
        x = eng.T.get(lv)
        if x[0] == 'Lder' and eng.T.get(x[1].i)[0] == 'mslot':
            sl = self.slots[lv]
            st.auto = st.auto + (('put', eng.T.get(x[1].i)[1], (sl[0], None), (sl[1], val)),)
            return
        S.on_store(self, eng, st, fr, n, lv, val)

    def __init__(self, m, spec, inline=()):
        S.__init__(self, m, spec, inline)
        self.slots = {}


def fields(m, cls, pred):
    return [x['u'] for x in m.classes[cls]['fields'] if pred(x['t'])]


def only(m, cls, pred, what):
    x = fields(m, cls, pred)
    if len(x) != 1:
        raise AnalysisError('anchor vanished: ' + what)
    return x[0]


def run(m, f, spec, inl=(), cls=Mp, **kw):
    # helpers of the class that lead to an event are part of the operation
    ev_ = set().union(*[x[0] for x in spec.values()]) if spec else set()
    inl = set(inl) | {i for i in m.reaching(ev_) if m.funcs.get(i) and m.funcs[i].cls == f.cls and i != f.id} if ev_ else inl
    c = cls(m, spec, inl)
    for k, v in kw.items():
        setattr(c, k, v)
    e = Engine(m, c)

    def setup(eng, st, fr):
        refparams(eng, st, fr)
        for p in f.params:
            if not p['t'].endswith('&'):
                st.env[('v', fr.id, p['u'])] = eng.T.mk('init', -1, p['u'])
    return c, e, e.run(f, setup)


def par(e, f, k):
    return e.T.mk('Lvar' if f.params[k]['t'].endswith('&') else 'init', -1, f.params[k]['u'])


def given(e, t, f, k):
    """the term is made of the parameter, or of its value"""
    return t is not None and any(mentions(e, t, e.T.mk(z, -1, f.params[k]['u'])) for z in ('Lvar', 'init'))


def mentions(e, t, sub, d=0):
    if t == sub:
        return True
    if d > 12 or t is None:
        return False
    def go(y):
        if hasattr(y, 'i'):
            return mentions(e, y.i, sub, d + 1)
        return isinstance(y, tuple) and any(go(z) for z in y)
    return any(go(y) for y in e.T.get(t)[1:])


# ---- (a)
def data(m, vio):
    n = 0
    mp = only(m, DATA, lambda t: 'map<' in t, 'map of the mapping data')
    for f in m.fn(DATA + '::addValue'):
        c, e, outs = run(m, f, {}, MAPS=(mp,))
        for st, rt in outs:
            n += 1
            h, p = of(st, 'has'), of(st, 'put')
            t = yes(e, st, rt)
            if rt is not None and e.T.get(rt)[0] in ('fld', 'Lfld', 'drf') and t is None and h:
                t = not h[-1][3]        # what insert() says
            if not h:
                bad(vio, f, 'a mapping key is added without looking whether it is there')
            elif t is not (not h[-1][3]):
                bad(vio, f, 'a mapping key given twice is accepted, or a new one refused')
            elif bool(p) != (not h[-1][3]):
                bad(vio, f, 'a mapping key refused changes the value, or one accepted is not stored')
            elif p:
                a = p[-1]
                if len(a[2]) == 2 and a[2][1] is None:
                    ok = given(e, a[3][0], f, 0) and given(e, a[3][1], f, 1) and not given(e, a[3][0], f, 1)
                else:
                    sh = ' '.join(e.T.show(x) for x in a[3] if x is not None)
                    ok = 0 <= sh.find(f.params[0]['u']) < sh.find(f.params[1]['u'])
                if not ok:
                    bad(vio, f, 'what is stored is not the key and value given')
    for f in m.fn(DATA + '::getValue'):
        c, e, outs = run(m, f, {}, MAPS=(mp,))
        for st, rt in outs:
            n += 1
            h = of(st, 'has')
            t = yes(e, st, rt)
            s = [x for x in of(st, 'set') if x[1] == par(e, f, 1)]
            if not h or t is not bool(h[-1][3]):
                bad(vio, f, 'a mapping key is not found exactly when it is there')
            elif t:
                v = s[-1][2] if s else None
                if v is None or 'mit' not in e.T.show(v) and 'mslot' not in e.T.show(v) or 'second' not in e.T.show(v) and 'mslot' not in e.T.show(v):
                    bad(vio, f, 'the value found is not the one stored for the key')
    # the text
    add = ids(m, DATA + '::addValue')
    for f in m.fn(DATA + '::init'):
        all_ = each(m, f, add, exits=True)
        n += 1
        if all_[0] is False:
            bad(vio, f, 'not every element of a mapping is added: ' + all_[1])
        c, e, outs = run(m, f, {'add': (add, 'bool')})
        for st, rt in outs:
            n += 1
            failed = any(not x[4] for x in of(st, 'add'))
            if yes(e, st, rt) is not (not failed):
                bad(vio, f, 'a mapping with a key given twice is accepted, or another refused')
    # who asks for it
    ini = ids(m, DATA + '::init')
    k = 0
    for f in sorted({g.id for g in m.funcs.values() if any(m.targets(g, x) & ini for x in g.nodes if x['k'] == 'Call')}):
        f = m.funcs[f]
        if f.rt != 'bool':
            continue
        k += 1
        c, e, outs = run(m, f, {'init': (ini, 'bool')}, cls=Attr)
        for st, rt in outs:
            n += 1
            x = of(st, 'init')
            if any(not y[4] for y in x) and yes(e, st, rt) is not False:
                bad(vio, f, 'an element with a mapping that is refused is accepted')
            em = of(st, 'empty')
            if not x and em and not em[-1][1] and of(st, 'attr') and of(st, 'attr')[-1][4] and yes(e, st, rt) is not False:
                bad(vio, f, 'a mapping given is not read')
        if not any(of(st, 'init') for st, rt in outs):
            bad(vio, f, 'a mapping given is not read')
    if not k:
        raise AnalysisError('anchor vanished: reading of the mapping')
    # own, type, extended type
    for q in ('getMappingData', 'hasMappingData'):
        for cls in ('CComponentInstance', 'CComponentType'):
            for f in m.fn(cls + '::' + q):
                own = {g.id for g in m.funcs.values() if g.n == q and g.cls in ('CTypeElement',)}
                typ = {g.id for g in m.funcs.values() if g.n == q and g.cls == 'CComponentType'}
                fld = only(m, cls, lambda t: 'CComponentType' in t, 'type of a component')
                c, e, outs = run(m, f, {'own': (own, 'bool'), 'type': (typ, 'bool')})
                for st, rt in outs:
                    n += 1
                    seq = [(x[0], x[4]) for x in st.auto if x[0] in ('own', 'type')]
                    t = yes(e, st, rt)
                    if t is None and rt is not None:
                        t = bool(ev(e, rt, {})) if ev(e, rt, {}) is not None else None
                    none = any(pol is False and fld in e.T.show(k) or pol is True and e.T.get(k)[0] == 'eq' and fld in e.T.show(k) and 'null' in e.T.show(k).lower()
                               for k, pol in st.facts.items() if isinstance(k, int))
                    if not seq or seq[0][0] != 'own':
                        bad(vio, f, 'the mapping of the element itself is not asked first')
                    elif len(seq) == 1 and not seq[0][1] and not none:
                        bad(vio, f, 'the mapping of the type is not asked when the element has none')
                    elif t is not any(y for x, y in seq):
                        bad(vio, f, 'the mapping found is not reported')
    for f in m.fn(ICE + '::getMappingData') + m.fn(ICE + '::getFormattedMapping'):
        n += 1
    return n


class Attr(Mp):
    """an attribute that is read, and whether it is empty"""
    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if any(self.m.funcs[t].n == 'getAttribute' for t in tg if t in self.m.funcs) and len(args) >= 2 and 'Mapping' in eng.T.show(self.val(eng, st, args[0])):
            out = []
            for w in (1, 0):
                q = st.copy()
                q.auto = tuple(x for x in q.auto if x[0] != 'empty') + (('attr', args[1], (), (), w),)
                if not w:       # left as it was: empty
                    q.auto = q.auto + (('empty', 1),)
                out.append((q, eng.TRUE if w else eng.FALSE))
            return out
        at = of(st, 'attr')
        if at and obj == at[-1][1] and fi.get('n') in ('empty', 'size', 'length') and not fi.get('repo'):
            em = of(st, 'empty')
            out = []
            for w in (1, 0):
                if em and em[-1][1] != w:
                    continue
                q = st.copy()
                if not em:
                    q.auto = q.auto + (('empty', w),)
                out.append((q, (eng.TRUE if w else eng.FALSE) if fi['n'] == 'empty' else eng.const(0 if w else 5)))
            return out
        return Mp.other(self, eng, st, fr, i, n, tg, obj, args)


# ---- (b)
def context(m, vio):
    n = 0
    kf = [x for c in m.classes if c.startswith(CTX + '::') for x in m.classes[c]['fields'] if '*' in x['t']]
    if len(kf) != 2:
        raise AnalysisError('anchor vanished: item of a mapping context')
    iset = ids(m, CTX + '::iSet')
    # which of the two is the value: what getItem(index) gives
    val = None
    for f in m.fn(CTX + '::getItem'):
        if f.params[0]['t'].endswith('&'):
            continue
        c, e, outs = run(m, f, {}, iset)
        for st, rt in outs:
            w = [x['u'] for x in kf if x['u'] in e.T.show(rt)]
            val = w[0] if len(w) == 1 else None
    keyf = [x['u'] for x in kf if x['u'] != val]
    if val is None or len(keyf) != 1:
        raise AnalysisError('anchor vanished: value of a context item')
    keyf = keyf[0]

    def leaves(e, st, fu):
        return [k for k in st.facts if isinstance(k, int) and fu in e.T.show(k)]

    def isset(e, st):
        """whether the path knows the item to have a value"""
        for k in leaves(e, st, val):
            x = e.T.get(k)
            if x[0] == 'eq':
                return not st.facts[k]
            if x[0] in ('fld', 'Lfld', 'drf', 'init', 'unk'):
                return st.facts[k]
        return None
    for f in m.fn(CTX + '::setItem'):
        c, e, outs = run(m, f, {}, iset, cls=Items, fields=(val, keyf))
        for st, rt in outs:
            n += 1
            s, t = isset(e, st), yes(e, st, rt)
            sets = of(st, 'item')
            if s is None or t is not (not s):
                bad(vio, f, 'an item of the context is not refused exactly when it is already set')
            elif s and sets:
                bad(vio, f, 'an item of the context refused is changed')
            elif not s:
                got = {x[1]: x for x in sets}
                if set(got) != {val, keyf} or got[val][3] != par(e, f, 2) or got[keyf][3] != par(e, f, 1):
                    bad(vio, f, 'an item of the context does not take the key and the value given')
                elif not all(mentions(e, x[2], par(e, f, 0)) for x in sets):
                    bad(vio, f, 'an item of the context is stored in another place')
    for f in m.fn(CTX + '::iSet'):
        c, e, outs = run(m, f, {})
        for st, rt in outs:
            n += 1
            sh = e.T.show(rt)
            ok = val in sh and mentions(e, rt, par(e, f, 0))
            t = castless(e, rt)
            x = e.T.get(t)
            neg = x[0] == 'not'
            if neg:
                t = x[1].i
                x = e.T.get(t)
            if x[0] == 'eq':
                ok = ok and neg
            elif x[0] in ('fld', 'Lfld', 'drf', 'init', 'unk'):
                ok = ok and not neg
            elif e.isconst(rt):
                s = isset(e, st)
                ok = s is not None and bool(e.cval(rt)) == s
            if not ok:
                bad(vio, f, 'an item of the context is not said to be set exactly when it has a value')
    for f in m.fn(CTX + '::getItem'):
        if not f.params[0]['t'].endswith('&'):
            continue
        n += 1
        # what is returned, by key
        mem = [i for i, x in enumerate(f.nodes) if x['k'] == 'Member' and x.get('d', {}).get('u') in (val, keyf)]
        rets = [x for x in f.nodes if x['k'] == 'Return' and x.get('c')]
        seen = set()
        for x in rets:
            todo = [x['c'][0]]
            while todo:
                j = todo.pop()
                y = f.nodes[j]
                if y['k'] == 'Member' and y.get('d', {}).get('u') in (val, keyf):
                    seen.add(y['d']['u'])
                elif y['k'] == 'Cond':
                    todo += y['c'][1:]
                else:
                    todo += [z for z in y.get('c', ())]
        # through a variable
        if not seen:
            for x in f.nodes:
                if x['k'] == 'Decl':
                    for v in x['vars']:
                        if isinstance(v.get('init'), int) and v['init'] >= 0:
                            y = f.nodes[strip(f, v['init'])]
                            if y['k'] == 'Member' and y.get('d', {}).get('u') in (val, keyf):
                                seen.add(y['d']['u'])
        if seen != {val}:
            bad(vio, f, 'the item looked up by key is not given by its value')
    for f in m.fn(CTX + '::getItemAsInteger'):
        n += 1
    return n


class Items(Mp):
    def on_store(self, eng, st, fr, n, lv, v):
        x = eng.T.get(lv)
        if x[0] == 'Lfld' and x[2] in self.fields:
            st.auto = st.auto + (('item', x[2], lv, v),)
            # what was known of the item is of before
            return
        Mp.on_store(self, eng, st, fr, n, lv, v)


# ---- (c)
class Ctx(Mp):
    OUTS = {'data': (1, 'ptr')}

    def on_loop(self, eng, st, fr, hd, vs, fl):
        st.auto = ()

    def on_back(self, eng, st, fr, hd):
        self.n += 1
        d, s = of(st, 'data'), of(st, 'set')
        s = [x for x in st.auto if x[0] == 'item']
        if not d:
            bad(self.vio, self.f, 'a key of the subsystem is not looked for in the element')
        elif d[-1][4] and not (s and s[-1][4]):
            bad(self.vio, self.f, 'a value the element has is not set in the context, or a refusal is passed over')

    def lockstep(self, eng, t, f):
        """a counter from 0 that advances by one in every iteration of a loop over the whole list"""
        x = eng.T.get(t)
        if x[0] == 'cast':
            return self.lockstep(eng, x[2].i, f)
        if x[0] != 'phi':
            return False
        v = x[3]
        zero = any(n['k'] == 'Decl' and any(d['u'] == v and isinstance(d.get('init'), int) and d['init'] >= 0 and f.nodes[strip(f, d['init'])].get('cv', f.nodes[strip(f, d['init'])].get('v')) in (0, '0')
                                            for d in n['vars']) for n in f.nodes)
        inc = [i for i, n in enumerate(f.nodes) if n['k'] == 'Un' and '++' in (n.get('op') or '') and varref(f, n['c'][0]) == v]
        wr = [i for i, n in enumerate(f.nodes) if n['k'] == 'Bin' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and varref(f, n['c'][0]) == v]
        ls = [L for L in loops(f) if inc and L.blockof(inc[0]) is not None]
        return zero and len(inc) == 1 and not wr and len(ls) == 1 and ls[0].kind == 'full' and ls[0].every_iteration(inc[0])

    def post(self, eng, st, fr, i, lab, o, av, al, res):
        if lab != 'item':
            return
        d = of(st, 'data')
        if not d or not d[-1][4]:
            bad(self.vio, self.f, 'a value is set in the context that the element does not have')
            return
        key = d[-1][3][0]
        v = av[2]
        x = eng.T.get(v)
        if x[0] != 'outv':
            bad(self.vio, self.f, 'another value is set in the context than that of the element')
        kk = av[1]
        y = eng.T.get(kk)
        if not (kk == eng.addr(key) or y[0] == 'addr' and y[1].i == key) or not (mentions(eng, key, av[0]) or self.lockstep(eng, av[0], fr.f)):
            bad(self.vio, self.f, 'a value is set in the context for another key than its own')
        if o is not None and o != self.ctx and eng.addr(self.ctx) != o:
            bad(self.vio, self.f, 'a value is set in another context')


def feeding(m, vio):
    n = 0
    gets = named(m, 'getMappingData', cls='CConfigurableElement')
    sp = {'data': (gets, 'bool'), 'item': (ids(m, CTX + '::setItem'), 'bool')}
    for f in m.fn(SUB + '::handleMappingContext'):
        v, why = each(m, f, gets, exits=True)
        if v is False:
            bad(vio, f, 'not every key of the subsystem is looked for: ' + why)
        c = Ctx(m, sp)
        c.f, c.vio = f, vio
        e = Engine(m, c)
        c.ctx = e.T.mk('Lvar', -1, f.params[1]['u'])
        outs = e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
        for st, rt in outs:
            n += 1
            refused = any(x[0] == 'item' and not x[4] for x in st.auto)
            if yes(e, st, rt) is True and of(st, 'data'):
                bad(vio, f, 'not every key of the subsystem is looked for: the search ends early')
            if yes(e, st, rt) is not (not refused):
                bad(vio, f, 'an element setting a key already set is accepted, or another refused')
        if not any(yes(e, st, rt) is False for st, rt in outs) or not c.n:
            bad(vio, f, 'an element setting a key already set is accepted')
        n += c.n
    return n


# ---- (d)
class Make(Mp):
    OUTS = {'data': (1, 'ptr')}

    def holds(self, f, hd, what):
        """the body of the loop calls one of them"""
        return any(isinstance(e, int) and f.nodes[e]['k'] == 'Call' and self.m.targets(f, f.nodes[e]) & what
                   for b in f.loops.get(hd, ()) for e in f.blocks[b]['e'])

    def ancestors(self, f, hd):
        return self.holds(f, hd, self.isets) and not self.holds(f, hd, self.creator)

    def on_loop(self, eng, st, fr, hd, vs, fl):
        if self.ancestors(fr.f, hd):
            st.auto = tuple(x for x in st.auto if x[0] not in ('iset', 'anc')) + (('anc',),)
        elif self.holds(fr.f, hd, self.creator):
            st.auto = tuple(x for x in st.auto if x[0] in ('make', 'keep'))

    def bits(self, eng, st):
        """(index term, mask term) of the bit test of the path"""
        mk = of(st, 'mask')
        if not mk:
            return None
        mask = mk[-1][4]
        out = set()
        for k in st.facts:
            if isinstance(k, int) and mentions(eng, k, mask):
                todo = [k]
                while todo:
                    t = todo.pop()
                    x = eng.T.get(t)
                    if t == mask or x[0] in ('int',):
                        continue
                    if x[0] in ('bin', 'not', 'eq', 'cast', 'un', 'lt', 'le'):
                        todo += [y.i for y in x[1:] if hasattr(y, 'i')]
                    else:
                        out.add(t)
        return mask, out

    def req(self, eng, st, idx=None):
        """whether the ancestor key at hand can be (required, not required) on the path"""
        b = self.bits(eng, st)
        if b is None:
            return (True, True)
        mask, ix = b
        if idx is not None:
            ix = {idx}
        if len(ix) != 1:
            return (True, True)
        ix = next(iter(ix))
        res = [False, False]
        for k in (0, 1, 5, 17, 31):
            for v in (0, 1 << k, 0xFFFFFFFF, 0xFFFFFFFF ^ (1 << k), 2 << k & 0xFFFFFFFF, 0x80000000):
                if feasible(eng, st, {ix: k, mask: v}):
                    res[0 if v >> k & 1 else 1] = True
        return tuple(res)

    def on_back(self, eng, st, fr, hd):
        if self.ancestors(fr.f, hd):
            self.n += 1
            s = of(st, 'iset')
            if s:
                ix = self.bits(eng, st)
                ix = ix[1] if ix else set()
                if eng.isconst(s[-1][2][0]) or len(ix) == 1 and castless(eng, s[-1][2][0]) not in {castless(eng, x) for x in ix}:
                    bad(self.vio, self.f, 'another ancestor is looked at than the one required')
            if s and s[-1][4]:
                return
            if self.req(eng, st)[0]:
                bad(self.vio, self.f, 'a required ancestor that is not set, or not looked at, does not prevent the creation')
        elif of(st, 'make') and self.holds(fr.f, hd, self.creator):
            bad(self.vio, self.f, 'more than one object is created for an element')

    def pre(self, eng, st, fr, i, lab, o, av, al):
        if lab != 'make':
            return
        self.n += 1
        self.made = True
        f = self.f
        d = of(st, 'data')
        if not d or not d[-1][4]:
            bad(self.vio, f, 'an object is created for an element that does not bear the key of the creator')
            return
        if of(st, 'make'):
            bad(self.vio, f, 'more than one object is created for an element')
        key = d[-1]
        if 'ckey' not in eng.T.show(self.deep(eng, st, key)) or not self.samecreator(eng, st, o):
            bad(self.vio, f, 'the key looked for is not that of the creator')
        if ('anc',) not in st.auto:
            bad(self.vio, f, 'an object is created without its ancestors having been looked at')
        if any(not x[4] for x in of(st, 'iset')) and self.req(eng, st)[0]:
            bad(self.vio, f, 'an object is created though an ancestor required is not set')
        fp, mx = of(st, 'foot'), of(st, 'max')
        if not fp or not mx:
            bad(self.vio, f, 'an object is created without its size having been checked')
        else:
            for a, b in ((9, 8), (1, 0), (1 << 20, 4)):
                if feasible(eng, st, {fp[-1][4]: a, mx[-1][4]: b}):
                    bad(self.vio, f, 'an object is created for an element larger than the creator allows')
                    break
        v = eng.T.show(av[0]) + eng.T.show(al[0])
        if 'outv' not in v:
            bad(self.vio, f, 'the object is not created with the value of the mapping key')
        if av[1] != self.elem:
            bad(self.vio, f, 'the object is created for another element')
        if al[2] != self.ctx:
            bad(self.vio, f, 'the object is created in another context')

    def deep(self, eng, st, key):
        t = key[2][0]
        x = eng.T.get(t)
        return t

    def samecreator(self, eng, st, o):
        ks = of(st, 'ckey')
        a = lambda z: eng.addr(z) if z is not None and eng.islv(z) else z
        return bool(ks) and a(ks[-1][1]) == a(o)

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if not fi.get('repo') and fi.get('n') in ('push_back', 'emplace_back', 'insert', 'emplace') and obj is not None:
            x = eng.T.get(obj)
            if x[0] == 'Lfld' and x[2] == self.list and any('make' in eng.T.show(self.val(eng, st, a)) for a in args):
                st.auto = st.auto + (('keep',),)
        return Mp.other(self, eng, st, fr, i, n, tg, obj, args)


def creation(m, vio):
    n = 0
    isets = ids(m, CTX + '::iSet')
    mk = named(m, 'objectCreate', cls=CRE)
    gets = named(m, 'getMappingData', cls='CConfigurableElement')
    sp = {'data': (gets, 'bool'), 'iset': (isets, 'bool'), 'make': (mk, 'obj'), 'mask': (ids(m, CRE + '::getAncestorMask'), 'num'),
          'max': (ids(m, CRE + '::getMaxConfigurableElementSize'), 'num'), 'foot': (named(m, 'getFootPrint'), 'num'),
          'ckey': (ids(m, CRE + '::getMappingKey'), 'ref')}
    lst = only(m, SUB, lambda t: 'CSubsystemObject *' in t and 'list<' in t or 'vector<CSubsystemObject *' in t, 'objects of a subsystem')
    inl = {g.id for g in m.funcs.values() if g.cls == SUB and (g.id in m.reaching(isets | mk))}
    for f in m.fn(SUB + '::handleSubsystemObjectCreation'):
        c = Make(m, sp, inl - {f.id})
        c.f, c.vio, c.isets, c.creator, c.list, c.made = f, vio, isets, mk | sp['ckey'][0], lst, False
        e = Engine(m, c)
        c.elem = e.T.mk('init', -1, f.params[0]['u'])
        c.ctx = e.T.mk('Lvar', -1, f.params[1]['u'])

        def setup(eng, st, fr):
            refparams(eng, st, fr)
            st.env[('v', fr.id, f.params[0]['u'])] = c.elem
        outs = e.run(f, setup)
        flag = e.T.mk('Lvar', -1, f.params[2]['u'])
        why = set()
        for st, rt in outs:
            n += 1
            t = yes(e, st, rt)
            mkd = bool(of(st, 'make'))
            fl = e.truth(st, e.rd(st, flag))
            if mkd and t is not True:
                bad(vio, f, 'an object created is reported as a failure')
            if mkd and not of(st, 'keep'):
                bad(vio, f, 'an object created is not kept')
            if t is True and fl is not mkd:
                bad(vio, f, 'the creation of an object is not reported as it went')
            if t is None:
                bad(vio, f, 'the outcome of the creation is not known')
            if t is False:
                s = of(st, 'iset')
                fp, mx = of(st, 'foot'), of(st, 'max')
                big = fp and mx and not any(feasible(e, st, {fp[-1][4]: a, mx[-1][4]: b}) for a, b in ((8, 8), (0, 0), (3, 7)))
                anc = s and not s[-1][4] and not c.req(e, st)[1]
                d = of(st, 'data')
                if not d or not d[-1][4] or not (big or anc):
                    bad(vio, f, 'an object is refused though the ancestors are set and the size is within bounds')
                why.add('big' if big else 'anc')
        if why != {'big', 'anc'} and not vio:
            bad(vio, f, 'an object is never refused for %s' % ('its ancestors' if 'anc' not in why else 'its size'))
        if not c.made:
            bad(vio, f, 'no object is ever created')
        n += c.n
        v, why_ = each(m, f, ids(m, CRE + '::getMappingKey'), exits=True)
        if v is False:
            bad(vio, f, 'not every creator is considered: ' + why_)
        for g in [m.funcs[x] for x in inl]:
            for L in loops(g):
                if any(L.blockof(i) is not None and m.targets(g, x) & isets for i, x in enumerate(g.nodes) if x['k'] == 'Call'):
                    n += 1
                    if L.kind == 'partial':
                        bad(vio, g, 'not every ancestor is looked at: the loop ' + L.why)
    return n


# ---- (e)
class Stack(Mp):
    OUTS = {'make': (2, 'bool'), 'begin': (1, 'bool')}

    def on_loop(self, eng, st, fr, hd, vs, fl):
        body = fr.f.loops.get(hd, ())
        if any(isinstance(e, int) and fr.f.nodes[e]['k'] == 'Call' and self.m.targets(fr.f, fr.f.nodes[e]) & self.child
               for b in body for e in fr.f.blocks[b]['e']):
            st.auto = tuple(x for x in st.auto if x[0] not in ('child', 'kids')) + (('kids',),)

    def on_back(self, eng, st, fr, hd):
        if ('kids',) in st.auto and any(not x[4] for x in of(st, 'child')):
            bad(self.vio, self.on, 'a child that could not be mapped does not end the mapping')

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if obj is not None and eng.islv(obj) and eng.T.get(obj)[0] == 'Lfld' and eng.T.get(obj)[2] == self.stack and not fi.get('repo'):
            if fi['n'] == 'top':
                t = eng.lder(eng.T.mk('top', len(of(st, 'push'))))
                return [(st, t)]
            st.auto = st.auto + ((fi['n'] if fi['n'] != 'emplace' else 'push',) + tuple(args),)
            return [(st, None)]
        return Mp.other(self, eng, st, fr, i, n, tg, obj, args)

    child, stack = frozenset(), None


def mapping(m, vio):
    n = 0
    stack = only(m, SUB, lambda t: 'stack<' in t or 'vector<CMappingContext' in t, 'stack of contexts')
    sp = {'ctx': (ids(m, SUB + '::handleMappingContext'), 'bool'), 'make': (ids(m, SUB + '::handleSubsystemObjectCreation'), 'bool'),
          'type': (named(m, 'getType', cls=ICE), 'num')}
    en = m.enums.get(ICE + '::Type')
    if not en:
        raise AnalysisError('anchor vanished: types of elements')
    T = {v['n'].split('::')[-1]: v['v'] for v in en['vals']}
    OPT, REQ = {'EComponent', 'EParameterBlock'}, {'EBitParameterBlock', 'EParameter', 'EStringParameter'}
    if not OPT | REQ <= set(T):
        raise AnalysisError('anchor vanished: types of elements')
    for f in m.fn(SUB + '::mapBegin'):
        c, e, outs = run(m, f, sp, cls=Stack, stack=stack)
        seen = set()
        for st, rt in outs:
            n += 1
            ty = of(st, 'type')
            t = yes(e, st, rt)
            cx, mkd, push = of(st, 'ctx'), of(st, 'make'), of(st, 'push')
            seq = [x[0] for x in st.auto if x[0] in ('ctx', 'push', 'make', 'pop')]
            if len(cx) != 1 or seq[0] != 'ctx':
                bad(vio, f, 'the mapping of the element is not added to its context, first and once')
                continue
            if not cx[0][4]:
                if t is not False or mkd or push:
                    bad(vio, f, 'an element whose mapping conflicts with its ancestors\' is mapped')
                continue
            here = {k for k, v in T.items() if not ty or feasible(e, st, {ty[-1][4]: v})}
            if t is not False and not here <= OPT | REQ:
                bad(vio, f, 'an element of a type that cannot be mapped is accepted')
            if any(not x[4] for x in mkd):
                if t is not False:
                    bad(vio, f, 'an element whose object was refused is accepted')
                continue
            made = any(x[0] == 'out' and x[1] == 'make' and x[2] for x in st.auto)
            for k in here & (OPT | REQ):
                want = made or k in OPT
                if len(mkd) != 1:
                    bad(vio, f, 'no object is asked for, or more than one, for an element of type ' + k)
                elif t is not want:
                    bad(vio, f, 'an element of type %s is %s' % (k, 'refused though its object is optional or created' if want else 'accepted without an object'))
                elif t:
                    seen.add((k, made))
                    kd = e.truth(st, e.rd(st, par(e, f, 1)))
                    if kd is not (not made):
                        bad(vio, f, 'the mapping does not go on below an element exactly when it has no object')
            if mkd and t:
                lv = cx[0][3][1]
                if seq.count('push') != 1 or 'pop' in seq:
                    bad(vio, f, 'the context of the element is not stacked once')
                elif not any(a == lv or e.rd(st, a) == e.rd(st, lv) for a in push[0][1:]):
                    bad(vio, f, 'the context stacked is not that of the element')
                same = mkd[0][3][1] == lv or 'top' in e.T.show(mkd[0][3][1])
                if not same:
                    bad(vio, f, 'the object is created in another context than that of the element')
                if cx[0][2][0] != par(e, f, 0) or mkd[0][2][0] != par(e, f, 0):
                    bad(vio, f, 'the context or the object is made for another element')
        for k in OPT | REQ:
            for w in ((True, False) if k in OPT else (True,)):
                if (k, w) not in seen and not vio:
                    bad(vio, f, 'an element of type %s is never mapped' % k)
        # the context starts as that of the parent
        n += 1
        tops = [i for i, x in enumerate(f.nodes) if x['k'] == 'Call' and (x.get('f') or {}).get('n') == 'top']
        if not tops:
            bad(vio, f, 'the context of the element does not start from that of its parent')
    for f in m.fn(SUB + '::mapEnd'):
        c, e, outs = run(m, f, {}, cls=Stack, stack=stack)
        for st, rt in outs:
            n += 1
            if [x[0] for x in st.auto if x[0] in ('push', 'pop')] != ['pop']:
                bad(vio, f, 'the end of the mapping of an element does not take its context off, once')
    # the walk
    beg = {g.id for g in m.funcs.values() if g.n == 'mapBegin'}
    end = {g.id for g in m.funcs.values() if g.n == 'mapEnd'}
    mp = ids(m, ICE + '::map')
    sp = {'has': (named(m, 'hasMappingData'), 'bool'), 'begin': (beg, 'bool'), 'end': (end, 'void'), 'child': (mp, 'bool')}

    for f in m.fn(ICE + '::map'):
        c, e, outs = run(m, f, sp, cls=Walk, child=mp, on=f, vio=vio)
        fin = 0
        for st, rt in outs:
            n += 1
            has, b, en_, t = of(st, 'has'), of(st, 'begin'), of(st, 'end'), yes(e, st, rt)
            if len(b) > 1 or not has or len({x[4] for x in has}) != 1 or (bool(b) != bool(has[0][4])):
                bad(vio, f, 'the mapping of an element is not begun exactly when it has one')
                continue
            failed = any(not x[4] for x in b + of(st, 'child'))
            if t is not (not failed):
                bad(vio, f, 'the mapping of an element is not reported as that of it and its children went')
            if failed:
                continue
            fin += 1
            keep = not any(x[0] == 'out' and x[1] == 'begin' and not x[2] for x in st.auto)
            if (('kids',) in st.auto) is not keep:
                bad(vio, f, 'the children are not mapped exactly when the mapping goes on below')
            if len(en_) != len(b):
                bad(vio, f, 'the end of the mapping does not match its beginning')
            if en_ and st.auto.index(('kids',)) > st.auto.index(en_[0]) if ('kids',) in st.auto and en_ else False:
                bad(vio, f, 'the mapping of an element ends before its children')
        if not fin:
            bad(vio, f, 'never succeeds')
        n += covered(m, f, mp, vio)
    # virtual
    for f in m.fn('CVirtualSubsystem::mapBegin'):
        c, e, outs = run(m, f, {})
        for st, rt in outs:
            n += 1
            if yes(e, st, rt) is not True or e.truth(st, e.rd(st, par(e, f, 1))) is not False:
                bad(vio, f, 'the elements of a virtual subsystem are mapped')
    # (f)
    for f in m.fn(SUB + '::mapSubsystemElements'):
        sp = {'ctx': (ids(m, SUB + '::handleMappingContext'), 'bool'), 'child': (mp, 'bool')}
        c, e, outs = run(m, f, sp, cls=Stack, child=mp, on=f, vio=vio, stack=stack)
        for st, rt in outs:
            n += 1
            t = yes(e, st, rt)
            failed = any(not x[4] for x in of(st, 'child')) or any(not x[4] for x in of(st, 'ctx')) and t is False
            if t is not (not failed):
                bad(vio, f, 'a subsystem is not mapped exactly when all its elements are')
            if t:
                ct, ps = of(st, 'ctx'), of(st, 'push')
                if ('kids',) not in st.auto or len(ps) != 1 or len(ct) < 1:
                    bad(vio, f, 'the elements are not mapped in the context of the subsystem')
        n += covered(m, f, mp, vio)
    sp = {'map': (ids(m, SUB + '::mapSubsystemElements'), 'bool'), 'inst': (named(m, 'createInstances'), 'void')}
    for f in m.fn(SUB + '::structureFromXml'):
        c, e, outs = run(m, f, sp)
        for st, rt in outs:
            n += 1
            seq = [x[0] for x in st.auto if x[0] in sp]
            t = yes(e, st, rt)
            if t is not False and seq != ['inst', 'map']:
                bad(vio, f, 'a subsystem is loaded without its elements having been created, then mapped, once')
            if any(not x[4] for x in of(st, 'map')) and t is not False:
                bad(vio, f, 'a subsystem that could not be mapped is loaded')
            if seq == ['inst', 'map'] and of(st, 'map')[0][4] and t is not True:
                bad(vio, f, 'a subsystem that was mapped is refused')
    return n


class Walk(Stack):
    pass


def covered(m, f, targets, vio):
    n = 0
    hit = False
    for L in loops(f):
        for i, x in enumerate(f.nodes):
            if x['k'] == 'Call' and L.blockof(i) is not None and m.targets(f, x) & targets:
                hit = True
                n += 1
                if L.kind == 'partial':
                    bad(vio, f, 'not every child is mapped: the loop ' + L.why, i)
                elif not L.every_iteration(i):
                    bad(vio, f, 'a child is mapped only under a condition', i)
    if not hit:
        v, why = each(m, f, targets, exits=True)
        if v is False:
            bad(vio, f, 'not every child is mapped: ' + why)
    return n


# ---- (g)
class Am(Mp):
    digit = None

    def pre(self, eng, st, fr, i, lab, o, av, al):
        self.n += 1
        if lab == 'item':
            s = of(st, 'iset')
            if not s or not s[-1][4] or s[-1][2][0] != av[0]:
                bad(self.vio, self.f, 'the value of a key that may not be set is asked for', None)
            # the place: first key + number - 1, the number at most the number of keys
            first, nb = self.first, self.nb
            at = [k for k in self.digits(eng, av[0], first)]
            if len(at) != 1:
                bad(self.vio, self.f, 'an amendment is not the key of its number')
                return
            d = self.digit = at[0]
            for ch in range(256):
                for cnt in (1, 3, 9):
                    ok = ord('1') <= ch <= ord('0') + cnt
                    if feasible(eng, st, {d: ch, nb: cnt, first: 4}) != ok:
                        bad(self.vio, self.f, 'an amendment beyond the keys, or not a number from 1, is replaced' if not ok else 'an amendment within the keys is not replaced')
                        return
                    if ok and ev(eng, av[0], {d: ch, nb: cnt, first: 4}) != 4 + ch - ord('1'):
                        bad(self.vio, self.f, 'an amendment is replaced by the value of another key')
                        return
        if lab == 'rec':
            for k in (1, 2):
                if av[k] != (self.first, self.nb)[k - 1]:
                    bad(self.vio, self.f, 'the rest of the value is amended with other keys')

    def digits(self, eng, t, first):
        todo, out = [t], set()
        while todo:
            y = todo.pop()
            x = eng.T.get(y)
            if y == first or x[0] == 'int':
                continue
            if x[0] in ('bin', 'cast'):
                todo += [z.i for z in x[1:] if hasattr(z, 'i')]
            else:
                out.add(y)
        return out


def amend(m, vio):
    n = 0
    for f in m.fn(FMT + '::formatMappingValue'):
        gi = {g.id for g in m.fn(CTX + '::getItem') if not g.params[0]['t'].endswith('&')}
        sp = {'iset': (ids(m, CTX + '::iSet'), 'bool'), 'item': (gi, 'ref'), 'rec': ({f.id}, 'obj')}
        c = Am(m, sp)
        c.f, c.vio = f, vio
        e = Engine(m, c)
        c.first, c.nb = (e.T.mk('init', -1, f.params[k]['u']) for k in (1, 2))

        def setup(eng, st, fr):
            refparams(eng, st, fr)
            for k, t in ((1, c.first), (2, c.nb)):
                st.env[('v', fr.id, f.params[k]['u'])] = t
        outs = e.run(f, setup)
        if not c.n:
            bad(vio, f, 'no amendment is ever replaced')
        src = [e.T.mk('init', -1, f.params[0]['u'])]
        for text, nb, rest, want in (('abc', 3, None, 'abc'), ('abc%', 3, None, 'abc%'), ('p%2q%1', 3, 'q%1', 'p<I><R>'), ('%1', 1, '', '<I><R>'),
                                     ('a%9', 3, None, 'a%9'), ('a%0b', 3, None, 'a%0b')):
            env = handlers({'got': lambda x, s_: {'item': '<I>', 'rec': '<R>'}.get(x[1]), 'Lder': lambda x, s_: s_(x[1].i),
                            'drf': lambda x, s_: s_(x[1].i), src[0]: text, c.nb: nb, c.first: 4})
            k = text.find('%')
            if c.digit is not None and 0 <= k < len(text) - 1:
                env[c.digit] = ord(text[k + 1])
            for st, rt in outs:
                if not feasible(e, st, env):
                    continue
                n += 1
                it, rec = of(st, 'item'), of(st, 'rec')
                if rest is None and (it or rec):
                    bad(vio, f, 'a value without a valid amendment is amended')
                if rest is not None and not of(st, 'iset'):
                    bad(vio, f, 'a valid amendment is not replaced')
                v = ev(e, rt, env) if rt is not None else None
                if rest is not None and rec and it:
                    a = ev(e, rec[-1][2][0], env)
                    if a is not None and a != rest:
                        bad(vio, f, 'what follows an amendment is not what is amended next')
                    if v is not None and v != want:
                        bad(vio, f, 'an amended value is not made of what precedes, the value set and what follows')
                elif not it and not rec and v is not None and v != text:
                    bad(vio, f, 'a value with nothing to amend is changed')
        for st, rt in outs:
            n += 1
            s = of(st, 'iset')
            if s and s[-1][4] and not of(st, 'item'):
                bad(vio, f, 'an amendment whose key is set is not replaced')
            if of(st, 'item') and not of(st, 'rec'):
                bad(vio, f, 'only the first amendment is replaced')
        n += c.n
    return n


def check(m, tier):
    vio, n = [], 0
    for g in (data, context, feeding, creation, mapping, amend):
        n += g(m, vio)
    return result(None, {'instances_checked': n, 'functions': 24}, dedup(vio))
