"""Refusals say why. Every function that returns an outcome (bool, pointer or command status) and is handed a place for the
reason (a string, a list of strings, or an access / serialising context) is analysed on its own: every path that returns
failure must have written the reason, or called a function of the same kind that failed and was handed the same place.
Together, by induction over the call graph, a failure reported at any public entry carries a reason. The contexts are checked to forward
what they are told to the string they were made with, and to be made with the string of the caller."""
import re
from .common import *
from .p14 import u, bad
from ..loops import strip
from ..model import load

TECHNIQUE = 'path enumeration per function with an assume-guarantee contract on failure (dataflow of the reason), closed over the call graph'
NOTE = 'that the text is helpful is not decided, only that there is one'
OPS = {'operator=', 'operator+=', 'append', 'assign', 'insert', 'push_back', 'emplace_back', 'push_front', 'swap', 'splice', 'merge'}
STR = re.compile(r'^(std::)?(__cxx11::)?basic_string<')
LST = re.compile(r'^std::(list|vector|__cxx11::list)<std::(__cxx11::)?basic_string')
NAME = re.compile('(?i)err|result|msg|reason|diag|info')
# fails without reason only for an empty list of files, which its callers exclude
DEAD = {'CSystemClass::loadPlugins'}


def outcome(rt):
    return rt == 'bool' or rt.endswith('*') or 'CommandStatus' in rt


def ctxcls(m):
    return {c for c in m.classes if c == 'utility::ErrorContext' or m.derives(c, 'utility::ErrorContext')}


def clsof(t):
    return t.replace('const ', '').rstrip('& *').strip()


def channels(m, f, ctx, anyname=False):
    """the places for the reason a function is handed (with `anyname`: whatever could be one by its type)"""
    out = []
    for p in f.params:
        t, nm = p['t'], p.get('n', '')
        if t.startswith('const ') or t.endswith('&&'):
            continue
        if clsof(t) in ctx and t.endswith('&') or LST.match(t) and t[-1] in '*&' and (anyname or re.search('(?i)err', nm)) or \
                STR.match(t) and t.endswith('&') and (anyname or not nm or NAME.search(nm)):
            out.append(p)
    return out


class Names:
    """expressions of f that denote (or are built on) the places for the reason"""

    def __init__(self, m, f, us):
        self.f, self.us = f, set(us)
        ch = True
        while ch:
            ch = False
            for n in f.nodes:
                if n['k'] != 'Decl':
                    continue
                for v in n.get('vars', []):
                    x = v.get('x', v.get('init'))
                    if v['u'] not in self.us and x is not None and x >= 0 and \
                            ('Context' in v.get('t', '') or v.get('t', '').endswith('&')) and self.has(x):
                        self.us.add(v['u'])
                        ch = True

    def has(self, i):
        n = self.f.nodes[i]
        if n['k'] == 'Ref' and n['d'].get('u') in self.us:
            return True
        if n['k'] == 'Call' and n.get('obj') is not None and 'Context' in ((n.get('f') or {}).get('rt') or '') and self.has(n['obj']):
            return True
        return any(self.has(c) for c in n.get('c', []) if c is not None and c >= 0)

    def direct(self, i):
        """the expression is the place itself"""
        n = self.f.nodes[strip(self.f, i)]
        return n['k'] == 'Ref' and n['d'].get('u') in self.us


class Diag(Checker):
    SMALL = 0
    K = KEXIT = 60

    def __init__(self, m, f, us, sayers, outs, ctx):
        self.m, self.f, self.sayers, self.kinds, self.ctx = m, f, sayers, outs, ctx
        self.nm = Names(m, f, us)
        self.n = 0

    def init(self, eng, f):
        return 0

    def relevant(self, eng):
        # helpers that pass an outcome on
        return {f.id for f in self.m.funcs.values() if f.rt == 'bool' and any(p['t'] == 'bool' for p in f.params) and
                len(f.nodes) < 200} - self.kinds

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        f = self.f
        if fr.f is not f:
            # lambdas and local helpers see the same names
            if not set(x['d'].get('u') for x in fr.f.nodes if x['k'] == 'Ref') & self.nm.us:
                return None
        fi = n.get('f') or {}
        name = fi.get('n')
        nm = self.nm if fr.f is f else Names(self.m, fr.f, self.nm.us)
        oc = n.get('obj') is not None and nm.has(n['obj'])
        cs = [c for c in n.get('c', []) if c is not None and c >= 0 and c not in (n.get('obj'), n.get('callee'))]
        pt = fi.get('pt') or []
        # handed over to be written (not only to be read)
        ac = any(nm.has(c) and not (k < len(pt) and (pt[k].startswith('const ') or pt[k][-1:] not in '&*'))
                 for k, c in enumerate(cs))
        if not oc and not ac:
            return None
        if oc and not fi.get('repo') and name == 'clear':
            st.auto = 0
            return None
        if oc and not fi.get('repo') and name in OPS or name == 'operator<<' and not fi.get('repo'):
            if args and name not in ('splice', 'merge', 'swap'):
                v = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
                x = eng.T.get(v)
                if x[0] == 'strlit' and not x[1] or x[0] == 'lib' and x[-1] == 'default':
                    if name in ('operator=', 'assign'):
                        st.auto = 0
                    return None
            st.auto = 1
            return None
        if oc and fi.get('cls') in self.ctx and tg & self.sayers or ac and tg and tg <= self.sayers:
            st.auto = 1
            return [(st, None)]
        if n['k'] != 'Call':
            return None
        rt = fi.get('rt') or n.get('t', '')
        if not ac or not outcome(rt) or fi and not fi.get('repo') and not tg:
            return None
        self.n += 1
        # the callee is answerable for its own failures
        q = st.copy()
        if not tg or tg & self.kinds:
            q.auto = 1
        if rt == 'bool':
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if rt.endswith('*'):
            key = eng.T.mk('got', fr.id, i)
            st.facts = dict(st.facts)
            st.facts[key] = True
            return [(st, key), (q, eng.NULL)]
        out = []
        for v, w in self.enum(rt):
            s = st.copy()
            if w in FAILS:
                s.auto = 1
            out.append((s, eng.const(v)))
        return out

    def enum(self, rt):
        e = self.m.enums.get(clsof(rt))
        if not e:
            raise AnalysisError('anchor vanished: command status')
        return [(x['v'], x['n'].split('::')[-1]) for x in e['vals']]


FAILS = {'EFailed'}


def failed(m, eng, f, st, rt):
    if rt is None:
        return False
    if f.rt == 'bool' or f.rt.endswith('*'):
        k = eng.truth(st, rt)
        # a function called without the place may well fail
        return k is False or k is None and f.rt == 'bool' and eng.T.get(rt)[0] != 'lib'
    x = eng.T.get(rt)
    while x[0] == 'cast':
        rt = u(x[2])
        x = eng.T.get(rt)
    e = m.enums.get(clsof(f.rt))
    v = {x['v'] for x in e['vals'] if x['n'].split('::')[-1] in FAILS}
    if eng.isconst(rt):
        return eng.cval(rt) in v
    return False


def exhausted(m, eng, st):
    """the path excludes every value of an enumeration"""
    no = {}
    for k, pol in st.facts.items():
        if not isinstance(k, int) or pol:
            continue
        x = eng.T.get(k)
        if x[0] != 'eq':
            continue
        for a, b in ((u(x[1]), u(x[2])), (u(x[2]), u(x[1]))):
            y = eng.T.get(a)
            if eng.isconst(b) and y[0] == 'cast':
                en = next((z for z in y[2:] if isinstance(z, str) and z in m.enums), None)
                no.setdefault((a, en), set()).add(eng.cval(b))
    for (a, en), vs in no.items():
        if en and {x['v'] for x in m.enums[en]['vals']} <= vs:
            return True
    return False


def contexts(m, ctx, vio):
    """an error context writes the string it was made with"""
    n = 0
    base = 'utility::ErrorContext'
    fl = [x['u'] for x in m.classes[base]['fields']]
    if len(fl) != 1:
        raise AnalysisError('anchor vanished: string of an error context')
    say = set()
    for f in m.funcs.values():
        if f.cls not in ctx or f.ctor or f.dtor or f.rt != 'void' or not any('basic_string' in p['t'] for p in f.params):
            continue
        say.add(f.id)
    # the base ones store what they are told
    for f in m.funcs.values():
        if f.cls != base or f.ctor or f.dtor or f.rt != 'void':
            continue
        e = Engine(m, Checker())
        fr0 = []

        def setup(eng, st, fr):
            fr0.append(fr)
        for st, rt in e.run(f, setup):
            n += 1
            lv = e.lfld(e.lder(e.T.mk('this', 0)), fl[0])
            v = e.T.show(e.rd(st, lv))
            if f.params[0]['u'] not in v and 'hvr' not in v:
                bad(vio, f, 'the reason given is not kept')
    # constructors hand the string down
    for f in m.funcs.values():
        if f.cls in ctx and f.ctor:
            ps = [p['u'] for p in f.params if STR.match(p['t']) and p['t'].endswith('&')]
            cx = [p['u'] for p in f.params if clsof(p['t']) in ctx and 'Access' in p['t']]
            if not ps:
                continue
            n += 1
            ok = False
            for x in f.nodes:
                if x['k'] == 'Construct' and (x.get('f') or {}).get('cls') in ctx and x['f'].get('cls') != f.cls:
                    ok = ok or Names(m, f, ps).has(f.nodes.index(x))
            for bl in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
                for el in bl.get('e', []):
                    if isinstance(el, dict) and el.get('e') == 'init' and el.get('field') in fl:
                        ok = ok or Names(m, f, ps).has(el['x'])
            if not ok:
                bad(vio, f, 'the context is not made with the string of the caller')
    return say, n


def says(m, f, us, say, ctx):
    """a void function that writes the reason on every path"""
    c = Diag(m, f, us, say, set(), ctx)
    e = Engine(m, c)
    outs = e.run(f, given(f, us))
    return outs and all(st.auto for st, _ in outs)


def given(f, us):
    """a place handed by pointer is there"""
    def setup(eng, st, fr):
        for p in f.params:
            if p['u'] in us and p['t'].endswith('*'):
                v = eng.T.mk('in', 'reason')
                st.env[('v', fr.id, p['u'])] = v
                st.facts[v] = True
    return setup


def check(m, tier):
    # the variant with assertions: what they exclude is not a refusal
    m = load(debug=True)
    vio, n, analysed = [], 0, 0
    ctx = ctxcls(m)
    say, k = contexts(m, ctx, vio)
    n += k
    mine = [f for f in m.funcs.values() if f.file.startswith(('parameter/', 'xmlserializer/', 'utility/', 'remote-processor/', 'asio/'))]
    us = {f.id: {p['u'] for p in channels(m, f, ctx)} for f in mine}
    # helpers that always write the reason
    wide = {f.id: {p['u'] for p in channels(m, f, ctx, True)} for f in mine}
    while True:
        add = {f.id for f in mine if f.rt == 'void' and len(wide[f.id]) == 1 and f.id not in say and not f.ctor and
               f.cls not in ctx and f.nodes and says(m, f, wide[f.id], say, ctx)}
        if not add:
            break
        say |= add
    todo = [f for f in mine if outcome(f.rt) and us[f.id]]
    kinds = {f.id for f in todo}
    if len(todo) < 300:
        raise AnalysisError('anchor vanished: functions reporting a reason')
    # functions whose place goes by another name, and which keep the contract
    while True:
        add = set()
        for f in mine:
            if not outcome(f.rt) or us[f.id] or len(wide[f.id]) != 1 or f.id in kinds or not f.nodes:
                continue
            e = Engine(m, Diag(m, f, wide[f.id], say, kinds, ctx))
            outs = e.run(f, given(f, wide[f.id]))
            if any(failed(m, e, f, st, rt) for st, rt in outs) and \
                    not any(failed(m, e, f, st, rt) and not st.auto for st, rt in outs):
                add.add(f.id)
        if not add:
            break
        kinds |= add
    for f in sorted(todo, key=lambda f: (f.file, f.line)):
        if f.q in DEAD or not f.nodes:
            continue
        analysed += 1
        c = Diag(m, f, us[f.id], say, kinds, ctx)
        e = Engine(m, c)
        for st, rt in e.run(f, given(f, us[f.id])):
            n += 1
            if failed(m, e, f, st, rt) and not st.auto and not exhausted(m, e, st):
                bad(vio, f, 'a failure is reported without a reason')
    return result(None, {'instances_checked': n, 'functions': analysed}, dedup(vio))
