"""What a document must have. (a) Typestate of the handles on the elements of a document, in every function that has one: a handle
made empty stands for an element only after the search, the iteration, the creation or the assignment that fills it succeeded; one
that does not is not read, iterated, written to nor handed on, on any path. (b) Admission, over every outcome of the library calls: a
document source accepts its document only when there is one, it is valid when validation was asked for, its root has the
type expected and the name expected when a name is; a document is read through libxml from the file or the text given, is
none when that fails or its inclusions do; a sink uses only a document its source accepted; the outcome of the schema
validation is that of libxml, and false when it could not be done."""
from .common import *
from ..evalterm import ev, feasible
from .p14 import u, ids, bad, castless
from .p26 import Evts
from .p35 import S, run, of, yes

TECHNIQUE = 'typestate of element handles by path enumeration; path enumeration over outcomes of the library calls'
NOTE = 'what the schemas themselves say, and the XML library, are trusted'
XE, SRC, SINK = 'CXmlElement', 'CXmlDocSource', 'CXmlDocSink'
FILL = {'getChildElement': -1, 'next': 0, 'getParentElement': 0, 'createChild': 0, 'getRootElement': 0}
SURE = {'createChild', 'getRootElement'}


def isel(t):
    return t.replace('const ', '').strip().rstrip('&').strip() == XE


class El(Checker):
    SMALL = 60
    K = 40
    KEXIT = 40

    def __init__(self, m, helpers):
        self.m, self.helpers = m, helpers
        self.loc = set()
        self.uses = 0

    def relevant(self, eng):
        return self.helpers

    def init(self, eng, f):
        return frozenset()

    def term(self, eng, x):
        if x is None:
            return None
        t = castless(eng, x) if not eng.islv(x) else x
        y = eng.T.get(t)
        if y[0] == 'addr':
            t = u(y[1])
            y = eng.T.get(t)
        while y[0] in ('Lbase', 'Lcast'):
            t = u(y[1])
            y = eng.T.get(t)
        return t

    def local(self, eng, t):
        y = eng.T.get(t)
        return y[0] == 'Lvar' and y[2] in self.loc

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        nm, cls = fi.get('n'), fi.get('cls') or ''
        mine = cls == XE or cls.startswith(XE + '::') or cls == SRC
        fill = None
        if mine and nm in FILL and args:
            fill = self.term(eng, args[FILL[nm]])
        if cls == XE and nm == 'setXmlElement' and obj is not None:
            o = self.term(eng, obj)
            v = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
            st.auto = st.auto | {o} if eng.truth(st, v) is not False else st.auto - {o}
            return None
        if n['k'] == 'Construct' and cls == XE or fi.get('dtor') or nm == 'operator=':
            return None
        if tg and set(tg) & self.helpers:
            return None
        for a in ([obj] if obj is not None else []) + list(args):
            t = self.term(eng, a)
            if t is None or not self.local(eng, t):
                continue
            if t == fill and a is not obj:
                continue
            self.uses += 1
            if t not in st.auto:
                eng.report(fr, i, 'an element of a document that was not found is used')
        if fill is not None:
            if nm in SURE:
                st.auto = st.auto | {fill}
                return None
            q = st.copy()
            q.auto = q.auto | {fill}
            st.auto = st.auto - {fill}
            return [(q, eng.TRUE), (st, eng.FALSE)]
        return None


def handles(m, vio):
    fns = []
    for f in m.funcs.values():
        if f.cls == XE or (f.cls or '').startswith(XE + '::'):
            continue
        us = set()
        for n in f.nodes:
            if n['k'] == 'Decl':
                for v in n.get('vars', []):
                    if isel(v.get('t', '')) and '&' not in v.get('t', ''):
                        us.add((v['u'], v.get('init')))
        if us:
            fns.append((f, us))
    if len(fns) < 8:
        raise AnalysisError('anchor vanished: handles on elements')
    helpers = set()
    for f in m.funcs.values():
        if f.cls in (XE, SRC) or (f.cls or '').startswith(XE + '::') or f.virt:
            continue
        ps = {p['u'] for p in f.params if isel(p['t']) and p['t'].endswith('&') and not p['t'].startswith('const')}
        if not ps:
            continue
        for n in f.nodes:
            fi = n.get('f') or {}
            if n['k'] == 'Call' and fi.get('n') in FILL and (fi.get('cls') or '').split('::')[0] in (XE, SRC):
                x = f.nodes[f.strip(n['c'][FILL[fi['n']]])] if n.get('c') else {}
                if x.get('d', {}).get('u') in ps:
                    helpers.add(f.id)
    n = 0
    for f, us in fns:
        if f.id in helpers:
            continue
        c = El(m, helpers)
        for v, init in us:
            x = f.nodes[init] if isinstance(init, int) and init >= 0 else None
            if x is not None and x['k'] == 'Construct' and x.get('c') and x['c'][0] >= 0:
                continue  # made from an element
            c.loc.add(v)
        if not c.loc:
            continue
        e = Engine(m, c)
        e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
        n += c.uses
        vio += e.violations
    return n


class L(S):
    """library calls with an outcome, and comparisons of texts"""
    PTR = ('xmlReadFile', 'xmlReadMemory', 'xmlReadFd', 'xmlReadDoc', 'xmlReadIO', 'xmlCtxtReadFile', 'xmlCtxtReadMemory', 'xmlParseFile',
           'xmlParseMemory', 'xmlSchemaNewDocParserCtxt', 'xmlSchemaNewParserCtxt', 'xmlSchemaNewMemParserCtxt', 'xmlSchemaParse',
           'xmlSchemaNewValidCtxt')
    INT = ('xmlXIncludeProcess', 'xmlXIncludeProcessFlags', 'xmlSchemaValidateDoc')

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        nm = fi.get('n')
        if nm in self.PTR and not fi.get('repo'):
            self.n += 1
            t = eng.T.mk('lib', nm)
            av = tuple(self.val(eng, st, a) for a in args)
            q, w = st.copy(), st
            q.facts = dict(q.facts)
            q.facts[t] = True
            self.add(q, ('lib', nm, av, 1))
            self.add(w, ('lib', nm, av, 0))
            return [(q, t), (w, eng.NULL)]
        if nm in self.INT and not fi.get('repo'):
            self.n += 1
            av = tuple(self.val(eng, st, a) for a in args)
            out = []
            for v in (-1, 0, 1):
                q = st.copy()
                self.add(q, ('lib', nm, av, v))
                out.append((q, eng.const(v)))
            return out
        return S.other(self, eng, st, fr, i, n, tg, obj, args)


def lib(st, *names):
    return [x for x in st.auto if x[0] == 'lib' and x[1] in names]


def reading(m, vio):
    n = 0
    for f in m.fn(SRC + '::mkXmlDoc'):
        e, outs = run(m, f, {}, cls=L)
        par = {p['n']: e.T.mk('init', -1, p['u']) for p in f.params}
        bools = [p for p in f.params if p['t'] == 'bool']
        if len(bools) != 2:
            raise AnalysisError('anchor vanished: switches of mkXmlDoc')
        ff, xi = (e.T.mk('init', -1, p['u']) for p in bools)
        some = 0
        for st, rt in outs:
            n += 1
            rd = [x for x in st.auto if x[0] == 'lib' and x[1].startswith(('xmlRead', 'xmlParse', 'xmlCtxt'))]
            inc = lib(st, 'xmlXIncludeProcess', 'xmlXIncludeProcessFlags')
            nonnull = e.truth(st, rt)
            if len(rd) != 1:
                bad(vio, f, 'the document is not read once')
                continue
            fromfile = 'File' in rd[0][1]
            if e.truth(st, ff) is not fromfile:
                bad(vio, f, 'a text is read as the name of a file, or the reverse')
            if rd[0][3] == 0:
                if nonnull is not False:
                    bad(vio, f, 'a document that could not be read is returned')
                continue
            if e.truth(st, xi) is not (len(inc) == 1):
                bad(vio, f, 'the inclusions are not resolved when, and only when, asked for')
                continue
            good = not inc or inc[0][3] >= 0
            if nonnull is not good:
                bad(vio, f, 'a document whose inclusions failed is returned' if not good else 'a document that was read is lost')
            some += good
        if not some:
            bad(vio, f, 'never gives a document')
    for f in m.fn(SRC + '::isInstanceDocumentValid'):
        e, outs = run(m, f, {}, cls=L)
        some = 0
        for st, rt in outs:
            n += 1
            v = lib(st, 'xmlSchemaValidateDoc')
            want = bool(v) and v[-1][3] == 0
            if e.truth(st, rt) is not want:
                bad(vio, f, 'a document that is not valid, or could not be validated, is taken as valid' if not want else 'a valid document is refused')
            some += want
        if not some:
            bad(vio, f, 'never valid')
    return n


def admission(m, vio):
    n = 0
    sp = {'valid': (ids(m, SRC + '::isInstanceDocumentValid'), 'bool'), 'type': (ids(m, SRC + '::getRootElementName'), 'obj'),
          'name': (ids(m, SRC + '::getRootElementAttributeString'), 'obj')}
    for f in m.fn(SRC + '::populate'):
        e, outs = run(m, f, sp)
        docs = [x for x in m.classes[SRC]['fields'] if x['t'].replace('struct ', '').startswith('_xmlDoc')]
        if len(docs) != 1:
            raise AnalysisError('anchor vanished: document of a source')
        for st, rt in outs:
            n += 1
            r_ = e.truth(st, rt)
            if r_ is None:
                bad(vio, f, 'the outcome does not follow from the conditions')
                continue
            none = {'fld': lambda x, s: 0 if x[2] == docs[0]['u'] else None}
            if feasible(e, st, none):
                if r_:
                    bad(vio, f, 'a document that could not be read is accepted')
                if of(st, 'valid') or of(st, 'type') or of(st, 'name'):
                    bad(vio, f, 'the root of a document that does not exist is read')
        n += texts(m, f, e, outs, vio)
    for f in m.fn(SINK + '::process'):
        sp = {'pop': ({g for h in m.funcs.values() if h.n == 'populate' and (h.cls == SRC or m.derives(h.cls, SRC)) for g in [h.id]}, 'bool'),
              'do': ({h.id for h in m.funcs.values() if h.n == 'doProcess'} | {x['id'] for x in m.classes[SINK]['methods'] if '::doProcess(' in x['id']}, 'bool')}
        e, outs = run(m, f, sp)
        for st, rt in outs:
            n += 1
            p, d = of(st, 'pop'), of(st, 'do')
            if len(p) != 1 or (p[0][4] == 1) != bool(d) or len(d) > 1:
                bad(vio, f, 'a document is used though its source refused it, or the reverse')
            elif e.truth(st, rt) is not bool(d and d[0][4]):
                bad(vio, f, 'the outcome is not that of the use of the document')
    return n


def byparam(m):
    """fields of a source by the position of the constructor parameter they keep"""
    out = {}
    for f in m.funcs.values():
        if not (f.ctor and f.cls == SRC and len(f.params) >= 5):
            continue
        us = {p['u']: k for k, p in enumerate(f.params)}
        for b in f.blocks.values():
            for x in b['e']:
                if isinstance(x, dict) and x.get('e') == 'init' and 'field' in x:
                    todo = [x['x']]
                    while todo:
                        y = f.nodes[todo.pop()]
                        if y['k'] == 'Ref' and y.get('d', {}).get('u') in us:
                            out.setdefault(us[y['d']['u']], x['field'] if isinstance(x['field'], str) else x['field'].get('u'))
                        if y['k'] not in ('Call',):
                            todo += [c for c in y.get('c', []) if c >= 0]
    if not all(k in out for k in (1, 2, 3, 4)):
        raise AnalysisError('anchor vanished: what a document source keeps')
    return out


class W(str):
    def __bool__(s):
        return True


def texts(m, f, e, outs, vio):
    import itertools
    fp = byparam(m)
    n = 0
    for ty, attr, exp, nm, val, ok in itertools.product('AB', ('', 'N'), ('', 'X', 'Y'), ('X', 'Y', ''), (0, 1), (0, 1)):
        fv = {fp[1]: val, fp[2]: 'A', fp[3]: exp, fp[4]: attr}

        def fld(x, s):
            return fv.get(x[2], 1)

        def got(x, s):
            return {'type': W(ty), 'name': W(nm)}.get(x[1])

        def libc(x, s):
            l = str(x[1]).split('::')[-1]
            if l in ('empty', 'size', 'length') and hasattr(x[2], 'i'):
                v = s(x[2].i)
                return None if not isinstance(v, str) else int(len(v) == 0) if l == 'empty' else len(v)
            return None

        en = {'fld': fld, 'got': got, 'lib': libc}
        want = (not val or ok) and ty == 'A' and (not attr or not exp or nm == exp)
        hit = 0
        for st, rt in outs:
            v = of(st, 'valid')
            if v and v[-1][4] != ok:
                continue
            if not feasible(e, st, en):
                continue
            hit += 1
            n += 1
            if e.truth(st, rt) is None:
                got_ = ev(e, rt, en)
                got_ = None if got_ is None else bool(got_)
            else:
                got_ = e.truth(st, rt)
            if got_ is not bool(want):
                return bad(vio, f, 'a document whose root %s is %s' % (
                    'does not have the type expected' if ty != 'A' else 'does not have the name expected' if not want and ok else 'and validity are as expected'
                    if want else 'is not valid', 'refused' if want else 'accepted')) or n
        if not hit:
            raise AnalysisError('%s: no outcome for a document' % f.q)
    return n


def check(m, tier):
    vio, n = [], 0
    n += handles(m, vio) + reading(m, vio) + admission(m, vio)
    return result(None, {'instances_checked': n, 'functions': len(m.funcs)}, dedup(vio))
