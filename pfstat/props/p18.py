"""Documents written. (a) The composing functions are run over every path, an event for each element created, attribute, text, and delegation;
what they write under a node is rebuilt as a tree and compared with what has to be there: a domain writes its name, its
sequence awareness, then its configurations, the path of each element it lists and, exactly when settings are asked for, for each configuration its name
and the elements of its areas, each with its path and its settings under the element name of its own kind (terms: the value
written must come from the object visited); a component writes its name and every child under the child's kind; a parameter its value read at that moment.
Loops over the lists are complete and not bypassed. (b) The elements, their order, the attributes (required and declared) and enumerated texts of the tree are
compared with the schemas of the repository, and every name that an import function of the class reads with those written. (c) The access context of an export
writes, in the value space and raw format of the export, that of an import reads; the value space is marked raw exactly when it is, and
read back as raw exactly then (decision tables). (d) An export request composes the object asked for, with or without settings as asked, in the value space
and raw format of the session; the text is what was composed, and a stream that failed is no success. (e) The primitives on an XML
element write and read the attribute, text or child they are given."""
import os, xml.etree.ElementTree as ET
from .common import *
from ..evalterm import ev, feasible
from ..loops import each, loops, strip, varref, bypasses
from ..extract import REPO
from .p14 import u, ids, bad, castless, fieldof
from .p26 import Evts, all_of
from .p35 import S, of, yes, named, field_of
from .p33 import Mp, run, par, given, mentions, only, covered

TECHNIQUE = 'symbolic document trees over all paths, compared with required contents and the schemas; decision tables; loop coverage'
NOTE = 'libxml2 itself (escaping, encoding) is outside the repository'
XE, DOM, CONF, ELT, MGR, DOMS = 'CXmlElement', 'CConfigurableDomain', 'CDomainConfiguration', 'CElement', 'CParameterMgr', 'CConfigurableDomains'
XS = '{http://www.w3.org/2001/XMLSchema}'


class Doc(Mp):
    """the access contexts in use at each delegation"""

    def __init__(self, m, spec, inline=()):
        Mp.__init__(self, m, spec, inline)
        self.ctxs = []

    def post(self, eng, st, fr, i, lab, o, av, al, res):
        if lab == 'ser' and len(al) > 1:
            v = context(eng, st, len(st.auto), al[1])
            self.ctxs.append({k: (castless(eng, t) if t is not None else None, eng.truth(st, t) if t is not None else None) for k, t in v.items()})


def base_spec(m, f):
    xe = lambda *ns: {g.id for g in m.funcs.values() if g.cls == XE and g.n in ns and g.acc == 0}
    anc = {g.id for g in m.funcs.values() if g.n == f.n and g.cls and g.cls != f.cls and m.derives(f.cls, g.cls)} if f.cls else set()
    over = lambda nm: {g.id for g in m.funcs.values() if g.n == nm and g.cls and m.derives(g.cls, ELT)} - {f.id}
    sp = {'child': (xe('createChild'), 'void'), 'name': (xe('setNameAttribute'), 'void'), 'text': (xe('setTextContent'), 'void'),
          'attr': ({g.id for g in m.funcs.values() if g.cls == XE and g.n == 'setAttribute'}, 'void'),
          'toXml': (over('toXml'), 'void'), 'kids': (over('childrenToXml'), 'void'),
          'path': (named(m, 'getPath', cls=ELT), 'num'), 'ename': (named(m, 'getXmlElementName'), 'num'),
          'gname': (named(m, 'getName', cls=ELT), 'num'),
          'sett': (ids(m, CONF + '::composeSettings') - {f.id}, 'void'),
          'elem': (named(m, 'getConfigurableElement', cls='CAreaConfiguration'), 'num'),
          'ser': ({g.id for g in m.funcs.values() if g.n == 'serializeXmlSettings'} - {f.id}, 'bool')}
    return {k: v for k, v in sp.items() if v[0]}


def lvof(e, t):
    x = e.T.get(t)
    return x[1].i if x[0] == 'addr' else t


def text(m, e, t, d=0):
    """the characters of a name"""
    x = e.T.get(castless(e, t))
    if x[0] == 'strlit':
        return x[1]
    if x[0] == 'glob' or x[0] == 'Lglob':
        return const_text(m, x[1])
    if x[0] == 'drf' and d < 3:
        return text(m, e, x[1].i, d + 1)
    return None


def const_text(m, q):
    g = m.globals.get(q)
    return next((x.get('v') for x in g.get('nodes', ()) if x['k'] == 'Str'), None) if g else None


def tree(m, e, st, roots):
    """{root lvalue: contents}; contents: [('attr', name, value) | ('child', name, contents, var) | ('text', value) | (label, object, other arguments)]"""
    cur = {q: [] for q in roots}
    lost = []
    for x in st.auto:
        if x[0] == 'child':
            p = cur.get(lvof(e, x[1]))
            c = []
            (lost if p is None else p).append(('child', x[2][1], c, x[3][0]))
            cur[x[3][0]] = c
        elif x[0] in ('attr', 'name', 'text'):
            p = cur.get(lvof(e, x[1]))
            it = ('text', x[2][0]) if x[0] == 'text' else ('attr', 'Name', x[2][0]) if x[0] == 'name' else ('attr', text(m, e, x[2][0]), x[2][1])
            (lost if p is None else p).append(it)
        elif x[0] in ('toXml', 'kids', 'sett', 'ser'):
            p = cur.get(x[3][0])
            (lost if p is None else p).append((x[0], x[1], x[3][1:], x[4]))
    return cur, lost


def got(e, t, lab):
    """the object an event's result is about"""
    x = e.T.get(castless(e, t)) if t is not None else ('',)
    return x[2].i if x[0] == 'got' and x[1] == lab and hasattr(x[2], 'i') else None


def item(e, t, field=None):
    """the object is an item visited, of the list"""
    if t is None:
        return False
    s = e.T.show(t)
    return s.startswith('idx(') or s.startswith('Lidx(') or s.startswith('Lder(') and 'idx(' in s or s.startswith('got(') or 'phi(' in s


def attrs(c):
    return [x for x in c if x[0] == 'attr']


def kids(c):
    return [x for x in c if x[0] == 'child']


def calls(c, lab):
    return [x for x in c if x[0] == lab]


# ---- schema
class Schema:
    def __init__(self, names):
        self.types, self.groups, self.elems = {}, {}, {}
        self.refs = []
        for nm in names:
            p = os.path.join(REPO, 'schemas', nm + '.xsd')
            try:
                t = ET.parse(p).getroot()
            except (OSError, ET.ParseError):
                raise AnalysisError('anchor vanished: schema ' + nm)
            for c in t:
                tag = c.tag.replace(XS, '')
                if tag == 'complexType':
                    self.types[c.get('name')] = c
                elif tag == 'group':
                    self.groups[c.get('name')] = c
                elif tag == 'element':
                    self.elems[c.get('name')] = c

    def typeof(self, el):
        return self.types.get(el.get('type')) if el.get('type') else el.find(XS + 'complexType')

    def attributes(self, ty):
        out = {}
        for a in ty.iter(XS + 'attribute'):
            # not those of nested elements
            out[a.get('name')] = (a.get('use') == 'required', [x.get('value') for x in a.iter(XS + 'enumeration')])
        for el in ty.iter(XS + 'element'):
            for a in el.iter(XS + 'attribute'):
                if a.get('name') in out and not any(b is a for b in ty.findall(XS + 'attribute')):
                    if not any(b.get('name') == a.get('name') for b in ty.findall(XS + 'attribute')):
                        out.pop(a.get('name'))
        return out

    def children(self, ty):
        out = []
        for s in ty:
            if s.tag in (XS + 'sequence', XS + 'choice', XS + 'all'):
                out += [x for x in s.iter(XS + 'element')]
        return out


# ---- (a)
def domain(m, vio):
    n = 0
    aware = [x['u'] for x in m.classes[DOM]['fields'] if x['t'] == 'bool']
    lst = [x['u'] for x in m.classes[DOM]['fields'] if 'CConfigurableElement *' in x['t'] and 'map' not in x['t']]
    if len(aware) != 1 or len(lst) != 1:
        raise AnalysisError('anchor vanished: fields of a domain')
    flag = field_of(m, 'CXmlDomainSerializingContext::withSettings')
    sch = Schema(['ConfigurableDomain', 'ConfigurableDomains', 'ParameterSettings'])
    dt = sch.types.get('ConfigurableDomainType')
    if dt is None:
        raise AnalysisError('anchor vanished: schema of a domain')
    da = sch.attributes(dt)
    order = [x.get('name') for x in sch.children(dt)]
    sub = {x.get('name'): sch.typeof(x) for x in sch.children(dt)}
    for f in m.fn(DOM + '::toXml'):
        sp = base_spec(m, f)
        c, e, outs = run(m, f, sp)
        node = par(e, f, 0)
        for st, rt in outs:
            n += 1
            cur, lost = tree(m, e, st, [node])
            t = cur[node]
            aw = [x for x in attrs(t) if x[1] == 'SequenceAware']
            if len(calls(t, 'toXml')) != 1 or calls(t, 'toXml')[0][1] != e.T.mk('this', 0):
                bad(vio, f, 'a domain does not write what every element does (name and contents), once')
            if len(aw) != 1 or e.T.get(castless(e, aw[0][2]))[0] != 'fld' or e.T.get(castless(e, aw[0][2]))[2] != aware[0]:
                bad(vio, f, 'a domain does not write its sequence awareness')
            extra = {x[1] for x in attrs(t)} - set(da)
            if extra or lost or len(t) != 2:
                bad(vio, f, 'a domain writes what the schema does not know')
    for f in m.fn(DOM + '::childrenToXml'):
        sp = base_spec(m, f)
        c, e, outs = run(m, f, sp)
        node = par(e, f, 0)
        seen = set()
        for st, rt in outs:
            n += 1
            cur, lost = tree(m, e, st, [node])
            ks = [(text(m, e, k[1]), k[2], k[3]) for k in kids(cur[node])]
            nm = [k[0] for k in ks]
            ctx = par(e, f, 1)
            w = setting(e, st, flag)
            if w is None:
                bad(vio, f, 'settings are written without asking whether they are wanted')
                continue
            seen.add(w)
            want = [x for x in order if x != 'Settings' or w]
            if nm != want:
                bad(vio, f, 'the parts of a domain are not those of the schema, in its order: %s' % ' '.join(map(str, nm)))
                continue
            if lost or len(kids(cur[node])) != len(cur[node]):
                bad(vio, f, 'something is written in another element than its own')
            for name, con, var in ks:
                if name == 'Configurations':
                    if len(con) != 1 or con[0][0] != 'kids' or con[0][1] != e.T.mk('this', 0):
                        bad(vio, f, 'the configurations of a domain are not written in their place')
                elif name == 'ConfigurableElements':
                    el = sch.children(sub[name])[0]
                    for k in con:
                        if k[0] != 'child' or text(m, e, k[1]) != el.get('name'):
                            bad(vio, f, 'something else than the associated elements is written among them')
                            continue
                        pathof(m, vio, f, e, k[2], sch.typeof(el), None)
                elif name == 'Settings':
                    el = sch.children(sub[name])[0]
                    for k in con:
                        o = got(e, k[1], 'ename') if k[0] == 'child' else None
                        if o is None and not (k[0] == 'child' and text(m, e, k[1]) == el.get('name')):
                            bad(vio, f, 'something else than the settings of configurations is written among them')
                            continue
                        s = calls(k[2], 'sett')
                        a = attrs(k[2])
                        if len(s) != 1 or o is not None and s[0][1] != o or not item(e, s[0][1]):
                            bad(vio, f, 'the settings of a configuration are not written under it, once')
                        elif len(a) != 1 or a[0][1] != 'Name' or got(e, a[0][2], 'gname') != s[0][1]:
                            bad(vio, f, 'the settings of a configuration do not bear its name')
                        elif len(k[2]) != 2:
                            bad(vio, f, 'the settings of a configuration hold something else')
        if seen != {True, False}:
            bad(vio, f, 'settings are written regardless of whether they are wanted')
        # coverage
        for tgt, what in ((sp['path'][0], 'not every associated element is written'), (sp['sett'][0], 'not the settings of every configuration are written')):
            cover(m, f, tgt, vio, what, flag)
    for f in m.fn(CONF + '::composeSettings'):
        n += conf(m, f, vio, sch)
    return n


def cover(m, f, tgt, vio, what, flag=None):
    """the loop over the list, in the function or a helper of its class; skipped on nothing but the flag"""
    mine = {g.id for g in m.funcs.values() if g.cls == f.cls or g.lam and g.q.startswith((f.cls or '-') + '::')}
    reach = set(tgt)
    more = True
    while more:
        more = False
        for i in mine - reach:
            g = m.funcs[i]
            if any(x['k'] in ('Call', 'Lambda') and (m.targets(g, x) & reach) for x in g.nodes):
                reach.add(i)
                more = True
    here = m.reachable([f.id]) & mine & reach | {f.id}
    found = False
    for i in sorted(here):
        g = m.funcs[i]
        ls = [L for L in loops(g) if any(L.blockof(j) is not None and (m.targets(g, x) & reach) for j, x in enumerate(g.nodes) if x['k'] == 'Call')]
        if not ls:
            continue
        found = True
        v, why = each(m, g, tgt)
        if v is False:
            bad(vio, g, what + ': ' + why)
        for L in ls:
            for b, c, pol in bypasses(g, L):
                if flag and c is not None and c >= 0 and asks(m, g, c, flag):
                    continue
                bad(vio, g, what + ': the loop is skipped', c if c is not None and c >= 0 else None)
    if not found:
        # an algorithm
        v, why = each(m, f, tgt)
        if v is False:
            bad(vio, f, what + ': ' + why)


def asks(m, g, c, flag):
    """the condition is the flag, and nothing else"""
    c = strip(g, c)
    x = g.nodes[c]
    if x['k'] == 'Un' and x.get('op') == '!':
        return asks(m, g, x['c'][0], flag)
    if x['k'] == 'Member':
        return x.get('m') == flag or (x.get('d') or {}).get('q') == flag or x.get('u') == flag
    if x['k'] == 'Call':
        for t in m.targets(g, x):
            h = m.funcs.get(t)
            if h and h.cls and not h.params:
                try:
                    return field_of(m, h.q) == flag
                except AnalysisError:
                    return False
    if x['k'] == 'Ref' and x.get('d', {}).get('k') == 'local':
        v = varref(g, c)
        for n in g.nodes:
            if n['k'] == 'Decl':
                for d in n['vars']:
                    if d['u'] == v and isinstance(d.get('init'), int) and d['init'] >= 0:
                        return asks(m, g, d['init'], flag)
    return False


def setting(e, st, flag):
    for t, v in list(st.facts.items()):
        x = e.T.get(t)
        if x[0] == 'fld' and x[2] == flag:
            return bool(v)
    return None


def pathof(m, vio, f, e, con, ty, obj):
    """the node holds the path of the element, of the object if given"""
    a = attrs(con)
    req = {k for k, (q, _) in Schema.attributes(None, ty).items() if q}
    if {x[1] for x in a} != req or len(a) != len(req):
        bad(vio, f, 'an element is not written with the attributes the schema asks for: %s' % ' '.join(sorted(str(x[1]) for x in a)))
        return None
    o = got(e, a[0][2], 'path')
    if o is None or not item(e, o) or obj is not None and o != obj:
        bad(vio, f, 'the path written is not that of the element')
        return None
    return o


def conf(m, f, vio, sch):
    n = 0
    ty = sch.types['ConfigurableElementSettingsType']
    st_ = [x for x in sch.types['SettingsType'].iter(XS + 'element') if x.get('type') == 'ConfigurableElementSettingsType']
    if len(st_) != 1:
        raise AnalysisError('anchor vanished: schema of the settings of an element')
    sp = base_spec(m, f)
    sp['ser'] = (sp['ser'][0], 'void')
    c, e, outs = run(m, f, sp, cls=Doc)
    node = par(e, f, 0)
    ctx = par(e, f, 1)
    CA = 'CParameterAccessContext'
    raw, hexa = field_of(m, CA + '::valueSpaceIsRaw'), field_of(m, CA + '::outputRawFormatIsHex')
    sout = field_of(m, 'CConfigurationAccessContext::serializeOut')
    xraw, xhex = field_of(m, 'CXmlDomainExportContext::valueSpaceIsRaw'), field_of(m, 'CXmlDomainExportContext::outputRawFormatIsHex')
    some = False
    for st, rt in outs:
        n += 1
        cur, lost = tree(m, e, st, [node])
        if lost or len(kids(cur[node])) != len(cur[node]):
            bad(vio, f, 'something is written in another element than its own')
        for k in kids(cur[node]):
            some = True
            if text(m, e, k[1]) != st_[0].get('name'):
                bad(vio, f, 'the settings of an element are not under the name the schema knows')
            rest = [x for x in k[2] if x[0] != 'attr']
            o = pathof(m, vio, f, e, [x for x in k[2] if x[0] == 'attr'], ty, None)
            if len(rest) != 1 or rest[0][0] != 'child':
                bad(vio, f, 'an element does not have its settings, once')
                continue
            s = [x for x in rest[0][2]]
            if len(s) != 1 or s[0][0] != 'ser':
                bad(vio, f, 'the settings of an element are not those of its area, once')
                continue
            el = got(e, rest[0][1], 'ename')
            if el is None or o is not None and el != o:
                bad(vio, f, 'the settings of an element are not under its own kind')
            area = s[0][1]
            if o is not None and got(e, o, 'elem') != area:
                bad(vio, f, 'the settings written under a path are those of another element')
    for v in c.ctxs:
        isf = lambda k, fld: k in v and v[k][0] is not None and e.T.get(v[k][0])[0] == 'fld' and e.T.get(v[k][0])[2] == fld
        if not isf(raw, xraw):
            bad(vio, f, 'the values are not exported in the value space of the export')
        if not isf(hexa, xhex):
            bad(vio, f, 'the values are not exported in the raw format of the export')
        if v.get(sout, (None, None))[1] is not True:
            bad(vio, f, 'an export does not write the settings')
    if not some:
        bad(vio, f, 'nothing is written for the areas of a configuration')
    cover(m, f, sp['ser'][0], vio, 'not every element of the configuration is written')
    return n


def element(m, vio):
    """names and children"""
    n = 0
    for f in m.fn(ELT + '::toXml'):
        sp = base_spec(m, f)
        sp['gname'] = (sp['gname'][0], 'num')
        sp['kids'] = ({g.id for g in m.funcs.values() if g.n == 'childrenToXml'}, 'void')
        c, e, outs = run(m, f, sp, strs=True)
        node = par(e, f, 0)
        named_ = False
        for st, rt in outs:
            n += 1
            cur, lost = tree(m, e, st, [node])
            t = cur[node]
            ks = calls(t, 'kids')
            if len(ks) != 1 or ks[0][1] != e.T.mk('this', 0):
                bad(vio, f, 'an element does not write its contents, once')
            nm = [x for x in attrs(t) if x[1] == 'Name']
            if len(nm) > 1 or nm and got(e, nm[0][2], 'gname') != e.T.mk('this', 0):
                bad(vio, f, 'an element is written under another name than its own')
            if not nm and not nameless(e, st):
                bad(vio, f, 'an element that has a name is written without it')
            named_ |= bool(nm)
        if not named_:
            bad(vio, f, 'the name of an element is not written')
    for f in m.fn(ELT + '::childrenToXml'):
        sp = base_spec(m, f)
        sp['toXml'] = (named(m, 'toXml', cls=ELT), 'void')
        c, e, outs = run(m, f, sp)
        node = par(e, f, 0)
        for st, rt in outs:
            n += 1
            cur, lost = tree(m, e, st, [node])
            if lost:
                bad(vio, f, 'something is written in another element than its own')
            for k in cur[node]:
                if k[0] != 'child':
                    bad(vio, f, 'the children of an element are not each in an element of its own')
                    continue
                o = got(e, k[1], 'ename')
                if len(k[2]) != 1 or k[2][0][0] != 'toXml' or o is None or k[2][0][1] != o or not item(e, o):
                    bad(vio, f, 'a child is not written under its own kind')
        cover(m, f, sp['toXml'][0], vio, 'not every child is written')
    for f in m.fn(DOMS + '::toXml'):
        sp = base_spec(m, f)
        c, e, outs = run(m, f, sp)
        node = par(e, f, 0)
        root = Schema(['ConfigurableDomains']).elems.get('ConfigurableDomains')
        req = [a.get('name') for a in root.findall(XS + 'complexType/' + XS + 'attribute') if a.get('use') == 'required'] if root is not None else []
        for st, rt in outs:
            n += 1
            cur, lost = tree(m, e, st, [node])
            t = cur[node]
            a = attrs(t)
            if [x[1] for x in a] != req or any(got(e, x[2], 'gname') != e.T.mk('this', 0) for x in a):
                bad(vio, f, 'the domains are not written with the name of the system')
            b = [x for x in t if x[0] in ('kids', 'toXml')]
            if len(b) != 1 or b[0][0] != 'kids' or b[0][1] != e.T.mk('this', 0) or lost:
                bad(vio, f, 'the domains are not written, once')
    return n


def nameless(e, st):
    """the path is one on which the name is empty"""
    for t, v in st.facts.items():
        x = e.T.get(t)
        s = e.T.show(t)
        if 'gname' not in s:
            continue
        if x[0] in ('lt', 'le', 'eq', 'ne', 'gt', 'ge') and ('::size' in s or '::length' in s):
            import re
            k = [int(z) for z in re.findall(r'int\((-?\d+)\)', s)]
            if len(k) == 1:
                left = s.startswith(x[0] + '(%int(')
                op = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
                      'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}[x[0]]
                can = [n for n in (0, 1, 2, 7) if op(*((k[0], n) if left else (n, k[0]))) is bool(v)]
                if can == [0]:
                    return True
            continue
        if '::empty' in s and v or ('::size' in s or '::length' in s) and x[0] == 'lib' and not v or ('strlit()' in s or 'default)' in s) and (bool(v) is (x[0] != 'ne')):
            return True
    return False


def settings(m, vio):
    n = 0
    CE, BP = 'CConfigurableElement', 'CBaseParameter'
    sout = field_of(m, 'CConfigurationAccessContext::serializeOut')

    def out_(e, st):
        for t, v in st.facts.items():
            x = e.T.get(t)
            if x[0] == 'fld' and x[2] == sout:
                return bool(v)
        return None
    for f in m.fn(CE + '::serializeXmlSettings'):
        sp = base_spec(m, f)
        sp['ser'] = (named(m, 'serializeXmlSettings'), 'void')
        c, e, outs = run(m, f, sp)
        node, ctx = par(e, f, 0), par(e, f, 1)
        some = 0
        for st, rt in outs:
            o_ = out_(e, st)
            if o_ is None:
                bad(vio, f, 'settings are read or written without asking which')
                continue
            cur, lost = tree(m, e, st, [node])
            t = cur[node]
            n += 1
            if not o_:
                if any(x[0] in ('attr', 'child', 'text') for x in t):
                    bad(vio, f, 'reading settings changes the document')
                continue
            a = attrs(t)
            if len(a) != 1 or a[0][1] != 'Name' or got(e, a[0][2], 'gname') != e.T.mk('this', 0):
                bad(vio, f, 'the settings of an element do not bear its name')
            for k in t:
                if k[0] == 'attr':
                    continue
                some = 1
                o = got(e, k[1], 'ename') if k[0] == 'child' else None
                if o is None or not item(e, o) or len(k[2]) != 1 or k[2][0][0] != 'ser' or k[2][0][1] != o or k[2][0][2] != (ctx,):
                    bad(vio, f, 'the settings of a child are not written under its own kind, once')
            if lost:
                bad(vio, f, 'something is written in another element than its own')
            if not (rt is not None and yes(e, st, rt) is True):
                bad(vio, f, 'settings written are reported as failed')
        if not some:
            bad(vio, f, 'the children of an element are left out of its settings')
        fails = named(m, 'serializeXmlSettings')
        cover(m, f, fails, vio, 'not the settings of every child are written', sout)
    gv, sv = named(m, 'doGetValue'), named(m, 'doSetValue')
    for f in m.fn(BP + '::serializeXmlSettings'):
        sp = base_spec(m, f)
        sp['get'] = (gv, 'void')
        sp['set_'] = (sv, 'bool')
        sp['tc'] = (ids(m, XE + '::getTextContent'), 'num')
        c, e, outs = run(m, f, sp)
        node, ctx = par(e, f, 0), par(e, f, 1)
        dirs = set()
        for st, rt in outs:
            o_ = out_(e, st)
            if o_ is None:
                bad(vio, f, 'a value is read or written without asking which')
                continue
            dirs.add(o_)
            n += 1
            cur, lost = tree(m, e, st, [node])
            t = cur[node]
            g, s, tx = of(st, 'get'), of(st, 'set_'), [x for x in t if x[0] == 'text']
            if o_:
                if s or len(g) != 1 or len(tx) != 1:
                    bad(vio, f, 'the value of a parameter is not read once and written once')
                    continue
                ev_ = next(x for x in st.auto if x[0] == 'text')
                if g[0][3][0] not in (ev_[3][0],) or st.auto.index(g[0]) > st.auto.index(ev_) or not given(e, g[0][3][-1], f, 1):
                    bad(vio, f, 'the text of a parameter is not the value read')
            else:
                if g or tx or len(s) != 1:
                    bad(vio, f, 'the value of a parameter is not taken from the document, once')
                    continue
                z = e.T.get(castless(e, s[0][2][0]))
                if z[0] != 'got' or z[1] != 'tc' or z[2].i != node and z[2].i != e.addr(node):
                    bad(vio, f, 'the value of a parameter is not the text of its element')
            b = calls(t, 'ser')
            failed = s and not s[0][4]
            if not failed and (len(b) != 1 or b[0][1] != e.T.mk('this', 0) or b[0][2] != (ctx,)):
                bad(vio, f, 'a parameter does not write its name')
            if rt is not None and yes(e, st, rt) is True and (failed or b and not b[0][3]):
                bad(vio, f, 'a value that was refused is reported as taken')
        if dirs != {True, False}:
            bad(vio, f, 'a parameter is not both written and read')
    hv = named(m, 'handleValueSpaceAttribute')
    for f in m.fn('CParameter::serializeXmlSettings'):
        sp = base_spec(m, f)
        sp['space'] = (hv, 'void')
        c, e, outs = run(m, f, sp, inl=())
        node, ctx = par(e, f, 0), par(e, f, 1)
        for st, rt in outs:
            n += 1
            seq = [x for x in st.auto if x[0] in ('space', 'ser')]
            if [x[0] for x in seq] != ['space', 'ser'] or any(tuple(x[3][:2]) != (node, ctx) for x in seq):
                bad(vio, f, 'the value space is not settled before the value is read or written')
            elif yes(e, st, rt) is not bool(seq[1][4]):
                bad(vio, f, 'the settings of a parameter are not reported as they went')
    for f in m.fn('CParameter::handleValueSpaceAttribute'):
        if not f.nodes:
            continue
        hv2 = {g.id for g in m.funcs.values() if g.n == f.n and g.cls and m.derives(g.cls, 'CParameterType')}
        c, e, outs = run(m, f, {'space': (hv2, 'void')}, inl=())
        for st, rt in outs:
            n += 1
            s = of(st, 'space')
            if len(s) != 1 or tuple(s[0][3][:2]) != (par(e, f, 0), par(e, f, 1)):
                bad(vio, f, 'the type of the parameter is not asked about the value space')
    raw = field_of(m, 'CParameterAccessContext::valueSpaceIsRaw')
    k = 0
    for f in list(m.funcs.values()):
        if f.n != 'handleValueSpaceAttribute' or not f.cls or not m.derives(f.cls, 'CParameterType') or f.cls == 'CParameterType':
            continue
        k += 1
        n += space(m, f, vio, out_, raw)
    if k < 2:
        raise AnalysisError('anchor vanished: value space of the types')
    return n


class Space(Doc):
    """getAttribute(ValueSpace): there or not; its text is Raw or not"""

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if tg & self.gets:
            nm = self.val(eng, st, args[0])
            out = []
            for there, w in ((1, 1), (1, 0), (0, 0)):
                q = st.copy()
                q.auto = q.auto + (('read', nm, obj, there, w),)
                if there:
                    eng.wr(q, args[1], eng.T.mk('strlit', 'Raw' if w else 'Real'), ('w', fr.id, 0, i, w))
                out.append((q, eng.TRUE if there else eng.FALSE))
            return out
        if not fi.get('repo') and fi.get('n') in ('operator==', 'operator!=', 'compare') and len(args) + (obj is not None) == 2:
            a, b = [self.val(eng, st, x) for x in ([obj] if obj is not None else []) + list(args)]
            ta, tb = text(self.m, eng, a), text(self.m, eng, b)
            if ta is None and eng.T.get(a)[0] == 'lib':
                ta = ''
            if tb is None and eng.T.get(b)[0] == 'lib':
                tb = ''
            if ta is not None and tb is not None:
                eq = ta == tb
                if fi['n'] == 'compare':
                    return [(st, eng.const(0 if eq else 1))]
                return [(st, eng.TRUE if eq is (fi['n'] == 'operator==') else eng.FALSE)]
        return Doc.on_call(self, eng, st, fr, i, n, tg, obj, args)


def space(m, f, vio, out_, raw):
    n = 0
    sp = base_spec(m, f)
    gets = {g.id for g in m.funcs.values() if g.cls == XE and g.n == 'getAttribute'}
    c, e, outs = run(m, f, sp, cls=Space, gets=gets)
    node, ctx = par(e, f, 0), par(e, f, 1)
    word = 'Raw'
    seen = set()
    for st, rt in outs:
        o_ = out_(e, st)
        n += 1
        if o_ is None:
            bad(vio, f, 'the value space is read or written without asking which')
            continue
        cur, lost = tree(m, e, st, [node])
        t = cur[node]
        w = [x for x in st.auto if x[0] == 'set' and e.T.get(x[1])[0] == 'Lfld' and e.T.get(x[1])[2] == raw]
        if o_:
            israw = next((bool(v) for k, v in st.facts.items() if e.T.get(k)[0] == 'fld' and e.T.get(k)[2] == raw), None)
            if israw is None:
                bad(vio, f, 'the value space is not marked as it is')
                continue
            seen.add((o_, israw))
            at = attrs(t)
            good = not at if not israw else len(at) == 1 and at[0][1] == 'ValueSpace' and text(m, e, at[0][2]) == word
            if not good or len(t) != len(at) or w:
                bad(vio, f, 'the raw value space is not marked, or another is marked raw')
        else:
            if t:
                bad(vio, f, 'reading the value space changes the document')
            rd = [x for x in st.auto if x[0] == 'read']
            if len(rd) < 1 or text(m, e, rd[-1][1]) != 'ValueSpace' or lvof(e, rd[-1][2]) != node:
                bad(vio, f, 'the value space is not read from the element')
                continue
            israw = bool(rd[-1][4])
            seen.add((o_, israw))
            v = e.truth(st, w[-1][2]) if w else None
            if v is not israw:
                bad(vio, f, 'a value space is not taken as it is marked')
    if len(seen) != 4:
        bad(vio, f, 'the value space is not decided in both directions')
    return n


def rules(m, vio):
    n = 0
    R, C = 'CSelectionCriterionRule', 'CCompoundRule'
    fieldty = lambda cls, p: only(m, cls, p, 'field of ' + cls)
    kind = fieldty(C, lambda t: t == 'bool')
    crit = fieldty(R, lambda t: 'CSelectionCriterion' in t and t.endswith('*'))
    ref = lambda e, t: e.T.get(castless(e, t))
    for f in m.fn(C + '::toXml'):
        c, e, outs = run(m, f, base_spec(m, f))
        node = par(e, f, 0)
        for st, rt in outs:
            n += 1
            t = tree(m, e, st, [node])[0][node]
            a = attrs(t)
            x = ref(e, a[0][2]) if len(a) == 1 else ('',)
            if len(a) != 1 or a[0][1] != 'Type':
                bad(vio, f, 'a compound rule is not written with its type, once')
            elif x[0] in ('idx', 'Lidx') and len(x) > 2:
                k = e.T.get(castless(e, x[2].i))
                g = e.T.get(castless(e, x[1].i))
                if k[0] == 'int':
                    v = next((int(bool(b)) for q, b in st.facts.items() if e.T.get(q)[0] == 'fld' and e.T.get(q)[2] == kind), None)
                    if v is not None and k[1] == v:
                        k = ('fld', 0, kind)
                if k[0] != 'fld' or k[2] != kind or g[0] not in ('glob', 'Lglob', 'addr', 'drf') and 'glob(' not in e.T.show(x[1].i):
                    bad(vio, f, 'the type of a compound rule is written as another')
                elif not same_table(m, C, e, x[1].i):
                    bad(vio, f, 'the type of a compound rule is not written from the table the import reads')
            else:
                s = text(m, e, a[0][2])
                v = next((bool(b) for q, b in st.facts.items() if e.T.get(q)[0] == 'fld' and e.T.get(q)[2] == kind), None)
                if s is None or v is None or s != ('All' if v else 'Any'):
                    bad(vio, f, 'the type of a compound rule is written as another')
            b = calls(t, 'toXml') + calls(t, 'kids')
            if len(b) != 1 or b[0][1] != e.T.mk('this', 0):
                bad(vio, f, 'the inner rules of a compound rule are not written, once')
    how = fieldty(R, lambda t: t.endswith('MatchesWhen'))
    val = fieldty(R, lambda t: t == 'int')
    for f in m.fn(R + '::toXml'):
        sp = base_spec(m, f)
        sp.pop('toXml', None)
        sp['lit'] = (named(m, 'getLiteralValue'), 'bool')
        sp['fmt'] = (named(m, 'getFormattedState'), 'num')
        c, e, outs = run(m, f, sp, cls=Rule)
        node = par(e, f, 0)
        for st, rt in outs:
            n += 1
            t = tree(m, e, st, [node])[0][node]
            a = {x[1]: x[2] for x in attrs(t)}
            if len(attrs(t)) != 3 or set(a) != {'SelectionCriterion', 'MatchesWhen', 'Value'}:
                bad(vio, f, 'a criterion rule is not written with its criterion, its verb and its value, once each')
                continue
            o = got(e, a['SelectionCriterion'], 'gname')
            z = e.T.get(castless(e, o)) if o is not None else ('',)
            if z[0] not in ('fld', 'drf') or crit not in e.T.show(o):
                bad(vio, f, 'a criterion rule is written for another criterion')
            s = e.T.show(a['MatchesWhen'])
            if 'idx(' not in s or how not in s:
                bad(vio, f, 'a criterion rule is written with another verb')
            for x in of(st, 'lit') + of(st, 'fmt'):
                y = e.T.get(castless(e, x[2][0]))
                if y[0] != 'fld' or y[2] != val:
                    bad(vio, f, 'a criterion rule is written with another value')
            w = e.T.show(a['Value'])
            lt = of(st, 'lit')
            if not (lt and lt[-1][4] and 'outv(lit' in w or 'got(fmt' in w):
                bad(vio, f, 'a criterion rule is not written with the text of its value')
    return n


class Rule(Doc):
    OUTS = {'lit': (1, 'ptr')}


def same_table(m, cls, e, t):
    """the table is the one the reading functions of the class use"""
    import re
    g = re.search(r'glob\(([^)]*)\)', e.T.show(t))
    if not g:
        return False
    for f in m.fn(cls + '::fromXml'):
        for h in m.reachable([f.id]) | {f.id}:
            h = m.funcs.get(h)
            if h and h.file == f.file and any(x['k'] == 'Ref' and (x.get('d') or {}).get('u') == g.group(1) for x in h.nodes):
                return True
    return False


# ---- (b) names
def names(m, vio):
    n = 0
    xs = lambda *ns: {g.id for g in m.funcs.values() if g.cls == XE and g.n in ns}
    W, R = xs('setAttribute', 'createChild'), xs('getAttribute', 'hasAttribute', 'getChildElement')
    WN, RN = xs('setNameAttribute'), xs('getNameAttribute')

    def lits(f, at):
        out = set()
        st = [at]
        while st:
            i = st.pop()
            x = f.nodes[i]
            if x['k'] == 'Str':
                out.add(x.get('v'))
            elif x['k'] == 'Ref' and x.get('d', {}).get('k') != 'local':
                q = x.get('d', {}).get('q')
                v = const_text(m, q) if q else None
                if v is not None:
                    out.add(v)
            st += [y for y in x.get('c', ()) if isinstance(y, int) and y >= 0]
        return out
    for cls, also in ((DOM, ()), ('CCompoundRule', ()), ('CSelectionCriterionRule', ()), ('CSelectionCriterionRule', ())):
        wr, rd = {}, {}
        for f in m.funcs.values():
            if f.cls != cls:
                continue
            for i, x in enumerate(f.nodes):
                if x['k'] != 'Call':
                    continue
                tg = m.targets(f, x)
                c_ = x.get('c', [])
                if tg & (WN | RN):
                    (wr if tg & WN else rd).setdefault('Name', (f, i))
                    continue
                if not tg & (W | R):
                    continue
                args = x.get('args') or c_
                for a in args:
                    if isinstance(a, int) and a >= 0 and 'CXmlElement' not in (f.nodes[a].get('t') or ''):
                        k = lits(f, a)
                        if tg & W and 'createChild' in {m.funcs[t].n for t in tg if t in m.funcs} or tg & R or args.index(a) <= 1:
                            for v in k:
                                (wr if tg & W else rd).setdefault(v, (f, i))
                        if k:
                            break
        n += len(wr) + len(rd)
        for v, (f, i) in rd.items():
            if v not in wr and v != 'Name':
                bad(vio, f, 'the import reads %s, which the export does not write' % v, i)
        base = {'ConfigurableElement'}      # read as the children of the list, whatever their kind
        for v, (f, i) in wr.items():
            if v not in rd and v not in base:
                bad(vio, f, 'the export writes %s, which the import does not read' % v, i)
        if not wr or not rd:
            raise AnalysisError('anchor vanished: names of ' + cls)
    return n


# ---- (d)
def requests(m, vio):
    n = 0
    flag = field_of(m, 'CXmlDomainSerializingContext::withSettings')
    xraw, xhex = field_of(m, 'CXmlDomainExportContext::valueSpaceIsRaw'), field_of(m, 'CXmlDomainExportContext::outputRawFormatIsHex')
    mraw, mhex = field_of(m, MGR + '::valueSpaceIsRaw'), field_of(m, MGR + '::outputRawFormatIsHex')
    ser = ids(m, MGR + '::serializeElement')
    find = ids(m, DOMS + '::findConfigurableDomain')
    doms = ids(m, MGR + '::getConstConfigurableDomains')
    spec = {'ser': (ser, 'bool'), 'find': (find, 'ptr'), 'doms': (doms, 'obj')}
    for q, kset, kfile, one in ((MGR + '::exportDomainsXml', 1, 2, False), (MGR + '::exportSingleDomainXml', 2, 3, True)):
        for f in m.fn(q):
            c, e, outs = run(m, f, spec, cls=Exp)
            some = set()
            for st, rt in outs:
                n += 1
                s = of(st, 'ser')
                r_ = yes(e, st, rt)
                if r_ is not False and (not s or not s[-1][4]):
                    bad(vio, f, 'an export that was not made is reported as made')
                if not s:
                    continue
                if len(s) != 1:
                    bad(vio, f, 'an export is not written once')
                what = s[0][3][2]
                fd = of(st, 'find')
                tgt = castless(e, lvof(e, what) if e.T.get(what)[0] == 'addr' else what)
                x = e.T.get(tgt)
                base = x[1].i if x[0] == 'Lder' else tgt
                z = e.T.get(base)
                if z[0] != 'got' or z[1] != ('find' if one else 'doms'):
                    bad(vio, f, 'another object than the one asked for is exported')
                if one and (not fd or not given(e, fd[-1][2][0], f, 1) and not given(e, fd[-1][3][0], f, 1)):
                    bad(vio, f, 'another domain than the one named is exported')
                # the context
                cx = s[0][3][1]
                v = context(e, st, st.auto.index(s[0]), cx)
                if v.get(flag) is None or not given(e, v[flag], f, kset):
                    bad(vio, f, 'an export does not keep to whether settings are asked for')
                for a, b, t in ((xraw, mraw, 'value space'), (xhex, mhex, 'raw format')):
                    y = e.T.get(castless(e, v[a])) if v.get(a) is not None else ('',)
                    if y[0] != 'fld' or y[2] != b:
                        bad(vio, f, 'an export does not use the %s of the session' % t)
                tf = e.truth(st, par(e, f, kfile))
                if tf is None:
                    tf = next((bool(b) for a, b in st.facts.items() if a == par(e, f, kfile)), None)
                if tf is None:
                    bad(vio, f, 'an export does not ask where it has to go')
                    continue
                some.add(tf)
                ops = [x[1] for x in st.auto if x[0] == 'lib']
                if tf:
                    done = not s[0][4] or r_ is False
                    opened = any(x[0] == 'lib' and x[1] == 'open' for x in st.auto) or True
                    if r_ is not False and not done and not self_checked(st, st.auto.index(s[0])):
                        bad(vio, f, 'a file that could not be written entirely is reported as written')
                elif r_ is not False and s[0][4]:
                    w = [x for x in st.auto if x[0] == 'set' and x[1] == par(e, f, 0)]
                    i = st.auto.index(s[0])
                    if not w or st.auto.index(w[-1]) < i or 'str' not in ops[-1:] and not any(o == 'str' for o in ops):
                        bad(vio, f, 'the text given is not the document composed')
                elif r_ is False and any(x[0] == 'set' and x[1] == par(e, f, 0) for x in st.auto):
                    pass
            if some != {True, False}:
                bad(vio, f, 'an export goes to the same place whatever is asked')
    for f in m.fn(MGR + '::serializeElement'):
        n += compose(m, f, vio)
    n += sinks(m, vio)
    return n


class Exp(Doc):
    LIB = ('open', 'close', 'exceptions', 'good', 'fail', 'bad', 'operator!', 'operator bool', 'flush', 'str', 'is_open')


def self_checked(st, i):
    """the stream raises on errors, or its state is looked at, and it was closed or flushed after the writing"""
    before = [x[1] for x in st.auto[:i] if x[0] == 'lib']
    after = [x[1] for x in st.auto[i + 1:] if x[0] == 'lib']
    closed = any(x in ('close', 'flush') for x in after)
    k = next((j for j, x in enumerate(after) if x in ('close', 'flush')), None)
    return closed and ('exceptions' in before or any(x in ('good', 'fail', 'bad', 'operator!', 'operator bool') for x in after[k:]))


def context(e, st, i, cx):
    v = {}
    for y in st.auto[:i]:
        if y[0] == 'set':
            z = e.T.get(y[1])
            if z[0] == 'Lfld' and (z[1].i == cx or e.T.get(z[1].i)[0] == 'Ltmp'):
                v[z[2]] = y[2]
    return v


def compose(m, f, vio):
    n = 0
    MS, SK = 'CXmlMemoryDocSource', 'CXmlStreamDocSink'
    pr = named(m, 'process')
    pr = {i for i in pr if m.funcs[i].cls and m.derives(SK, m.funcs[i].cls)}
    ctor = {g.id for g in m.funcs.values() if g.ctor and g.cls in (MS, SK)}
    sp = {'proc': (pr, 'bool'), 'mk': ({g.id for g in m.funcs.values() if g.ctor and g.cls == MS}, 'void'),
          'mks': ({g.id for g in m.funcs.values() if g.ctor and g.cls == SK}, 'void'),
          'ename': (named(m, 'getXmlElementName'), 'num')}
    c, e, outs = run(m, f, sp)
    good = 0
    for st, rt in outs:
        n += 1
        p, a, b = of(st, 'proc'), of(st, 'mk'), of(st, 'mks')
        r_ = yes(e, st, rt)
        if r_ is not False and not (p and p[-1][4]):
            bad(vio, f, 'a document that was not written is reported as written')
        if not p:
            continue
        good += 1
        if r_ is False and p[-1][4]:
            bad(vio, f, 'a document that was written is reported as failed')
        if len(p) != 1 or len(a) != 1 or len(b) != 1:
            bad(vio, f, 'a document is not composed once and written once')
            continue
        if not given(e, a[0][2][0], f, 2) and not given(e, a[0][3][0], f, 2):
            bad(vio, f, 'another element than the one given is composed')
        root = a[0][2][2]
        if not given(e, root, f, 2):
            bad(vio, f, 'the root of the document is not of the kind of the element')
        if not given(e, b[0][3][0], f, 0):
            bad(vio, f, 'the document is not written where it was asked')
        if not given(e, p[0][3][1], f, 1):
            bad(vio, f, 'the document is not written in the context of the request')
    if not good:
        bad(vio, f, 'no document is ever written')
    return n


class Sink(Doc):
    """xmlDocDumpFormatMemoryEnc: gives a text or none"""
    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if fi.get('n', '').startswith('xmlDocDump') and len(args) >= 2:
            out = []
            for w in (1, 0):
                q = st.copy()
                t = eng.T.mk('dump') if w else eng.NULL
                x = eng.T.get(self.val(eng, st, args[1]))
                if x[0] != 'addr':
                    return None
                q.auto = q.auto + (('dump', self.val(eng, st, args[0]), w),)
                eng.wr(q, x[1].i, t, ('w', fr.id, 0, i, w))
                if w:
                    q.facts = dict(q.facts)
                    q.facts[t] = True
                out.append((q, None))
            return out
        if fi.get('n') in ('operator<<', 'write') and not fi.get('repo'):
            if any('dump(' in eng.T.show(self.val(eng, st, a)) for a in args):
                q = st.copy()
                q.auto = q.auto + (('put', eng.T.show(obj if obj is not None else args[0]) + ' ' + ' '.join(eng.T.show(a) for a in args)),)
                return [(q, None)]
        return Doc.other(self, eng, st, fr, i, n, tg, obj, args)


def sinks(m, vio):
    n = 0
    SK = 'CXmlStreamDocSink'
    out = [x['u'] for x in m.classes[SK]['fields'] if 'ostream' in x['t']]
    for f in m.fn(SK + '::doProcess'):
        sp = {'doc': (named(m, 'getDoc', cls='CXmlDocSource'), 'num')}
        c, e, outs = run(m, f, sp, cls=Sink)
        good = 0
        for st, rt in outs:
            n += 1
            d, p = of(st, 'dump'), of(st, 'put')
            if not d:
                bad(vio, f, 'the document is not turned into text')
                continue
            x = e.T.get(castless(e, d[-1][1]))
            if x[0] != 'got' or x[1] != 'doc':
                bad(vio, f, 'another document is turned into text')
            if yes(e, st, rt) is not bool(d[-1][2]):
                bad(vio, f, 'a document without a text is reported as written, or one with a text as failed')
            if bool(p) is not bool(d[-1][2]) or len(p) > 1 or p and not (out and out[0].split('::')[-1] in p[0][1]):
                bad(vio, f, 'the text of the document is not written to the stream, once')
            good += bool(p)
        if not good:
            bad(vio, f, 'the text of the document is not written to the stream')
    MS = 'CXmlMemoryDocSource'
    src = [x['u'] for x in m.classes[MS]['fields'] if 'IXmlSource' in x['t']]
    for f in m.fn(MS + '::populate'):
        sp = {'toXml': (named(m, 'toXml'), 'void')}
        c, e, outs = run(m, f, sp)
        for st, rt in outs:
            n += 1
            t = of(st, 'toXml')
            if len(t) != 1 or not src or e.T.get(castless(e, t[0][1]))[0] != 'fld' or e.T.get(castless(e, t[0][1]))[2] != src[0]:
                bad(vio, f, 'the source is not composed, once')
            elif yes(e, st, rt) is not True:
                bad(vio, f, 'a document composed is reported as failed')
            else:
                root = [x for x in st.auto if x[0] == 'set' and '_pXmlElement' in e.T.show(x[1])]
                if not root or '_pRootNode' not in e.T.show(root[-1][2]):
                    bad(vio, f, 'the source is not composed under the root of the document')
    # populate, then write
    for f in [g for g in m.funcs.values() if g.n == 'process' and g.cls and m.derives(SK, g.cls) and g.nodes]:
        sp = {'pop': (named(m, 'populate'), 'bool'), 'do': (named(m, 'doProcess'), 'bool')}
        c, e, outs = run(m, f, sp)
        for st, rt in outs:
            n += 1
            seq = [(x[0], x[4]) for x in st.auto if x[0] in ('pop', 'do')]
            if seq not in ([('pop', 0)], [('pop', 1), ('do', 1)], [('pop', 1), ('do', 0)]):
                bad(vio, f, 'a document is not composed, then written')
            elif yes(e, st, rt) is not (seq[-1] == ('do', 1)):
                bad(vio, f, 'a document is not reported as it went')
    return n


# ---- (e)
class Prim(Doc):
    """calls of libxml2"""
    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        nm = fi.get('n') or ''
        if nm in ('xmlGetProp', 'xmlGetNoNsProp', 'xmlNodeGetContent', 'xmlHasProp', 'xmlHasNsProp'):
            out = []
            for w in (1, 0):
                q = st.copy()
                t = eng.T.mk('xml', nm) if w else eng.NULL
                q.auto = q.auto + (('x', nm, tuple(eng.T.show(self.val(eng, st, a)) for a in args), w),)
                if w:
                    q.facts = dict(q.facts)
                    q.facts[t] = True
                out.append((q, t))
            return out
        if nm in ('xmlNewProp', 'xmlSetProp', 'xmlAddChild', 'xmlNodeAddContent', 'xmlNodeSetContent', 'xmlNewChild', 'xmlNewText', 'xmlNewTextChild', 'xmlNewDocText'):
            t = eng.T.mk('xml', nm, *[r(self.val(eng, st, a)) for a in args])
            q = st.copy()
            q.auto = q.auto + (('x', nm, tuple(eng.T.show(self.val(eng, st, a)) for a in args), 1),)
            return [(q, t)]
        return Doc.other(self, eng, st, fr, i, n, tg, obj, args)


def prims(m, vio):
    n = 0

    def go(name, pred=lambda f: True):
        fs = [f for f in m.funcs.values() if f.cls == XE and f.n == name and f.nodes and pred(f)]
        if not fs:
            raise AnalysisError('anchor vanished: %s::%s' % (XE, name))
        for f in fs:
            c, e, outs = run(m, f, {}, cls=Prim)
            for st, rt in outs:
                yield f, e, st, rt
    P = lambda f, k: f.params[k]['u']
    for f, e, st, rt in go('setAttribute', lambda f: f.params[1]['t'] == 'const char *'):
        n += 1
        x = of(st, 'x')
        if len(x) != 1 or '_pXmlElement' not in x[0][2][0] or P(f, 0) not in x[0][2][1] or P(f, 1) not in x[0][2][2]:
            bad(vio, f, 'an attribute is not written with the name and value given, once')
    for f, e, st, rt in go('setTextContent'):
        n += 1
        x = [y for y in of(st, 'x') if y[1] not in ('xmlNewText', 'xmlNewDocText')]
        if len(x) != 1 or '_pXmlElement' not in x[0][2][0] or P(f, 0) not in x[0][2][1] and not any(
                y[1] in ('xmlNewText', 'xmlNewDocText') and P(f, 0) in y[2][-1] for y in of(st, 'x')):
            bad(vio, f, 'a text is not written as given, once')
    for f, e, st, rt in go('createChild'):
        n += 1
        x = of(st, 'x')
        w = [y for y in st.auto if y[0] == 'set' and P(f, 0) in e.T.show(y[1])]
        if len(x) != 1 or '_pXmlElement' not in x[0][2][0] or P(f, 1) not in x[0][2][2] or not w or not e.T.show(w[-1][2]).startswith('xml('):
            bad(vio, f, 'a child is not created under the element with the kind given')
    sa = {g.id for g in m.funcs.values() if g.cls == XE and g.n == 'setAttribute'}
    for f in [g for g in m.funcs.values() if g.cls == XE and g.n == 'setNameAttribute' and g.nodes]:
        c, e, outs = run(m, f, {'attr': (sa, 'void')})
        for st, rt in outs:
            n += 1
            a = of(st, 'attr')
            if len(a) != 1 or text(m, e, a[0][2][0]) != 'Name' or not given(e, a[0][2][1], f, 0):
                bad(vio, f, 'the name is not written as Name')
    cs = {g.id for g in m.funcs.values() if g.cls == XE and g.n == 'setAttribute' and g.params[1]['t'] == 'const char *'}
    for f in [g for g in m.funcs.values() if g.cls == XE and g.n == 'setAttribute' and g.nodes and g.params[1]['t'] == 'const bool &']:
        c, e, outs = run(m, f, {'attr': (cs, 'void')})
        seen = {}
        for st, rt in outs:
            n += 1
            a = of(st, 'attr')
            if len(a) != 1 or not given(e, a[0][2][0], f, 0) and not given(e, a[0][3][0], f, 0):
                bad(vio, f, 'a truth value is not written under its name, once')
                continue
            p = par(e, f, 1)
            for w in (True, False):
                fit = all(bool(v) is w for t, v in st.facts.items() if e.T.get(t)[0] in ('init', 'drf') and P(f, 1) in e.T.show(t))
                if fit:
                    v = a[0][2][1]
                    x = e.T.get(castless(e, v))
                    s = text(m, e, v)
                    if s is None and x[0] in ('cond', 'ite', 'sel'):
                        s = text(m, e, x[2].i if w else x[3].i)
                    seen.setdefault(w, set()).add(s)
        if any(s not in (('true', '1') if w else ('false', '0')) for w in seen for s in seen[w]) or len(seen) != 2:
            bad(vio, f, 'a truth value is not written as the import reads it')
    for f, e, st, rt in go('getAttribute', lambda f: 'string' in f.params[1]['t']):
        n += 1
        x = [y for y in of(st, 'x') if y[1] in ('xmlGetProp', 'xmlGetNoNsProp')]
        has = x and x[-1][3]
        if len(x) != 1 or '_pXmlElement' not in x[0][2][0] or P(f, 0) not in x[0][2][1]:
            bad(vio, f, 'an attribute is not looked up under the name given')
            continue
        if yes(e, st, rt) is not bool(has):
            bad(vio, f, 'an attribute is not said to be there exactly when it is')
        w = [y for y in st.auto if y[0] == 'set' and y[1] == par(e, f, 1)]
        if has and (not w or 'xml(' not in e.T.show(w[-1][2])):
            bad(vio, f, 'the value given is not that of the attribute')
    for f, e, st, rt in go('hasAttribute'):
        n += 1
        x = of(st, 'x')
        if len(x) != 1 or P(f, 0) not in x[0][2][1] or yes(e, st, rt) is not bool(x[0][3]):
            bad(vio, f, 'an attribute is not said to be there exactly when it is')
    for f, e, st, rt in go('getTextContent'):
        n += 1
        x = [y for y in of(st, 'x')]
        if len(x) != 1 or '_pXmlElement' not in x[0][2][0] or bool(x[0][3]) is not (rt is not None and 'xml(' in e.T.show(rt)):
            bad(vio, f, 'the text given is not that of the element')
    return n


def check(m, tier):
    vio = []
    n = domain(m, vio) + element(m, vio) + settings(m, vio) + rules(m, vio) + names(m, vio) + requests(m, vio) + prims(m, vio)
    return result(None, {'instances_checked': n, 'functions': 30}, dedup(vio))
