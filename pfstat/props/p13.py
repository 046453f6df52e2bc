"""Saved areas are complete and valid. (a) An area is marked valid only on paths where its whole block was just filled
(saved from the live settings, copied from another block, or parsed from XML with success), and validating an area fills
an invalid one and leaves a valid one alone. (b) Copies between a block and its surroundings go in the right
direction and place: live settings at the position of the element, an enclosing element's block at the distance of the
two elements; bit fields are copied by merging the source bits into the current destination block. (c) Saving,
restoring, validating, splitting, composing visit every area, configuration and domain. (d) An area that is already valid
is never overwritten by another configuration: on every path to such a copy the destination was found invalid, or
is a configuration created on that path. (e) A configuration or an association added by a tuning operation is validated
before success is reported. (f) Every manager operation that imports domains from XML validates them on every path on
which they are part of the system, also when the import failed half way; start-up does it after back synchronisation
and before the first application."""
from .common import *
from ..loops import each

TECHNIQUE = 'path-sensitive typestate (filled => valid; imported => validated), linear offset terms, loop coverage analysis'
NOTE = 'the meaning of the bit mask used when merging bit fields is the object of P30'
AREA, CONF, DOM, DOMS = 'CAreaConfiguration', 'CDomainConfiguration', 'CConfigurableDomain', 'CConfigurableDomains'
BIT, BB, MGR = 'CBitwiseAreaConfiguration', 'CParameterBlackboard', 'CParameterMgr'


def u(x):
    return x.i if hasattr(x, 'i') else x


def ids(m, *qs):
    out = set()
    for q in qs:
        out |= {f.id for f in m.fn(q)}
    return out


def fld(m, cls, pred, what):
    u = [x['u'] for x in m.classes[cls]['fields'] if pred(x['t'])]
    if len(u) != 1:
        raise AnalysisError('anchor vanished: ' + what)
    return u[0]


class Area(Checker):
    """methods of the area classes: fill / valid"""
    SMALL = 60

    def __init__(self, m, valid, blk, elem, set_valid=None):
        self.m, self.valid, self.blk, self.elem = m, valid, blk, elem
        self.restore = ids(m, BB + '::restoreFrom')
        self.save = ids(m, BB + '::saveTo')
        self.write = ids(m, BB + '::writeInteger', BB + '::writeBuffer', BB + '::writeBytes')
        self.parse = ids(m, 'CConfigurableElement::serializeXmlSettings')
        self.out = ids(m, 'CConfigurationAccessContext::serializeOut')
        self.copyto = {f.id for f in m.funcs.values() if f.cls in (AREA, BIT) and f.n == 'copyTo'}
        self.copyfrom = {f.id for f in m.funcs.values() if f.cls in (AREA, BIT) and f.n == 'copyFrom'}
        self.getoff = ids(m, 'CConfigurableElement::getOffset')
        self.n = 0
        self.copies = []

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == AREA and f.id not in self.copyto | self.copyfrom}

    def init(self, eng, f):
        return frozenset()

    def own(self, eng, fr, t):
        """is t (value or lvalue) part of the object of the outermost function"""
        root = fr.chain()[0]
        return root.this is not None and t == root.this

    def p(self, eng, t):
        return eng.addr(t) if eng.islv(t) else t

    def coef(self, eng, t, d=0):
        x = eng.T.get(t)
        if d < 20 and x[0] == 'bin' and x[1] in '+-':
            a, b = self.coef(eng, u(x[2]), d + 1), self.coef(eng, u(x[3]), d + 1)
            o = dict(a)
            for k, v in b.items():
                o[k] = o.get(k, 0) + (v if x[1] == '+' else -v)
            return {k: v for k, v in o.items() if v}
        if x[0] == 'int':
            return {1: x[1]} if x[1] else {}
        return {t: 1}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        m = self.m
        if tg & (self.copyto | self.copyfrom):
            self.n += 1
            to = bool(tg & self.copyto)
            v = [eng.rd(st, a) if eng.islv(a) else a for a in args]
            self.copies.append((to, eng, fr, i, self.own(eng, fr, self.p(eng, obj)), v[0], self.coef(eng, v[1])))
            if not to and self.own(eng, fr, self.p(eng, obj)):
                st.auto = st.auto | {'filled'}
            return [(st, None)]
        if tg & self.restore:
            st.auto = st.auto | {'filled'}
            return [(st, None)]
        if tg & self.parse:
            self.n += 1
            q = st.copy()
            st.auto = st.auto | {'parsed'}
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.out:
            q = st.copy()
            q.auto = q.auto | {'in'}
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.getoff:
            return [(st, eng.T.mk('off', r(self.p(eng, obj))))]
        return None

    def filled(self, st):
        return 'filled' in st.auto or {'parsed', 'in'} <= st.auto

    def on_store(self, eng, st, fr, n, lv, val):
        x = eng.T.get(lv)
        if x[0] == 'Lfld' and x[2] == self.valid:
            self.n += 1
            root = fr.chain()[0]
            v = eng.truth(st, val)
            if v is False:
                st.auto = st.auto | {'unset'}
                return
            if v is None and root.f.n == 'setValid':
                return
            st.auto = (st.auto - {'unset'}) | {'marked'}
            if not self.filled(st):
                eng.report(fr, -1, 'an area is marked valid although its settings were not filled on that path')

    def on_exit(self, eng, st, fr, ret):
        f = fr.f
        if f.ctor or f.acc != PUBLIC or f.n in ('copyTo', 'copyFrom'):
            return
        if 'unset' in st.auto:
            eng.report(fr, -1, 'a valid area is made invalid')
        if 'parsed' in st.auto and 'in' in st.auto and 'marked' not in st.auto and \
                (ret is None or eng.truth(st, ret) is not False):
            eng.report(fr, -1, 'settings parsed with success leave the area invalid')
        if 'filled' in st.auto and 'marked' not in st.auto and any(bare(p['t']) == AREA for p in f.params):
            eng.report(fr, -1, 'an area filled from another one is not marked valid')


class Fills(Checker):
    """validation of one area, per initial validity"""
    SMALL = 60

    def __init__(self, a):
        self.a = a

    def relevant(self, eng):
        return self.a.relevant(eng)

    def init(self, eng, f):
        return frozenset()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if tg & (self.a.copyfrom | self.a.restore):
            st.auto = st.auto | {'filled'}
            return [(st, None)]
        if tg & self.a.copyto:
            return [(st, None)]
        return None


class Dom(Checker):
    """domain operations: additions are validated, valid areas are not overwritten"""
    SMALL = 60
    K = 24

    def __init__(self, m):
        self.m = m
        self.cadd = ids(m, CONF + '::addConfigurableElement')
        self.v1 = {f.id for f in m.fn(CONF + '::validate') if len(f.params) == 1}
        self.v2 = {f.id for f in m.fn(CONF + '::validate') if len(f.params) == 2}
        self.a1 = {f.id for f in m.fn(CONF + '::validateAgainst') if len(f.params) == 1}
        self.a2 = {f.id for f in m.fn(CONF + '::validateAgainst') if len(f.params) == 2}
        self.isv = ids(m, CONF + '::isValid')
        self.merge = ids(m, CONF + '::merge')
        self.child = {f.id for f in m.fn('CElement::addChild')}
        if not (self.v1 and self.v2 and self.a1 and self.a2 and self.isv):
            raise AnalysisError('anchor vanished: validation of configurations')
        self.n = 0
        self.sites = set()
        # functions that validate (or fill by splitting) the area of every configuration
        self.all = {f.id for f in m.funcs.values() if f.cls == DOM and not f.lam and
                    each(m, f, self.v1 | self.v2)[0] is True}
        self.split = {f.id for f in m.funcs.values() if f.cls == DOM and not f.lam and
                      each(m, f, ids(m, CONF + '::split'))[0] is True}

    def relevant(self, eng):
        t = self.cadd | self.v1 | self.v2 | self.a1 | self.a2 | self.isv | self.merge
        return {x for x in self.m.reaching(t) if self.m.funcs[x].cls == DOM}

    def init(self, eng, f):
        return frozenset()

    def on_new(self, eng, st, fr, e, v):
        pass

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        p = None if obj is None else eng.addr(obj) if eng.islv(obj) else obj

        def val(k):
            return eng.rd(st, args[k]) if eng.islv(args[k]) else args[k]
        if tg & self.isv:
            q = st.copy()
            st.auto = st.auto | {('valid', p, val(0))}
            q.auto = q.auto | {('invalid', p, val(0))}
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.cadd:
            self.sites.add((fr.f.id, i))
            st.auto = st.auto | {('area', p)}
            return [(st, None)]
        if tg & self.child and n.get('obj', -1) >= 0:
            st.auto = st.auto | {('child', val(0))}
            return [(st, None)]
        if tg & self.all:
            self.sites.add((fr.f.id, i))
            st.auto = st.auto | {('validated', None)}
            return [(st, None)]
        if tg & (self.v1 | self.v2):
            self.sites.add((fr.f.id, i))
            st.auto = st.auto | {('validated', p)}
            return [(st, None)]
        if tg & self.a2:
            self.sites.add((fr.f.id, i))
            s, e = val(0), val(1)
            if not any(a[0] == 'invalid' and a[1] == p for a in st.auto):
                eng.report(fr, i, 'an area that may hold its own settings is overwritten by those of another configuration')
            if not any(a[0] == 'valid' for a in st.auto):
                eng.report(fr, i, 'settings are copied from an area not known to be valid')
            return [(st, None)]
        if tg & self.a1:
            self.sites.add((fr.f.id, i))
            self.other(eng, st, fr, i, p, val(0))
            if not self.fresh(eng, p, fr):
                eng.report(fr, i, 'a configuration that may hold its own settings is overwritten by another one')
            st.auto = st.auto | {('validated', p)}
            return [(st, None)]
        if tg & self.merge:
            return [(st, None)]
        return None

    def other(self, eng, st, fr, i, p, s):
        if eng.truth(st, eng.cmp('==', s, p)) is not False:
            eng.report(fr, i, 'settings may be copied from the very configuration being filled')

    def fresh(self, eng, p, fr):
        return eng.T.get(p)[0] == 'new'


class Imp(Checker):
    """manager: imported => validated"""
    SMALL = 60

    def __init__(self, m):
        self.m = m
        self.parse = ids(m, MGR + '::xmlParse')
        self.val = ids(m, DOMS + '::validate', DOM + '::validate')
        self.add = ids(m, DOMS + '::addDomain')
        self.back = {f.id for f in m.funcs.values() if f.n == 'sync' and 'BackSynchronizer' in (f.cls or '')}
        self.apply = ids(m, MGR + '::doApplyConfigurations', DOMS + '::apply')
        self.n = 0
        self.seen = set()

    def relevant(self, eng):
        own = {f.id for f in self.m.funcs.values() if f.cls == MGR}
        return self.m.reaching(self.parse | self.val | self.add | self.back | self.apply) & own

    def init(self, eng, f):
        return frozenset()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        m = self.m
        if tg & self.parse:
            f = fr.f
            k = n['c'][1:] if False else None
            dom = any(static_class(f, a)[0] == 'CXmlDomainImportContext' for a in n.get('a', n.get('c', ())))
            if not dom:
                return [(st, eng.TRUE), (st.copy(), eng.FALSE)]
            self.n += 1
            self.seen.add(f.id)
            root = args[1]
            root = eng.rd(st, root) if eng.islv(root) else root
            st.auto = st.auto | {('imported', None)}
            return [(st, eng.TRUE), (st.copy(), eng.FALSE)]
        if tg & self.add:
            q = st.copy()
            st.auto = st.auto | {('added', None)}
            q.auto = q.auto | {('refused', None)}
            return [(st, eng.TRUE), (q, eng.FALSE)]
        if tg & self.val:
            self.n += 1
            if ('imported', None) in st.auto or ('added', None) in st.auto:
                st.auto = frozenset(a for a in st.auto if a[0] not in ('imported', 'added')) | {('validated', None)}
            return [(st, None)]
        if tg & self.back:
            st.auto = st.auto | {('back', None)}
            if ('validated', None) in st.auto:
                eng.report(fr, i, 'settings are validated before the back synchronisation they may be filled from')
            return [(st, eng.T.mk('bk', fr.id, i))]
        if tg & self.apply:
            if any(a[0] in ('imported', 'added') for a in st.auto):
                eng.report(fr, i, 'configurations are applied before the imported domains are validated')
            return [(st, None)]
        return None


def check(m, tier):
    vio, n, paths = [], 0, 0

    def bad(f, msg):
        vio.append({'where': '%s:%s' % (f.file, f.line), 'function': f.q, 'message': msg, 'path': f.q})
    valid = fld(m, AREA, lambda t: t == 'bool', 'validity flag of an area')
    blk = fld(m, AREA, lambda t: t == BB, 'block of an area')
    elem = fld(m, AREA, lambda t: bare(t) == 'CConfigurableElement' and t.strip().endswith('*'), 'element of an area')
    # (a), (b)
    copies = []
    for f in m.funcs.values():
        if f.cls in (AREA, BIT) and not f.lam and not f.dtor and not f.ctor and f.n not in ('copyTo', 'copyFrom', 'setValid'):
            c = Area(m, valid, blk, elem)
            e = Engine(m, c)
            e.run(f)
            n += c.n
            paths += e.stats['path_states']
            vio += e.violations
            copies += [(f,) + x for x in c.copies]
    for f in m.funcs.values():
        if f.cls in (AREA, BIT) and f.ctor:
            n += 1
            for x in f.nodes:
                pass
    ini = [x for x in m.classes[AREA]['fields'] if x['u'] == valid]
    for f, to, eng, fr, i, own, other, co in copies:
        n += 1
        if 1 in co:
            eng_bad = True
        ok, why = place(m, eng, fr, own, other, co, elem, blk)
        if not ok:
            bad(f, 'settings are copied %s %s' % ('to' if to else 'from', why))
    dirs = {}
    for f, to, eng, fr, i, own, other, co in copies:
        dirs.setdefault(f.n, set()).add(to)
    for f in m.funcs.values():
        if f.cls == AREA and f.n in ('save', 'restore', 'copyToOuter', 'copyFromOuter'):
            n += 1
            want = f.n in ('restore', 'copyToOuter')
            if dirs.get(f.n) != {want}:
                bad(f, 'the settings are not copied %s the area' % ('out of' if want else 'into'))
    # validate: invalid -> filled and valid; valid -> untouched
    for q, others in ((AREA + '::validate', 1), (AREA + '::validateAgainst', 0)):
        for f in m.fn(q):
            for v0 in ((0, 1) if others else (0,)):
                a = Area(m, valid, blk, elem)
                c = Fills(a)
                e = Engine(m, c)
                outs = e.run(f, lambda g, st, fr: st.heap.__setitem__(g.lfld(g.lder(fr.this), valid), g.const(v0)))
                n += 1
                for st, ret in outs:
                    got = 'filled' in st.auto
                    if v0 and got:
                        bad(f, 'validation overwrites the settings of a valid area')
                    if not v0 and not got:
                        bad(f, 'validation leaves an invalid area unfilled')
            if not any(x['k'] == 'Bin' and x.get('op') == '=' and m.field_of(f, x['c'][0]) == valid or
                       x['k'] == 'Call' and (x.get('f') or {}).get('n') == 'setValid' for g in near(m, f) for x in g.nodes
                       if x['k'] in ('Bin', 'Call') for f in (g,)):
                bad(f, 'validation does not mark the area valid')
    # bitwise copies
    for f in m.funcs.values():
        if f.cls == BIT and f.n in ('copyTo', 'copyFrom'):
            c = Bits(m)
            e = Engine(m, c)
            e.run(f)
            n += c.n
            vio += e.violations
    # (c)
    cov = []
    av, asv, ars = ids(m, AREA + '::validate'), ids(m, AREA + '::save'), ids(m, AREA + '::restore')
    for f in m.fn(CONF + '::save'):
        cov.append((f, asv, {}))
    for f in m.fn(CONF + '::restore'):
        cov.append((f, ars, {}))
    d = Dom(m)
    for f in m.fn(CONF + '::validate'):
        if f.id in d.v1:
            cov.append((f, av, {}))
    for f in m.fn(CONF + '::validateAgainst'):
        if f.id in d.a1:
            cov.append((f, ids(m, AREA + '::validateAgainst'), {}))
    for f in m.fn(CONF + '::split'):
        cov.append((f, ids(m, AREA + '::copyFromOuter'), {}))
    for f in m.fn(CONF + '::composeSettings'):
        cov.append((f, ids(m, AREA + '::serializeXmlSettings'), {}))
    for f in m.fn(DOM + '::validate'):
        cov.append((f, d.v1, {}))
    for f in m.fn(DOM + '::validateAreas'):
        cov.append((f, d.v2, {}))
    for f in m.fn(DOMS + '::validate'):
        cov.append((f, ids(m, DOM + '::validate'), {}))
    for f in m.fn(DOM + '::autoValidateAll'):
        cov.append((f, ids(m, DOM + '::autoValidateAreas'), {}))
    for f, tg, kw in cov:
        n += 1
        v, why = each(m, f, tg, **kw)
        if v is False:
            bad(f, 'not every item is visited: ' + why)
    for q, tg in ((CONF + '::validate', av), (CONF + '::merge', ids(m, AREA + '::copyToOuter'))):
        for f in m.fn(q):
            n += 1
            if not m.reachable({f.id}) & tg:
                bad(f, 'the area is not reached')
    # (d), (e)
    for f in m.funcs.values():
        if f.cls != DOM or f.lam or f.dtor or f.ctor or f.id not in d.relevant(None):
            continue
        if f.acc != PUBLIC and f.n not in ('fromXml',):
            continue
        c = DomExit(m)
        e = Engine(m, c)
        e.run(f)
        n += len(c.sites)
        paths += e.stats['path_states']
        vio += e.violations
    # (f)
    i0 = Imp(m)
    if not i0.parse or not i0.val:
        raise AnalysisError('anchor vanished: import and validation of domains')
    called = {x for x in i0.relevant(None)}
    pub = [f for f in m.funcs.values() if f.cls == MGR and f.acc == PUBLIC and f.id in m.reaching(i0.parse) and not f.lam]
    seen = set()
    for f in pub:
        c = ImpExit(m)
        e = Engine(m, c)
        e.run(f)
        n += c.n
        seen |= c.seen
        paths += e.stats['path_states']
        vio += e.violations
    if not seen:
        raise AnalysisError('anchor vanished: no import of domains found')
    return result(None, {'instances_checked': n, 'path_states': paths}, dedup(vio))


def near(m, f):
    out = [f]
    for i, x in enumerate(f.nodes):
        if x['k'] == 'Call':
            for t in m.targets(f, x):
                g = m.funcs.get(t)
                if g is not None and g.cls == AREA:
                    out.append(g)
    return out


def place(m, eng, fr, own, other, co, elem, blk):
    """the copy of this area's block is made at the right place of the other block"""
    pos, neg = [], []
    for t, k in co.items():
        if t == 1 or abs(k) != 1:
            return False, 'at a position not made of element offsets'
        x = eng.T.get(t)
        if x[0] != 'off':
            return False, 'at a position not made of element offsets'
        (pos if k > 0 else neg).append(u(x[1]))
    if len(pos) != 1 or len(neg) > 1:
        return False, 'at a wrong position'

    def of(t):
        """object whose element field this is"""
        x = eng.T.get(t)
        return u(x[1]) if x[0] == 'fld' and x[2] == elem else t if x[0] != 'fld' else None
    root = fr.chain()[0]
    if not own:
        return False, 'through another area'
    y = eng.T.get(other)
    # is the other side the block of an area?
    inner = None
    if y[0] == 'addr' or y[0] in ('Lfld',):
        z = eng.T.get(u(y[1])) if y[0] == 'addr' else y
        if z[0] == 'Lfld' and z[2] == blk:
            inner = z
    if inner is None and neg:
        return False, 'at a position relative to another element, in the live settings'
    if inner is not None and not neg:
        return False, 'the block of an enclosing element at a position of the live settings'
    px = eng.T.get(pos[0])
    if px[0] == 'fld' and px[2] == elem:
        base = eng.T.get(u(px[1]))
        if not mine(eng, root, px[1]):
            return False, 'at the position of another element'
    if neg:
        qx = eng.T.get(neg[0])
        if qx[0] == 'fld' and qx[2] == elem and mine(eng, root, qx[1]):
            return False, 'at a position relative to itself'
    return True, ''


def mine(eng, root, h):
    t = u(h)
    x = eng.T.get(t)
    return t == root.this or x[0] == 'this' or x[0] in ('Lder', 'Lobj') and (u(x[1])) == root.this


class Bits(Checker):
    """bit field copies: destination = merge(destination, source)"""
    SMALL = 60

    def __init__(self, m):
        self.m = m
        self.rdi = ids(m, BB + '::readInteger')
        self.wri = ids(m, BB + '::writeInteger')
        self.mrg = ids(m, 'CBitParameter::merge')
        self.n = 0

    def relevant(self, eng):
        return set()

    def init(self, eng, f):
        return 0

    def p(self, eng, t):
        return eng.addr(t) if eng.islv(t) else t

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        if tg & self.rdi:
            self.n += 1
            a = args[0]
            a = eng.rd(st, a) if eng.islv(a) else a
            eng.wr(st, eng.lder(a), T.mk('blk', r(self.p(eng, obj))), ('rdi', fr.id, i))
            return [(st, None)]
        if tg & self.mrg:
            self.n += 1
            v = [eng.rd(st, a) if eng.islv(a) else a for a in args]
            return [(st, T.mk('mrg', r(v[0]), r(v[1])))]
        if tg & self.wri:
            self.n += 1
            st.auto = 1
            a = args[0]
            a = eng.rd(st, a) if eng.islv(a) else a
            v = T.get(eng.rd(st, eng.lder(a)))
            dst = self.p(eng, obj)
            ok = False
            if v[0] == 'mrg':
                d, s = (T.get(u(x)) for x in v[1:3])
                if d[0] == s[0] == 'blk':
                    dd, ss = (u(x[1]) for x in (d, s))
                    ok = dd == dst and ss != dst
            if not ok:
                eng.report(fr, i, 'the block written is not the destination block with the source bits merged into it')
            return [(st, None)]
        return None

    def on_exit(self, eng, st, fr, ret):
        if not st.auto:
            eng.report(fr, -1, 'the bits are not copied')


class DomExit(Dom):
    def on_exit(self, eng, st, fr, ret):
        if ret is not None and eng.truth(st, ret) is False or fr.f.n == 'fromXml':
            return
        area = {a[1] for a in st.auto if a[0] == 'area'}
        done = {a[1] for a in st.auto if a[0] == 'validated'}
        new = {a[1] for a in st.auto if a[0] == 'child' and eng.T.get(a[1])[0] == 'new'}
        for p in new:
            if p not in done:
                eng.report(fr, -1, 'a new configuration is not validated')
        if area and not done and not fr.f.id in self.all | self.split and not any(self.nomain(eng, st, fr)):
            eng.report(fr, -1, 'the areas of a newly associated element are not validated')

    def nomain(self, eng, st, fr):
        for p in fr.f.params:
            if bare(p['t']) == BB and p['t'].endswith('*'):
                v = eng.rd(st, ('v', fr.id, p['u'])) if False else st.env.get(('v', fr.id, p['u']))
                yield v is not None and eng.truth(st, v) is False


class ImpExit(Imp):
    def on_exit(self, eng, st, fr, ret):
        if fr.f.n == 'load' and ret is not None and eng.truth(st, ret) is False:
            return
        tree = ('imported', None) in st.auto
        if not tree:
            return
        # a standalone domain that was not added to the system is discarded
        stand = any(bare(v.get('t', '')).startswith(('std::unique_ptr<CConfigurableDomain', 'unique_ptr<CConfigurableDomain'))
                    or 'CConfigurableDomain,' in v.get('t', '') or 'CConfigurableDomain>' in v.get('t', '')
                    for v in fr.f.nodes)
        if stand and ('added', None) not in st.auto:
            return
        eng.report(fr, -1, 'imported domains remain in the system without being validated')
