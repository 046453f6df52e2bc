"""The requests on domains and configurations, layer by layer. (a) Delegations: every operation of the domains, and of a domain, that takes
a name and hands the request on to what bears it is analysed over all its paths: the name of the request is looked up, when it is not
found nothing is asked and the request fails, otherwise the operation of that name is asked once, of what was found, with the parameters of the request
after the name in their places, and its outcome (or success, or its answer) is what is returned. (b) The manager's operations on domains hand their
parameters, in order, and the element found for the path given, to the operation of the same name, once, and return its
outcome. (c) Creating, adding and deleting: nothing is added under a name already taken, otherwise exactly one child, built with the name
of the request, is added; replacing deletes the one it replaces; deleting takes the child out of its parent and destroys it,
once; the rule of a configuration is replaced by taking out and destroying the one there, if any, and adding the new one, if any. (d) Names: every
brother is compared before a name changes, a conflict refuses it, and otherwise the name given is stored. (e) Lookups: every
child is compared with what is looked for and the one that compares equal is returned, or none. (f) A child added comes last and knows its parent, the one taken out is the one given,
removing the children destroys each and empties the list. (g) The switch of a domain
takes the value given, evaluated over both, and the getter returns it."""
from .common import *
from ..evalterm import ev, feasible
from ..loops import each, loops
from .p14 import u, ids, bad, castless
from .p35 import S, of, yes, named
from .p33 import Mp, run, par, given, mentions, only

TECHNIQUE = 'path enumeration of every request over found or not and outcomes; argument-place tracking; loop coverage of lookups; finite evaluation'
NOTE = 'what the operation finally asked does to areas, syncers and settings is decided by P10 to P14'
DS, D, DC, MGR, CE = 'CConfigurableDomains', 'CConfigurableDomain', 'CDomainConfiguration', 'CParameterMgr', 'CElement'

# operations of the domains -> of a domain, where the name differs
TO_D = {'renameDomain': 'rename', 'listConfigurations': 'listChildren', 'listDomainElements': 'listAssociatedToElements',
        'addConfigurableElementToDomain': 'addConfigurableElement', 'removeConfigurableElementFromDomain': 'removeConfigurableElement'}
L1 = ['renameDomain', 'setSequenceAwareness', 'getSequenceAwareness', 'listConfigurations', 'createConfiguration', 'deleteConfiguration',
      'renameConfiguration', 'listDomainElements', 'split', 'restoreConfiguration', 'saveConfiguration', 'setElementSequence',
      'getElementSequence', 'setApplicationRule', 'clearApplicationRule', 'getApplicationRule', 'addConfigurableElementToDomain',
      'removeConfigurableElementFromDomain']
TO_C = {'renameConfiguration': 'rename', 'saveConfiguration': 'save'}
L2 = ['renameConfiguration', 'saveConfiguration', 'setElementSequence', 'getElementSequence', 'setApplicationRule',
      'clearApplicationRule', 'getApplicationRule']
L0 = ['createDomain', 'deleteDomain', 'renameDomain', 'deleteAllDomains', 'setSequenceAwareness', 'getSequenceAwareness',
      'createConfiguration', 'renameConfiguration', 'deleteConfiguration', 'restoreConfiguration', 'saveConfiguration',
      'addConfigurableElementToDomain', 'removeConfigurableElementFromDomain', 'split', 'setElementSequence', 'getApplicationRule',
      'setApplicationRule', 'clearApplicationRule']


def methods(m, name, *classes):
    """methods of that name of the classes, their bases and their subclasses"""
    x = {f.id for f in m.funcs.values() if f.n == name and f.cls and any(m.derives(f.cls, c) or m.derives(c, f.cls) for c in classes)}
    if not x:
        raise AnalysisError('anchor vanished: ' + name)
    return x


def kind(m, fids):
    t = {m.funcs[i].rt for i in fids}
    return 'bool' if t == {'bool'} else 'void' if t == {'void'} else 'obj' if not any(x.endswith(('*', '&')) for x in t) else 'ref'


def everything(m, *classes):
    """every operation of these classes that changes or reports something, so that no other is asked"""
    out = {}
    for f in m.funcs.values():
        if f.cls in classes and not f.ctor and not f.dtor and not f.lam:
            out.setdefault(f.n, set()).add(f.id)
    return out


def reported(e, st, rt, x):
    """the outcome of the event is what is returned"""
    if x[4] in (0, 1):
        return yes(e, st, rt) is bool(x[4])
    return yes(e, st, rt) is True


def delegation(m, vio, cls, name, target, finder, tclasses):
    n = 0
    tg = {i for i in methods(m, target, *tclasses)}
    spec = {'find': ({f.id for f in m.fn(cls + '::' + finder)}, 'ptr'), 'op': (tg, kind(m, tg))}
    # what else a domain or a configuration can be asked
    rest = set()
    for c in tclasses:
        rest |= {f.id for f in m.funcs.values() if f.cls == c and not f.const and not f.ctor and not f.dtor and not f.lam}
    spec['else'] = (rest - tg - spec['find'][0], 'void')
    for f in m.fn(cls + '::' + name):
        if f.cls != cls:
            continue
        ps = list(range(1, len(f.params)))
        c, e, outs = run(m, f, spec)
        good = 0
        for st, rt in outs:
            n += 1
            fd, op = of(st, 'find'), of(st, 'op')
            if of(st, 'else'):
                bad(vio, f, 'something else than the request is asked of what was named')
            if not fd:
                bad(vio, f, 'a path answers the request without looking for what it names')
                continue
            for x in fd:
                if not given(e, x[3][0], f, 0) and not given(e, x[2][0], f, 0):
                    bad(vio, f, 'what is looked for is not what the request names')
            if any(x[4] == 0 for x in fd):
                if op:
                    bad(vio, f, 'asked though what the request names was not found')
                if yes(e, st, rt) is not False:
                    bad(vio, f, 'a request naming what does not exist does not fail')
                continue
            if len(op) != 1:
                bad(vio, f, 'the request is %s' % ('not handed on to what it names, which exists' if not op else 'made twice'))
                continue
            x = op[0]
            good += 1
            if x[1] is None or not any(mentions(e, x[1], y[4]) for y in fd):
                bad(vio, f, 'the request is made of something else than what was found')
            for k, (a, v) in enumerate(zip(x[3], x[2])):
                if k >= len(ps):
                    continue
                if not given(e, a, f, ps[k]) and not given(e, v, f, ps[k]):
                    bad(vio, f, 'the parameter %s of the request is not handed on in its place' % f.params[ps[k]]['n'])
            if spec['op'][1] == 'bool' and not any(y[0] == 'set' and mentions(e, y[2], x[4]) for y in st.auto if x[4] not in (0, 1)):
                # a getter of a bool answers through a reference
                out = [k for k in ps if f.params[k]['t'].replace(' ', '') == 'bool&']
                if out:
                    w = [y for y in st.auto if y[0] == 'set' and y[1] == par(e, f, out[0])]
                    if not w or e.truth(st, w[-1][2]) is not bool(x[4]):
                        bad(vio, f, 'the answer is not what was found')
                    if yes(e, st, rt) is not True:
                        bad(vio, f, 'a request answered does not succeed')
                    continue
            if spec['op'][1] == 'obj':
                w = [y for y in st.auto if y[0] == 'set' and mentions(e, y[2], x[4])]
                if not w or w[-1][1] != par(e, f, len(f.params) - 1):
                    bad(vio, f, 'the answer is not what was found')
            if not reported(e, st, rt, x):
                bad(vio, f, 'the outcome of the request is not what is reported')
        if not good:
            bad(vio, f, 'is never handed on')
    return n


def manager(m, vio):
    n = 0
    dom = methods(m, 'getConfigurableDomains', MGR) | {f.id for f in m.funcs.values() if f.cls == MGR and f.n == 'getConstConfigurableDomains'}
    inl = {f.id for f in m.funcs.values() if f.cls == MGR and f.n in ('logResult',)}
    allops = {f.id for f in m.funcs.values() if f.cls == DS and f.acc == 0 and not f.ctor and not f.dtor and not f.lam}
    for name in L0:
        tg = {f.id for f in m.fn(DS + '::' + name)}
        const = all(m.funcs[i].const for i in tg)
        spec = {'dom': (dom, 'obj'), 'op': (tg, kind(m, tg)), 'loc': (named(m, 'locate', cls='CElementLocator'), 'bool'),
                'else': (allops - tg, 'void'), 'check': (ids(m, MGR + '::checkTuningModeOn'), 'bool')}
        for f in m.fn(MGR + '::' + name):
            c, e, outs = run(m, f, spec, inl)
            good = 0
            for st, rt in outs:
                n += 1
                op, lc = of(st, 'op'), of(st, 'loc')
                if of(st, 'else'):
                    bad(vio, f, 'something else than the request is asked of the domains')
                if len(op) > 1:
                    bad(vio, f, 'the request is made twice')
                    continue
                if not op:
                    if yes(e, st, rt) is not False:
                        bad(vio, f, 'reports success though the request was not made')
                    if not any(x[0] in ('loc', 'check') and x[4] == 0 for x in st.auto):
                        bad(vio, f, 'a path refuses the request for no reason')
                    continue
                good += 1
                x = op[0]
                last = -1
                for k, (a, v) in enumerate(zip(x[3], x[2])):
                    p = [j for j in range(len(f.params)) if given(e, a, f, j) or given(e, v, f, j)]
                    t = m.funcs[sorted(tg)[0]].params[k]['t'] if k < len(m.funcs[sorted(tg)[0]].params) else ''
                    if p:
                        if p[0] <= last:
                            bad(vio, f, 'the parameters of the request are not handed on in their places')
                        last = p[0]
                if x[3] and last < 0:
                    bad(vio, f, 'the parameters of the request are not handed on')
                strs = [j for j, p_ in enumerate(f.params) if 'string' in p_['t'] and 'const' in p_['t'] or p_['t'] == 'bool']
                if lc:
                    strs = [j for j in strs if not given(e, lc[-1][3][0], f, j) and not given(e, lc[-1][2][0], f, j)]
                    if lc[-1][4] == 0:
                        bad(vio, f, 'the request is made though its element was not found')
                for j in strs:
                    if not any(given(e, a, f, j) or given(e, v, f, j) for a, v in zip(x[3], x[2])):
                        bad(vio, f, 'the parameter %s of the request is not handed on' % f.params[j]['n'])
                if not reported(e, st, rt, x):
                    bad(vio, f, 'the outcome of the request is not what is reported')
            if not good:
                bad(vio, f, 'never makes the request')
    return n


class Own(Mp):
    """children added, taken out, destroyed"""

    CHILD = ()

    def on_delete(self, eng, st, fr, e, v):
        self.add(st, ('del', v, (v,), (v,), None))

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        x = eng.T.get(obj) if obj is not None else ('',)
        if x[0] == 'addr':
            x = eng.T.get(x[1].i)
        if not fi.get('repo') and x[0] in ('Lfld', 'fld') and x[2] in self.CHILD and fi.get('n') in ('push_back', 'emplace_back', 'insert', 'erase', 'clear', 'pop_back', 'resize'):
            self.add(st, ('chg', fi['n'], tuple(self.val(eng, st, a) for a in args)))
        return Mp.other(self, eng, st, fr, i, n, tg, obj, args)


def ownership(m, vio):
    n = 0
    add, rem = methods(m, 'addChild', CE), methods(m, 'removeChild', CE)
    find = {f.id for f in m.funcs.values() if f.cls == CE and f.n in ('findChild',)} | \
           {f.id for f in m.funcs.values() if f.cls == DS and f.n == 'findConfigurableDomain'} | \
           {f.id for f in m.funcs.values() if f.cls == D and f.n == 'findConfiguration'}
    ct = {c: {f.id for f in m.funcs.values() if f.cls == c and f.ctor} for c in (D, DC)}
    base = {'find': (find, 'ptr'), 'add': (add, 'void'), 'rem': (rem, 'bool')}
    # creations
    for q, cls in ((DS + '::createDomain', D), (D + '::createConfiguration', DC)):
        sp = dict(base, new=(ct[cls], 'void'))
        for f in m.fn(q):
            c, e, outs = run(m, f, sp, cls=Own)
            good = 0
            for st, rt in outs:
                n += 1
                fd, ad, nw = of(st, 'find'), of(st, 'add'), of(st, 'new')
                r_ = yes(e, st, rt)
                if not any(given(e, x[3][0], f, 0) or given(e, x[2][0], f, 0) for x in fd):
                    bad(vio, f, 'the name of the request is not looked for')
                    continue
                if any(x[4] != 0 for x in fd):
                    if ad or r_ is not False:
                        bad(vio, f, 'a name already taken is given again')
                    continue
                good += 1
                if len(ad) != 1 or len(nw) != 1:
                    bad(vio, f, 'what is created does not join the children, once')
                    continue
                if r_ is not True:
                    bad(vio, f, 'a creation done is not reported as done')
                if not any(given(e, a, f, 0) or given(e, v, f, 0) for a, v in zip(nw[0][3], nw[0][2])):
                    bad(vio, f, 'what is created does not bear the name of the request')
            if not good:
                bad(vio, f, 'never creates anything')
    # a domain given
    for f in m.fn(DS + '::addDomain'):
        sp = dict(base, delete=(ids(m, DS + '::deleteDomain'), 'void'))
        c, e, outs = run(m, f, sp, cls=Own)
        over = e.T.mk('init', -1, f.params[1]['u'])
        good = 0
        for st, rt in outs:
            n += 1
            fd, ad, dl = of(st, 'find'), of(st, 'add'), of(st, 'delete')
            if len(fd) != 1:
                bad(vio, f, 'the name of the domain is not looked for, once')
                continue
            there = fd[0][4] != 0
            for o in (0, 1):
                if not feasible(e, st, {over: o}):
                    continue
                if there and not o:
                    if ad or dl or yes(e, st, rt) is not False:
                        bad(vio, f, 'a domain of that name is there and overwriting was not asked: refused, and nothing changed')
                    continue
                good += 1
                if len(ad) != 1 or not (given(e, ad[0][3][0], f, 0) or given(e, ad[0][2][0], f, 0)):
                    bad(vio, f, 'the domain given does not join the domains, once')
                if yes(e, st, rt) is not True:
                    bad(vio, f, 'a domain added is not reported as added')
                if there and (len(dl) != 1 or not any(mentions(e, y, fd[0][4]) for y in dl[0][3] + dl[0][2] if y is not None)):
                    bad(vio, f, 'the domain replaced is not deleted, once')
                if not there and dl:
                    bad(vio, f, 'a domain is deleted though none is replaced')
                if there and dl and ad and st.auto.index(dl[0]) > st.auto.index(ad[0]):
                    bad(vio, f, 'the domain replaced is deleted after the other came in')
        if not good:
            bad(vio, f, 'never adds anything')
    # deletions
    for f in m.fn(DS + '::deleteDomain') + m.fn(D + '::deleteConfiguration'):
        c, e, outs = run(m, f, dict(base), cls=Own)
        byname = 'string' in f.params[0]['t']
        good = 0
        for st, rt in outs:
            n += 1
            fd, rm, dl = of(st, 'find'), of(st, 'rem'), of(st, 'del')
            if of(st, 'add'):
                bad(vio, f, 'a deletion adds a child')
            if byname:
                if not any(given(e, x[3][0], f, 0) or given(e, x[2][0], f, 0) for x in fd):
                    bad(vio, f, 'the name of the request is not looked for')
                    continue
                if any(x[4] == 0 for x in fd):
                    if rm or dl or yes(e, st, rt) is not False:
                        bad(vio, f, 'what does not exist is reported as deleted')
                    continue
            what = [x[4] for x in fd] if byname else []
            isit = (lambda t: t is not None and (any(mentions(e, t, w) for w in what) if byname else given(e, t, f, 0)))
            good += 1
            if len(rm) != 1 or not (isit(rm[0][3][0]) or isit(rm[0][2][0])):
                bad(vio, f, 'what is deleted is not taken out of its parent, once')
            if len(dl) != 1 or not isit(dl[0][1]):
                bad(vio, f, 'what is deleted is not destroyed, once')
            elif rm and st.auto.index(rm[0]) > st.auto.index(dl[0]):
                bad(vio, f, 'destroyed before it left its parent')
            if byname and yes(e, st, rt) is not True:
                bad(vio, f, 'a deletion done is not reported as done')
        if not good:
            bad(vio, f, 'never deletes anything')
    for f in m.fn(DS + '::deleteAllDomains'):
        tg = {'clean': ({g.id for g in m.funcs.values() if g.n in ('clean', 'removeChildren') and g.cls and m.derives(DS, g.cls)}, 'void')}
        c, e, outs = run(m, f, tg)
        for st, rt in outs:
            n += 1
            if len(of(st, 'clean')) != 1:
                bad(vio, f, 'the domains are not all removed')
    # the rule
    rl = {f.id for f in m.fn(DC + '::getRule')}
    for f in m.fn(DC + '::setRule'):
        c, e, outs = run(m, f, dict(base, rule=(rl, 'ptr')), cls=Own)
        new = e.T.mk('init', -1, f.params[0]['u'])
        for st, rt in outs:
            n += 1
            old, rm, dl, ad = of(st, 'rule'), of(st, 'rem'), of(st, 'del'), of(st, 'add')
            there = [x for x in old if x[4] != 0]
            if not old:
                bad(vio, f, 'the rule there is not looked for')
            elif there and (len(rm) != 1 or len(dl) != 1 or not mentions(e, rm[0][2][0], there[0][4]) or not mentions(e, dl[0][1], there[0][4])):
                bad(vio, f, 'the rule replaced is not taken out and destroyed, once')
            elif not there and (rm or dl):
                bad(vio, f, 'a rule is taken out though there was none')
            t = e.truth(st, new)
            if t is None:
                t = e.truth(st, e.cmp('!=', new, e.NULL))
            if t is None:
                bad(vio, f, 'the new rule is not told from none')
            elif t is True and (len(ad) != 1 or not mentions(e, ad[0][2][0], new)):
                bad(vio, f, 'the new rule does not take its place, once')
            elif t is False and ad:
                bad(vio, f, 'a rule is added though none is wanted')
    for f in m.fn(DC + '::clearApplicationRule'):
        c, e, outs = run(m, f, {'set': (ids(m, DC + '::setRule'), 'void')})
        for st, rt in outs:
            n += 1
            x = [y for y in of(st, 'set') if len(y) == 5]
            if len(x) != 1 or x[0][2][0] != e.NULL:
                bad(vio, f, 'the rule is not cleared')
    return n


def children(m, vio):
    """the list of children of an element"""
    n = 0
    ch = [x['u'] for x in m.classes[CE]['fields'] if 'vector' in x['t'] and 'CElement' in x['t']]
    pa = [x['u'] for x in m.classes[CE]['fields'] if x['t'].replace(' ', '') == CE + '*']
    if len(ch) != 1 or len(pa) != 1:
        raise AnalysisError('anchor vanished: the children of an element')

    def go(f, **sp):
        c, e, outs = run(m, f, sp, cls=Own, CHILD=ch)
        return e, outs
    for f in m.fn(CE + '::addChild'):
        e, outs = go(f)
        for st, rt in outs:
            n += 1
            x = of(st, 'chg')
            w = [y for y in st.auto if y[0] == 'set' and e.T.get(y[1])[0] == 'Lfld' and e.T.get(y[1])[2] == pa[0]]
            if len(x) != 1 or x[0][1] not in ('push_back', 'emplace_back', 'insert') or not given(e, x[0][2][-1], f, 0):
                bad(vio, f, 'the child does not join the children, once')
            elif x[0][1] == 'insert' and '::end' not in e.T.show(x[0][2][0]) and '::cend' not in e.T.show(x[0][2][0]):
                bad(vio, f, 'the child does not come last')
            if len(w) != 1 or not mentions(e, w[0][1], e.T.mk('init', -1, f.params[0]['u'])) or 'this' not in e.T.show(w[0][2]):
                bad(vio, f, 'the child does not know its parent')
    for f in m.fn(CE + '::removeChild'):
        e, outs = go(f)
        if loops(f):
            continue
        good = 0
        for st, rt in outs:
            n += 1
            x, r_ = of(st, 'chg'), yes(e, st, rt)
            if r_ is not None and bool(x) is not r_ or len(x) > 1 or x and x[0][1] != 'erase':
                bad(vio, f, 'a child is reported taken out exactly when it was')
            good += bool(x)
            if x and not given(e, x[0][2][0], f, 0):
                bad(vio, f, 'another child than the one given is taken out')
            for k, v in st.facts.items():
                if isinstance(k, int) and not isend(e, k) and not given(e, k, f, 0):
                    bad(vio, f, 'whether a child is taken out depends on something else than whether it is there')
        if not good:
            bad(vio, f, 'never takes a child out')
    cleaners = {f.id for f in m.fn(CE + '::removeChildren')}
    for f in m.fn(CE + '::removeChildren'):
        e, outs = go(f)
        for st, rt in outs:
            n += 1
            x = of(st, 'chg')
            if not x or x[-1][1] != 'clear' and not (x[-1][1] in ('erase', 'resize') and len(x[-1][2]) == (2 if x[-1][1] == 'erase' else 1)
                                                     and (x[-1][1] == 'erase' or e.isconst(x[-1][2][0]) and e.cval(x[-1][2][0]) == 0)):
                if not loops(f) or not any(y['k'] == 'Call' and (y.get('f') or {}).get('n') == 'pop_back' for y in f.nodes):
                    bad(vio, f, 'the list is not empty once its children were destroyed')
        dl = [i for i, y in enumerate(f.nodes) if y['k'] == 'Delete']
        for L in loops(f):
            n += 1
            d = [i for i in dl if L.blockof(i) is not None]
            if L.kind == 'partial':
                bad(vio, f, 'a child is not destroyed: the loop ' + L.why)
            elif d and not any(L.every_iteration(i) for i in d):
                bad(vio, f, 'a child is not destroyed')
            elif L.exits:
                bad(vio, f, 'the loop may stop before the last child')
    own = {f.id for f in m.funcs.values() if f.cls == CE and f.n == 'clean'}
    for f in m.fn(CE + '::clean'):
        dyn = methods(m, 'childrenAreDynamic', CE)
        e, outs = go(f, dyn=(dyn, 'bool'), rem=(cleaners, 'void'), sub=(methods(m, 'clean', CE), 'void'))
        for st, rt in outs:
            n += 1
            d = [x[4] for x in of(st, 'dyn')]
            if d != [] and bool(of(st, 'rem')) is not bool(d[-1]) or not d or len(of(st, 'rem')) > 1:
                bad(vio, f, 'the children are destroyed exactly when they are not part of the structure')
        v, why = each(m, f, own | methods(m, 'clean', CE))
        if v is False:
            bad(vio, f, 'the children are not all cleaned: ' + why)
    return n


def switch(m, vio):
    n = 0
    from .p35 import field_of
    fld = field_of(m, D + '::getSequenceAwareness')
    for f in m.fn(D + '::setSequenceAwareness'):
        c, e, outs = run(m, f, {})
        p = e.T.mk('init', -1, f.params[0]['u'])
        for st, rt in outs:
            for was in (0, 1):
                for b in (0, 1):
                    en = {p: b, 'fld': lambda t, s: was if t[2] == fld else None}
                    if not feasible(e, st, en):
                        continue
                    n += 1
                    w = [y for y in st.auto if y[0] == 'set' and len(y) == 3 and e.T.get(y[1])[0] == 'Lfld' and e.T.get(y[1])[2] == fld]
                    now = was if not w else (ev(e, w[-1][2], en) if not e.isconst(w[-1][2]) else e.cval(w[-1][2]))
                    if now is None or bool(now) is not bool(b):
                        bad(vio, f, 'the sequence awareness does not become what was asked')
    return n


def names(m, vio):
    n = 0
    from .p33 import Mp as M_
    st_name = {f.id for f in m.funcs.values() if f.cls == CE and f.n == 'setName'}
    dyn = methods(m, 'childrenAreDynamic', CE)
    for f in m.fn(CE + '::rename'):
        c, e, outs = run(m, f, {'name': (st_name, 'void'), 'dyn': (dyn, 'bool')})
        good = 0
        for st, rt in outs:
            n += 1
            x, r_ = of(st, 'name'), yes(e, st, rt)
            if r_ is None or bool(x) is not r_:
                bad(vio, f, 'a name is reported changed exactly when it changed')
            if x:
                good += 1
                if len(x) != 1 or not (given(e, x[0][3][0], f, 0) or given(e, x[0][2][0], f, 0)):
                    bad(vio, f, 'the name stored is not the name given')
                if loops(f) and any(y[4] == 1 for y in of(st, 'dyn')) and not any(isinstance(k, int) and isend(e, k) for k in st.facts):
                    bad(vio, f, 'a name changes without being compared with those of the brothers')
            elif not any(y[4] == 1 for y in of(st, 'dyn')):
                bad(vio, f, 'refused though the brothers are not named by the users')
        if not good:
            bad(vio, f, 'never changes a name')
        if not loops(f) and not any(x['k'] == 'Lambda' for x in f.nodes) and \
                not any(loops(m.funcs[t]) for x in f.nodes if x['k'] == 'Call' for t in m.targets(f, x) if t in m.funcs and m.funcs[t].cls == CE):
            bad(vio, f, 'the brothers are not all compared')
    for f in m.fn(CE + '::setName'):
        c, e, outs = run(m, f, {})
        for st, rt in outs:
            n += 1
            w = [y for y in st.auto if y[0] == 'set' and e.T.get(y[1])[0] == 'Lfld']
            if not w or not given(e, w[-1][2], f, 0):
                bad(vio, f, 'the name is not stored')
    return n


LOOKUPS = [(CE + '::findChild', ('getPathName', 'getName')), (CE + '::findChildOfKind', ('getKind', 'getXmlElementName'))]


def about(e, st, t):
    """what the path knows of t"""
    return {k: v for k, v in st.facts.items() if isinstance(k, int) and mentions(e, k, t)}


def isend(e, k):
    return e.T.get(k)[0] in ('eq', 'lt', 'le', 'ne') and any(w in e.T.show(k) for w in ('::end,', '::cend,', '::size,', '::rend,'))


def lookups(m, vio):
    n = 0
    for q, how in LOOKUPS + [(CE + '::rename', ('getPathName', 'getName'))]:
        tg = {g.id for g in m.funcs.values() if g.n in how and g.cls and (m.derives(g.cls, CE) or m.derives(CE, g.cls))}
        if not tg:
            raise AnalysisError('anchor vanished: ' + how[0])
        brothers = q.endswith('::rename')
        for f in m.fn(q):
            n += 1
            v, why = each(m, f, tg, exits=True, conditional=brothers)
            if v is False and loops(f):
                bad(vio, f, 'not every child is compared: ' + why)
            c, e, outs = run(m, f, {'nm': (tg, 'obj')})
            for st, rt in outs:
                n += 1
                xs = of(st, 'nm')
                hit = rt is not None and rt != e.NULL and not brothers or brothers and yes(e, st, rt) is False
                if not hit:
                    if not brothers and loops(f) and any(isend(e, k) and e.T.get(k)[0] == 'eq' and v is False for k, v in st.facts.items() if isinstance(k, int)):
                        bad(vio, f, 'gives up before the last child')
                    continue
                if not xs:
                    if loops(f):
                        bad(vio, f, 'answers without comparing')
                    continue
                el = xs[-1][1]
                if not brothers and e.T.get(rt)[0] == 'idx' and rt != el:
                    bad(vio, f, 'another child than the one compared is returned')
                fs = about(e, st, el)
                cmp_ = [(k, v) for k, v in fs.items() if given(e, k, f, 0)]
                if not cmp_:
                    bad(vio, f, 'what is found was not compared with what is looked for')
                if any(e.T.get(k)[0] == 'eq' and e.T.get(k)[0:1] and not [z for z in e.T.get(k)[1:] if e.isconst(getattr(z, 'i', z)) ] and v is False
                       for k, v in cmp_):
                    bad(vio, f, 'what is found differs from what is looked for')
                for k, v in fs.items():
                    if (k, v) in cmp_ or k == el or e.T.get(k)[0] == 'got':
                        continue
                    x = e.T.get(k)
                    if x[0] == 'eq' and any(getattr(z, 'i', z) in (e.NULL, st.this if hasattr(st, 'this') else -1) or
                                            e.T.get(getattr(z, 'i', z))[0] in ('this', 'null') for z in x[1:] if hasattr(z, 'i') or isinstance(z, int)):
                        continue
                    bad(vio, f, 'a child is passed over for another reason than what is compared: ' + e.T.show(k)[:60])
    # what looks up by name through these
    for q in (DS + '::findConfigurableDomain', D + '::findConfiguration'):
        fc = {g.id for g in m.funcs.values() if g.cls == CE and g.n == 'findChild'}
        me = {g.id for g in m.fn(q)}
        for f in m.fn(q):
            c, e, outs = run(m, f, {'find': (fc | me - {f.id}, 'ptr')})
            for st, rt in outs:
                n += 1
                x = of(st, 'find')
                if len(x) != 1 or not (given(e, x[0][3][0], f, 0) or given(e, x[0][2][0], f, 0)):
                    bad(vio, f, 'the name is not looked for, once')
                    continue
                if x[0][4] == 0 and rt != e.NULL or x[0][4] != 0 and castless(e, rt) != x[0][4]:
                    bad(vio, f, 'what is returned is not what was found')
    return n


def check(m, tier):
    vio, n, by = [], 0, {}
    for k, g in (('delegations', None), ('manager', manager), ('ownership', ownership), ('children', children), ('switch', switch), ('names', names), ('lookups', lookups)):
        if g:
            by[k] = g(m, vio)
        else:
            by[k] = sum(delegation(m, vio, DS, x, TO_D.get(x, x), 'findConfigurableDomain', (D,)) for x in L1) + \
                sum(delegation(m, vio, D, x, TO_C.get(x, x), 'findConfiguration', (DC,)) for x in L2)
        n += by[k]
    return result(None, {'instances_checked': n, 'functions': len(L0) + len(L1) + len(L2), **by}, dedup(vio))
