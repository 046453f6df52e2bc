"""The remote command interface. (a) Every row of the command table is compared with the documented meaning of the command of that
name (operation, arguments, words accepted, form of the answer): the handler is analysed for the smallest accepted number of
arguments and a few more, each operation it may call forked into its outcomes, each documented word and an undocumented one
taken for the word arguments. No argument beyond those guaranteed is read; the operation called is the documented one, with the arguments of
the request in the documented places; it is called exactly when everything before it succeeded; the status is success exactly when it
succeeded; undocumented words show the usage and do nothing. (b) The dispatcher, on every path: a name not found is refused, `help` is
answered without calling the (absent) handler, too few arguments are refused without calling the handler, the status of
the handler becomes the documented answer, which is the text of the handler unless the status says otherwise. (c) Registration hands every row of the
table to the dispatcher, fields in their places; a name registers once."""
from .common import *
from ..evalterm import ev, feasible
from ..textval import handlers
from ..loops import loops, strip, varref, decls, writes
from .p26 import all_of
from .p14 import u, bad, fieldof

TECHNIQUE = 'path enumeration of every command handler and of the dispatcher against a table of documented commands'
NOTE = 'what each operation does is the object of the other properties'
MGR, DOMS = 'CParameterMgr', 'CConfigurableDomains'
TPL = 'TRemoteCommandHandlerTemplate<CParameterMgr>'
ITEM = TPL + '::CRemoteCommandParserItem'
RES, W, LOC, ANY, SYSC = 'RES', 'W', 'LOC', 'ANY', 'SYSC'


def A(k):
    return ('arg', k)


def P(k):
    return ('pack', k)


def K(v):
    return ('const', v)


# label -> (function, kind); kinds: bool, void, val (its result matters), flag (a boolean that is reported)
OPS = {}


def op(label, q, kind='bool'):
    OPS[label] = (q, kind)
    return label


for _n in ('setTuningMode setAutoSync sync createDomain deleteDomain deleteAllDomains renameDomain setSequenceAwareness '
           'getSequenceAwareness addConfigurableElementToDomain removeConfigurableElementFromDomain split createConfiguration '
           'deleteConfiguration renameConfiguration saveConfiguration restoreConfiguration setElementSequence setApplicationRule '
           'clearApplicationRule getApplicationRule exportElementToXMLString setSettingsAsBytes getSettingsAsXML '
           'setSettingsAsXML accessParameterValue accessConfigurationValue getParameterMapping exportDomainsXml importDomainsXml '
           'exportSingleDomainXml importSingleDomainXml checkTuningModeOn').split():
    op(_n, MGR + '::' + _n)
for _n in 'setValueSpace setOutputRawFormat getSettingsAsBytes'.split():
    op(_n, MGR + '::' + _n, 'void')
for _n in 'tuningModeOn valueSpaceIsRaw outputRawFormatIsHex autoSyncOn'.split():
    op(_n, MGR + '::' + _n, 'flag')
op('getVersion', MGR + '::getVersion', 'val')
for _n in 'listDomains listAssociatedElements listConflictingElements'.split():
    op(_n, DOMS + '::' + _n, 'void')
for _n in 'listDomainElements listConfigurations'.split():
    op(_n, DOMS + '::' + _n)
op('domSequence', DOMS + '::getElementSequence')
op('listLast', DOMS + '::listLastAppliedConfigurations', 'void')
op('dumpContent', 'CElement::dumpContent', 'val')
op('listRogueElements', 'CConfigurableElement::listRogueElements', 'void')
op('listCrit', 'CSelectionCriteria::listSelectionCriteria', 'void')
op('locate', 'CElementLocator::locate')
op('listQualifiedPaths', 'CElement::listQualifiedPaths', 'val')
for _n in 'listBelongingDomains listAssociatedDomains showProperties'.split():
    op(_n, 'CConfigurableElement::' + _n, 'void')
op('getFootprintAsString', 'CConfigurableElement::getFootprintAsString', 'val')

LOCATE = ('locate', [A(0), ANY, RES])
# queries that any command may make without effect
FREE = {'tuningModeOn', 'valueSpaceIsRaw', 'outputRawFormatIsHex', 'autoSyncOn', 'checkTuningModeOn'}


class Cmd:
    """min arguments; steps (operation, arguments); answer; word argument (index, {word: value}, compulsory)"""

    def __init__(self, low, steps, ans, word=None, obj=None, more=2, exact=False):
        self.low, self.steps, self.ans, self.word, self.obj, self.more = low, steps, ans, word, obj, more


def done(low, name, args, **k):
    return Cmd(low, [(name, args)], 'EDone', **k)


def text(low, name, args, ans=None, **k):
    return Cmd(low, [(name, args)], ans or 'text', **k)


ONOFF = {'on': 1, 'off': 0}
OVER = (1, {'overwrite': 1}, False)
CMDS = {
    'version': text(0, 'getVersion', [], ('ret', 'getVersion')),
    'status': Cmd(0, [], 'status'),
    'setTuningMode': done(1, 'setTuningMode', [W, RES], word=(0, ONOFF, True)),
    'getTuningMode': Cmd(0, [], ('flag', 'tuningModeOn', 'on', 'off')),
    'setValueSpace': done(1, 'setValueSpace', [W], word=(0, {'raw': 1, 'real': 0}, True)),
    'getValueSpace': Cmd(0, [], ('flag', 'valueSpaceIsRaw', 'raw', 'real')),
    'setOutputRawFormat': done(1, 'setOutputRawFormat', [W], word=(0, {'hex': 1, 'dec': 0}, True)),
    'getOutputRawFormat': Cmd(0, [], ('flag', 'outputRawFormatIsHex', 'hex', 'dec')),
    'setAutoSync': done(1, 'setAutoSync', [W, RES], word=(0, ONOFF, True)),
    'getAutoSync': Cmd(0, [], ('flag', 'autoSyncOn', 'on', 'off')),
    'sync': done(0, 'sync', [RES]),
    'listCriteria': Cmd(0, [], 'criteria'),
    'listDomains': text(0, 'listDomains', [RES]),
    'dumpDomains': text(0, 'dumpContent', [ANY], ('ret', 'dumpContent')),
    'createDomain': done(1, 'createDomain', [A(0), RES]),
    'deleteDomain': done(1, 'deleteDomain', [A(0), RES]),
    'deleteAllDomains': done(0, 'deleteAllDomains', [RES]),
    'renameDomain': done(2, 'renameDomain', [A(0), A(1), RES]),
    'setSequenceAwareness': done(2, 'setSequenceAwareness', [A(0), W, RES], word=(1, {'true': 1, 'false': 0}, True)),
    'getSequenceAwareness': text(1, 'getSequenceAwareness', [A(0), ANY, RES], ('outflag', 1, 'true', 'false')),
    'listDomainElements': text(1, 'listDomainElements', [A(0), RES]),
    'addElement': done(2, 'addConfigurableElementToDomain', [A(0), A(1), RES]),
    'removeElement': done(2, 'removeConfigurableElementFromDomain', [A(0), A(1), RES]),
    'splitDomain': done(2, 'split', [A(0), A(1), RES]),
    'listConfigurations': text(1, 'listConfigurations', [A(0), RES]),
    'createConfiguration': done(2, 'createConfiguration', [A(0), A(1), RES]),
    'deleteConfiguration': done(2, 'deleteConfiguration', [A(0), A(1), RES]),
    'renameConfiguration': done(3, 'renameConfiguration', [A(0), A(1), A(2), RES]),
    'saveConfiguration': done(2, 'saveConfiguration', [A(0), A(1), RES]),
    'restoreConfiguration': done(2, 'restoreConfiguration', [A(0), A(1), ANY]),
    'setElementSequence': done(3, 'setElementSequence', [A(0), A(1), ('list', 2), RES]),
    'getElementSequence': text(2, 'domSequence', [A(0), A(1), RES]),
    'setRule': done(3, 'setApplicationRule', [A(0), A(1), P(2), RES]),
    'clearRule': done(2, 'clearApplicationRule', [A(0), A(1), RES]),
    'getRule': text(2, 'getApplicationRule', [A(0), A(1), RES]),
    'listElements': Cmd(1, [LOCATE, ('listQualifiedPaths', [K(0)])], ('has', 'listQualifiedPaths')),
    'listParameters': Cmd(1, [LOCATE, ('listQualifiedPaths', [K(1)])], ('has', 'listQualifiedPaths')),
    'getElementStructureXML': Cmd(1, [LOCATE, ('exportElementToXMLString', [LOC, ANY, ANY, RES])], 'text'),
    'getElementBytes': Cmd(1, [LOCATE, ('getSettingsAsBytes', [LOC, ANY])], 'text'),
    'setElementBytes': Cmd(2, [('checkTuningModeOn', [RES]), LOCATE, ('setSettingsAsBytes', [LOC, ANY, RES])], 'EDone'),
    'getElementXML': Cmd(1, [LOCATE, ('getSettingsAsXML', [LOC, RES])], 'text'),
    'setElementXML': Cmd(2, [('checkTuningModeOn', [RES]), LOCATE, ('setSettingsAsXML', [LOC, A(1), RES])], 'EDone'),
    'dumpElement': Cmd(1, [LOCATE, ('dumpContent', [ANY])], ('ret', 'dumpContent')),
    'getElementSize': Cmd(1, [LOCATE, ('getFootprintAsString', [])], ('ret', 'getFootprintAsString')),
    'showProperties': Cmd(1, [LOCATE, ('showProperties', [RES])], 'text'),
    'getParameter': text(1, 'accessParameterValue', [A(0), ANY, K(0), RES], ('out', 1)),
    'setParameter': done(2, 'accessParameterValue', [A(0), P(1), K(1), RES]),
    'listBelongingDomains': Cmd(1, [LOCATE, ('listBelongingDomains', [RES])], 'text'),
    'listAssociatedDomains': Cmd(1, [LOCATE, ('listAssociatedDomains', [RES])], 'text'),
    'getConfigurationParameter': text(3, 'accessConfigurationValue', [A(0), A(1), A(2), ANY, K(0), ANY], ('out', 3)),
    'setConfigurationParameter': done(4, 'accessConfigurationValue', [A(0), A(1), A(2), P(3), K(1), RES]),
    'showMapping': text(1, 'getParameterMapping', [A(0), RES]),
    'listAssociatedElements': text(0, 'listAssociatedElements', [RES]),
    'listConflictingElements': text(0, 'listConflictingElements', [RES]),
    'listRogueElements': text(0, 'listRogueElements', [RES]),
    'exportDomainsXML': done(1, 'exportDomainsXml', [A(0), K(0), K(1), RES]),
    'importDomainsXML': done(1, 'importDomainsXml', [A(0), K(0), K(1), RES]),
    'exportDomainsWithSettingsXML': done(1, 'exportDomainsXml', [A(0), K(1), K(1), RES]),
    'exportDomainWithSettingsXML': done(2, 'exportSingleDomainXml', [A(1), A(0), K(1), K(1), RES]),
    'importDomainsWithSettingsXML': done(1, 'importDomainsXml', [A(0), K(1), K(1), RES]),
    'importDomainWithSettingsXML': done(1, 'importSingleDomainXml', [A(0), W, K(1), K(1), RES], word=OVER),
    'getDomainsWithSettingsXML': text(0, 'exportDomainsXml', [RES, K(1), K(0), RES]),
    'getDomainWithSettingsXML': text(1, 'exportSingleDomainXml', [RES, A(0), K(1), K(0), RES]),
    'setDomainsWithSettingsXML': done(1, 'importDomainsXml', [A(0), K(1), K(0), RES]),
    'setDomainWithSettingsXML': done(1, 'importSingleDomainXml', [A(0), W, K(1), K(0), RES], word=OVER),
    'getSystemClassXML': text(0, 'exportElementToXMLString', [SYSC, ANY, ANY, RES]),
    'getDomainsXML': text(0, 'exportDomainsXml', [RES, K(1), K(0), RES]),
}


def statuses(m):
    out = {}
    for f in m.funcs.values():
        if f.cls not in (ITEM, MGR):
            continue
        for n in f.nodes:
            d = n.get('d') or {}
            if n['k'] == 'Ref' and d.get('k') == 'enum' and d.get('t') == TPL + '::CommandStatus':
                out[d['n']] = d['v']
    if set(out) != {'EDone', 'ESucceeded', 'EFailed', 'EShowUsage'}:
        raise AnalysisError('anchor vanished: remote command statuses (%s)' % sorted(out))
    return out


class H(Checker):
    SMALL = 60
    K = 80
    KEXIT = 80

    def __init__(self, m, ops, n, inline):
        self.m, self.ops, self.n, self.inline = m, ops, n, inline
        self.sites = 0

    def relevant(self, eng):
        return self.inline

    def init(self, eng, f):
        return ()

    def val(self, eng, st, a):
        return eng.rd(st, a) if eng.islv(a) else a

    def norm(self, eng, t):
        """('arg', k) / ('pack', k) behind reads and casts"""
        d = 0
        while t is not None and d < 8:
            d += 1
            x = eng.T.get(t)
            if x[0] in ('arg', 'pack', 'res', 'loc', 'outv', 'retv', 'sys'):
                return x
            if x[0] in ('drf', 'Lder', 'cast', 'addr', 'deref') and len(x) > 1:
                t = next((y.i for y in x[1:] if hasattr(y, 'i')), None)
                continue
            return x
        return ()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}
        nm = fi.get('n', '')
        if fi.get('cls') == 'IRemoteCommand':
            self.sites += 1
            if nm == 'getArgumentCount':
                return [(st, T.mk('int', self.n))]
            if nm == 'getArgument':
                a = self.val(eng, st, args[0])
                if eng.truth(st, eng.cmp('<', a, T.mk('int', self.n))) is not True and \
                        eng.truth(st, eng.cmp('<', T.mk('int', self.n - 1), a)) is not False and \
                        eng.truth(st, eng.cmp('<=', a, T.mk('int', self.n - 1))) is not True:
                    eng.report(fr, i, 'reads an argument that a request with %d argument(s) does not have' % self.n)
                x = T.get(a)
                return [(st, eng.lder(T.mk('arg', x[1] if x[0] == 'int' else r(a))))]
            if nm == 'packArguments':
                a, b = (T.get(self.val(eng, st, z)) for z in args[:2])
                if a[0] == 'int' and b[0] == 'int':
                    if a[1] + b[1] > self.n or b[1] < 0:
                        eng.report(fr, i, 'reads an argument that a request with %d argument(s) does not have' % self.n)
                    elif a[1] + b[1] < self.n:
                        eng.report(fr, i, 'the last words of the request are dropped')
                    return [(st, T.mk('pack', a[1]))]
                return None
            return None
        k = next((self.ops[t] for t in sorted(tg | {fi.get('id')}) if t in self.ops), None)
        if k is None:
            if nm == 'getSystemClass' and fi.get('cls') == MGR:
                return [(st, T.mk('addr', r(T.mk('Lder', r(T.mk('sys'))))))]
            if nm in ('operator+=', 'append') and fi.get('cls', '').startswith('std::basic_string') and obj is not None and \
                    self.isres(eng, obj) and args:
                q = st
                q.auto = q.auto + (('txt', self.val(eng, st, args[0])),)
                return [(q, obj)]
            return None
        lab, kind = k
        self.sites += 1
        al = tuple(args)
        av = tuple(self.val(eng, st, a) for a in args)

        def out(res, term, located=None, **kw):
            q = st.copy()
            q.auto = q.auto + ((lab, None if obj is None else self.norm(eng, obj), av, al, res),)
            pts = fi.get('pt') or ()
            for j, a in enumerate(al):
                if j < len(pts) and pts[j].endswith('&') and not pts[j].startswith('const ') and eng.islv(a):
                    t = kw.get('flag')
                    eng.wr(q, a, T.mk('int', t) if t is not None and j == 1 else T.mk('outv', lab, j), ('o', fr.id, i))
                    if self.isres(eng, a):
                        q.auto = q.auto + (('txt', T.mk('outv', lab, j)),)
            if located is not None and len(al) > 1:
                x = T.get(av[1])
                if x[0] == 'addr':
                    eng.wr(q, x[1].i, located, ('o', fr.id, i))
            return (q, term)
        if lab == 'locate':
            loc = T.mk('addr', r(T.mk('Lder', r(T.mk('loc')))))
            o = [out(1, eng.TRUE, loc), out(0, eng.FALSE)]
            return o + ([out(2, eng.TRUE, eng.NULL)] if self.root else [])
        if lab == 'getSequenceAwareness':
            return [out(1, eng.TRUE, flag=1), out(1, eng.TRUE, flag=0), out(0, eng.FALSE)]
        if kind in ('bool', 'flag'):
            return [out(1, eng.TRUE), out(0, eng.FALSE)]
        if kind == 'val':
            return [out(1, T.mk('retv', lab))]
        return [out(1, None)]

    def isres(self, eng, a):
        if not eng.islv(a):
            return False
        x = eng.T.get(a)
        return x[0] == 'Lvar' and x[1] == -1 and x[2] == self.resu


def handler(m, f, name, spec, ops, S, vio, low):
    """returns number of obligations"""
    cnt = 0
    labs = {l for l in ops.values()}
    stop = set(ops)
    reach = m.reaching(stop | {g.id for g in m.funcs.values() if g.cls in ('IRemoteCommand', 'CRequestMessage')})
    inline = {i for i in reach if i in m.funcs and i not in stop and
              (m.funcs[i].cls == MGR or m.funcs[i].cls is None or m.funcs[i].lam)
              and m.funcs[i].file == f.file}
    if low > spec.low:
        bad(vio, f, '%s: refuses a request with %d argument(s), which is enough' % (name, spec.low))
    cnt += lists(m, f, name, spec, inline, vio)
    if name == 'setElementBytes':
        cnt += octets(m, f, name, vio)
    for n in range(low, max(low, spec.low) + spec.more + 1):
        c = H(m, ops, n, inline)
        c.root = name in ('listElements', 'listParameters')
        c.resu = f.params[1]['u']
        e = Engine(m, c)
        outs = e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
        vio += e.violations
        words = [None]
        if spec.word and spec.word[0] < n:
            words = list(spec.word[1]) + ['', 'x' + next(iter(spec.word[1]))]
        for st, ret in outs:
            for w in words:
                env = handlers({'arg': (lambda x, s: w if x[1] == (spec.word or (None,))[0] else None),
                                'drf': lambda x, s: s(x[1].i), 'Lder': lambda x, s: s(x[1].i)})
                if not feasible(e, st, env):
                    continue
                cnt += 1
                if spec.steps is not None and n >= spec.low:
                    judge(m, e, c, f, name, spec, n, st, ret, w, S, vio, env)
        cnt += c.sites
    return cnt


def lists(m, f, name, spec, inline, vio):
    """arguments taken as a list: from the first of the list to the last of the request"""
    start = next((a[1] for s in spec.steps or () for a in s[1] if isinstance(a, tuple) and a[0] == 'list'), None)
    if name == 'setElementBytes':
        start = 1
    if start is None:
        return 0
    n = 0
    for g in [f] + [m.funcs[i] for i in sorted(inline) if m.funcs[i] is not f and m.funcs[i].id in m.reaching({f.id}) | called(m, f)]:
        g.cfg()
        d = decls(g)

        def isarg(j, nm):
            x = g.nodes[strip(g, j)]
            fi = x.get('f') or {}
            return x['k'] == 'Call' and fi.get('n') == nm and fi.get('cls') in ('IRemoteCommand', 'CRequestMessage')

        def con(j):
            x = g.nodes[strip(g, j)]
            return int(x['cv']) if x.get('cv') is not None else None
        for i, x in enumerate(g.nodes):
            if isarg(i, 'getArgument') and x['k'] == 'Call':
                v = varref(g, x['c'][0])
                if v is not None and v in d and any(k in ('inc', 'set', 'other') for k, _ in writes(g, v)):
                    n += 1
                    k = con(d[v]['init']) if d[v].get('init') is not None and d[v]['init'] >= 0 else None
                    if k is not None and k != start:
                        bad(vio, g, '%s: the list starts at argument %d, not %d' % (name, k, start), i)
                    for L in loops(g):
                        if L.blockof(i) is not None and not L.every_iteration(i):
                            bad(vio, g, '%s: not every argument of the list is taken' % name, i)
            nm = (x.get('f') or {}).get('n')
            if x['k'] == 'Call' and nm in ('operator-', 'prev') and \
                    any((g.nodes[j].get('f') or {}).get('n') in ('end', 'cend') and g.nodes[j]['k'] == 'Call' and
                        any(isarg(k, 'getArguments') for k in g.subtree(j)) for j in g.subtree(i)):
                ops_ = ([x['obj']] if x.get('obj') is not None else []) + list(x['c'])
                if any(con(o) not in (None, 0) for o in ops_) or nm == 'prev':
                    n += 1
                    bad(vio, g, '%s: the last words of the request are not taken' % name, i)
            if x['k'] == 'Call' and (nm in ('operator+', 'next')) and x.get('c'):
                ops_ = ([x['obj']] if x.get('obj') is not None else []) + list(x['c'])
                b = [o for o in ops_ if (g.nodes[strip(g, o)].get('f') or {}).get('n') in ('begin', 'cbegin') and
                     any(isarg(j, 'getArguments') for j in g.subtree(o))]
                k = [con(o) for o in ops_ if con(o) is not None]
                if b and k:
                    n += 1
                    if k[0] != start:
                        bad(vio, g, '%s: the list starts at argument %d, not %d' % (name, k[0], start), i)
    return n


class Conv(Checker):
    """conversion of the words to numbers, in a function of its own or where the numbers are collected"""
    SMALL = 30

    def init(self, eng, f):
        return ()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if fi.get('n') == 'convertTo' and len(args) == 2:
            a = args[1]
            if (fi.get('pt') or ['', ''])[1].replace('&', '').strip() not in ('unsigned char', 'uint8_t', 'std::uint8_t'):
                eng.report(fr, i, 'a word is converted to a number wider than a byte')
            q, p_ = st.copy(), st.copy()
            t = eng.T.mk('conv', fr.id, i)
            eng.wr(q, a, t, ('o', fr.id, i))
            q.auto = ('yes', t)
            p_.auto = ('no', None)
            return [(q, eng.TRUE), (p_, eng.FALSE)]
        if fi.get('n') in ('push_back', 'emplace_back') and obj is not None and 'unsigned char' in fi.get('cls', '') and args:
            v = eng.rd(st, args[0]) if eng.islv(args[0]) else args[0]
            x = eng.T.get(v)
            if st.auto[:1] != ('yes',) or v != st.auto[1] and x[0] != 'cast':
                eng.report(fr, i, 'a word that is no byte is taken for one')
        return None


def octets(m, f, name, vio):
    """the words of the request become bytes, one each"""
    n = 0
    put = []
    for g in [f] + [m.funcs[i] for i in called(m, f) if i in m.funcs and m.funcs[i].file == f.file]:
        for i, x in enumerate(g.nodes):
            fi = x.get('f') or {}
            if x['k'] != 'Call':
                continue
            if fi.get('n') in ('transform', 'copy', 'copy_if', 'move', 'generate') and fi.get('q', '').startswith('std::') and len(x['c']) >= 3:
                d = x['c'][2]
                into = [g.nodes[j].get('f') or {} for j in g.subtree(d) if g.nodes[j]['k'] == 'Call']
                n += 1
                if any(y.get('n') in ('begin', 'end', 'cbegin', 'data') for y in into) and not sized(g, d):
                    bad(vio, g, '%s: the words are written at the beginning of a vector that is empty' % name, i)
                else:
                    put.append((g, i))
                for j in g.subtree(i):
                    if g.nodes[j]['k'] == 'Lambda' and g.nodes[j].get('id') in m.funcs or g.nodes[j]['k'] == 'Lambda':
                        lf = lam(m, g, j)
                        if lf is None:
                            continue
                        if not any((y.get('f') or {}).get('n') == 'convertTo' for y in lf.nodes):
                            bad(vio, lf, '%s: the words are not converted' % name)
                            continue
                        e = Engine(m, Conv())
                        outs = e.run(lf)
                        vio += e.violations
                        for st, ret in outs:
                            n += 1
                            x_ = e.T.get(ret) if ret is not None else ()
                            while x_[:1] == ('cast',):
                                x_ = next((e.T.get(y.i) for y in x_[1:] if hasattr(y, 'i')), ())
                            if st.auto[:1] != ('yes',) or x_[:1] != ('conv',):
                                bad(vio, lf, '%s: a word that is no byte is taken for one' % name)
            elif fi.get('n') in ('push_back', 'emplace_back') and 'unsigned char' in fi.get('cls', ''):
                put.append((g, i))
                e = Engine(m, Conv())
                e.run(g, lambda eng, st, fr: refparams(eng, st, fr))
                vio += e.violations
                n += 1
    if not put:
        bad(vio, f, '%s: the words of the request are not collected' % name)
    return n


def sized(g, d):
    v = {varref(g, j) for j in g.subtree(d)} - {None}
    D_ = decls(g)
    for u_ in v:
        x = D_.get(u_)
        if x is None:
            continue
        for j in g.subtree(x['init']) if x.get('init', -1) is not None and x.get('init', -1) >= 0 else ():
            if g.nodes[j]['k'] == 'Construct' and [c for c in g.nodes[j]['c'] if g.nodes[c]['k'] != 'DefArg']:
                return True
        for y in g.nodes:
            if y['k'] == 'Call' and (y.get('f') or {}).get('n') in ('resize', 'assign') and y.get('obj') is not None and \
                    varref(g, y['obj']) == u_:
                return True
    return False


def lam(m, g, j):
    i = g.nodes[j].get('f')
    i = i.get('id') if isinstance(i, dict) else g.nodes[j].get('fn', i)
    return m.funcs.get(i)


def called(m, f):
    out = set()
    for x in f.nodes:
        if x['k'] in ('Call', 'Construct'):
            out |= m.targets(f, x)
    return out


def judge(m, e, c, f, name, spec, n, st, ret, w, S, vio, env):
    def no(msg):
        bad(vio, f, '%s: %s' % (name, msg))
    rv = ev(e, ret, {}) if ret is not None else None
    back = {v: k for k, v in S.items()}.get(rv)
    if back is None:
        return no('status of the answer not determined')
    good = back in ('EDone', 'ESucceeded')
    evs = [x for x in st.auto if x[0] != 'txt']
    opev = [x for x in evs if x[0] not in FREE]
    if w is not None and w not in spec.word[1]:
        if opev:
            no('does something although a word of the request is not among those documented')
        if back != 'EShowUsage':
            no('a word that is not documented does not show the usage')
        return
    if back == 'EShowUsage' and name != 'listCriteria':
        return no('shows the usage for a request as documented')
    if spec.ans == 'criteria':
        return criteria(e, c, f, n, st, back, opev, no)
    if spec.ans == 'status':
        return status(e, c, f, st, back, evs, no)
    steps = [s for s in spec.steps if s[0] not in FREE]
    failed = False
    for ev_ in evs:
        lab, o, av, al, res = ev_
        if lab in FREE and lab not in [s[0] for s in spec.steps]:
            continue
        s = next((s for s in spec.steps if s[0] == lab), None)
        if s is None:
            no('calls %s, which is not what the command is documented to do' % OPS[lab][0])
            return
        if failed:
            no('goes on (%s) after a failure' % OPS[lab][0])
        if len(s[1]) > len(al):
            no('%s does not get what the command is documented to pass' % OPS[lab][0])
            continue
        for j, want in enumerate(s[1]):
            x = c.norm(e, av[j])
            ok = True
            if want == RES:
                ok = c.isres(e, al[j])
            elif want == W:
                v = ev(e, av[j], env)
                ok = v is not None and v == (spec.word[1][w] if w is not None else 0)
            elif want == LOC:
                ok = x[:1] == ('loc',)
            elif want == SYSC:
                ok = x[:1] == ('sys',)
            elif want != ANY and want[0] == 'const':
                v = ev(e, av[j], {})
                ok = v is not None and bool(v) == bool(want[1])
            elif want != ANY and want[0] in ('arg', 'pack'):
                ok = x[:2] == want or want[0] == 'pack' and want[1] == n - 1 and x[:2] == ('arg', n - 1)
            if not ok:
                no('argument %d of %s is not the documented one' % (j + 1, OPS[lab][0]))
        if lab in ('listQualifiedPaths', 'listBelongingDomains', 'listAssociatedDomains', 'showProperties', 'getFootprintAsString') or \
                lab == 'dumpContent' and name == 'dumpElement':
            root = any(x[0] == 'locate' and x[4] == 2 for x in evs)
            if not o or o[0] != ('sys' if root else 'loc'):
                no('%s is not asked of the element that the request names' % OPS[lab][0])
        if res == 0 and OPS[lab][1] == 'bool':
            failed = True
    labs = [x[0] for x in evs]
    if failed and good:
        no('a failed operation is answered as success')
    if not failed and name == 'setElementBytes' and not any(l == 'setSettingsAsBytes' for l in labs):
        if good:
            no('answers success without having done anything')
        return
    if not failed:
        for s in steps:
            if labs.count(s[0]) != 1:
                no('%s is %s' % (OPS[s[0]][0], 'done more than once' if labs.count(s[0]) else 'not done'))
        want = 'EDone' if spec.ans == 'EDone' else 'ESucceeded'
        if back != want:
            no('a successful operation is answered with %s' % back)
        answer(e, c, f, spec, st, evs, no)


def final(e, c, st, f):
    """value of the answer"""
    return st.env.get(('v', -1, c.resu))


def whole(e, c, st):
    """text of the answer as far as it is known: pieces appended or assigned last"""
    h = handlers()
    pieces, base = [x[1] for x in st.auto if x[0] == 'txt'], e.rd(st, e.T.mk('Lvar', -1, c.resu))
    return pieces, base, h


def answer(e, c, f, spec, st, evs, no):
    a = spec.ans
    if not isinstance(a, tuple):
        return
    pieces, base, h = whole(e, c, st)
    if a[0] == 'flag':
        fl = [x for x in evs if x[0] == a[1]]
        v = ev(e, base, h)
        if not isinstance(v, str) and pieces:
            v = ev(e, pieces[-1], h)
        if not fl or v != (a[2] if fl[-1][4] else a[3]):
            no('answers "%s" when %s is %s' % (v, OPS[a[1]][0], 'true' if fl and fl[-1][4] else 'false' if fl else 'not asked'))
    elif a[0] == 'outflag':
        x = next((x for x in evs if OPS[x[0]][1] == 'bool'), None)
        q = [k for k in (1, 0) if x and e.T.get(outval(e, st, x, a[1])) == ('int', k)]
        v = ev(e, base, h)
        if len(q) == 1 and v != (a[2] if q[0] else a[3]):
            no('answers "%s" for %s' % (v, bool(q[0])))
    elif a[0] in ('ret', 'has'):
        want = ('retv', a[1])
        ok = c.norm(e, base) == want or any(c.norm(e, p) == want for p in pieces)
        if not ok:
            no('the answer is not what %s returns' % OPS[a[1]][0])
    elif a[0] == 'out':
        x = next((x for x in evs if OPS[x[0]][1] == 'bool'), None)
        if x is None or c.norm(e, base) != ('outv', x[0], a[1]):
            no('the answer is not the value obtained')


def outval(e, st, x, j):
    return e.rd(st, x[3][j]) if e.islv(x[3][j]) else x[3][j]


def criteria(e, c, f, n, st, back, evs, no):
    if n > 1:
        if evs or back != 'EShowUsage':
            no('accepts more than one argument')
        return
    if back == 'EShowUsage':
        if evs:
            no('does something and shows the usage')
        if n == 0:
            no('shows the usage for a request as documented')
        return
    x = next((x for x in evs if x[0] == 'exportElementToXMLString'), None)
    y = next((x for x in evs if x[0] == 'listCrit'), None)
    if (x is None) == (y is None):
        return no('not exactly one form of the list is produced')
    if x is not None:
        if n == 0:
            no('answers in XML although that was not asked')
        if (x[4] == 1) != (back == 'ESucceeded'):
            no('status of the answer is not that of the export')
    elif back != 'ESucceeded':
        no('a successful operation is answered with %s' % back)
    elif ev(e, y[2][1], {}) != 1:
        no('the criteria are listed without their possible values')
    elif n == 0 and ev(e, y[2][2], handlers()) not in (1, None):
        no('without argument the list is not the readable one')


FLAGS = (('tuningModeOn', 'Tuning Mode: ', 'on', 'off'), ('valueSpaceIsRaw', 'Value Space: ', 'raw', 'real'),
         ('outputRawFormatIsHex', 'Output Raw Format: ', 'hex', 'dec'), ('autoSyncOn', 'Auto Sync: ', 'on', 'off'))


def status(e, c, f, st, back, evs, no):
    if back != 'ESucceeded':
        no('a successful operation is answered with %s' % back)
    pieces, base, h = whole(e, c, st)
    txt = ''.join(v if isinstance(v, str) else '\x00' for v in (ev(e, p, h) for p in pieces))
    known = any(l in txt for _, l, _, _ in FLAGS)
    for lab, line, t, o in FLAGS:
        q = [x for x in evs if x[0] == lab]
        if not q:
            no('%s is not shown' % line.strip())
        elif known and line + (t if q[-1][4] else o) not in txt:
            no('"%s" does not show what %s says' % (line.strip(), OPS[lab][0]))
    for lab in ('listLast', 'listCrit'):
        if not any(x[0] == lab for x in evs):
            no('%s is not shown' % OPS[lab][0])


def rows(m):
    g = next((g for g in m.globals.values() if g.get('t', '').startswith('const CParameterMgr::SRemoteCommandParserItem')), None)
    if g is None:
        raise AnalysisError('anchor vanished: remote command table')
    ns = g['nodes']

    def lit(i):
        while ns[i].get('c') and ns[i]['k'] not in ('Str', 'Int', 'Un'):
            i = ns[i]['c'][0]
        return ns[i]
    out = []
    for i in ns[0]['c']:
        cs = ns[i]['c']
        name, fn, low = lit(cs[0]), ns[cs[1]], lit(cs[2])
        while fn.get('c') and not (fn.get('d') or {}).get('f'):
            fn = ns[fn['c'][0]]
        if name['k'] != 'Str' or 'd' not in fn:
            raise AnalysisError('row %d of the remote command table not understood' % len(out))
        out.append((name['v'], fn['d']['f']['id'], int(ns[cs[2]].get('cv') or low.get('cv')), ns[i].get('l'), g))
    return out


# ---- (b)
class D(Checker):
    SMALL = 60
    K = 40
    KEXIT = 40

    def __init__(self, m, S, spec, inline=()):
        self.m, self.S, self.spec, self.inline = m, S, spec, set(inline)
        self.n = 0

    def relevant(self, eng):
        return self.inline

    def init(self, eng, f):
        return ()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}
        nm = fi.get('n', '')

        def val(a):
            return eng.rd(st, a) if eng.islv(a) else a
        if n['k'] == 'Call' and not fi:
            self.n += 1
            outs = []
            for k, v in self.S.items():
                q = st.copy()
                # callee expression: which pointer, which object
                q.auto = q.auto + (('handler', self.ptr(eng, st, fr, n), tuple(args), k),)
                for a in args:
                    if self.isres(eng, a):
                        eng.wr(q, a, T.mk('outv', 'handler', 1), ('o', fr.id, i))
                outs.append((q, T.mk('int', v)))
            return outs
        if fi.get('cls') == 'IRemoteCommand':
            self.n += 1
            if nm == 'getArgumentCount':
                return [(st, T.mk('count'))]
            if nm == 'getCommand':
                return [(st, eng.lder(T.mk('cmdname')))]
            return None
        k = next((self.spec[t] for t in sorted(tg | {fi.get('id')}) if t in self.spec), None)
        if k is None:
            return None
        lab, kind = k
        self.n += 1
        av = tuple(val(a) for a in args)

        def out(res, t):
            q = st.copy()
            q.auto = q.auto + ((lab, obj, av, tuple(args), res),)
            if lab != 'find':
                for a in args:
                    if self.isres(eng, a):
                        eng.wr(q, a, T.mk('outv', lab, 1), ('o', fr.id, i))
            if kind == 'ptr' and res:
                q.facts = dict(q.facts)
                q.facts[t] = True
            return (q, t)
        if kind == 'ptr':
            return [out(1, T.mk('item')), out(0, eng.NULL)]
        if kind == 'bool':
            return [out(1, eng.TRUE), out(0, eng.FALSE)]
        if kind == 'val':
            return [out(1, T.mk('retv', lab))]
        return [out(1, None)]

    def ptr(self, eng, st, fr, n):
        f = fr.f
        for j in f.subtree(n['callee']) if 'callee' in n else ():
            x = f.nodes[j]
            if x['k'] == 'Member' and '::*' in x.get('t', ''):
                return self.m.field_of(f, j)
        return None

    def isres(self, eng, a):
        if not eng.islv(a):
            return False
        x = eng.T.get(a)
        return x[0] == 'Lvar' and x[1] == -1 and x[2] == self.resu


def has(eng, t, what, d=0):
    """does term t contain a subterm starting with `what`"""
    if d > 12 or t is None:
        return False
    x = eng.T.get(t)
    if x[:len(what)] == what:
        return True
    for y in x[1:]:
        for z in (y if isinstance(y, tuple) else (y,)):
            if hasattr(z, 'i') and has(eng, z.i, what, d + 1):
                return True
    return False


def dispatcher(m, S, vio):
    n = 0
    find = {f.id for f in m.fn(TPL + '::findCommandParserItem')}
    parse = {f.id for f in m.fn(ITEM + '::parse')}
    helpf = {f.id for f in m.fn(TPL + '::helpCommandProcess')}
    usage = {f.id for f in m.fn(ITEM + '::usage')}
    ctor = [f for f in m.fn(ITEM + '::CRemoteCommandParserItem') if f.ctor and len(f.params) >= 5]
    if len(ctor) != 1:
        raise AnalysisError('anchor vanished: constructor of a remote command item')
    for f in m.fn(TPL + '::remoteCommandProcess'):
        c = D(m, S, {**{i: ('find', 'ptr') for i in find}, **{i: ('parse', 'bool') for i in parse},
                     **{i: ('help', 'void') for i in helpf}}, {g.id for g in m.funcs.values() if g.cls == TPL} - find - helpf)
        c.resu = f.params[1]['u']
        e = Engine(m, c)
        outs = e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
        vio += e.violations
        for st, ret in outs:
            for cmd in ('help', 'sync', 'helpx', ''):
                env = handlers({'cmdname': lambda x, s: cmd, 'drf': lambda x, s: s(x[1].i), 'Lder': lambda x, s: s(x[1].i)})
                if not feasible(e, st, env):
                    continue
                n += 1
                labs = [x[0] for x in st.auto]
                rv = ev(e, ret, env)
                fd = next((x for x in st.auto if x[0] == 'find'), None)
                pr = next((x for x in st.auto if x[0] == 'parse'), None)
                if fd is not None and not has(e, fd[2][0], ('cmdname',)):
                    bad(vio, f, 'the command looked up is not the one of the request')
                if cmd == 'help' and fd is not None and not fd[4]:
                    continue                     # registered by the constructor, see below
                if cmd == 'help':
                    if pr is not None:
                        bad(vio, f, 'help is handed to a handler, and has none')
                    if 'help' not in labs or rv != 1:
                        bad(vio, f, 'help is not answered')
                    continue
                if 'help' in labs:
                    bad(vio, f, 'another command is answered with the help')
                if fd is not None and not fd[4]:
                    if pr is not None:
                        bad(vio, f, 'an unknown command is handed to a handler')
                    if rv != 0:
                        bad(vio, f, 'an unknown command is not refused')
                    t = ev(e, e.rd(st, e.T.mk('Lvar', -1, c.resu)), env)
                    if not t:
                        bad(vio, f, 'the refusal of an unknown command is not explained')
                    continue
                if pr is None:
                    bad(vio, f, 'a known command is not executed')
                    continue
                if not has(e, e.addr(pr[1]) if e.islv(pr[1]) else pr[1], ('item',)):
                    bad(vio, f, 'the command executed is not the one found')
                if rv is None or bool(rv) != bool(pr[4]):
                    bad(vio, f, 'the answer does not say whether the command succeeded')
                if len(pr[3]) < 3 or not c.isres(e, pr[3][2]):
                    bad(vio, f, 'the text of the command is not the answer')
    for f in m.fn(TPL + '::TRemoteCommandHandlerTemplate'):
        n += 1
        if f.ctor and f.params and f.params[0]['t'].endswith('*') and not any(
                x['k'] == 'Str' and x.get('v') == 'help' for x in f.nodes):
            bad(vio, f, 'the command help is not registered')
    # one item
    for f in m.fn(ITEM + '::parse'):
        minf = minfield(m, f)
        pf = ptrfield(m)
        c = D(m, S, {i: ('usage', 'val') for i in usage}, {h.id for h in m.funcs.values() if h.cls == ITEM} - usage)
        c.resu = f.params[2]['u']
        e = Engine(m, c)
        outs = e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
        vio += e.violations
        for st, ret in outs:
            for count, low in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (3, 3), (2, 3)):
                env = handlers({'count': lambda x, s: count, 'fld': lambda x, s: low if x[2] == minf else None,
                                'retv': lambda x, s: '<%s>' % x[1]})
                if not feasible(e, st, env):
                    continue
                n += 1
                hs = [x for x in st.auto if x[0] == 'handler']
                rv = ev(e, ret, env)
                t = e.rd(st, e.T.mk('Lvar', -1, c.resu))
                tv = ev(e, t, env)
                if count < low:
                    if hs:
                        bad(vio, f, 'the handler is called although arguments are missing')
                    if rv != 0:
                        bad(vio, f, 'a request with too few arguments is not refused')
                    if not isinstance(tv, str) or '<usage>' not in tv:
                        bad(vio, f, 'the refusal of a request with too few arguments does not show the usage')
                    continue
                if len(hs) != 1:
                    bad(vio, f, 'the handler is %s' % ('called more than once' if hs else 'not called although there are enough arguments'))
                    continue
                k = hs[0][3]
                if hs[0][1] is not None and hs[0][1] != pf:
                    bad(vio, f, 'the handler called is not that of the command')
                if rv is None or bool(rv) != (k in ('EDone', 'ESucceeded')):
                    bad(vio, f, 'status %s answered as %s' % (k, 'success' if rv else 'failure'))
                own = e.T.get(t) == ('outv', 'handler', 1)
                if k == 'EDone' and tv != 'Done' or k in ('ESucceeded', 'EFailed') and not own or \
                        k == 'EShowUsage' and (not isinstance(tv, str) or '<usage>' not in tv):
                    bad(vio, f, 'text of the answer for status %s is not the documented one' % k)
    return n


def ptrfield(m):
    return fieldof(m, ITEM, lambda t: '::*' in t, 'handler of a remote command')


def minfield(m, f):
    return fieldof(m, ITEM, lambda t: bare(t) in ('unsigned long', 'size_t', 'std::size_t'), 'minimal argument count of a remote command')


def registration(m, vio):
    n = 0
    add = m.fn(TPL + '::addCommandParser')
    addi = {f.id for f in add}
    ctor = [f for f in m.fn(ITEM + '::CRemoteCommandParserItem') if f.ctor and len(f.params) >= 5]
    if len(ctor) != 1:
        raise AnalysisError('anchor vanished: constructor of a remote command item')
    ctor = ctor[0]
    # item field <- constructor parameter
    into = {}
    for b in ctor.blocks.values():
        for e in b['e']:
            if isinstance(e, dict) and e.get('e') == 'init' and 'field' in e:
                for j in ctor.subtree(e['x']):
                    d = ctor.nodes[j].get('d') or {}
                    if d.get('k') == 'parm':
                        into[e['field']] = d['i']
    want = {getter_field(m, ITEM + '::getCommandName'): '_pcCommandName', ptrfield(m): '_pfnParser', minfield(m, None): '_minArgumentCount',
            getter_field(m, ITEM + '::getDescription'): '_pcDescription'}
    roles = {0: 'name', 1: 'handler', 2: 'minimum', 3: 'help', 4: 'description'}
    st = [x['u'] for x in m.classes[MGR + '::SRemoteCommandParserItem']['fields']]
    # addCommandParser(parameter) -> constructor parameter
    for f in add:
        n += 1
        news = [x for x in f.nodes if x['k'] == 'Construct' and (x.get('f') or {}).get('id') == ctor.id]
        if len(news) != 1:
            bad(vio, f, 'a command is not registered exactly once')
            continue
        via = {}
        for k, c in enumerate(news[0]['c']):
            for j in f.subtree(c):
                d = f.nodes[j].get('d') or {}
                if d.get('k') == 'parm':
                    via[k] = d['i']
        find = {g.id for g in m.fn(TPL + '::findCommandParserItem')}
        c = D(m, {}, {i: ('find', 'ptr') for i in find}, {g.id for g in m.funcs.values() if g.cls == TPL} - find)
        c.resu = None
        c.push = 0

        class Push(D):
            def on_call(self, eng, st, fr, i, nn, tg, obj, args):
                nm = (nn.get('f') or {}).get('n')
                if nm in ('push_back', 'emplace_back', 'insert') and not (nn['f'] or {}).get('repo'):
                    st.auto = st.auto + (('push',),)
                return D.on_call(self, eng, st, fr, i, nn, tg, obj, args)
        c.__class__ = Push
        e = Engine(m, c)
        for s, ret in e.run(f, lambda eng, st, fr: refparams(eng, st, fr)):
            n += 1
            fd = next((x for x in s.auto if x[0] == 'find'), None)
            p = sum(1 for x in s.auto if x[0] == 'push')
            if fd is None:
                bad(vio, f, 'registers a command without looking whether its name is taken')
            elif fd[4] and (p or ev(e, ret, {}) != 0):
                bad(vio, f, 'a name already registered is registered again')
            elif not fd[4] and (p != 1 or ev(e, ret, {}) != 1):
                bad(vio, f, 'a new command is not registered')
        # users of addCommandParser
        seen = 0
        for g in m.funcs.values():
            for i, x in enumerate(g.nodes):
                if x['k'] != 'Call' or not (m.targets(g, x) & addi):
                    continue
                roleof = {}
                for k, a in enumerate(x.get('c') or ()):
                    for j in g.subtree(a):
                        y = g.nodes[j]
                        if y['k'] == 'Member' and m.field_of(g, j) in st:
                            roleof[k] = st.index(m.field_of(g, j))
                            if g.nodes[strip(g, a)]['k'] in ('Cond', 'Bin', 'Un'):
                                bad(vio, g, 'the %s of a table row is altered on registration' % roles[roleof[k]], i)
                if not roleof:
                    continue
                seen += 1
                for fld, nm in want.items():
                    src = roleof.get(via.get(into.get(fld)))
                    if src is not None and st[src].split('::')[-1] != nm:
                        bad(vio, g, 'the %s of a table row is used as another part of the command' % roles[src], i)
                    if src is None:
                        bad(vio, g, 'part of a table row is lost on registration', i)
                    n += 1
        if not seen:
            raise AnalysisError('anchor vanished: registration of the command table')
    for f in m.fn(MGR + '::createCommandHandler'):
        n += 1
        all_of(m, f, addi, vio, 'not every command of the table is registered')
    # lookup by name
    for f in m.fn(TPL + '::findCommandParserItem'):
        n += finder(m, f, vio)
    return n


def finder(m, f, vio):
    """a look-up by name: only an item of exactly that name is found, and the whole list is searched before giving up"""
    e = Engine(m, Checker())
    outs = e.run(f)
    pu = f.params[0]['u']
    for st, ret in outs:
        if e.T.get(ret)[0] == 'null':
            continue
        ok = False
        for k, pol in st.facts.items():
            if isinstance(k, int) and pol is True:
                x = e.T.get(k)
                if x[0] == 'eq':
                    ts = (x[1].i, x[2].i)
                    if any(has_parm(e, t, pu) for t in ts) and any(not has_parm(e, t, pu) for t in ts):
                        ok = True
        if not ok:
            bad(vio, f, 'finds an item whose name is not the one looked for')
    if not any(e.T.get(ret)[0] == 'null' for st, ret in outs):
        bad(vio, f, 'always finds an item')
    ls = loops(f)
    for L in ls:
        if L.kind == 'partial':
            bad(vio, f, 'not every item is looked at: the loop ' + L.why)
    return 1 + len(outs)


def has_parm(e, t, pu, d=0):
    if d > 6:
        return False
    x = e.T.get(t)
    if x[0] in ('init', 'Lvar', 'param', 'par') and pu in x:
        return True
    return any(has_parm(e, y.i, pu, d + 1) for y in x[1:] if hasattr(y, 'i'))


def check(m, tier):
    vio, n = [], 0
    S = statuses(m)
    ops = {}
    for lab, (q, kind) in OPS.items():
        fs = m.fn(q)
        for f in fs:
            ops[f.id] = (lab, kind)
    table = rows(m)
    names = [r_[0] for r_ in table]
    for name, fid, low, line, g in table:
        w = {'where': '%s:%s' % (g['file'], line), 'function': g['q'], 'path': name}
        if names.count(name) > 1:
            vio.append(dict(w, message='%s: more than one row of the table has this name' % name))
        spec = CMDS.get(name)
        f = m.funcs.get(fid)
        if f is None:
            raise AnalysisError('handler of %s not found' % name)
        if spec is None:
            spec = Cmd(low, None, 'any')
        n += 1
        # what the request is guaranteed to have is what the table demands
        n += handler(m, f, name, spec, ops, S, vio, low)
    for name in CMDS:
        if name not in names:
            g = table[0][4]
            vio.append({'where': '%s:%s' % (g['file'], g.get('line')), 'function': g['q'], 'path': name,
                        'message': '%s: no longer a command' % name})
    n += dispatcher(m, S, vio)
    n += registration(m, vio)
    return {'violations': dedup(vio), 'coverage': {'instances_checked': n, 'commands': len(table), 'unit': 'handlers x outcomes of their operations x words'}}
