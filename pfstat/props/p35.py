"""Start-up. Each stage function is analysed alone, the stages it calls being events with both outcomes. (a) load(): the stages are asked in
order (element libraries, framework configuration, plugins, structure, settings, initialisation, back synchronisation, validation of the
configurations, forced application, remote interface), each once, none after one that failed; success exactly when all succeeded.
(b) Plugins: the fallback to virtual subsystems is enabled exactly when the policy tolerates missing subsystems, the library is cleaned and
knows the virtual type, and loading counts as done when every plugin was loaded or the policy tolerates; every file of every location
is listed; a plugin leaves the list exactly when it was opened, its entry point called and its library kept, the others leave a text; a
type without builder is built by the fallback if there is one. (c) Settings: decided over (policy, outcome of the load); the file is imported,
with settings and validation, into the domains, which are emptied before the import and after a failed one; no settings
section means nothing to load. (d) Structure: once parsed, offsets are set from 0 and the settings get the footprint as size; not
otherwise. (e) Configuration: the class and the domains take the name given, the plugins section is required and kept. (f) The remote server is
started exactly when tuning is allowed and the interface not forced off, on the port configured, with a new command handler,
and its failure is the failure of the start."""
from .common import *
from ..evalterm import ev, feasible
from ..loops import each, loops, strip, varref
from .p14 import u, ids, bad, castless
from .p26 import Evts

TECHNIQUE = 'path enumeration of every stage over the outcomes of those it calls; finite decision tables; per-iteration obligations; loop coverage'
NOTE = 'what a plugin does in its entry point is outside the repository'
MGR, SYS, CE = 'CParameterMgr', 'CSystemClass', 'CElement'
STAGES = ['libs', 'conf', 'plugins', 'struct', 'settings', 'init', 'back', 'valid', 'apply', 'remote']


def named(m, *names, cls=None, rt=None):
    x = {f.id for f in m.funcs.values() if f.n in names and (cls is None or f.cls and m.derives(f.cls, cls)) and (rt is None or f.rt == rt)}
    if not x:
        raise AnalysisError('anchor vanished: ' + names[0])
    return x


class S(Evts):
    """stores of fields, calls of library functions named, strings built of literals"""
    LIB = ()

    def add(self, st, e):
        # each time counts (bounded)
        if st.auto.count(e) < 2:
            st.auto = st.auto + (e,)

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if not fi.get('repo') and fi.get('n') in self.LIB:
            st.auto = st.auto + (('lib', fi['n'], eng.T.show(obj) if obj is not None else '', tuple(eng.T.show(x) + ' ' + eng.T.show(self.val(eng, st, x)) for x in args)),)
        if obj is not None and eng.islv(obj) and not fi.get('repo') and args and fi.get('n') in ('operator=', 'assign', 'swap'):
            self.on_store(eng, st, fr, n, obj, self.val(eng, st, args[0]))
        return None

    def on_store(self, eng, st, fr, n, lv, val):
        x = eng.T.get(lv)
        if x[0] == 'Lvar' and x[1] == -1 or x[0] == 'Lfld':
            st.auto = tuple(y for y in st.auto if y[:2] != ('set', lv)) + (('set', lv, val),)


def run(m, f, spec, inl=(), cls=S, pre=None):
    c = cls(m, spec, inl)
    e = Engine(m, c)

    def setup(eng, st, fr):
        refparams(eng, st, fr)
        for p in f.params:
            if not p['t'].endswith('&'):
                st.env[('v', fr.id, p['u'])] = eng.T.mk('init', -1, p['u'])
        if pre:
            pre(eng, st, fr)
    return e, e.run(f, setup)


def of(st, lab):
    return [x for x in st.auto if x[0] == lab]


def yes(e, st, rt):
    return None if rt is None else e.truth(st, rt)


def said(e, f, st, k=-1):
    """the error parameter was written, here or by what failed"""
    lv = e.T.mk('Lvar', -1, f.params[k]['u'])
    if any(x[0] == 'set' and x[1] == lv and not (e.T.get(x[2])[0] == 'strlit' and not e.T.get(x[2])[1]) for x in st.auto):
        return True
    return any(len(x) == 5 and x[3] and lv in x[3] and not x[4] for x in st.auto)


def load(m, vio):
    sp = {'libs': (ids(m, MGR + '::feedElementLibraries'), 'void'), 'conf': (ids(m, MGR + '::loadFrameworkConfiguration'), 'bool'),
          'plugins': (ids(m, MGR + '::loadSubsystems'), 'bool'), 'struct': (ids(m, MGR + '::loadStructure'), 'bool'),
          'settings': (ids(m, MGR + '::loadSettings'), 'bool'),
          'init': (named(m, 'init', cls=CE, rt='bool'), 'bool'),
          'back': (named(m, 'sync', cls='CBackSynchronizer') if 'CBackSynchronizer' in m.classes else
                   {f.id for f in m.funcs.values() if f.n == 'sync' and 'BackSynchronizer' in (f.cls or '')}, 'void'),
          'valid': (ids(m, 'CConfigurableDomains::validate'), 'void'), 'apply': (ids(m, MGR + '::doApplyConfigurations'), 'void'),
          'remote': (ids(m, MGR + '::handleRemoteProcessingInterface'), 'bool')}
    n = 0
    for f in m.fn(MGR + '::load'):
        e, outs = run(m, f, sp)
        good = 0
        for st, rt in outs:
            n += 1
            xs = [x for x in st.auto if x[0] in sp]
            seq = [x[0] for x in xs]
            failed = [x[0] for x in xs if x[4] == 0]
            if seq != STAGES[:len(seq)]:
                bad(vio, f, 'a stage of the start is left out, repeated or out of order: %s' % ' '.join(seq))
            elif failed and failed[0] != seq[-1]:
                bad(vio, f, 'the start goes on though a stage failed: ' + failed[0])
            elif not failed and len(seq) != len(STAGES):
                bad(vio, f, 'the start ends before its last stage, %s' % STAGES[len(seq)])
            r_ = yes(e, st, rt)
            if r_ is not (not failed):
                bad(vio, f, 'the start is not reported as it went')
            good += r_ is True
            for x in xs:
                if x[0] == 'apply' and e.truth(st, x[2][0]) is not True:
                    bad(vio, f, 'the configurations are not all applied at start')
                if x[4] == 0 and x[0] != 'libs' and x[3] and e.T.mk('Lvar', -1, f.params[0]['u']) not in x[3]:
                    bad(vio, f, 'the text of a failed stage is not that of the start')
        if not good:
            bad(vio, f, 'never succeeds')
    return n


def field_of(m, getter):
    out = set()
    for f in m.fn(getter):
        e, outs = run(m, f, {})
        for st, rt in outs:
            x = e.T.get(castless(e, rt)) if rt is not None else ('',)
            out.add(x[2] if x[0] in ('fld', 'Lfld') else None)
    if len(out) != 1 or None in out:
        raise AnalysisError('anchor vanished: record behind ' + getter)
    return out.pop()


def plugins(m, vio):
    n = 0
    miss = field_of(m, MGR + '::getFailureOnMissingSubsystem')
    sp = {'load': (ids(m, SYS + '::loadSubsystems'), 'bool')}
    for f in m.fn(MGR + '::loadSubsystems'):
        e, outs = run(m, f, sp)
        for st, rt in outs:
            n += 1
            x = of(st, 'load')
            if len(x) != 1:
                bad(vio, f, 'the plugins are not loaded once')
                continue
            x = x[0]
            for b in (0, 1):
                en = {'fld': lambda t, s: b if t[2] == miss else None}
                if feasible(e, st, en) and (ev(e, x[2][2], en) if not e.isconst(x[2][2]) else e.cval(x[2][2])) != 1 - b:
                    bad(vio, f, 'missing subsystems are not tolerated exactly when the policy says so')
            if yes(e, st, rt) is not bool(x[4]):
                bad(vio, f, 'the loading of the plugins is not reported as it went')
    lib = 'CSubsystemLibrary'
    sp = {'clean': (ids(m, 'CElementLibrary::clean'), 'void'), 'add': (ids(m, 'CElementLibrary::addElementBuilder'), 'void'),
          'fall': (named(m, 'setDefaultBuilder'), 'void'), 'files': (ids(m, SYS + '::loadSubsystemsFromSharedLibraries'), 'bool')}
    for f in m.fn(SYS + '::loadSubsystems'):
        e, outs = run(m, f, sp)
        tol = e.T.mk('init', -1, f.params[2]['u'])
        for st, rt in outs:
            n += 1
            seq = [x[0] for x in st.auto if x[0] in sp]
            fl = of(st, 'files')
            if len(fl) != 1 or seq[:1] != ['clean'] or seq[-1] != 'files' or seq.count('clean') != 1:
                bad(vio, f, 'the plugins are not loaded once, into an emptied library')
                continue
            if not any(e.T.get(self_str(e, x)) == ('strlit', 'Virtual') or '"Virtual"' in repr(e.T.show(x[2][0])) or 'Virtual' in e.T.show(x[2][0])
                       for x in of(st, 'add')):
                bad(vio, f, 'the virtual type of subsystems is not known')
            for t in (0, 1):
                if not feasible(e, st, {tol: t}):
                    continue
                if bool(of(st, 'fall')) != bool(t):
                    bad(vio, f, 'the fallback to virtual subsystems is %s' % ('missing' if t else 'enabled though the policy refuses it'))
                want = bool(fl[0][4]) or bool(t)
                r_ = ev(e, rt, {tol: t}) if rt is not None else None
                if r_ is None and rt is not None and e.truth(st, rt) is not None:
                    r_ = e.truth(st, rt)
                if r_ is None or bool(r_) != want:
                    bad(vio, f, 'the loading succeeds or fails against the policy')
    n += files(m, vio)
    n += loading(m, vio)
    n += builders(m, vio)
    return n


def self_str(e, x):
    t = x[2][0]
    return t if isinstance(t, int) else 0


class Files(S):
    """the outcome of the last test of the list"""

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if obj == self.list and fi.get('n') in ('empty', 'size') and not fi.get('repo'):
            out = []
            known = of(st, 'empty')
            for k in (0, 1, 3):
                if known and known[-1][2] != k:
                    continue
                a = st.copy()
                a.auto = tuple(x for x in a.auto if x[0] != 'empty') + (('empty', int(not k), k),)
                out.append((a, eng.const(k) if fi['n'] == 'size' else eng.TRUE if not k else eng.FALSE))
            return out
        if obj == self.list and not fi.get('repo') and not fi.get('const'):
            st.auto = tuple(x for x in st.auto if x[0] != 'empty')
        return S.other(self, eng, st, fr, i, n, tg, obj, args)

    def pre(self, eng, st, fr, i, lab, o, av, al):
        if lab == 'load':
            self.n += 1
            self.given.append(al[0])
            st.auto = tuple(x for x in st.auto if x[0] not in ('empty', 'load'))


def files(m, vio):
    n = 0
    one = ids(m, SYS + '::loadPlugins')
    for f in m.fn(SYS + '::loadSubsystemsFromSharedLibraries'):
        f.cfg()
        # the list: what is given to the loading of the plugins
        calls = [x for x in f.nodes if x['k'] == 'Call' and m.targets(f, x) & one]
        lst = {varref(f, x['c'][0]) for x in calls}
        if len(lst) != 1 or None in lst:
            raise AnalysisError('anchor vanished: list of plugins')
        lst = lst.pop()
        # listing
        fill = [(i, x) for i, x in enumerate(f.nodes) if x['k'] == 'Call' and (x.get('f') or {}).get('n') in ('push_back', 'emplace_back', 'insert')
                and x.get('obj') is not None and varref(f, x['obj']) == lst]
        if not fill:
            raise AnalysisError('anchor vanished: listing of the plugins')
        ls = loops(f)
        cover = 0
        for i, x in fill:
            inside = [L for L in ls if L.blockof(i) is not None]
            cover = max(cover, len(inside) + (x['f']['n'] == 'insert'))
            for L in inside:
                n += 1
                if L.kind == 'partial':
                    bad(vio, f, 'plugins are left out: the loop ' + L.why, i)
                elif L.kind == 'full' and L.exits:
                    bad(vio, f, 'plugins are left out: the loop may stop before the last', i)
            inside.sort(key=lambda L: len(list(L.nodes())))
            if inside and not inside[0].every_iteration(i):
                bad(vio, f, 'a plugin is listed only under a condition', i)
            for a, b in zip(inside, inside[1:]):
                c = f.blocks[a.head].get('cond')
                n += 1
                if c is not None and c >= 0 and not b.every_iteration(c):
                    bad(vio, f, 'the plugins of a location are listed only under a condition', i)
        if cover < 2:
            bad(vio, f, 'not every plugin of every location is listed')
        c = Files(m, {'load': (one, 'bool')}, ())
        e = Engine(m, c)
        c.list = e.T.mk('Lvar', 0, lst)
        c.given = []
        outs = e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
        for st, rt in outs:
            n += 1
            em = of(st, 'empty')
            r_ = yes(e, st, rt)
            if not em or r_ is None:
                bad(vio, f, 'the outcome does not depend on the plugins left')
            elif r_ is not bool(em[-1][1]):
                bad(vio, f, 'the loading succeeds with plugins left, or fails without')
            ld = of(st, 'load')
            if em and not em[-1][1] and (not ld or ld[-1][4]):
                bad(vio, f, 'the loading is given up though plugins left might be loaded')
        if not c.given or any(g != c.list for g in c.given):
            bad(vio, f, 'the plugins listed are not the ones loaded')
        if not any(yes(e, st, rt) for st, rt in outs):
            bad(vio, f, 'never succeeds')
    return n


class Plug(S):
    def __init__(self, a, m, f, lst, errs, keep):
        S.__init__(self, m, {}, ())
        self.f, self.lst, self.errs, self.keep = f, lst, errs, keep
        self.vio = []
        self.flag = None

    def ev(self, st, x):
        st.auto = st.auto + (x,)

    def on_loop(self, eng, st, fr, hd, vs, fl):
        if fr.id == 0:
            # a handler goes on with the next plugin
            if ('caught',) in st.auto:
                self.on_back(eng, st, fr, hd)
            st.auto = ()

    def on_catch(self, eng, st, fr, *a):
        st.auto = (('caught',),)

    def other(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if not fi and n['k'] == 'Call' and not tg:
            self.ev(st, ('entry',))
        o = eng.T.show(obj) if obj is not None else ''
        if not fi.get('repo') and obj is not None:
            if self.lst in o and fi.get('n') in ('erase', 'pop_front', 'remove', 'clear', 'pop_back', 'splice'):
                self.ev(st, ('erase', fi['n']))
            elif self.errs in o and fi.get('n') in ('push_back', 'emplace_back', 'insert'):
                self.ev(st, ('err',))
            elif self.keep in o and fi.get('n') in ('push_back', 'emplace_back', 'insert'):
                self.ev(st, ('keep',))
        return None

    def on_back(self, eng, st, fr, hd):
        if fr.id != 0:
            return
        self.n += 1
        seq = [x[0] for x in st.auto]
        fl = eng.truth(st, st.env[('v', 0, self.flag)]) if self.flag and ('v', 0, self.flag) in st.env else None
        if 'erase' in seq:
            if seq.count('erase') != 1 or ('erase', 'erase') not in st.auto:
                bad(self.vio, self.f, 'another plugin than the one loaded leaves the list')
            if 'entry' not in seq or 'keep' not in seq:
                bad(self.vio, self.f, 'a plugin leaves the list without its entry point called and its library kept')
            if self.flag and fl is not True:
                bad(self.vio, self.f, 'a plugin loaded is not accounted for')
            self.did = True
        else:
            if 'err' not in seq:
                bad(self.vio, self.f, 'a plugin that failed leaves no text')
            self.failed = True


def loading(m, vio):
    n = 0
    keep = [x['u'] for x in m.classes[SYS]['fields'] if 'DynamicLibrary' in x['t']]
    if len(keep) != 1:
        raise AnalysisError('anchor vanished: libraries kept')
    for f in m.fn(SYS + '::loadPlugins'):
        c = Plug(None, m, f, f.params[0]['u'], f.params[1]['u'], keep[0])
        f.cfg()
        rets = {varref(f, x['c'][0]) for x in f.nodes if x['k'] == 'Return' and x.get('c')}
        c.flag = rets.pop() if len(rets) == 1 and None not in rets else None
        c.did = c.failed = False
        e = Engine(m, c)
        e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
        vio += c.vio
        n += c.n
        ls = [L for L in loops(f)]
        for L in ls:
            n += 1
            if L.kind == 'partial':
                bad(vio, f, 'not every plugin is tried: the loop ' + L.why)
            elif L.kind == 'full' and L.exits:
                bad(vio, f, 'not every plugin is tried: the loop may stop before the last')
        if not c.did or not c.failed:
            bad(vio, f, 'a plugin is never %s' % ('taken as loaded' if not c.did else 'taken as failed'))
        # nothing else writes the flag
        if c.flag:
            for x in f.nodes:
                if x['k'] == 'Decl':
                    for v in x.get('vars', ()):
                        if v.get('u') == c.flag and v.get('init') is not None:
                            y = f.nodes[strip(f, v['init'])]
                            n += 1
                            if y['k'] == 'Bool' and y.get('v'):
                                bad(vio, f, 'loading counts as successful from the outset')
    return n


def builders(m, vio):
    n = 0
    base = ids(m, 'CElementLibrary::createElement')
    bld = {f.id for f in m.funcs.values() if f.n == 'createElement' and f.cls and m.derives(f.cls, 'CElementBuilder')} | \
        {i for c in m.classes if 'CElementBuilder' == c for i in ['CElementBuilder::createElement(const CXmlElement &)']}
    for f in m.funcs.values():
        if f.n == 'createElement' and (f.cls or '').startswith('CDefaultElementLibrary<'):
            e, outs = run(m, f, {'own': (base, 'ptr'), 'fall': (bld, 'ptr')})
            tested = set()
            for st, rt in outs:
                n += 1
                has = {pol for k, pol in st.facts.items() if isinstance(k, int) and e.T.get(k)[0] in ('fld', 'Lfld') and
                       e.T.get(k)[2] in [x['u'] for x in m.classes.get(f.cls, {'fields': []})['fields']]}
                own, fall = of(st, 'own'), of(st, 'fall')
                if len(own) != 1:
                    bad(vio, f, 'the builder of the type is not asked once')
                elif own[0][4]:
                    if castless(e, rt) != own[0][4] or fall:
                        bad(vio, f, 'the element built for its type is not the one returned')
                elif fall:
                    tested.add('fall')
                    if False in has:
                        bad(vio, f, 'the fallback is used when there is none')
                    if fall[0][4] and castless(e, rt) != fall[0][4] or not fall[0][4] and yes(e, st, rt) is not False:
                        bad(vio, f, 'the element built by the fallback is not the one returned')
                else:
                    tested.add('none')
                    if True in has:
                        bad(vio, f, 'the fallback is not used')
                    if yes(e, st, rt) is not False:
                        bad(vio, f, 'without fallback an unknown type gives an element')
            if tested != {'fall', 'none'}:
                bad(vio, f, 'an unknown type is not built by the fallback, if any')
    for f in m.fn('CElementLibrary::createElement'):
        e, outs = run(m, f, {'build': (bld, 'ptr')})
        tested = set()
        for st, rt in outs:
            for known in (0, 1):
                def lib(x, s):
                    return {'find': 1 if known else 9, 'end': 9, 'cend': 9, 'count': known}.get(str(x[1]).split('::')[-1])
                if not feasible(e, st, {'lib': lib}):
                    continue
                n += 1
                b = of(st, 'build')
                tested.add(known)
                if bool(b) != bool(known):
                    bad(vio, f, 'an element is %s built for a type %s builder' % ('not' if known else '', 'with' if known else 'without'))
                elif b and b[0][4] and castless(e, rt) != b[0][4] or not b and yes(e, st, rt) is not False:
                    bad(vio, f, 'the element built is not the one returned')
        if tested != {0, 1}:
            bad(vio, f, 'the builder of the type is not looked up')
    return n


def settings(m, vio):
    n = 0
    pol = field_of(m, MGR + '::getFailureOnFailedSettingsLoad')
    for f in m.fn(MGR + '::loadSettings'):
        e, outs = run(m, f, {'file': (ids(m, MGR + '::loadSettingsFromConfigFile'), 'bool')})
        lv = e.T.mk('Lvar', -1, f.params[0]['u'])
        for st, rt in outs:
            x = of(st, 'file')
            if len(x) != 1:
                bad(vio, f, 'the settings are not loaded once')
                continue
            for p in (0, 1):
                en = {'fld': lambda t, s: p if t[2] == pol else None}
                if not feasible(e, st, en):
                    continue
                n += 1
                want = bool(x[0][4]) or not p
                r_ = ev(e, rt, en) if rt is not None else None
                if r_ is None and rt is not None:
                    r_ = e.truth(st, rt)
                if r_ is None or bool(r_) != want:
                    bad(vio, f, 'a failed load of the settings is %s' % ('refused though the policy tolerates it' if want else 'tolerated against the policy'))
                elif not want and lv not in x[0][3] and not any(y[0] == 'set' and y[1] == lv for y in st.auto):
                    bad(vio, f, 'a refused load of the settings gives no text')
    find = ids(m, CE + '::findChildOfKind')
    par = ids(m, MGR + '::xmlParse')
    auto = named(m, 'setAutoValidationRequired')
    ctx = {f.id for f in m.funcs.values() if f.q == 'CXmlDomainImportContext::CXmlDomainImportContext'}
    for f in m.fn(MGR + '::loadSettingsFromConfigFile'):
        e, outs = run(m, f, {'find': (find, 'ptr'), 'doc': (ids(m, 'CXmlDocSource::mkXmlDoc'), 'ptr'), 'parse': (par, 'bool'),
                             'auto': (auto, 'void'), 'ctx': (ctx, 'void')})
        good = 0
        for st, rt in outs:
            n += 1
            fs, d, p = of(st, 'find'), of(st, 'doc'), of(st, 'parse')
            r_ = yes(e, st, rt)
            grp = [x for x in fs if 'SettingsConfiguration' in e.T.show(x[2][0])]
            loc = [x for x in fs if 'ConfigurableDomainsFileLocation' in e.T.show(x[2][0])]
            if len(grp) != 1 or any(x not in grp + loc for x in fs):
                bad(vio, f, 'the settings section is not looked up')
            elif not grp[0][4]:
                if r_ is not True or d or p:
                    bad(vio, f, 'a configuration without settings is not simply accepted')
            elif len(loc) != 1 or not loc[0][4]:
                if r_ is not False or d or p or not said(e, f, st):
                    bad(vio, f, 'a settings section without file is not refused with a text')
            elif len(d) != 1 or not d[0][4]:
                if r_ is not False or p:
                    bad(vio, f, 'a settings file that cannot be read is not refused')
            elif len(p) != 1 or r_ is not bool(p[0][4]):
                bad(vio, f, 'the settings are not imported once, with the outcome reported')
            else:
                good += r_ is True
                a = p[0]
                if len(a[2]) < 6 or e.truth(st, a[2][5]) is not True:
                    bad(vio, f, 'the domains are not replaced by the import')
                if a[2][2] != d[0][4]:
                    bad(vio, f, 'another document than the one read is imported')
                au, cx = of(st, 'auto'), of(st, 'ctx')
                if not au or e.truth(st, au[0][2][0]) is not True:
                    bad(vio, f, 'the configurations imported are not validated')
                if not cx or e.truth(st, cx[0][2][1]) is not True:
                    bad(vio, f, 'the settings of the configurations are not imported')
        if not good:
            bad(vio, f, 'never succeeds')
    clean = named(m, 'clean', cls=CE)
    for f in m.fn(MGR + '::xmlParse'):
        rep = [p for p in f.params if p['t'] == 'bool']
        if len(rep) != 1:
            raise AnalysisError('anchor vanished: replacement of xmlParse')
        lam = {g.id for g in m.funcs.values() if g.lam and g.file == f.file and f.line <= g.line}
        e, outs = run(m, f, {'clean': (clean, 'void'), 'process': (ids(m, 'CXmlDocSink::process'), 'bool')}, lam)
        t = e.T.mk('init', -1, rep[0]['u'])
        seen = set()
        for st, rt in outs:
            seq = [x[0] + ('' if x[4] is None else str(x[4])) for x in st.auto if len(x) == 5]
            p = of(st, 'process')
            if len(p) != 1 or yes(e, st, rt) is not bool(p[0][4]):
                bad(vio, f, 'the document is not processed once, with the outcome reported')
                continue
            for b in (0, 1):
                if not feasible(e, st, {t: b}):
                    continue
                n += 1
                k = [x for x in seq if x != 'clean'][0]
                i = seq.index(k)
                seen.add((b, p[0][4]))
                if b and ('clean' not in seq[:i] or not p[0][4] and 'clean' not in seq[i + 1:]) or not b and 'clean' in seq or \
                        p[0][4] and 'clean' in seq[i + 1:]:
                    bad(vio, f, 'what the document replaces is not removed before it, and what a failed one left after it, exactly when asked')
        if len(seen) != 4:
            bad(vio, f, 'the document is not processed whatever the replacement')
    return n


def structure(m, vio):
    n = 0
    sp = {'find': (ids(m, CE + '::findChildOfKind'), 'ptr'), 'doc': (ids(m, 'CXmlDocSource::mkXmlDoc'), 'ptr'),
          'parse': (ids(m, MGR + '::xmlParse'), 'bool'), 'offset': (ids(m, 'CConfigurableElement::setOffset'), 'void'),
          'foot': (named(m, 'getFootPrint', cls='CConfigurableElement'), 'obj'), 'size': (ids(m, 'CParameterBlackboard::setSize'), 'void')}
    for f in m.fn(MGR + '::loadStructure'):
        e, outs = run(m, f, sp)
        good = 0
        for st, rt in outs:
            n += 1
            x = {k: of(st, k) for k in sp}
            r_ = yes(e, st, rt)
            ok = bool(x['find'] and x['find'][-1][4] and x['doc'] and x['doc'][-1][4] and len(x['parse']) == 1 and x['parse'][0][4])
            if r_ is not ok:
                bad(vio, f, 'the structure is not reported as it was loaded')
            elif not ok:
                if x['offset'] or x['size']:
                    bad(vio, f, 'settings are laid out for a structure that was not loaded')
                if x['find'] and not x['find'][-1][4] and not said(e, f, st):
                    bad(vio, f, 'a missing structure has no text')
            else:
                good += 1
                seq = [y[0] for y in st.auto if y[0] in ('parse', 'offset', 'size')]
                if seq != ['parse', 'offset', 'size'] and seq != ['parse', 'size', 'offset']:
                    bad(vio, f, 'the structure loaded is not laid out once')
                    continue
                if ev(e, x['offset'][0][2][0], {}) != 0 or not x['foot'] or castless(e, x['size'][0][2][0]) != x['foot'][-1][4]:
                    bad(vio, f, 'the structure is not laid out from 0 over its footprint')
                if x['offset'][0][1] != x['foot'][-1][1]:
                    bad(vio, f, 'the footprint is not that of the structure laid out')
        if not good:
            bad(vio, f, 'never succeeds')
    return n


def conf(m, vio):
    n = 0
    plug = [x['u'] for x in m.classes[MGR]['fields'] if 'CSubsystemPlugins' in x['t']]
    if len(plug) != 1:
        raise AnalysisError('anchor vanished: plugins of the manager')
    sp = {'doc': (ids(m, 'CXmlDocSource::mkXmlDoc'), 'ptr'), 'parse': (ids(m, MGR + '::xmlParse'), 'bool'),
          'name': (named(m, 'setName', cls=CE), 'void'), 'find': (ids(m, CE + '::findChild') | ids(m, CE + '::findChildOfKind'), 'ptr'),
          'system': (ids(m, MGR + '::getSystemClass'), 'obj'), 'domains': (ids(m, MGR + '::getConfigurableDomains'), 'obj'),
          'conf': (named(m, 'getSystemClassName'), 'ref')}
    for f in m.fn(MGR + '::loadFrameworkConfiguration'):
        e, outs = run(m, f, sp)
        good = 0
        for st, rt in outs:
            n += 1
            x = {k: of(st, k) for k in sp}
            r_ = yes(e, st, rt)
            ok = bool(x['doc'] and x['doc'][-1][4] and len(x['parse']) == 1 and x['parse'][0][4] and x['find'] and x['find'][-1][4])
            if r_ is not ok:
                bad(vio, f, 'the configuration is not reported as it was loaded')
                continue
            if not ok:
                if x['find'] and not x['find'][-1][4] and not said(e, f, st):
                    bad(vio, f, 'a configuration without plugins section has no text')
                continue
            good += 1
            lv = e.lfld(e.lder(e.T.mk('this', 0)), plug[0])
            if castless(e, st.heap.get(lv, 0)) != x['find'][-1][4] or 'SubsystemPlugins' not in e.T.show(x['find'][-1][2][0]):
                bad(vio, f, 'the plugins section is not the one kept')
            who = {e.T.get(y[1])[1] for y in x['name'] if y[1] is not None and e.T.get(y[1])[0] == 'got'}
            if len(x['name']) != 2 or who != {'system', 'domains'} or not all('conf' in e.T.show(y[3][0]) + e.T.show(y[2][0]) for y in x['name']):
                bad(vio, f, 'the system class and the domains do not take the name of the configuration')
        if not good:
            bad(vio, f, 'never succeeds')
    return n


class Remote(S):
    def on_catch(self, eng, st, fr, *a):
        st.auto = tuple(x for x in st.auto if x[0] == 'need') + (('thrown',),)


def remote(m, vio):
    n = 0
    force = field_of(m, MGR + '::getForceNoRemoteInterface')
    allowed = named(m, 'isTuningAllowed')
    for f in m.fn(MGR + '::isRemoteInterfaceRequired'):
        e, outs = run(m, f, {'allowed': (allowed, 'bool')})
        seen = set()
        for st, rt in outs:
            for a in (0, 1):
                if of(st, 'allowed') and bool(of(st, 'allowed')[0][4]) != bool(a):
                    continue
                for b in (0, 1):
                    en = {'fld': lambda t, s: b if t[2] == force else None}
                    if not feasible(e, st, en):
                        continue
                    n += 1
                    r_ = ev(e, rt, en) if rt is not None else None
                    if r_ is None and rt is not None:
                        r_ = e.truth(st, rt)
                    if r_ is None or bool(r_) != bool(a and not b):
                        bad(vio, f, 'the remote interface is not wanted exactly when tuning is allowed and it is not forced off')
    srv = [x['u'] for x in m.classes[MGR]['fields'] if 'RemoteProcessorServer' in x['t']]
    if len(srv) != 1:
        raise AnalysisError('anchor vanished: remote server of the manager')
    sp = {'need': (ids(m, MGR + '::isRemoteInterfaceRequired'), 'bool'), 'start': (named(m, 'start', cls='IRemoteProcessorServerInterface')
          if 'IRemoteProcessorServerInterface' in m.classes else {f.id for f in m.funcs.values() if f.n == 'start' and 'RemoteProcessorServer' in (f.cls or '')}, 'bool'),
          'new': ({f.id for f in m.funcs.values() if f.ctor and 'RemoteProcessorServer' in (f.cls or '')}, 'void'),
          'port': (named(m, 'getServerPort'), 'obj'), 'handler': (ids(m, MGR + '::createCommandHandler'), 'obj')}
    for f in m.fn(MGR + '::handleRemoteProcessingInterface'):
        e, outs = run(m, f, sp, cls=Remote)
        good = 0
        for st, rt in outs:
            x = {k: of(st, k) for k in sp}
            r_ = yes(e, st, rt)
            if len(x['need']) != 1:
                bad(vio, f, 'whether the remote interface is wanted is not asked')
            elif not x['need'][0][4]:
                n += 1
                if r_ is not True or x['new'] or x['start']:
                    bad(vio, f, 'a remote interface that is not wanted is started')
            elif of(st, 'thrown') or not x['start']:
                n += 1
                if r_ is not False or not said(e, f, st):
                    bad(vio, f, 'a remote server that could not be made is not reported')
            else:
                n += 1
                if len(x['start']) != 1 or r_ is not bool(x['start'][0][4]):
                    bad(vio, f, 'the start of the remote server is not reported as it went')
                if r_ is False and not said(e, f, st):
                    bad(vio, f, 'a remote server that does not start has no text')
                good += r_ is True
                if not x['new'] or not x['port'] or castless(e, x['new'][0][2][0]) != x['port'][0][4] or not x['handler']:
                    bad(vio, f, 'the remote server is not made of the port configured and of a command handler')
        if not good:
            bad(vio, f, 'the remote server is never started')
    return n


def check(m, tier):
    vio = []
    n = load(m, vio) + plugins(m, vio) + settings(m, vio) + structure(m, vio) + conf(m, vio) + remote(m, vio)
    return result(None, {'instances_checked': n, 'functions': 14}, dedup(vio))
