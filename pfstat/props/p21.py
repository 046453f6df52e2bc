"""Values in the value space and the output format of the session.

(a) Every access context that a request of the manager builds to read, write, dump or exchange values is followed from its
construction to each operation it is given to: there, its value space and its raw output format are exactly those of the session,
and its blackboard is the live settings (or, for a configuration, the one looked up). (b) On each path of the functions that turn a
stored scalar into text, the value is written in base sixteen, marked 0x, exactly when the context is both raw and hexadecimal, the
digits being put through the same base; padding is as wide as the type. (c) The choices of the session start as real and decimal and
are stored by their setters only, and a context keeps what it was given."""
import re
from ..extract import AnalysisError
from .common import result, dedup
from .p14 import ids, bad, castless
from .p35 import named
from .p33 import Mp, run, only, par
from .p35 import of, field_of

TECHNIQUE = 'path enumeration with events; values of the fields of access contexts at each use'
NOTE = 'what a type accepts, and that values read back unchanged, is P32; element handles always use real values'
MGR = 'CParameterMgr'
AC = 'CParameterAccessContext'


def kept(m, cls, setter):
    """the field that keeps what the setter is given"""
    out = set()
    for f in m.fn(cls + '::' + setter):
        c, e, outs = run(m, f, {})
        for st, rt in outs:
            for x in st.auto:
                if x[0] == 'set' and e.T.get(x[1])[0] == 'Lfld' and 'init(-1,' in e.T.show(x[2]):
                    out.add(e.T.get(x[1])[2])
    if len(out) != 1:
        raise AnalysisError('anchor vanished: record behind %s::%s' % (cls, setter))
    return out.pop()


def getter(m, cls, name, fld, vio):
    n = 0
    for f in m.fn(cls + '::' + name):
        c, e, outs = run(m, f, {})
        for st, rt in outs:
            n += 1
            y = e.T.get(castless(e, rt)) if rt is not None else ('',)
            if y[0] != 'fld' or y[2] != fld:
                # or told by its value on the path
                v = next((bool(b) for k, b in st.facts.items() if isinstance(k, int) and e.T.get(k)[0] == 'fld' and e.T.get(k)[2] == fld), None)
                if v is None or rt is None or e.truth(st, rt) is not v:
                    bad(vio, f, 'another value space or format than the one kept is told')
    return n


class Txt(Mp):
    LIB = ('operator<<', 'operator+', 'operator+=', 'operator=', 'to_string', 'setw', 'setfill', 'append', 'str', 'insert')


def texts(m, vio, dump=False):
    n = 0
    seen = set()
    raw, hexa = kept(m, AC, 'setValueSpaceRaw'), kept(m, AC, 'setOutputRawFormat')
    fs = [f for f in m.funcs.values() if f.n in ('fromBlackboard', 'asString') and f.cls and m.derives(f.cls, 'CTypeElement')
          and f.params and f.params[0]['t'].startswith('std::basic_string') and f.params[0]['t'].endswith('&')
          and any(p['t'].startswith(AC) for p in f.params)]
    for f in sorted(fs, key=lambda f: f.id):
        inl = {g.id for q in ('valueSpaceIsRaw', 'outputRawFormatIsHex') for g in m.fn(AC + '::' + q)}
        # helpers that write part of the text
        inl |= {g for g in m.reachable([f.id]) if g != f.id and m.funcs.get(g) and (m.funcs[g].file == f.file or any(x['k'] == 'Str' and x.get('v', '').startswith('0x') or
                x['k'] == 'Ref' and str((x.get('d') or {}).get('n')) in ('hex', 'setw', 'setfill') for x in m.funcs[g].nodes))}
        c, e, outs = run(m, f, {}, inl=inl, cls=Txt)
        for st, rt in outs:
            n += 1
            if dump:
                print(f.q, [(e.T.show(k), v) for k, v in st.facts.items() if isinstance(k, int)])
                for x in st.auto:
                    print('    ', [e.T.show(y) if isinstance(y, int) else y for y in x])
            if rt is not None and e.truth(st, rt) is False:
                continue
            fact = lambda fld: next((bool(v) for k, v in st.facts.items() if isinstance(k, int) and e.T.get(k)[0] == 'fld' and e.T.get(k)[2] == fld), None)
            raw_, hex_ = fact(raw), fact(hexa)
            at = lambda *ws: [k for k, x in enumerate(st.auto) if x[0] == 'lib' and any(w in y for y in x[3] for w in ws)]
            mark, base = at('strlit(0x', 'strlit(0X'), at('fn(std::hex(')
            if mark and not (raw_ and hex_):
                bad(vio, f, 'a value is written in hexadecimal though this is not the value space and format in force')
            if base and not (raw_ and hex_):
                bad(vio, f, 'the digits of a value are written in base sixteen though this is not the value space and format in force')
            if not mark and raw_ is not False and hex_ is not False:
                bad(vio, f, 'a value is not written in hexadecimal though it is the format in force in the raw value space')
            val = [k for k, x in enumerate(st.auto) if x[0] == 'lib' and x[1] == 'operator<<' and k > min(mark, default=0) and 'strlit(' not in x[3][-1].split(' ')[0]
                   and not x[3][-1].startswith(('fn(std::', 'lib(std::set'))]
            if mark and val and not any(b < val[0] for b in base):
                bad(vio, f, 'the digits marked hexadecimal are not written in base sixteen')
            if mark and val and mark[0] > val[0]:
                bad(vio, f, 'the mark of a hexadecimal value does not come first')
            if any(st.auto[k][1] in ('operator+', 'append', 'operator+=') and 'strlit(0x' in st.auto[k][3][-1] and not st.auto[k][3][0].startswith('strlit(0x') for k in mark):
                bad(vio, f, 'the mark of a hexadecimal value does not come first')
            for k in at('fn(std::dec(', 'fn(std::oct('):
                if mark and k > mark[0]:
                    bad(vio, f, 'the digits marked hexadecimal are not written in base sixteen')
            for x in st.auto:
                if x[0] == 'lib' and x[1] == 'setw' and mark and not re.search(r'bin\(\*,(.*_size,0\),%int\(2\)|%int\(2\),.*_size,0\))', x[3][0]):
                    bad(vio, f, 'a hexadecimal value is not padded to the size of its type')
                if x[0] == 'lib' and x[1] == 'setfill' and mark and not x[3][0].startswith('int(48)'):
                    bad(vio, f, 'a hexadecimal value is not padded with zeros')
            seen.add((f.cls, raw_, hex_))
        if not {(f.cls, True, True)} <= seen:
            bad(vio, f, 'the value space and format in force are not asked for')
    if len({x[0] for x in seen}) < 5:
        raise AnalysisError('anchor vanished: conversions of values to text')
    return n


# ---- (a) contexts
class Ctx(Mp):
    pass


def contexts(m, vio):
    n = 0
    raw, hexa = kept(m, AC, 'setValueSpaceRaw'), kept(m, AC, 'setOutputRawFormat')
    mraw, mhex = kept(m, MGR, 'setValueSpace'), kept(m, MGR, 'setOutputRawFormat')
    board = field_of(m, AC + '::getParameterBlackboard')
    main = only(m, MGR, lambda t: t == 'CParameterBlackboard *', 'live settings')
    isctx = lambda t: t.endswith('&') and t.rstrip('& ').replace('const ', '') in m.classes and m.derives(t.rstrip('& ').replace('const ', ''), AC)
    # value operations: they take a context by reference
    xctor = {g.id for g in m.funcs.values() if g.ctor and g.params and isctx(g.params[0]['t']) and g.cls and not m.derives(g.cls, AC)}
    CCA = 'CConfigurationAccessContext'
    use = {g.id for g in m.funcs.values() if g.n == 'accessValue' and any(isctx(p['t']) for p in g.params)} | named(m, 'dumpContent')
    look = named(m, 'findConfigurationBlackboard')
    spec = {'use': (use, 'bool'), 'xml': (xctor, 'void'), 'look': (look, 'ptr')}
    cover = set()
    holders = set()
    for f in sorted(m.funcs.values(), key=lambda f: f.id):
        if f.cls != MGR or any(isctx(p['t']) for p in f.params):
            continue
        local = [x for x in f.nodes if x['k'] == 'Construct' and (x.get('f') or {}).get('cls') and m.derives((x.get('f') or {}).get('cls'), AC)]
        if not local:
            continue
        config = any((x.get('f') or {}).get('cls') == CCA for x in local)
        inl = {g.id for g in m.funcs.values() if g.cls and m.derives(g.cls, AC)} | {g.id for q in ('valueSpaceIsRaw', 'outputRawFormatIsHex') for g in m.fn(MGR + '::' + q)}
        c, e, outs = run(m, f, spec, inl=inl - use, cls=Ctx)
        for st, rt in outs:
            n += 1
            for k, x in enumerate(st.auto):
                if x[0] not in ('use', 'xml') or x[0] == 'xml' and not config:
                    continue
                holders.add(f.q)
                g = next((a for a, t in zip(x[3], x[3]) if fields(e, st, k, a).get(raw) is not None), None)
                v = fields(e, st, k, g) if g is not None else {}
                if g is None:
                    bad(vio, f, 'values are accessed in a value space that is not the one of the session')
                    continue
                for a, b, t in ((raw, mraw, 'value space'), (hexa, mhex, 'raw format')):
                    y = e.T.get(castless(e, v[a])) if v.get(a) is not None else ('',)
                    if y[0] != 'fld' or y[2] != b:
                        bad(vio, f, 'values are not accessed in the %s of the session' % t)
                if not of(st, 'look'):
                    y = e.T.get(castless(e, v[board])) if v.get(board) is not None else ('',)
                    if y[0] != 'fld' or y[2] != main:
                        bad(vio, f, 'values are not accessed in the live settings')
                cover.add(f.q)
    if len(cover) < 4:
        bad(vio, m.fn(MGR + '::accessParameterValue')[0], 'values are accessed without the value space of the session')
    return n, sorted(holders)


def fields(e, st, i, cx):
    v = {}
    for y in st.auto[:i]:
        if y[0] == 'set':
            z = e.T.get(y[1])
            b = z[1].i if z[0] == 'Lfld' else None
            while b is not None and e.T.get(b)[0] == 'Lder':
                b = e.T.get(b)[1].i
            c = cx
            while e.T.get(c)[0] in ('Lder', 'addr'):
                c = e.T.get(c)[1].i
            # a variable is built in place of the temporary that initialises it
            if b is not None and (b == c or e.T.get(b)[0] == 'Ltmp' and z[2].startswith(('CParameterAccessContext::', 'CConfigurationAccessContext::'))):
                v[z[2]] = y[2]
    return v


# ---- (c) the session
def session(m, vio):
    n = 0
    for get, set_ in (('valueSpaceIsRaw', 'setValueSpace'), ('outputRawFormatIsHex', 'setOutputRawFormat')):
        fld = kept(m, MGR, set_)
        n += getter(m, MGR, get, fld, vio)
        for f in m.fn(MGR + '::' + set_):
            c, e, outs = run(m, f, {}, cls=Ctx)
            for st, rt in outs:
                n += 1
                w = [x for x in st.auto if x[0] == 'set' and e.T.get(x[1])[0] == 'Lfld' and e.T.get(x[1])[2] == fld]
                if len(w) != 1 or castless(e, w[0][2]) != e.T.mk('init', -1, f.params[0]['u']):
                    bad(vio, f, 'the choice of the session is not stored as given')
        for f in m.funcs.values():
            if f.n == set_ and f.cls == MGR or f.ctor:
                continue
            for x in writes(f, fld):
                bad(vio, f, 'a choice of the session changes otherwise than by asking')
                n += 1
    for get, set_ in (('valueSpaceIsRaw', 'setValueSpaceRaw'), ('outputRawFormatIsHex', 'setOutputRawFormat')):
        fld = kept(m, AC, set_)
        n += getter(m, AC, get, fld, vio)
        for f in m.fn(AC + '::' + set_):
            c, e, outs = run(m, f, {}, cls=Ctx)
            for st, rt in outs:
                n += 1
                w = [x for x in st.auto if x[0] == 'set' and e.T.get(x[1])[0] == 'Lfld' and e.T.get(x[1])[2] == fld]
                if len(w) != 1 or castless(e, w[0][2]) != e.T.mk('init', -1, f.params[0]['u']):
                    bad(vio, f, 'a context does not keep the value space or format given')
    for f in [g for g in m.funcs.values() if g.ctor and g.cls == MGR and g.params]:
        c, e, outs = run(m, f, {}, cls=Ctx)
        for st, rt in outs:
            n += 1
            for set_ in ('setValueSpace', 'setOutputRawFormat'):
                fld = kept(m, MGR, set_)
                w = [x for x in st.auto if x[0] == 'set' and e.T.get(x[1])[0] == 'Lfld' and e.T.get(x[1])[2] == fld]
                if not w or e.truth(st, w[-1][2]) is not False:
                    bad(vio, f, 'a session does not start with real values, in decimal')
    return n


def writes(f, fld):
    for x in f.nodes:
        if x['k'] in ('Bin', 'CompoundAssign') and x.get('op', '').endswith('=') and x.get('op') not in ('==', '!=', '<=', '>=') and x.get('c'):
            y = f.nodes[x['c'][0]]
            if y['k'] == 'Member' and (y.get('d') or {}).get('u') == fld:
                yield x


def check(m, tier):
    vio = []
    n = texts(m, vio)
    a, holders = contexts(m, vio)
    b = session(m, vio)
    return result(None, {'instances_checked': n + a + b, 'functions': holders}, dedup(vio))
