"""Anchors shared by several properties."""
from ..model import AnalysisError, bare
from ..engine import Engine, Checker, r, State

PUBLIC = 0


def public_methods(m, cls, declared=True):
    c = m.classes.get(cls)
    if c is None:
        raise AnalysisError('anchor vanished: class ' + cls)
    out = []
    for x in c['methods']:
        if x['acc'] == PUBLIC and not x['deleted'] and x['id'] in m.funcs:
            f = m.funcs[x['id']]
            if not f.ctor and not f.dtor:
                out.append(f)
    return out


def command_handlers(m):
    """functions registered in the remote command table"""
    out = set()
    for g in m.globals.values():
        for n in g.get('nodes', []):
            if n['k'] == 'Un' and n.get('op') == '&' and n.get('c'):
                x = g['nodes'][n['c'][0]]
                if x.get('d', {}).get('k') == 'func':
                    out.add(x['d']['f']['id'])
    fs = [m.funcs[i] for i in out if i in m.funcs]
    if not fs:
        raise AnalysisError('anchor vanished: remote command table')
    return sorted(fs, key=lambda f: f.id)


def entries(m):
    """everything an embedding application or a remote client can call"""
    out = []
    for c in ('CParameterMgrFullConnector', 'CParameterMgrPlatformConnector', 'ElementHandle', 'CParameterHandle'):
        out += public_methods(m, c)
    out += command_handlers(m)
    seen, res = set(), []
    for f in out:
        if f.id not in seen:
            seen.add(f.id)
            res.append(f)
    return res


def getter_field(m, q):
    """data member returned by a trivial accessor (anchors on the public accessor, not the member name)"""
    f = m.fn1(q)
    eng = Engine(m, Checker())
    outs = eng.run(f)
    for st, ret in outs:
        if ret is not None:
            x = eng.T.get(ret)
            if x[0] == 'fld':
                return x[2]
            if x[0] == 'Lfld':
                return x[2]
    raise AnalysisError('anchor vanished: %s does not return a data member' % q)


def field_truth(eng, st, field):
    """truth of the current value of boolean data member `field` (of any object)"""
    T = eng.T
    for lv, v in st.heap.items():
        x = T.get(lv)
        if x[0] == 'Lfld' and x[2] == field:
            t = eng.truth(st, v)
            if t is not None:
                return t
    ver = st.ver.get(field, 0)
    for k, pol in st.facts.items():
        if isinstance(k, int):
            x = T.get(k)
            if x[0] == 'fld' and x[2] == field and x[3] == ver:
                return pol
    return None


def callee(n):
    return (n.get('f') or {}).get('q', '')


def fname(n):
    return (n.get('f') or {}).get('n', '')


def static_class(f, i):
    """class of expression i before implicit conversions"""
    while f.nodes[i]['k'] in ('ICast', 'Paren') and f.nodes[i].get('ck') in (
            'UncheckedDerivedToBase', 'DerivedToBase', 'NoOp', 'LValueToRValue', None):
        i = f.nodes[i]['c'][0]
    return bare(f.nodes[i].get('t', '')), f.nodes[i].get('t', '')


def result(eng_or_list, coverage, violations=None):
    v = violations if violations is not None else []
    return {'violations': v, 'coverage': coverage}


def dedup(vs):
    seen, out = set(), []
    for v in vs:
        k = (v['where'], v['function'], v['message'])
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def refparams(eng, st, fr):
    """setup: gives reference parameters of the entry function a caller-owned target, readable at exit"""
    for p in fr.f.params:
        if p['t'].endswith('&') and not p['t'].endswith('&&'):
            t = refparam(eng, fr, p)
            st.env[('v', fr.id, p['u'])] = ('@', t)


def refparam(eng, fr, p):
    return eng.T.mk('Lvar', -1, p['u'])
