"""Blackboard bounds. For every operation of the blackboard class, path by path and in the release configuration,
each access to the byte storage (iterator, element address, library copy, search or string construction) is an
obligation: the end of the accessed range, as a linear term, must follow from the branch facts established by the
always-on bounds check (or from the container's own extent). The storage member must not be used outside the class
nor handed out by any operation other than the raw location given to subsystem plug-ins."""
from .common import *
from ..ranges import Ranges, CONT, ITER

TECHNIQUE = 'symbolic range analysis (linear terms over path facts) of the storage class'
NOTE = 'Every path of every operation of the class; assumes offset+size does not wrap around size_t and that external buffers have the size their caller states.'
ASSUMPTIONS = ['offset + size does not exceed SIZE_MAX', 'buffers passed by the caller have the stated length']


def storage(m, cls='CParameterBlackboard'):
    c = m.classes.get(cls)
    if not c:
        raise AnalysisError('anchor vanished: class ' + cls)
    fl = [x for x in c['fields'] if x['t'].startswith(CONT) or 'Blackboard' in x['t'] or x['t'].startswith('std::')]
    if not fl:
        raise AnalysisError('anchor vanished: byte storage of ' + cls)
    return fl


class C(Ranges):
    def __init__(self, m, fields):
        Ranges.__init__(self)
        self.m, self.fields = m, fields

    def relevant(self, eng):
        own = {f.id for f in self.m.funcs.values() if f.cls == 'CParameterBlackboard'}
        return {x for x in self.m.reachable(own) if x in self.m.funcs}

    def interesting(self, eng, st, lv):
        x = eng.T.get(lv)
        return x[0] == 'Lfld' and x[2] in self.fields


def check(m, tier):
    cls = 'CParameterBlackboard'
    fields = {x['u'] for x in storage(m)}
    vio, sites, paths, ops = [], set(), 0, 0
    for f in [f for f in m.funcs.values() if f.cls == cls and not f.ctor and not f.dtor and f.acc == PUBLIC]:
        c = C(m, fields)
        eng = Engine(m, c)
        eng.run(f)
        ops += 1
        sites |= c.sites
        paths += eng.stats['path_states']
        vio += eng.violations
        t = f.rt
        if (t.endswith(('*', '&')) or t.startswith(ITER)) and not t.startswith('const ') and f.n != 'getLocation' \
                and not any(bare(t) == k for k in m.classes):
            vio.append({'where': '%s:%s' % (f.file, f.line), 'function': f.q, 'path': f.q,
                        'message': 'operation hands out an unchecked way into the storage'})
    outside = 0
    for f in m.funcs.values():
        if f.cls == cls:
            continue
        for i, n in enumerate(f.nodes):
            if n['k'] == 'Member' and n['d'].get('u') in fields:
                vio.append({'where': f.loc(i), 'function': f.q, 'path': f.q,
                            'message': 'the storage is accessed outside its class, without its bounds check'})
        outside += 1
    if not sites:
        raise AnalysisError('no storage access found')
    return result(None, {'instances_checked': len(sites), 'operations': ops, 'path_states': paths,
                         'other_functions_scanned': outside}, dedup(vio))
