"""Live-settings lock. Every public entry point (start-up excepted) and remote command handler is analysed path
by path; the live blackboard (member returned by the manager's accessor) is followed into the access contexts
built on it; every call that may read, write or transmit it must be made while the manager's blackboard mutex is
held by the path, and the (non-recursive) mutex must not be acquired again while held, directly or in a callee."""
from .common import *

TECHNIQUE = 'lock-set dataflow with taint of the live settings object'
NOTE = 'Sound for calls made through the public interfaces under the class-hierarchy call graph; the analysed lock is the only one protecting the settings.'

GUARDS = ('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<')


class C(Checker):
    SMALL = 40

    def __init__(self, m, bb, mutexf):
        self.m, self.bb, self.mutexf = m, bb, mutexf
        self.sites, self.locks = set(), set()
        if not hasattr(m, '_lockers'):
            # functions that acquire the mutex themselves
            lk = set()
            for f in m.funcs.values():
                for n in f.nodes:
                    if self.is_guard(n) or (n['k'] == 'Call' and n.get('f', {}).get('cls') == 'std::mutex'):
                        lk.add(f.id)
            m._lockers = lk
            m._reachlock = m.reaching(lk)
            m._usebb = m.reaching({f.id for f in m.funcs.values() if f.cls == 'CParameterBlackboard' and not f.ctor})

    @staticmethod
    def is_guard(n):
        return n['k'] == 'Construct' and (n.get('f', {}).get('cls') or '').startswith(GUARDS)

    def relevant(self, eng):
        m = self.m
        touch = set(m._lockers)
        for f in m.funcs.values():
            for n in f.nodes:
                if n['k'] == 'Member' and n['d'].get('u') == self.bb:
                    touch.add(f.id)
        touch |= {f.id for f in m.fn('CParameterMgr::getParameterBlackboard')}
        rel = m.reaching(touch)
        return {x for x in rel if x in m.funcs and (m.funcs[x].cls in (
            'CParameterMgr', 'CParameterMgrFullConnector', 'CParameterMgrPlatformConnector', 'ElementHandle',
            'CParameterHandle') or m.funcs[x].lam or m.funcs[x].cls is None or m.funcs[x].ctor)}

    def init(self, eng, f):
        return (frozenset(), frozenset())       # held guards, tainted objects

    def ismutex(self, eng, st, lv):
        x = eng.T.get(lv)
        return x[0] == 'Lfld' and x[2] == self.mutexf

    def ismain(self, eng, st, t):
        x = eng.T.get(t)
        if x[0] == 'Lder':
            return self.ismain(eng, st, x[1].i)
        if x[0] in ('fld', 'Lfld'):
            return x[2] == self.bb
        return False

    def tainted(self, eng, st, t):
        if t is None:
            return False
        held, ts = st.auto
        if self.ismain(eng, st, t) or t in ts:
            return True
        if eng.islv(t):
            v = eng.rd(st, t)
            if self.ismain(eng, st, v):
                return True
            x = eng.T.get(v)
            if x[0] == 'addr' and x[1].i in ts:
                return True
        x = eng.T.get(t)
        if x[0] == 'addr' and x[1].i in ts:
            return True
        if x[0] == 'obj':
            return x[1].i in ts
        return False

    def on_adopt(self, eng, st, fr, old, lv):
        held, ts = st.auto
        h = frozenset(lv if x == old else x for x in held)
        st.auto = (h, frozenset(ts | {lv}) if old in ts else ts - {lv})

    def on_dtor(self, eng, st, fr, e):
        held, ts = st.auto
        if not held:
            return
        if e['e'] == 'dtor':
            lv = eng.T.mk('Lvar', fr.id, e['u'])
            if lv in held:
                st.auto = (held - {lv}, ts)
        elif e.get('f', '').startswith(GUARDS):
            tmp = {x for x in held if eng.T.get(x)[0] == 'Ltmp'}
            st.auto = (held - tmp, ts)

    def acquire(self, eng, st, fr, i, who):
        held, ts = st.auto
        self.locks.add((fr.f.id, i))
        if held:
            eng.report(fr, i, 'the blackboard mutex is acquired while already held (self-deadlock)')
        st.auto = (held | {who}, ts)

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        held, ts = st.auto
        if self.is_guard(n):
            if args and self.ismutex(eng, st, args[0]):
                if len(args) > 1 and 'defer' in fr.f.nodes[n['c'][1]].get('t', ''):
                    return None
                self.acquire(eng, st, fr, i, obj)
            return None
        if fi.get('cls') in ('std::mutex', 'std::unique_lock<std::mutex>'):
            if fi['n'] == 'lock' and (fi['cls'] != 'std::mutex' or self.ismutex(eng, st, obj)):
                self.acquire(eng, st, fr, i, obj)
            elif fi['n'] in ('unlock', 'release'):
                st.auto = (held - {obj}, ts)
            return None
        argt = any(self.tainted(eng, st, a) for a in args)
        if n['k'] == 'Construct':
            if argt and fi.get('repo'):
                st.auto = (held, ts | {obj})
            elif obj in ts:
                st.auto = (held, ts - {obj})
            return None
        if fi.get('n') == 'setParameterBlackboard':
            st.auto = (held, ts | {obj}) if argt else (held, ts - {obj})
            return None
        if not fi.get('repo', True):
            return None
        use = argt or (obj is not None and self.tainted(eng, st, obj))
        inlined = any(eng.relevant(t) for t in tg)
        if use and not inlined and any(t in self.m._usebb for t in tg):
            if fi.get('n', '') in ('getError', 'setError', 'appendToError', 'setAutoSync') or fi.get('n', '').startswith(
                    ('setValueSpace', 'setOutputRaw', 'serializeSettings', 'setSelection', 'set', 'get', 'is')) and \
                    not argt and not self.ismain(eng, st, obj):
                return None      # accessor of the context itself
            self.sites.add((fr.f.id, i))
            if not held:
                eng.report(fr, i, 'live settings are used (%s) without holding the blackboard mutex' % fi.get('q'))
        if held and not inlined and any(t in self.m._reachlock for t in tg):
            eng.report(fr, i, 'call to %s may acquire the blackboard mutex again while it is held' % fi.get('q'))
        return None


def mutex_field(m):
    f = m.fn1('CParameterMgr::getBlackboardMutex')
    eng = Engine(m, Checker())
    for st, ret in eng.run(f):
        x = eng.T.get(ret)
        if x[0] == 'Lfld':
            return x[2]
    raise AnalysisError('anchor vanished: blackboard mutex')


def check(m, tier):
    bb = getter_field(m, 'CParameterMgr::getParameterBlackboard')
    mf = mutex_field(m)
    vio, sites, locks, paths, ents = [], set(), set(), 0, []
    for f in entries(m):
        if f.n == 'start':
            continue
        c = C(m, bb, mf)
        eng = Engine(m, c)
        eng.run(f)
        if c.sites:
            ents.append(f.q)
        sites |= c.sites
        locks |= c.locks
        paths += eng.stats['path_states']
        vio += eng.violations
    return result(None, {'instances_checked': len(sites), 'entry_points_using_live_settings': sorted(set(ents)),
                         'lock_sites': len(locks), 'path_states': paths}, dedup(vio))
