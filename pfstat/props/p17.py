"""Messages between client and server. (a) serialize is analysed in both directions, each exchange with the socket forked into
its outcomes: both directions exchange fields of the same sizes in the same order; the size sent is that of the id and the data, the data is
filled before anything of it is sent, the checksum is that of the whole message; on reception, for a table of sync words, sizes and
checksums, memory is allocated only for a possible size, a wrong sync word, size or checksum and every failed exchange end in a refusal, and the content
is collected only from a complete message. (b) Reading and writing the content, for a table of positions, lengths and sizes of
the message: bytes are copied only when they are in the message, from and to the right place, and the position advances by
their number; content that is inconsistent is refused and never ends the process; strings are exchanged with their length and
taken whole. (c) For requests of 0 to 3 arguments and for answers the bytes announced are those written, and what is
collected is what was written, in its place. (d) The server, on every path: a message received is handed
to the handler once, the answer carries its text and status and goes to the same socket, a failed exchange ends the
connection and nothing else, and the next connection is waited for. (e) The background server waits for its thread only
when there is one. (f) The client sends its arguments in order and succeeds exactly when the answer says so."""
from .common import *
from ..evalterm import ev, feasible
from ..textval import handlers
from ..loops import strip, varref, algo_calls, loops, decls, writes
from .p26 import Evts, all_of
from .p14 import u, ids, bad, fieldof

TECHNIQUE = 'path enumeration of both directions of the exchange against each other; evaluation of path conditions over tables of sizes'
NOTE = 'the socket library is taken to deliver the bytes that were sent; byte order is that of the machine on both sides'
MSG, REQ, ANS, SRV, BG = 'CMessage', 'CRequestMessage', 'CAnswerMessage', 'CRemoteProcessorServer', 'BackgroundRemoteProcessorServer'
ALL = 'all'


class Base(Checker):
    SMALL = 60
    K = 40
    KEXIT = 40
    MAXDEPTH = 12

    def init(self, eng, f):
        return ()

    def val(self, eng, st, a):
        return eng.rd(st, a) if eng.islv(a) else a

    def lv(self, eng, a):
        """the place a pointer points to"""
        d = 0
        while d < 6:
            d += 1
            x = eng.T.get(a)
            if x[0] == 'cast':
                a = x[2].i
            elif x[0] == 'addr':
                return x[1].i
            else:
                break
        return eng.lder(a) if not eng.islv(a) else a


def find(m, q):
    fs = m.fn(q)
    if not fs:
        raise AnalysisError('anchor vanished: ' + q)
    return fs[0]


def virt(m, name):
    out = {f.id for f in m.funcs.values() if f.cls and (f.cls == MSG or f.cls in m.subclasses(MSG)) and f.q.endswith('::' + name)}
    if not out:
        raise AnalysisError('anchor vanished: CMessage::' + name)
    return out


def vecfield(m):
    v = [x['n'] for x in m.classes[MSG]['fields'] if 'vector<' in x['t'] and 'unsigned char' in x['t'] or 'uint8' in x['t'] and 'vector' in x['t']]
    if len(v) != 1:
        raise AnalysisError('data of a message not found')
    return MSG + '::' + v[0]


# ---- (a)
class Ser(Base):
    def __init__(self, m, out):
        self.m, self.out = m, out
        self.n = 0
        self.fill = virt(m, 'fillDataToSend')
        self.coll = virt(m, 'collectReceivedData')
        self.size = virt(m, 'getDataSize')
        self.sum = ids(m, MSG + '::computeChecksum')
        self.vec = vecfield(m)

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == MSG} - self.fill - self.coll - self.size - self.sum

    def setup(self, eng, st, fr):
        refparams(eng, st, fr)
        b = next((p for p in fr.f.params if p['t'] == 'bool'), None)
        if b is not None:
            st.env[('v', fr.id, b['u'])] = eng.TRUE if self.out else eng.FALSE

    def isvec(self, eng, a):
        x = eng.T.get(a)
        return x[0] == 'Lfld' and x[2] == self.vec

    def add(self, st, *e):
        st.auto = st.auto + (e,)

    def on_catch(self, eng, st, fr, h):
        self.add(st, 'caught')

    def alloc(self, st):
        l = [e for e in st.auto if e[0] == 'alloc']
        return l[-1][1] if l else None

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}
        nm, q = fi.get('n', ''), fi.get('q', '')
        t = tg | {fi.get('id')}
        if n['k'] == 'Construct':
            if 'asio' in fi.get('cls', '') and 'buffer' in fi.get('cls', '') and len(args) == 1:
                return [(st, self.val(eng, st, args[0]))]
            return None
        if nm == 'buffer' and q.startswith('asio::'):
            if len(args) == 1:
                return [(st, T.mk('buf', r(args[0]), ALL))]
            return [(st, T.mk('buf', r(self.lv(eng, self.val(eng, st, args[0]))), r(self.val(eng, st, args[1]))))]
        if q.split('<')[0] in ('asio::read', 'asio::write') or nm in ('read_some', 'write_some', 'receive', 'send') and 'asio' in q:
            self.n += 1
            b = next((T.get(self.val(eng, st, a)) for a in args if T.get(self.val(eng, st, a))[0] == 'buf'), None)
            if b is None:
                raise AnalysisError('%s: what is exchanged is not understood' % fr.f.q)
            d = 'rx' if nm in ('read', 'read_some', 'receive') else 'tx'
            lv = b[1].i
            sz = ALL if b[2] == ALL else ev(eng, b[2].i, {})
            if nm not in ('read', 'write'):
                eng.report(fr, i, 'may exchange a part of the field only')
            k = sum(1 for e in st.auto if e[0] in ('rx', 'tx'))
            yes, no = st.copy(), st.copy()
            v = self.val(eng, st, lv)
            if sz == ALL and not self.isvec(eng, lv):
                raise AnalysisError('%s: what is exchanged is not understood' % fr.f.q)
            self.add(yes, d, sz, lv, v, 1)
            self.add(no, d, sz, lv, v, 0)
            if d == 'rx' and sz != ALL:
                eng.wr(yes, lv, T.mk('got', k), ('o', fr.id, i))
            cnt = T.mk('count', k)
            yes.facts[cnt] = True
            return [(yes, cnt), (no, T.mk('int', 0))]
        if t & (self.fill | self.coll):
            for x in self.m.classes[MSG]['fields']:
                if x['t'] in ('unsigned long', 'size_t', 'std::size_t'):
                    p = eng.rd(st, T.mk('Lfld', r(eng.lder(T.mk('this', 0))), MSG + '::' + x['n']))
                    if ev(eng, p, {}) != 0:
                        eng.report(fr, i, 'the content is not exchanged from its first byte')
        if t & self.fill:
            self.add(st, 'fill')
            return [(st, None)]
        if t & self.size:
            return [(st, T.mk('need'))]
        if t & self.sum:
            # what it covers: data and id of now
            x = sum(1 for e in st.auto if e[0] in ('fill', 'rx'))
            self.add(st, 'sum', x)
            return [(st, T.mk('sum', x))]
        if t & self.coll:
            yes, no = st.copy(), st.copy()
            self.add(yes, 'collect', 1)
            self.add(no, 'collect', 0)
            return [(yes, eng.TRUE), (no, eng.FALSE)] if (fi.get('rt') or self.rtof(fi)) == 'bool' else [(yes, None)]
        if obj is not None and self.isvec(eng, obj):
            if nm in ('resize', 'assign', 'reserve') and args:
                if nm != 'reserve':
                    v = self.val(eng, st, args[0])
                    self.add(st, 'alloc', v)
                    if not self.out:
                        rx = [x for x in st.auto if x[0] == 'rx']
                        k = [j for j, x in enumerate(rx) if x[1] == 4]
                        if k:
                            env = {T.mk('got', k[0]): 0}
                            a = ev(eng, v, env)
                            if feasible(eng, st, env) and (a is None or a < 0 or a > 1 << 31):
                                eng.report(fr, i, 'a size that no message has is used to allocate memory')
                return [(st, None)]
            if nm == 'size':
                a = self.alloc(st)
                return [(st, a)] if a is not None else None
            if nm == 'clear':
                self.add(st, 'alloc', T.mk('int', 0))
                return [(st, None)]
        return None

    def rtof(self, fi):
        f = self.m.funcs.get(fi.get('id'))
        return f.rt if f is not None else ''


def serialize(m, vio):
    f = find(m, MSG + '::serialize')
    n = 0
    res = {x['n']: x['v'] for e in m.enums.values() for x in e.get('vals', [])} if hasattr(m, 'enums') else None
    forms = {}
    outs = {}
    for out in (True, False):
        c = Ser(m, out)
        e = Engine(m, c)
        outs[out] = (c, e, e.run(f, c.setup))
        vio += e.violations
        n += c.n
    OK = success(m, f)
    # sending
    c, e, sts = outs[True]
    N = 1000
    need = e.T.mk('need')
    env = {need: N, 'glob': lambda x, s: const(m, x[1])}
    good = 0
    for st, ret in sts:
        n += 1
        v = ev(e, ret, env)
        if v is None:
            bad(vio, f, 'result of sending not determined')
            continue
        io = [x for x in st.auto if x[0] in ('rx', 'tx')]
        if any(x[0] == 'rx' for x in io):
            bad(vio, f, 'reads from the peer while sending')
        failed = [j for j, x in enumerate(io) if not x[4]]
        if failed and v == OK:
            bad(vio, f, 'a failed transmission is reported as success')
        if failed and failed[0] != len(io) - 1:
            bad(vio, f, 'goes on sending after a failure')
        if v == OK:
            good += 1
            form = [x[1] for x in io]
            forms.setdefault('tx', form)
            if forms['tx'] != form:
                bad(vio, f, 'messages of different forms are sent')
            k = next((j for j, x in enumerate(io) if x[1] == ALL), None)
            order = [x[0] if x[0] != 'tx' else ('tx', x[1]) for x in st.auto]
            if k is None or order.count('fill') != 1:
                bad(vio, f, 'the content is not sent')
                continue
            al = [ev(e, x[1], env) for x in st.auto if x[0] == 'alloc']
            if not al or al[-1] != N or order.index('fill') < max(j for j, x in enumerate(st.auto) if x[0] == 'alloc'):
                bad(vio, f, 'the room made for the content is not what it needs')
            if order.index('fill') > order.index(('tx', ALL)):
                bad(vio, f, 'the content is sent before it is filled')
            idsz = None
            for j, x in enumerate(io):
                fld = e.T.get(x[2])
                if fld[0] == 'Lfld' and x[1] != ALL:
                    idsz = x[1]
                    forms['id'] = (j, fld[2])
            szs = [(j, ev(e, x[3], env)) for j, x in enumerate(io) if x[1] != ALL and ev(e, x[3], env) is not None]
            if idsz is None:
                bad(vio, f, 'the kind of message is not sent')
                continue
            sz = [j for j, v_ in szs if v_ == N + idsz]
            if not sz or sz[0] > k:
                bad(vio, f, 'the size sent is not that of the kind and the content')
            else:
                forms['size'] = (sz[0], io[sz[0]][1])
            syn = [(j, v_) for j, v_ in szs if j == 0]
            if syn:
                forms['sync'] = syn[0][1]
            s = [j for j, x in enumerate(io) if e.T.get(strip_(e, x[3]))[0] == 'sum']
            if not s:
                bad(vio, f, 'no checksum is sent')
            else:
                forms['sum'] = s[-1]
                x = e.T.get(strip_(e, io[s[-1]][3]))
                if x[1] != 1:
                    bad(vio, f, 'the checksum sent is not that of the content')
    if not good:
        bad(vio, f, 'never sends anything')
    # receiving
    c, e, sts = outs[False]
    if any(k not in forms for k in ('size', 'sum', 'id', 'sync')):
        if vio:
            return n
        raise AnalysisError('form of the messages not understood')
    T = e.T
    isum, isz, iid = forms['sum'], forms['size'][0], forms['id'][0]
    idsz = forms['tx'][iid]
    SY = forms['sync']
    top = (1 << (8 * forms['size'][1])) - 1
    done = False
    for sync in (SY, SY ^ 1, 0, SY ^ (0x80 << (8 * (forms['tx'][0] - 1)))):
        for size in (0, 1, 2, 5, 300, top):
            for same in (True, False):
                env = {T.mk('got', 0): sync, T.mk('got', isz): size, T.mk('got', isum): 77, 'sum': lambda x, s: 77 if same else 78,
                       'glob': lambda x, s: const(m, x[1]),
                       T.mk('got', iid): 1}
                env.update({T.mk('count', j): 4 for j in range(9)})
                for st, ret in sts:
                    if not feasible(e, st, env):
                        continue
                    n += 1
                    io = [x for x in st.auto if x[0] in ('rx', 'tx')]
                    v = ev(e, ret, env)
                    if v is None:
                        bad(vio, f, 'result of receiving not determined')
                        continue
                    for x in st.auto:
                        if x[0] == 'alloc':
                            a = ev(e, x[1], env)
                            if size >= idsz and a not in (0, size - idsz):
                                bad(vio, f, 'the content is not as long as the size received says')
                    failed = any(not x[4] for x in io) or any(x == ('collect', 0) for x in st.auto)
                    col = [j for j, x in enumerate(st.auto) if x[0] == 'collect']
                    if any(x[0] == 'tx' for x in io):
                        bad(vio, f, 'sends while receiving')
                    if v == OK and ('caught',) in st.auto:
                        bad(vio, f, 'a message is accepted in spite of an error')
                    elif v == OK:
                        done = True
                        if failed:
                            bad(vio, f, 'a message that is incomplete or malformed is accepted')
                        if sync != SY:
                            bad(vio, f, 'a message with another sync word is accepted')
                        if size < idsz:
                            bad(vio, f, 'a message of impossible size is accepted')
                        if not same:
                            bad(vio, f, 'a message with another checksum is accepted')
                        if [x[1] for x in io] != forms['tx']:
                            bad(vio, f, 'the fields received are not those that are sent: %s, %s' % ([x[1] for x in io], forms['tx']))
                        else:
                            y = T.get(io[iid][2])
                            if y[0] != 'Lfld' or y[2] != forms['id'][1]:
                                bad(vio, f, 'the kind received is not kept')
                        if not col:
                            bad(vio, f, 'the content received is not collected')
                        k = [x[1] for x in st.auto if x[0] == 'sum']
                        j = [x[1] for x in io]
                        if ALL in j and (not k or k[-1] < j.index(ALL) + 1):
                            bad(vio, f, 'the checksum is computed before the content is there')
                    if col and (len([x for x in st.auto[:col[0]] if x[0] == 'rx']) != len(forms['tx']) or
                                any(x[0] == 'rx' for x in st.auto[col[0]:])):
                        bad(vio, f, 'the content is collected before the message is complete')
                    if v != OK and sync == SY and size >= idsz and same and not failed and ('caught',) not in st.auto:
                        bad(vio, f, 'a correct message is refused')
    if not done:
        bad(vio, f, 'no message is ever accepted')
    # on errors of memory
    n += safe_alloc(m, f, vio)
    # checksum covers id and data
    g = find(m, MSG + '::computeChecksum')
    vec, idf = vecfield(m), forms['id'][1]
    seen = {x['d'].get('q') or (g.cls or '') + '::' + x['d'].get('n', '') for x in g.nodes if x['k'] == 'Member' and isinstance(x.get('d'), dict)}
    txt = {y for x in g.nodes for y in [fieldof_(g, x)] if y}
    n += 1
    if idf.split('::')[-1] not in txt:
        bad(vio, g, 'the checksum does not cover the kind of the message')
    if vec.split('::')[-1] not in txt:
        bad(vio, g, 'the checksum does not cover the content')
    for L in loops(g):
        if L.kind == 'partial':
            bad(vio, g, 'the checksum does not cover all of the content: the loop ' + L.why)
    for x in g.nodes:
        if x['k'] == 'Call' and (x.get('f') or {}).get('n') in ('operator+', 'operator-', 'next', 'prev', 'advance') and \
                'iterator' in str((x.get('f') or {}).get('pt', '')) + str((x.get('f') or {}).get('cls', '')):
            bad(vio, g, 'the checksum does not cover all of the content')
    return n


def fieldof_(g, x):
    if x['k'] != 'Member':
        return None
    d = x.get('d') or {}
    return d.get('n') or x.get('n') or (x.get('m') or '').split('::')[-1]


def strip_(e, t):
    while True:
        x = e.T.get(t)
        if x[0] == 'cast':
            t = x[2].i
        else:
            return t


def const(m, q):
    """value of a constant"""
    for g in m.funcs.values():
        for x in g.nodes:
            d = x.get('d') or {}
            if x.get('cv') is not None and x['k'] in ('ICast', 'Ref', 'Member'):
                y = x
                while y['k'] == 'ICast' and y.get('c'):
                    y = g.nodes[y['c'][0]]
                d = y.get('d') or {}
                if d.get('q') == q or d.get('n') == q.split('::')[-1] and y['k'] == 'Ref':
                    return int(x['cv'])
    return None


def success(m, f):
    """value of the enumerator"""
    for g in m.funcs.values():
        for x in g.nodes:
            d = x.get('d') or {}
            if x['k'] == 'Ref' and d.get('k') == 'enum' and d.get('n') == 'success' and MSG in x.get('t', ''):
                return int(d['v'])
    raise AnalysisError('anchor vanished: CMessage::success')


def safe_alloc(m, f, vio):
    """a size received that cannot be allocated is refused"""
    n = 0
    fed = virt(m, 'getDataSize')
    hosts = [(f, [i for i, x in enumerate(f.nodes) if x['k'] == 'Call' and
                  (any(g.cls == MSG and 'allocate' in g.q for g in [m.funcs[t] for t in m.targets(f, x) if t in m.funcs]) or
                   (x.get('f') or {}).get('n') == 'resize' and x.get('obj') is not None) and x.get('c') and
                  not any(m.targets(f, f.nodes[j]) & fed for j in f.subtree(i) if f.nodes[j]['k'] == 'Call')])]
    for q, t in ((SRV + '::handleNewConnection', ids(m, MSG + '::serialize')), (None, ids(m, SRV + '::handleNewConnection'))):
        gs = m.fn(q) if q else [h for h in m.funcs.values() if h.lam and h.q.startswith(SRV + '::')]
        for g in gs:
            hosts.append((g, [i for i, x in enumerate(g.nodes) if x['k'] == 'Call' and m.targets(g, x) & t]))
    sites = hosts[0][1]
    if not sites:
        return 0
    for i in sites:
        n += 1
        if i not in f.tryr and not any(g.handlers and all(j in g.tryr for j in l) for g, l in hosts[1:] if l):
            bad(vio, f, 'a size received that cannot be allocated ends the server', i)
    return n


# ---- (b)
class Acc(Base):
    """readData and writeData: numbers for the places"""

    def __init__(self, m):
        self.m = m
        self.vec = vecfield(m)
        self.n = 0

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == MSG}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        nm = fi.get('n', '')
        T = eng.T
        if obj is not None and T.get(obj)[0] == 'Lfld' and T.get(obj)[2] == self.vec:
            if nm == 'size':
                return [(st, T.mk('len'))]
            if nm in ('begin', 'data', 'cbegin'):
                return [(st, T.mk('base'))]
            if nm in ('end', 'cend'):
                return [(st, T.mk('bin', '+', r(T.mk('base')), r(T.mk('len'))))]
            if nm in ('operator[]', 'at') and args:
                t = T.mk('bin', '+', r(T.mk('base')), r(self.val(eng, st, args[0])))
                return [(st, eng.lder(t))]
        if nm in ('begin', 'end', 'cbegin', 'cend') and args and obj is None:
            x = T.get(args[0])
            if x[0] == 'Lfld' and x[2] == self.vec:
                t = T.mk('base')
                return [(st, t if 'begin' in nm else T.mk('bin', '+', r(t), r(T.mk('len'))))]
        if nm in ('operator+', 'next', 'operator-') and (obj is not None or args):
            a = ([obj] if obj is not None else []) + list(args)
            a = [self.val(eng, st, x) for x in a]
            if len(a) == 2:
                return [(st, T.mk('bin', '-' if nm == 'operator-' else '+', r(a[0]), r(a[1])))]
        if n['k'] == 'Construct' and 'iterator' in fi.get('cls', '') and args:
            return [(st, self.val(eng, st, args[0]))]
        if nm in ('copy', 'memcpy', 'memmove', 'copy_n', 'uninitialized_copy') and len(args) == 3:
            self.n += 1
            a = [self.val(eng, st, x) for x in args]
            if nm in ('memcpy', 'memmove'):
                a = [a[1], T.mk('bin', '+', r(a[1]), r(a[2])), a[0]]
            elif nm == 'copy_n':
                a = [a[0], T.mk('bin', '+', r(a[0]), r(a[1])), a[2]]
            st.auto = st.auto + (('copy',) + tuple(a),)
            return [(st, a[2])]
        return None


def accesses(m, vio):
    n = 0
    idx = None
    g = find(m, MSG + '::getRemainingDataSize')
    for q, rd in ((MSG + '::readData', True), (MSG + '::writeData', False)):
        f = find(m, q)
        c = Acc(m)
        e = Engine(m, c)
        fr0 = []
        sts = e.run(f, lambda eng, st, fr: fr0.append(fr))
        vio += e.violations
        T = e.T
        if len(f.params) != 2:
            raise AnalysisError('%s: parameters not understood' % q)
        P0, P1 = f.params[0]['u'], f.params[1]['u']

        def par(x, s):
            return 100000 if P0 in x else kk if P1 in x else None
        # position: the only number among the members
        fl = {x['n'] for x in m.classes[MSG]['fields'] if x['t'] in ('unsigned long', 'size_t', 'std::size_t')}
        for i in range(0, 4):
            for kk in (0, 1, 2, 4):
                for L in (0, 1, 2, 3, 5):
                    if i > L:
                        continue

                    def fld(x, s):
                        return i if isinstance(x[2], str) and x[2].split('::')[-1] in fl else None
                    env = {'init': par, 'param': par, 'base': lambda x, s: 5000, 'len': lambda x, s: L, 'fld': fld}
                    live = [(st, ret) for st, ret in sts if feasible(e, st, env)]
                    n += 1
                    ok = i + kk <= L
                    for st, ret in live:
                        cp = [x for x in st.auto if x[0] == 'copy']
                        v = ev(e, ret, env) if ret is not None else None
                        if not ok:
                            if cp and rd:
                                bad(vio, f, 'bytes beyond the end of the message are read')
                            if rd and v != 0:
                                bad(vio, f, 'a read beyond the end of the message is not reported')
                            continue
                        if rd and f.rt == 'bool' and v != 1:
                            bad(vio, f, 'a read inside the message is refused')
                        if len(cp) != 1:
                            if kk:
                                bad(vio, f, 'the bytes are not copied')
                            continue
                        a = [ev(e, x, env) for x in cp[0][1:]]
                        want = [5000 + i, 5000 + i + kk, 100000] if rd else [100000, 100000 + kk, 5000 + i]
                        if a != want:
                            bad(vio, f, 'the bytes copied are not those at the current position')
                        p = [ev(e, v_, env) for lv, v_ in st.heap.items() if T.get(lv)[0] == 'Lfld' and str(T.get(lv)[2]).split('::')[-1] in fl]
                        if i + kk not in p and kk:
                            bad(vio, f, 'the position does not advance by the number of bytes')
                    if ok and not live:
                        bad(vio, f, 'an access inside the message is refused')
    return n


class Str(Base):
    """strings: the pieces exchanged"""

    def __init__(self, m):
        self.m = m
        self.rd = ids(m, MSG + '::readData')
        self.wr_ = ids(m, MSG + '::writeData')
        self.rem = ids(m, MSG + '::getRemainingDataSize')
        self.n = 0

    def relevant(self, eng):
        return set()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}
        nm = fi.get('n', '')
        t = tg | {fi.get('id')}
        if t & self.rem:
            return [(st, T.mk('left'))]
        if t & (self.rd | self.wr_):
            self.n += 1
            k = len([x for x in st.auto if x[0] == 'io'])
            p = self.val(eng, st, args[0])
            lv = self.lv(eng, p)
            v = eng.rd(st, lv)
            yes, no = st.copy(), st.copy()
            yes.auto += (('io', p, self.val(eng, st, args[1]), v, 1),)
            no.auto += (('io', p, self.val(eng, st, args[1]), v, 0),)
            if t & self.rd and T.get(lv)[0] == 'Lvar':
                eng.wr(yes, lv, T.mk('got', k), ('o', fr.id, i))
            f = self.m.funcs.get(fi.get('id'))
            if f is not None and f.rt == 'bool':
                return [(yes, eng.TRUE), (no, eng.FALSE)]
            return [(yes, None)]
        if nm in ('length', 'size') and 'basic_string' in fi.get('cls', ''):
            return [(st, T.mk('slen'))]
        if nm in ('c_str', 'data', 'begin', 'end', 'cbegin', 'cend', 'front') and obj is not None:
            return [(st, T.mk('of', nm, r(obj)))]
        if nm in ('begin', 'end', 'cbegin', 'cend') and obj is None and len(args) == 1:
            return [(st, T.mk('of', nm, r(args[0])))]
        if n['k'] == 'Construct' and ('vector<' in fi.get('cls', '') or 'basic_string<' in fi.get('cls', '')) and args and \
                (fi.get('pt') or [''])[0] in WORD:
            st.auto += (('alloc', self.val(eng, st, args[0])),)
        if nm in ('resize', 'reserve') and args:
            st.auto += (('alloc', self.val(eng, st, args[0])),)
        if nm in ('assign', 'append', 'operator=') and obj is not None and 'basic_string<' in fi.get('cls', ''):
            x = [fi.get('pt', [])] + [self.val(eng, st, a) for a in args]
            st.auto += (('set', r(obj), tuple(fi.get('pt', [])), tuple(x[1:])),)
        if n['k'] == 'Construct' and 'basic_string<' in fi.get('cls', '') and args:
            st.auto += (('make', None, tuple(fi.get('pt', [])), tuple(self.val(eng, st, a) for a in args)),)
        return None


WORD = ('unsigned long', 'size_t', 'unsigned int', 'std::size_t', 'int', 'long')


def strings(m, vio):
    n = 0
    # writing
    f = find(m, MSG + '::writeString')
    c = Str(m)
    e = Engine(m, c)
    sts = e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
    wsize = None
    for st, ret in sts:
        io = [x for x in st.auto if x[0] == 'io']
        n += 1
        for k in (9, 70000):
            env = {'slen': lambda x, s: k}
            if len(io) != 2 or ev(e, io[0][3], env) != k or ev(e, io[1][2], env) != k:
                bad(vio, f, 'a string is not written as its length and that many characters')
                break
        else:
            wsize = ev(e, io[0][2], env)
            p = e.T.get(strip_(e, io[1][1]))
            if p[0] != 'of' or p[1] not in ('c_str', 'data', 'front'):
                bad(vio, f, 'the characters written are not those of the string')
    # size
    g = find(m, MSG + '::getStringSize')
    c = Str(m)
    e = Engine(m, c)
    for st, ret in e.run(g):
        n += 1
        for k in (0, 3, 70000):
            if ev(e, ret, {'slen': lambda x, s: k}) != k + (wsize or 0):
                bad(vio, g, 'the room announced for a string is not what is written')
    # reading
    f = find(m, MSG + '::readString')
    c = Str(m)
    e = Engine(m, c)
    sts = e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
    pu = f.params[0]['u']
    top = (1 << (8 * (wsize or 4))) - 1
    some = False
    for k in (0, 1, 5, top):
        for left in (0, 4, 5, 100):
            env = {e.T.mk('got', 0): k, 'left': lambda x, s: left}
            for st, ret in sts:
                if not feasible(e, st, env):
                    continue
                n += 1
                io = [x for x in st.auto if x[0] == 'io']
                ok = ev(e, ret, env) == 1 if f.rt == 'bool' else True
                if any(not x[4] for x in io) and ok:
                    bad(vio, f, 'an incomplete string is taken for a string')
                if not ok and all(x[4] for x in io) and k <= left:
                    bad(vio, f, 'a complete string is refused')
                for x in st.auto:
                    if x[0] == 'alloc':
                        a = ev(e, x[1], env)
                        if a is not None and (a > left + 16 or a < min(k, left)):
                            bad(vio, f, 'a length that the message cannot hold is used to allocate memory')
                if not ok:
                    continue
                some = True
                if len(io) < 1 or ev(e, io[0][2], env) != wsize:
                    bad(vio, f, 'the length is not read as it is written')
                    continue
                if k and (len(io) != 2 or ev(e, io[1][2], env) != k):
                    bad(vio, f, 'the characters read are not as many as were written')
                if k:
                    out = [x for x in st.auto if x[0] in ('set', 'make')]
                    whole = False
                    for x in out:
                        t, a = x[2], x[3]
                        if len([p for p in a if p is not None]) >= 2 and (t[0] not in ('const char *', 'char *') or True) and \
                                not (len(t) == 2 and 'allocator' in t[1]):
                            whole = True
                        elif t and 'const char *' in t[0] and (len(t) == 1 or 'allocator' in t[1]):
                            bad(vio, f, 'the string is cut at its first null character')
                            whole = True
                    if not whole and not any(e.T.get(strip_(e, y[1]))[0] == 'of' and 'Lvar' in str(e.T.show(y[1])) and
                                             ('basic_string' in str(e.T.show(y[1])) or True) for y in io[1:]):
                        bad(vio, f, 'the string read is not handed out')
    if not some:
        bad(vio, f, 'no string is ever read')
    # what the peer sent never ends the process
    roots = [h for q in (REQ, ANS) for h in m.fn(q + '::collectReceivedData')]
    if not roots:
        raise AnalysisError('anchor vanished: collectReceivedData')
    seen, todo = {}, [(h, (h.q,)) for h in roots]
    while todo:
        h, path = todo.pop()
        if h.id in seen:
            continue
        seen[h.id] = path
        for x in h.nodes:
            if x['k'] in ('Call', 'Construct'):
                fi = x.get('f') or {}
                n += 1
                if fi.get('n') in ('__assert_fail', 'abort', 'exit', '_Exit', 'terminate'):
                    bad(vio, h, 'what the peer sent may end the process (%s)' % ' > '.join(path))
                for t in sorted(m.targets(h, x)):
                    if t in m.funcs:
                        todo.append((m.funcs[t], path + (m.funcs[t].q,)))
    return n


# ---- (c)
class Con(Base):
    """content of a message: which member each string written, announced or read is"""

    def __init__(self, m):
        self.m = m
        self.h = {x: ids(m, q) for x, q in (('ws', MSG + '::writeString'), ('ss', MSG + '::getStringSize'),
                                            ('rs', MSG + '::readString'), ('left', MSG + '::getRemainingDataSize'),
                                            ('trim', REQ + '::trim'))}
        self.n = 0

    def relevant(self, eng):
        mine = {f.id for f in self.m.funcs.values() if f.cls in (REQ, ANS)}
        for v in self.h.values():
            mine -= v
        return mine

    def what(self, eng, st, a):
        T = eng.T
        t = self.val(eng, st, a)
        for d in range(8):
            x = T.get(t)
            if x[0] in ('fld', 'Lfld'):
                return x[2].split('::')[-1]
            if x[0] == 'item':
                return 'each ' + x[1]
            if x[0] == 'idx' and hasattr(x[1], 'i'):
                w = self.what(eng, st, x[1].i)
                return 'each ' + w if w else None
            if x[0] == 'elem':
                return 'each'
            if x[0] in ('got', 'trim', 'init'):
                return x[0] + str(x[1])
            if x[0] in ('cast', 'drf', 'Lder', 'addr', 'lib'):
                n = next((y.i for y in x[1:] if hasattr(y, 'i')), None)
                if n is None:
                    n = next((y[0].i for y in x[1:] if isinstance(y, tuple) and y and hasattr(y[0], 'i')), None)
                if n is None:
                    return None
                t = n
                continue
            break
        return None

    def add(self, st, e):
        if e not in st.auto:
            st.auto += (e,)

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}
        nm = fi.get('n', '')
        t = tg | {fi.get('id')}
        if obj is not None and T.get(obj)[0] == 'Lfld' and 'vector' in fi.get('cls', ''):
            if nm in ('operator[]', 'at'):
                return [(st, eng.lder(T.mk('item', T.get(obj)[2].split('::')[-1])))]
            if nm in ('push_back', 'emplace_back'):
                self.keep(eng, st, fr, i, 'push', T.get(obj)[2].split('::')[-1], args[0])
                return [(st, None)]
            if nm == 'clear':
                return [(st, None)]
        if t & self.h['trim']:
            w = self.what(eng, st, args[0])
            return [(st, T.mk('got', w[3:]) if w and w[:3] == 'got' else T.mk('trim', w))]
        if t & self.h['ws']:
            self.n += 1
            self.add(st, ('ws', self.what(eng, st, args[0])))
            return [(st, None)]
        if t & self.h['ss']:
            self.n += 1
            self.add(st, ('ss', self.what(eng, st, args[0])))
            return [(st, T.mk('room', fr.id, i))]
        if t & self.h['rs']:
            self.n += 1
            if any(x[0] == 'pending' for x in st.auto):
                eng.report(fr, i, 'a string received is dropped')
            yes, no = st.copy(), st.copy()
            yes.auto = tuple(x for x in yes.auto if x[0] not in ('pending', 'left')) + (('pending', 'got%d' % i),)
            no.auto = tuple(x for x in no.auto if x[0] not in ('pending', 'left')) + (('failed',),)
            eng.wr(yes, args[0], T.mk('got', str(i)), ('o', fr.id, i))
            f = self.m.funcs.get(fi.get('id'))
            if f is not None and f.rt == 'bool':
                return [(yes, eng.TRUE), (no, eng.FALSE)]
            return [(yes, None)]
        if t & self.h['left']:
            out = []
            for v in (0, 1, 4, 7):
                q = st.copy()
                q.auto = tuple(x for x in q.auto if x[0] != 'left') + (('left', v),)
                out.append((q, T.mk('int', v)))
            return out
        if nm in ('operator=', 'assign', 'swap') and obj is not None and T.get(obj)[0] == 'Lfld' and 'basic_string' in fi.get('cls', ''):
            self.keep(eng, st, fr, i, 'set', T.get(obj)[2].split('::')[-1], args[0])
            return None
        return None

    def keep(self, eng, st, fr, i, how, where, a):
        w = self.what(eng, st, a)
        p = next((x for x in st.auto if x[0] == 'pending'), None)
        if p is not None and w != p[1]:
            eng.report(fr, i, 'what is kept is not the string just received')
        st.auto = tuple(x for x in st.auto if x[0] != 'pending')
        self.add(st, (how, where) + (() if p else (w,)))


def pieces(st, k):
    return [x[1] for x in st.auto if x[0] == k]


def content(m, vio):
    n = 0
    ws, ss = ids(m, MSG + '::writeString'), ids(m, MSG + '::getStringSize')
    rs = ids(m, MSG + '::readString')
    for cls in (REQ, ANS):
        def run(q):
            f = find(m, cls + '::' + q)
            c = Con(m)
            e = Engine(m, c)
            s = e.run(f)
            vio.extend(e.violations)
            if not c.n:
                bad(vio, f, 'no string is exchanged')
            return f, e, s
        f, e, sts = run('fillDataToSend')
        full = max((pieces(st, 'ws') for st, _ in sts), key=len)
        many = [x for x in full if x is None or x.startswith('each')]
        n += 1
        if not full or full[0] in many or len(full) != (2 if cls == REQ else 1) or len(many) != (1 if cls == REQ else 0):
            bad(vio, f, 'what is written is not %s' % ('the command and then every argument' if cls == REQ else 'the answer'))
            continue
        for st, ret in sts:
            n += 1
            if pieces(st, 'ws') not in (full, full[:1] if cls == REQ else full):
                bad(vio, f, 'not everything is written')
        if many:
            all_of(m, f, ws, vio, 'not every argument is written')
        g, e2, sts2 = run('getDataSize')
        for st, ret in sts2:
            n += 1
            s = pieces(st, 'ss')
            if s not in (full, full[:1] if cls == REQ else full) and sorted(map(str, s)) != sorted(map(str, full)):
                bad(vio, g, 'the size announced is that of %s, what is written is %s' % (s, full))
        if many:
            all_of(m, g, ss, vio, 'not every argument is in the size announced')
        n += summed(m, g, ss, vio)
        h, e3, sts3 = run('collectReceivedData')
        fine = 0
        for st, ret in sts3:
            n += 1
            ok = ev(e3, ret, {}) == 1 if h.rt == 'bool' else True
            if any(x[0] == 'failed' for x in st.auto):
                if ok:
                    bad(vio, h, 'an incomplete message is accepted')
                continue
            if not ok:
                bad(vio, h, 'a complete message is refused')
                continue
            fine += 1
            if any(x[0] == 'pending' for x in st.auto):
                bad(vio, h, 'a string received is dropped')
            if cls == REQ and ('left', 0) not in st.auto:
                bad(vio, h, 'ends although more was received')
            l = [x for x in st.auto if x[0] in ('set', 'push')]
            vec = next(iter(argfield(m)))
            want = [('set', full[0]), ('push', vec)][:2 if cls == REQ else 1]
            if l not in (want, want[:1]):
                bad(vio, h, 'what was written as %s is collected as %s' % (full, [x[1:] for x in l]))
        if not fine:
            bad(vio, h, 'no message is ever accepted')
        elif cls == REQ and not any(x[0] == 'push' for st, _ in sts3 for x in st.auto):
            bad(vio, h, 'the arguments received are not kept')
        n += 1
    # the answer keeps the status
    n += answer_status(m, vio)
    return n


def argfield(m):
    return [x['n'] for x in m.classes[REQ]['fields'] if 'vector<' in x['t']]


def summed(m, g, ss, vio):
    """every size obtained is added to what is returned"""
    par = {}
    for i, x in enumerate(g.nodes):
        for c in x.get('c') or []:
            par.setdefault(c, i)
    hosts = [g] + [h for h in m.funcs.values() if h.lam and h.q.startswith(g.q + '(')]
    n = 0
    for i, x in enumerate(g.nodes):
        if x['k'] != 'Call' or not (m.targets(g, x) & ss):
            continue
        n += 1
        j, ok = i, False
        while j in par or True:
            if j not in par:
                ok = any(v.get('init') == j for v in decls(g).values())
                break
            p = g.nodes[par[j]]
            if p['k'] == 'Return':
                ok = True
                break
            op = p.get('op', '')
            if p['k'] == 'Bin' and op == '+=' or p['k'] in ('CompoundAssign',) and op == '+=':
                ok = True
                break
            if p['k'] == 'Bin' and op == '=':
                v = varref(g, p['c'][0])
                inl = any(L.blockof(par[j]) is not None or L.blockof(j) is not None for L in loops(g))
                ok = not inl or any(varref(g, y) == v for y in g.subtree(p['c'][1]) if g.nodes[y]['k'] == 'Ref')
                break
            if p['k'] == 'Bin' and op != '+':
                break
            if p['k'] not in ('Bin', 'ICast', 'ECast', 'Paren', 'Decl'):
                break
            if p['k'] == 'Decl':
                ok = True
                break
            j = par[j]
        if not ok:
            bad(vio, g, 'the size announced is not the sum of the sizes of what is written', i)
    return n


def answer_status(m, vio):
    n = 0
    f = find(m, ANS + '::success')
    ctor = [g for g in m.funcs.values() if g.cls == ANS and g.ctor and len(g.params) == 2]
    if len(ctor) != 1:
        raise AnalysisError('anchor vanished: constructor of CAnswerMessage')
    g = ctor[0]
    for flag in (1, 0):
        c = Checker()
        e = Engine(m, AnsC(m))
        pu = [p for p in g.params if p['t'] == 'bool'][0]['u']

        def setup(eng, st, fr):
            st.env[('v', fr.id, pu)] = eng.TRUE if flag else eng.FALSE
        for st, ret in e.run(g, setup):
            base = [x[1] for x in st.auto if x[0] == 'kind']
            n += 1
            if len(base) != 1 or base[0] is None:
                bad(vio, g, 'the status of an answer is not determined')
                continue
            e2 = Engine(m, AnsC(m, base[0]))
            for st2, ret2 in e2.run(f):
                v = ev(e2, ret2, {})
                n += 1
                if v is None or bool(v) != bool(flag):
                    bad(vio, f, 'an answer made for %s says the opposite' % ('success' if flag else 'failure'))
    return n


class AnsC(Base):
    def __init__(self, m, kind=None):
        self.m, self.kind = m, kind
        self.ctors = {g.id for g in m.funcs.values() if g.cls == MSG and g.ctor and len(g.params) == 1}
        self.get = ids(m, MSG + '::getMsgId')

    def relevant(self, eng):
        return set()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if n['k'] == 'Construct' and fi.get('id') in self.ctors:
            st.auto += (('kind', ev(eng, self.val(eng, st, args[0]), {})),)
            return None
        if (tg | {fi.get('id')}) & self.get:
            return [(st, eng.T.mk('int', self.kind if self.kind is not None else -1))]
        return None


# ---- (d)
class Srv(Base):
    """state: what happened last on the connection"""
    KEXIT = 40
    SNDF = False

    def __init__(self, m):
        self.m = m
        self.ser = ids(m, MSG + '::serialize')
        self.n = 0
        self.kinds = enum(m)

    def relevant(self, eng):
        return set()

    def last(self, st):
        return st.auto[-1] if st.auto else None

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        T = eng.T
        fi = n.get('f') or {}
        t = tg | {fi.get('id')}
        last = self.last(st)
        if t & self.ser:
            self.n += 1
            out = ev(eng, self.val(eng, st, args[1]), {})
            if out is None:
                raise AnalysisError('%s: direction of the exchange not determined' % fr.f.q)
            if last is not None and last[0] in ('tx', 'rx') and last[1] != 'success':
                eng.report(fr, i, 'goes on after a failed exchange')
            if not self.SNDF:
                if out and (last is None or last[0] != 'ans'):
                    eng.report(fr, i, 'an answer is sent without a request')
                if not out and last is not None and last[0] in ('do', 'ans'):
                    eng.report(fr, i, 'a request is processed without being answered')
            res = []
            for nm, v in self.kinds.items():
                q = st.copy()
                q.auto = (q.auto if self.SNDF else ()) + (('tx' if out else 'rx', nm),)
                res.append((q, T.mk('int', v)))
            return res
        if fi.get('n') == 'remoteCommandProcess':
            self.n += 1
            if last != ('rx', 'success'):
                eng.report(fr, i, 'something that is not a request just received is processed')
            res = []
            for v in (1, 0):
                q = st.copy()
                t_ = T.mk('text', i)
                if len(args) > 1 and eng.islv(args[1]):
                    eng.wr(q, args[1], t_, ('o', fr.id, i))
                q.auto = (('do', v, t_),)
                res.append((q, eng.TRUE if v else eng.FALSE))
            return res
        if n['k'] == 'Construct' and fi.get('cls') == ANS and len(args) == 2 and not self.SNDF:
            a, b = self.val(eng, st, args[0]), eng.truth(st, self.val(eng, st, args[1]))
            if last is None or last[0] != 'do' or a != last[2] or b != bool(last[1]):
                eng.report(fr, i, 'the answer is not the result of the request')
            st.auto = (('ans',),)
            return None
        return None


def enum(m):
    out = {}
    for g in m.funcs.values():
        if g.file.startswith('remote-process'):
            for x in g.nodes:
                d = x.get('d') or {}
                if x['k'] == 'Ref' and d.get('k') == 'enum' and d.get('n') in ('success', 'peerDisconnected', 'error') and MSG in x.get('t', ''):
                    out[d['n']] = int(d['v'])
    if 'success' not in out:
        raise AnalysisError('anchor vanished: CMessage::Result')
    return out


def server(m, vio):
    n = 0
    f = find(m, SRV + '::handleNewConnection')
    c = Srv(m)
    e = Engine(m, c)
    sts = e.run(f, lambda eng, st, fr: refparams(eng, st, fr))
    vio += e.violations
    if not c.n:
        raise AnalysisError('handleNewConnection: nothing is received')
    for st, ret in sts:
        n += 1
        last = c.last(st)
        if last is None or last[0] in ('do', 'ans') or last[1] == 'success':
            bad(vio, f, 'ends although the connection is in order')
    # what is received is what is processed; what was made is what is sent
    n += wiring(m, f, vio)
    # accepting
    g = find(m, SRV + '::acceptRegister')
    hnc = ids(m, SRV + '::handleNewConnection')
    reg = ids(m, SRV + '::acceptRegister')
    lams = [h for h in m.funcs.values() if h.lam and h.q.startswith(SRV + '::acceptRegister')]
    host = next((h for h in lams + [g] if any(m.targets(h, x) & hnc for x in h.nodes if x['k'] == 'Call')), None)
    if host is None:
        return n + (bad(vio, g, 'connections are not handled') or 0)
    c = Evts(m, {'handle': (hnc, 'void'), 'again': (reg, 'void')})
    e = Engine(m, c)
    for st, ret in e.run(host):
        n += 1
        l = [x[0] for x in st.auto]
        if 'handle' in l and (l.index('handle') + 1 >= len(l) or l[l.index('handle') + 1] != 'again'):
            bad(vio, host, 'after a connection the next one is not waited for')
    for i, x in enumerate(host.nodes):
        fi = x.get('f') or {}
        if x['k'] == 'Call' and 'asio' in (fi.get('cls') or fi.get('q', '')) and fi.get('n') in (
                'set_option', 'close', 'shutdown', 'cancel', 'non_blocking', 'remote_endpoint', 'local_endpoint', 'get_option'):
            n += 1
            if not any('error_code' in p for p in fi.get('pt', [])) and not host.tryr_covers(i) if hasattr(host, 'tryr_covers') else \
                    not any('error_code' in p for p in fi.get('pt', [])):
                bad(vio, host, '%s on the connection may throw and end the server' % fi['n'], i)
    return n


def wiring(m, f, vio):
    n = 0
    rx, tx, do, mk = None, None, None, {}
    for i, x in enumerate(f.nodes):
        fi = x.get('f') or {}
        if x['k'] != 'Call':
            continue
        if fi.get('q') == MSG + '::serialize' or fi.get('n') == 'serialize':
            out = next((f.nodes[strip(f, a)] for a in x['c'] if f.nodes[strip(f, a)]['k'] == 'Bool'), None)
            v = varref(f, x['obj'])
            if out is not None and v is not None:
                if out.get('v') in (True, 1, 'true'):
                    tx = (v, i)
                else:
                    rx = (v, i)
        elif fi.get('n') == 'remoteCommandProcess':
            do = (varref(f, x['c'][0]), i)
    if rx and do:
        n += 1
        if do[0] is not None and do[0] != rx[0]:
            bad(vio, f, 'what is processed is not the message received', do[1])
    return n


# ---- (e)
class Bg(Base):
    def __init__(self, m):
        self.m = m
        self.n = 0

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == BG}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if 'future<' in fi.get('cls', '') or '__basic_future' in fi.get('cls', ''):
            if fi.get('n') == 'valid':
                t, f_ = st.copy(), st.copy()
                t.auto += ('valid',)
                return [(t, eng.TRUE), (f_, eng.FALSE)]
            if fi.get('n') in ('get', 'wait', 'wait_for', 'wait_until'):
                self.n += 1
                if 'valid' not in st.auto:
                    eng.report(fr, i, 'waits for the server thread without knowing that there is one')
                if fi['n'] == 'get':
                    st.auto = tuple(x for x in st.auto if x != 'valid')
        return None


def background(m, vio):
    n = 0
    fs = [f for f in m.funcs.values() if f.cls == BG and (f.dtor or f.q.endswith('::stop'))]
    if not fs:
        raise AnalysisError('anchor vanished: BackgroundRemoteProcessorServer::stop')
    for f in fs:
        c = Bg(m)
        e = Engine(m, c)
        e.run(f)
        vio += e.violations
        n += 1 + c.n
    return n


# ---- (f)
class Cli(Base):
    def __init__(self, m, argc):
        self.m, self.argc = m, argc
        self.n = 0
        self.send = ids(m, 'sendAndDisplayCommand')

    def relevant(self, eng):
        return set()

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        if (tg | {(n.get('f') or {}).get('id')}) & self.send:
            self.n += 1
            a, b = st.copy(), st.copy()
            a.auto = (('send', 1),)
            b.auto = (('send', 0),)
            if st.auto:
                eng.report(fr, i, 'sends more than one command')
            return [(a, eng.TRUE), (b, eng.FALSE)]
        return None


def argvpos(f, i, pu):
    """('const', k) for argv[k], ('var', u) for argv[u]"""
    for j in f.subtree(i):
        x = f.nodes[j]
        if x['k'] in ('Index', 'Subscript') or x['k'] == 'Bin' and x.get('op') == '[]':
            if varref(f, x['c'][0]) == pu:
                y = f.nodes[strip(f, x['c'][1])]
                if y.get('cv') is not None:
                    return ('const', int(y['cv']))
                v = varref(f, x['c'][1])
                if v is not None:
                    return ('var', v)
    return None


def client(m, vio):
    n = 0
    f = next((g for g in m.funcs.values() if g.q == 'main' and g.file.startswith('remote-process/')), None)
    if f is None:
        raise AnalysisError('anchor vanished: main of remote-process')
    for argc in (1, 3, 4, 5, 7):
        c = Cli(m, argc)
        e = Engine(m, c)

        def setup(eng, st, fr):
            st.env[('v', fr.id, f.params[0]['u'])] = eng.T.mk('int', argc)
        sts = e.run(f, setup)
        vio += e.violations
        for st, ret in sts:
            n += 1
            sent = [x[1] for x in st.auto]
            v = ev(e, ret, {})
            if v is None:
                bad(vio, f, 'status of the client not determined')
            elif argc < 4:
                if sent or v == 0:
                    bad(vio, f, 'runs without a command')
            elif v == 0 and sent != [1]:
                bad(vio, f, 'succeeds although the command did not')
            elif v != 0 and sent == [1]:
                bad(vio, f, 'fails although the command succeeded')
    pu = f.params[1]['u']
    f.cfg()
    D = decls(f)
    got = False
    for i, x in enumerate(f.nodes):
        fi = x.get('f') or {}
        if x['k'] == 'Construct' and fi.get('cls') == REQ and x.get('c') or fi.get('n') == 'setCommand' and x['k'] == 'Call':
            n += 1
            p = argvpos(f, x['c'][0], pu)
            if p is not None and p != ('const', 3):
                bad(vio, f, 'the command sent is not that of the command line', i)
        if fi.get('n') == 'addArgument' and x['k'] == 'Call':
            got = True
            n += 1
            p = argvpos(f, x['c'][0], pu)
            L = next((L for L in loops(f) if L.blockof(i) is not None), None)
            if p is None or L is None:
                continue
            if p[0] == 'const':
                bad(vio, f, 'the arguments sent are not those of the command line', i)
                continue
            d = D.get(p[1])
            st = f.nodes[strip(f, d['init'])].get('cv') if d and d.get('init') is not None and d['init'] >= 0 else None
            if st is not None and int(st) != 4:
                bad(vio, f, 'the first argument of the command line is %s' % ('skipped' if int(st) > 4 else 'not an argument'), i)
            steps = [k for k, _ in writes(f, p[1]) if k != 'set'] 
            if any(k in ('dec', 'other') for k in steps) or len(steps) > 1:
                bad(vio, f, 'the arguments are not sent one after the other', i)
            if not L.every_iteration(i) or L.exits:
                bad(vio, f, 'not every argument of the command line is sent', i)
            cnd = f.blocks[L._cond()].get('cond')
            y = f.nodes[strip(f, cnd)] if cnd is not None else {}
            if y.get('k') == 'Bin' and y.get('op') in ('<', '!=', '<=', '>', '>='):
                l_, r_ = (y['c'][0], y['c'][1]) if varref(f, y['c'][0]) == p[1] else (y['c'][1], y['c'][0])
                op = y['op'] if varref(f, y['c'][0]) == p[1] else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(y['op'], y['op'])
                z = f.nodes[strip(f, r_)]
                if varref(f, r_) == f.params[0]['u']:
                    if op not in ('<', '!='):
                        bad(vio, f, 'sends what is not on the command line', i)
                elif z['k'] == 'Bin' and z.get('op') == '-' and op in ('<', '!='):
                    bad(vio, f, 'the last arguments of the command line are not sent', i)
    if not got:
        bad(vio, f, 'the arguments of the command line are not sent')
    g = find(m, 'sendAndDisplayCommand')
    c = Snd(m)
    e = Engine(m, c)
    some = 0
    for st, ret in e.run(g, lambda eng, st, fr: refparams(eng, st, fr)):
        n += 1
        io = [x for x in st.auto if x[0] in ('tx', 'rx')]
        ok = [x[0] for x in io] == ['tx', 'rx'] and all(x[1] == 'success' for x in io) and ('yes', 1) in st.auto
        v = ev(e, ret, {})
        if v is None or bool(v) != ok:
            bad(vio, g, 'succeeds without a successful answer' if v else 'fails although the answer is a success')
        some += ok
        if [x[0] for x in io] == ['tx', 'rx'] and all(x[1] == 'success' for x in io) and not any(x[0] == 'show' for x in st.auto):
            bad(vio, g, 'the answer is not shown')
    if not some:
        bad(vio, g, 'never succeeds')
    # the library's own handler
    h = find(m, 'CommandHandlerWrapper::process')
    add = ids(m, REQ + '::addArgument')
    n += 1
    all_of(m, h, add, vio, 'not every argument is handed over')
    # requests keep what they are given
    for q, want in ((REQ + '::addArgument', 'push'), (REQ + '::setCommand', 'set')):
        w = find(m, q)
        c = Con(m)
        e = Engine(m, c)
        for st, ret in e.run(w):
            n += 1
            if [x[0] for x in st.auto] != [want]:
                bad(vio, w, 'what is given is not kept')
    n += packing(m, vio) + trimming(m, vio)
    return n


def packing(m, vio):
    """packArguments joins the words from the first asked for, as many as asked for"""
    f = find(m, REQ + '::packArguments')
    c = Pack(m)
    e = Engine(m, c)
    n = 0
    A, B = f.params[0]['u'], f.params[1]['u']
    for a in (0, 1, 2):
        for b in (0, 1, 2):
            env0 = lambda x, s: a if A in x else b if B in x else None
            env = {'init': env0, 'param': env0, 'base': lambda x, s: 5000, 'len': lambda x, s: 4}
            for st, ret in e.run(f) if not hasattr(c, 'sts') else c.sts:
                if not feasible(e, st, env):
                    continue
                n += 1
                rng = [x for x in st.auto if x[0] == 'range']
                if not rng:
                    continue
                p = [ev(e, y, env) for y in rng[-1][1:3]]
                if None not in p and p != [5000 + a, 5000 + a + b]:
                    bad(vio, f, 'the words joined are not those asked for')
    for i, x in enumerate(f.nodes):
        if x['k'] == 'Call' and (x.get('f') or {}).get('n') == 'asString':
            n += 1
            for j in f.subtree(i):
                if f.nodes[j]['k'] == 'Str' and f.nodes[j].get('v') != ' ':
                    bad(vio, f, 'the words are not joined with a blank', i)
    return n


class Trim(Base):
    def __init__(self, m):
        self.m = m

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == REQ}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if fi.get('n') == 'erase' and 'basic_string' in fi.get('cls', '') and obj is not None and eng.islv(obj) and args:
            a = [self.val(eng, st, x) for x in args]
            eng.wr(st, obj, eng.T.mk('cut', r(eng.rd(st, obj)), r(a[0]), r(a[1]) if len(a) > 1 else None), ('o', fr.id, i))
            return [(st, obj)]
        return None


SPACE = ' \t\n\v\f\r'
WORDS = ('', ' ', 'a', ' a', 'a ', '\ta b\n', 'abc', '\v\f', 'x\r', '  "q r"  ')


def trimming(m, vio):
    """words are kept without the blanks around them"""
    f = find(m, REQ + '::trim')
    e = Engine(m, Trim(m))
    sts = e.run(f)
    pu = f.params[0]['u']
    n = 0
    for w in WORDS:
        def cut(x, s):
            t, a = s(x[1].i), s(x[2].i)
            k = s(x[3].i) if len(x) > 3 and hasattr(x[3], 'i') else None
            if not isinstance(t, str) or a is None:
                return None
            a &= (1 << 64) - 1
            if a > len(t):
                return None
            return t[:a] + (t[a + k:] if isinstance(k, int) and 0 <= k < (1 << 63) else '')

        def glob(x, s):
            if x[1].endswith('::npos'):
                return (1 << 64) - 1
            g = m.globals.get(x[1])
            v = [y['v'] for y in (g or {}).get('nodes', []) if y['k'] == 'Str']
            return v[0] if len(v) == 1 else None
        env = handlers({'cut': cut, 'glob': glob, 'init': lambda x, s: w if pu in x else None})
        for st, ret in sts:
            if not feasible(e, st, env):
                continue
            v = ev(e, ret, env)
            n += 1
            if v is None or any(ev(e, k, env) is None for k in st.facts if isinstance(k, int)):
                n -= 1
            elif v != w.strip(SPACE):
                bad(vio, f, 'a word is altered: %r becomes %r' % (w, v))
    return n


class Pack(Acc):
    def __init__(self, m):
        self.m = m
        self.n = 0
        v = [x['n'] for x in m.classes[REQ]['fields'] if 'vector<' in x['t']]
        self.vec = REQ + '::' + v[0]

    def relevant(self, eng):
        return {f.id for f in self.m.funcs.values() if f.cls == REQ}

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if n['k'] == 'Construct' and 'vector<' in fi.get('cls', '') and len(args) >= 2:
            st.auto += (('range', self.val(eng, st, args[0]), self.val(eng, st, args[1])),)
            return None
        return Acc.on_call(self, eng, st, fr, i, n, tg, obj, args)


class Snd(Srv):
    SNDF = True

    def on_call(self, eng, st, fr, i, n, tg, obj, args):
        fi = n.get('f') or {}
        if fi.get('n') == 'success' and fi.get('cls') == ANS:
            a, b = st.copy(), st.copy()
            a.auto += (('yes', 1),)
            b.auto += (('yes', 0),)
            return [(a, eng.TRUE), (b, eng.FALSE)]
        if fi.get('n') == 'getAnswer':
            st.auto += (('show',),)
            return None
        return Srv.on_call(self, eng, st, fr, i, n, tg, obj, args)


def check(m, tier):
    vio, n = [], 0
    for part in (serialize, accesses, strings, content, server, background, client):
        n += part(m, vio)
    return {'violations': dedup(vio), 'coverage': {'instances_checked': n, 'unit': 'paths x values of the fields exchanged'}}
