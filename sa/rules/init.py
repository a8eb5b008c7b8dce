"""Initialisation: capacities of the arrays of an object (C19) and definedness of what its operations read (C26)."""
from .base import *
from .combining import const_is
from .hash import elems
from .threads import narrow, done

C = {'C26'}


def wide(v):
    """v as a 64-bit sum: 32-bit sizes and indices of one object do not overflow (assumption)"""
    c, ts = terms(v)
    r = const(c, v.w)
    for x, q in ts:
        y = x
        if x.kind == 'bits' and len(x.a) == 2 and x.a[1][1] is None and x.a[1][0] == 0 and x.a[0][1] == 0 and x.a[0][0].w == x.a[0][2]:
            y = x.a[0][0]
        elif x.kind == 'op' and x.a[0] in ('sext', 'zext'):
            y = x.a[1]
        if y is not x and y.kind == 'lin':
            yc, yt = y.a
            z = const(yc, 64)
            for u, p in yt:
                z = add(z, scale(VV.zext(narrow(u), 64), p))
            y = z
        elif y is not x:
            y = VV.zext(y, x.w)
        r = add(r, scale(y, q))
    return r


def fits(size, need, pos=()):
    """size >= need for all values of the leaves (pos: leaves that are at least 1): True, False or None"""
    d = sub(wide(size), wide(need))
    if d.kind == 'c':
        return cval(d) >= 0
    c, ts = terms(d)
    if not ts:
        return c >= 0
    lo = c + sum(q for x, q in ts if q > 0 and narrow(x) in pos)
    if all(q > 0 for _, q in ts):
        return True if lo >= 0 else (False if len(ts) == 1 else None)
    if all(q < 0 for _, q in ts):
        return False
    return False if len({narrow(x) for x, _ in ts} & set(pos)) == len(ts) else None


def z64(v):
    return v if v.w == 64 else VV.zext(v, 64)


class I:
    def __init__(self, ctx, t, R, pos=()):
        self.ctx, self.t, self.R, self.i, self.pos = ctx, t, R, len(t.ev), pos

    def st(self, a, size=8):
        e = next((e for e in reversed(self.t.ev) if e.kind == 'store' and e.addr is a), None)
        if e is None:
            return None
        for x in self.t.ev[e.idx + 1:]:      # a wider or overlapping later write
            if x.kind == 'store' and (d := diff_const(x.addr, a)) is not None and -x.size < d < e.size and x.addr is not a:
                return None
        return e.val

    def zero(self, a, what, tags=C):
        v = self.st(a)
        ok = v is not None and const_is(v, True)
        if not ok:
            for m in self.t.ev:
                if m.kind == 'memset' and const_is(m.val, True) and v is None:
                    d = diff_const(a, m.addr)
                    if d is not None and d >= 0 and (cval(m.x) is None or d < cval(m.x)):
                        ok = True
        self.ctx.need(ok, tags, self.R, '%s is not cleared' % what, self.t, self.t.ev[-1])

    def val(self, a, n, what, tags=C):
        v = self.st(a)
        self.ctx.need(v is not None and (v is n or is_c(v) and is_c(n) and cval(v) == cval(n)), tags, self.R, '%s does not get its initial value' % what, self.t,
                      self.t.ev[-1])

    def size(self, o):
        return self.t.ev[o.a[0]].x['args'][-1]

    def room(self, o, need, what, tags=frozenset()):
        """block o has room for need bytes"""
        f = fits(self.size(o), need, self.pos)
        if f is None:
            self.ctx.count(self.R)
            self.ctx.inconclusive.append('%s: size of %s' % (self.R, what))
            return
        self.ctx.need(f, {'C19'} | set(tags), self.R, '%s is smaller than what is stored in it' % what, self.t, self.t.ev[o.a[0]])

    def array(self, a, n, elem, what, extra=0, tags=frozenset()):
        """the member at a gets an own block for n (+ extra) elements"""
        b = self.st(a)
        if not self.ctx.need(b is not None and b.kind == 'obj', C | {'C19'} | set(tags), self.R, '%s is not allocated' % what, self.t, self.t.ev[-1]):
            return None
        self.room(b, addc(scale(z64(n), elem), extra * elem), what, tags)
        return b

    def all(self, n, j):
        """exactly the elements below n were handled, given that the first j were"""
        return done(self.t, j - 1, n)


def models(t):
    """the machine models (small numbers) for which this path is possible"""
    c = t.calls('synchGetMachineModel')
    return {k for k in range(8) if all(t.known(eq(x.res, const(k, x.res.w))) is not False for x in c)}


def model_fits(a, b):
    """the two paths can belong to the same machine"""
    return bool(models(a) & models(b))


OPQ = dict(opaque=('synchGetMachineModel', 'CLHLockInit'), pure=('synchGetMachineModel', 'CLHLockInit'), seq=True)


# ---------------------------------------------------------------- CC-Synch and DSM-Synch
@group('ccinit')
def ccinit(ctx):
    nodes_init(ctx, 'CCSynch', 'ccinit', {'C01', 'C02'})


@group('dsminit')
def dsminit(ctx):
    nodes_init(ctx, 'DSMSynch', 'dsminit', {'C01', 'C02'})


def nodes_init(ctx, P, R, tags):
    cc = P == 'CCSynch'
    T = C | tags
    S, N, H = P + 'Struct', P + 'Node', P + 'ThreadState'
    mod = P.lower()
    ns = ctx.sizeof(N)
    o = lambda s, f: ctx.off(s, f, mod)
    sts = ctx.paths(P + 'StructInit', mod, k=2, **OPQ)
    for t in sts:
        l, n = t.args[:2]
        i = I(ctx, t, R + '.struct', (n,))
        tail = i.st(addc(l, o(S, 'Tail')))
        nd = i.st(addc(l, o(S, 'nodes')))
        t.nodes = nd if nd is not None and nd.kind == 'obj' else None
        if t.nodes is not None:
            i.room(nd, scale(z64(n), ns if cc else 2 * ns), 'the array of nodes', tags)
        if not cc:
            i.zero(addc(l, o(S, 'Tail')), 'the tail of the list', T)
            continue
        if not ctx.need(tail is not None and not is_c(tail), T, i.R, 'the list of requests starts without a node', t, t.ev[-1]):
            continue
        b, c, ts = base_off(tail)
        if not ctx.need(b is not None and b.kind == 'obj', T, i.R, 'the list of requests does not start with an own node', t, t.ev[-1]):
            continue
        i.room(b, addc(sub(tail, b), ns), 'the block of the first node', tags)
        if b is nd:
            ctx.need(fits(sub(tail, b), scale(z64(n), ns), (n,)) is True, T | {'C27'}, i.R, 'the first node of the list belongs to a thread, too', t, t.ev[-1])
        for f in ('next', 'locked', 'completed'):
            i.zero(addc(tail, o(N, f)), 'member %s of the first node' % f, T)
    for t in ctx.paths(P + 'ThreadStateInit', mod, k=2, **OPQ):
        l, st, pid = t.args[:3]
        i = I(ctx, t, R + '.thread')
        slots = [addc(st, o(H, 'next'))] if cc else [addc(st, o(H, 'MyNodes')), addc(st, o(H, 'MyNodes') + 8)]
        vs = [i.st(a) for a in slots]
        if not ctx.need(all(v is not None and not is_c(v) for v in vs) and len(set(vs)) == len(vs), T, i.R, 'a thread does not get nodes of its own', t,
                        t.ev[-1]):
            continue
        offs = set()
        for v in vs:
            b, c, ts = base_off(v)
            if b is not None and b.kind == 'obj':
                i.room(b, addc(sub(v, b), ns), 'the block of a node', tags)
                offs.add((b, c))
                continue
            ok = b is not None and b.kind == 'ld' and b.a[1] is addc(l, o(S, 'nodes'))
            if not ctx.need(ok, T, i.R, 'the node of a thread is not a new one or one of the instance', t, t.ev[-1]):
                continue
            q = len(vs)
            ok = len(ts) == 1 and narrow(ts[0][0]) is pid and ts[0][1] == q * ns or \
                len(ts) == 1 and narrow(ts[0][0]).kind == 'lin' and wide(sub(v, b)) is addc(scale(VV.zext(pid, 64), q * ns), c)
            w = wide(sub(v, b))
            wc, wt = terms(w)
            ok = len(wt) == 1 and narrow(wt[0][0]) is pid and wt[0][1] == q * ns and 0 <= wc < q * ns and wc % ns == 0
            ctx.need(ok, T | {'C19', 'C27'}, i.R, 'two threads may get the same node, or one outside of the array', t, t.ev[-1])
            offs.add((b, wc))
            for s in sts:
                if model_fits(s, t):
                    ctx.need(s.nodes is not None, T | {'C19'}, i.R, 'a thread takes its node from an array that is not allocated on this machine', t, t.ev[-1])
        ctx.need(len(offs) == len(vs), T | {'C19'}, i.R, 'the nodes of a thread overlap', t, t.ev[-1])
        if not cc:
            v = i.st(addc(st, o(H, 'toggle')))
            ctx.need(v is not None and is_c(v) and cval(v) in (0, 1), T | {'C19'}, i.R, 'the toggle of a thread does not select one of its nodes', t, t.ev[-1])


# ---------------------------------------------------------------- CLH lock
@group('clhinit')
def clhinit(ctx):
    T = C | {'C03'}
    S, N = 'CLHLockStruct', 'CLHLockNode'
    ns = ctx.off(N, 'locked', 'clh') + 1
    for t in ctx.paths('CLHLockInit', k=2, ends=('ret',)):
        n = t.args[0]
        i = I(ctx, t, 'clhinit.lock', (n,))
        l = t.ret
        if l.kind != 'obj':
            continue
        i.array(addc(l, ctx.off(S, 'MyPred', 'clh')), n, 8, 'the array of predecessors', tags={'C03'})
        b = i.array(addc(l, ctx.off(S, 'MyNode', 'clh')), n, 8, 'the array of nodes', tags={'C03'})
        if b is None:
            continue
        j = 0
        while True:
            v = i.st(addc(b, 8 * j))
            if v is None or v.kind != 'obj':
                ctx.need(v is None, T, i.R, 'the node of a thread is not a new one', t, t.ev[-1])
                break
            i.room(v, const(ns, 64), 'the block of a node', {'C03'})
            j += 1
        if [e for e in t.find('store') if e.addr is not None and base_off(e.addr)[0] is b and base_off(e.addr)[2]]:
            ctx.inconclusive.append('clhinit: nodes in an order other than upwards')
            continue
        ctx.need(j == 0 or any(t.known(icmp(p, const(j - 1, n.w), n)) is True for p in ('ult', 'slt')) or t.known(icmp('ult', n, const(j, n.w))) is False, T | {'C19'}, i.R,
                 'a node is stored beyond the end of the array', t, t.ev[-1])
        for e in t.find('store'):
            if e.addr is not None and base_off(e.addr)[0] is b and e.val.kind != 'obj':
                ctx.need(False, T, i.R, 'the node of a thread is not a new one', t, e)
        ctx.need(t.known(eq(n, const(0, n.w))) is True or t.known(icmp('ult', const(0, n.w), n)) is False or t.known(icmp('slt', const(0, n.w), n)) is False if j == 0
                 else done(t, j - 1, n), T, i.R, 'a thread gets no node', t, t.ev[-1])


# ---------------------------------------------------------------- Oyama and flat combining
@group('oyinit')
def oyinit(ctx):
    T = C | {'C01', 'C02'}
    S = 'OyamaStruct'
    for t in ctx.paths('OyamaInit', k=2, **OPQ):
        i = I(ctx, t, 'oyinit.struct')
        i.zero(t.fa(t.args[0], S, 'lock'), 'the lock', T)
        i.zero(t.fa(t.args[0], S, 'tail'), 'the list of requests', T)


@group('fcinit')
def fcinit(ctx):
    T = C | {'C01', 'C02'}
    S, N = 'FCStruct', 'FCRequest'
    ns = ctx.sizeof(N)
    o = lambda s, f: ctx.off(s, f, 'fc')
    for t in ctx.paths('FCStructInit', k=2, **OPQ):
        l, n = t.args[:2]
        i = I(ctx, t, 'fcinit.struct', (n,))
        i.zero(addc(l, o(S, 'lock')), 'the lock', T)
        i.zero(addc(l, o(S, 'head')), 'the list of requests', T)
        i.zero(addc(l, o(S, 'count')), 'the number of passes', T)
        i.array(addc(l, o(S, 'nodes')), n, ns, 'the array of requests')
    for t in ctx.paths('FCThreadStateInit', k=2, **OPQ):
        l, st, pid = t.args[:3]
        i = I(ctx, t, 'fcinit.thread')
        v = i.st(addc(st, o('FCThreadState', 'node')))
        if not ctx.need(v is not None and not is_c(v), T, i.R, 'a thread gets no request record', t, t.ev[-1]):
            continue
        b, c, ts = base_off(v)
        if b is not None and b.kind == 'obj':
            i.room(b, addc(sub(v, b), ns), 'the block of a request')
        else:
            ok = b is not None and b.kind == 'ld' and b.a[1] is addc(l, o(S, 'nodes'))
            wc, wt = terms(wide(sub(v, b))) if ok else (0, ())
            ctx.need(ok and len(wt) == 1 and narrow(wt[0][0]) is pid and wt[0][1] == ns and wc == 0, T | {'C19', 'C27'}, i.R,
                     'a thread does not get its own request record', t, t.ev[-1])
        i.zero(addc(v, o(N, 'active')), 'the active flag of a request record', T)
        i.zero(addc(v, o(N, 'age')), 'the age of a request record', T)


# ---------------------------------------------------------------- Osci
@group('osciinit')
def osciinit(ctx):
    T = C | {'C01', 'C02'}
    S, N, F, H = 'OsciStruct', 'OsciNode', 'OsciFiberRec', 'OsciThreadState'
    o = lambda s, f: ctx.off(s, f, 'osci')
    R = 'osciinit.struct'
    door0 = None
    for t in ctx.paths('OsciInit', k=2, **OPQ):
        l, n, fb = t.args[:3]
        i = I(ctx, t, R, (n, fb))
        g = i.st(addc(l, o(S, 'groups_of_fibers')))
        f = i.st(addc(l, o(S, 'fibers_per_thread')))
        if not ctx.need(g is not None and f is not None, T, R, 'the groups of fibers are not set', t, t.ev[-1]):
            continue
        ctx.need(f is fb and t.known(icmp('ult', n, fb)) is not True or is_c(f) and cval(f) == 1 and (t.known(icmp('ult', n, fb)) is True or t.is0(fb) is True), T | {'C19'}, R,
                 'the number of fibers per thread is not the given one', t, t.ev[-1])
        q = VV.divrem('udiv', n, f, 32)
        r = VV.divrem('urem', n, f, 32)
        d = diff_const(g, q)
        full = t.is0(r) is True or is_c(f) and cval(f) == 1
        up = g.kind == 'op' and g.a[0] == 'udiv' and g.a[2] is f and g.a[1] is addc(add(n, f), -1)
        if d is None and not up:
            ctx.inconclusive.append('osciinit: the number of groups')
        else:
            ctx.need(up or d >= 1 or d == 0 and full, T | {'C19'}, R, 'there are fewer groups than the threads need', t, t.ev[-1])
        es = ctx.sizeof_union('ptr_aligned_t') if ctx.sizeof('ptr_aligned_t') is None else ctx.sizeof('ptr_aligned_t')
        b = i.array(addc(l, o(S, 'current_node')), g, es, 'the array of current nodes')
        i.zero(addc(l, o(S, 'Tail')), 'the list of requests', T)
        if b is not None:
            cells_done(i, b, g, es, 0, 'the current node of a group', T)
    R = 'osciinit.thread'
    for t in ctx.paths('OsciThreadStateInit', k=3, seq=True, stable=[(N, 'rec')]):
        st, l, pid = t.args[:3]
        i = I(ctx, t, R)
        v = i.st(addc(st, o(H, 'toggle')))
        ctx.need(v is not None and is_c(v) and cval(v) in (0, 1), T | {'C19'}, R, 'the toggle of a thread does not select one of its nodes', t, t.ev[-1])
        recs = []
        for k in range(2):
            nd = addc(st, o(H, 'next_node') + k * ctx.sizeof(N))
            i.zero(addc(nd, o(N, 'next')), 'the next pointer of a node', T)
            i.zero(addc(nd, o(N, 'toggle')), 'the toggle of a node', T)
            d = i.st(addc(nd, o(N, 'door')))
            ctx.need(d is not None and is_c(d), T, R, 'the door of a node is left undefined', t, t.ev[-1])
            if d is not None and is_c(d):
                door0 = cval(d) if door0 is None else door0
                ctx.need(cval(d) == door0, T, R, 'the doors of the nodes start in different states', t, t.ev[-1])
            rc = i.st(addc(nd, o(N, 'rec')))
            if not ctx.need(rc is not None and rc.kind == 'obj' and rc not in recs, T | {'C19'}, R, 'a node gets no records of its own', t, t.ev[-1]):
                continue
            recs.append(rc)
            fs = [e.res for e in t.find('load', addc(l, o(S, 'fibers_per_thread')))]
            if not ctx.need(bool(fs), T | {'C19'}, R, 'the number of fibers per thread is not used', t, t.ev[-1]):
                continue
            i.room(rc, scale(z64(fs[-1]), ctx.sizeof(F)), 'the array of records of a node')
            for f, want in (('completed', 1), ('locked', 1)):
                cells_done(i, addc(rc, o(F, f)), fs, ctx.sizeof(F), want, 'member %s of a record' % f, T)


def cells_done(i, b, n, es, want, what, T):
    """elements 0..j-1 at b get the value want and no element below n is left"""
    t = i.t
    ns = n if isinstance(n, list) else [n]
    j = 0
    while True:
        v = i.st(addc(b, j * es))
        if v is None or not is_c(v) or (cval(v) & 255) != want:
            if v is not None:
                i.ctx.need(False, T, i.R, '%s does not get its initial value' % what, t, t.ev[-1])
            break
        j += 1
    if [e for e in t.find('store') if e.addr is not None and base_off(e.addr)[0] is base_off(b)[0] and base_off(e.addr)[2] and not base_off(b)[2]]:
        i.ctx.inconclusive.append('%s: %s in an order other than upwards' % (i.R, what))
        return j
    ok = False
    for x in ns:
        w = x.w
        ok = ok or (t.known(eq(x, const(0, w))) is True or t.known(icmp('slt', const(0, w), x)) is False or t.known(icmp('ult', const(0, w), x)) is False
                    if j == 0 else done(t, j - 1, x) or any(t.known(icmp(p, const(j, w), x)) is False for p in ('ult', 'slt')))
    if not ok and is_c(ns[0]):
        ok = j >= cval(ns[0])
    i.ctx.need(ok, T, i.R, '%s is left undefined' % what, t, t.ev[-1])
    return j


# ---------------------------------------------------------------- H-Synch
@group('hinit')
def hinit(ctx):
    T = C | {'C01', 'C02'}
    S, N, H = 'HSynchStruct', 'HSynchNode', 'HSynchThreadState'
    o = lambda s, f: ctx.off(s, f, 'hsynch')
    ns = ctx.sizeof(N)
    ts = ctx.sizeof_union('HSynchNodePtr')
    R = 'hinit.struct'
    for t in ctx.paths('HSynchStructInit', k=2, pure=OPQ['pure'] + ('numa_num_task_nodes',), opaque=OPQ['opaque'], seq=True):
        l, n, nr = t.args[:3]
        i = I(ctx, t, R, (n, nr))
        nn, sz = i.st(addc(l, o(S, 'numa_nodes'))), i.st(addc(l, o(S, 'numa_node_size')))
        if not ctx.need(nn is not None and sz is not None and i.st(addc(l, o(S, 'numa_policy'))) is not None, T | {'C19'}, R, 'the topology is not set', t, t.ev[-1]):
            continue
        ctx.need(i.st(addc(l, o(S, 'nthreads'))) is n, T, R, 'the number of threads is not kept', t, t.ev[-1])
        for e in t.find('div'):
            v = e.val
            ok = t.known(eq(v, const(0, v.w))) is False or v.kind == 'call' and v.a[1] == 'numa_num_task_nodes' or is_c(v) and cval(v) or \
                v is n or v is nr
            ctx.need(ok, T | {'C19'}, R, 'a division by zero is possible', t, e)
        pos = t.known(eq(nn, const(0, nn.w))) is False or t.p.eng.rangeof(t.p.st, nn, False)[0] > 0 or is_c(nn) and cval(nn) > 0 or \
            nn.kind == 'call' and nn.a[1] == 'numa_num_task_nodes' or nn is n
        ctx.need(pos, T | {'C19'}, R, 'there may be no node at all', t, t.ev[-1])
        ps = (n, nr, nn)
        for f, es in (('nodes', 8), ('Tail', ts), ('node_indexes', 4)):
            i.pos = ps
            b = i.array(addc(l, o(S, f)), nn, es, 'the array %s' % f)
            if b is not None:
                cells_done(i, b, nn, es, 0, 'an element of %s' % f, T)
        lk = i.st(addc(l, o(S, 'central_lock')))
        ok = lk is not None and lk.kind == 'call' and lk.a[1] == 'CLHLockInit'
        cs = t.calls('CLHLockInit')
        ctx.need(ok and bool(cs) and cs[-1].x['args'][0] is n, T | {'C03', 'C19'}, R, 'the central lock is not made for all threads', t, t.ev[-1])
    R = 'hinit.thread'
    for t in ctx.paths('HSynchThreadStateInit', k=1, max_paths=4000, opaque=('synchFreeMemory',), stable=[(S, f) for f in ('numa_node_size', 'numa_nodes', 'nodes', 'Tail', 'node_indexes')]):
        l, st, pid = t.args[:3]
        i = I(ctx, t, R)
        nn = [e.res for e in t.find('load', addc(l, o(S, 'numa_nodes')))]
        sz = [e.res for e in t.find('load', addc(l, o(S, 'numa_node_size')))]
        nd = i.st(addc(st, o(H, 'node_of_thread')))
        ok = nd is not None and any(nd.kind == 'op' and nd.a[0] == 'urem' and nd.a[2] is x or t.known(icmp('ult', nd, x)) is True for x in nn) or \
            nd is not None and is_c(nd) and cval(nd) == 0
        if not ctx.need(ok, T | {'C19'}, R, 'the node of a thread may not exist', t, t.ev[-1]):
            continue
        ld = lambda f: [e.res for e in t.find('load', addc(l, o(S, f)))]

        def slot(a, f, es):
            """a is the element of the node of this thread"""
            for b in ld(f):
                c, tt = terms(wide(sub(a, b)))
                if c == 0 and len(tt) == 1 and tt[0][1] == es and narrow(tt[0][0]) is nd or is_c(nd) and c == es * cval(nd) and not tt:
                    return True
            return False
        for e in t.find(('store', 'cas', 'rmw')):
            b = base_off(e.addr)[0]
            if b is not None and b.kind == 'ld' and base_off(b.a[1])[0] is l:
                ctx.need(slot(e.addr, 'nodes', 8) or slot(e.addr, 'Tail', ts) or slot(e.addr, 'node_indexes', 4), T | {'C19', 'C27'}, R,
                         'a thread changes the data of another node', t, e)
        own = [e.res for e in t.find('load') if slot(e.addr, 'nodes', 8)]
        # the block of a node is complete before it is published, and published once
        for e in t.find('cas'):
            if not slot(e.addr, 'nodes', 8):
                continue
            v = e.x['new'][0]
            ctx.need(const_is(e.x['exp'][0], True), T, R, 'the nodes of a group can be replaced', t, e)
            if not ctx.need(v.kind == 'obj', T, R, 'something else than a new block of nodes is published', t, e):
                continue
            i.room(v, addc(scale(z64(sz[-1]), ns), ns), 'the block of nodes')
            lastn = {x.addr for x in t.find('store', None, 0, e.idx) if base_off(x.addr)[0] is v}
            t.blk = v
            if not e.x['ok']:
                fr = [c for c in t.calls('synchFreeMemory') if c.x['args'][0] is v]
                ctx.need(len(fr) <= 1, T | {'C18'}, R, 'a block is released twice', t, e)
                for c in fr:
                    ctx.need(fits(c.x['args'][1], i.size(v)) is True and fits(i.size(v), c.x['args'][1]) is True, {'C18'}, R, 'a block is released with another size', t, c)
            else:
                ctx.need(not [c for c in t.calls('synchFreeMemory') if c.x['args'][0] is v], T | {'C18'}, R, 'a published block is released', t, e)
        for e in t.find('store'):
            if slot(e.addr, 'nodes', 8) or slot(e.addr, 'Tail', ts) or slot(e.addr, 'node_indexes', 4):
                ctx.need(False, T, R, 'data that other threads set up at the same time is changed without an atomic operation', t, e)
        # the last node of the block starts the list of the node
        tc = [e for e in t.find('cas') if slot(e.addr, 'Tail', ts)]
        ctx.need(len(tc) >= 1 and all(const_is(e.x['exp'][0], True) for e in tc), T, R, 'the list of a node does not start once, with the first thread', t,
                 (tc or [t.ev[-1]])[0])
        base = own + [getattr(t, 'blk')] if hasattr(t, 'blk') else own
        lastoff = None
        for e in tc:
            v = e.x['new'][0]
            for b in base:
                c, tt = terms(wide(sub(v, b)))
                if len(tt) == 1 and narrow(tt[0][0]) in sz and tt[0][1] == ns:
                    lastoff = c
            if not ctx.need(lastoff is not None, T, R, 'the list of a node does not start with the last node of its block', t, e):
                continue
            if hasattr(t, 'blk'):
                bk = t.blk
                ln = addc(add(bk, scale(z64(sz[-1]), ns)), lastoff)
                i.room(bk, addc(sub(ln, bk), ns), 'the block of nodes')
                cs = [x for x in t.find('cas') if x.x['new'][0] is bk]
                for f in ('next', 'locked', 'completed'):
                    s = [x for x in t.find('store') if base_off(x.addr)[0] is bk and wide(sub(x.addr, bk)) is wide(sub(addc(ln, o(N, f)), bk))]
                    ctx.need(bool(s) and const_is(s[-1].val, True) and (not cs or s[-1].idx < cs[0].idx), T, R,
                             'member %s of the first node of the list is not cleared before it is published' % f, t, e)
        # every thread gets a node of its own
        v = i.st(addc(st, o(H, 'next_node')))
        if not ctx.need(v is not None and not is_c(v), T, R, 'a thread gets no node', t, t.ev[-1]):
            continue
        if v.kind == 'obj':
            i.room(v, const(ns, 64), 'the node of a thread')
            continue
        tk = [e for e in t.find('rmw') if slot(e.addr, 'node_indexes', 4)]
        if not ctx.need(len(tk) == 1 and tk[0].x['op'] == 'add', T, R, 'a thread does not take the next free node with one atomic addition', t, (tk or [t.ev[-1]])[0]):
            continue
        r = tk[0].res
        good = False
        for b in base:
            c, tt = terms(wide(sub(v, b)))
            if c == 0 and len(tt) == 1 and narrow(tt[0][0]) is r and tt[0][1] == ns:
                good = True
        ctx.need(good, T | {'C27'}, R, 'a thread does not take the node with the index it got', t, t.ev[-1])
        lim = False
        for x in sz:
            for k in range(0, 4):
                if lastoff is not None and k * ns <= lastoff and \
                        (t.known(icmp('ult', addc(x, k - 1), r)) is False or t.known(icmp('ult', r, addc(x, k))) is True):
                    lim = True
        ctx.need(lim, T | {'C19', 'C27'}, R, 'a thread may take the first node of the list, or one outside of the block', t, t.ev[-1])


# ---------------------------------------------------------------- the Sim objects
class Mem:
    """the memory an initialisation leaves behind, analysed for a given number of threads"""

    def __init__(self, ctx, t, R):
        self.ctx, self.t, self.R = ctx, t, R
        self.c = {}
        for e in t.ev:
            if e.kind == 'store':
                b, c, o = base_off(e.addr)
                if b is None or o:
                    raise AnalysisError('%s: address of a store' % R)
                for k in range(e.size):
                    self.c[(b, c + k)] = (e, k)
            elif e.kind in ('memset', 'memcpy'):
                b, c, o = base_off(e.addr)
                n = cval(e.x) if isinstance(e.x, V) else None
                if b is None or o or n is None:
                    raise AnalysisError('%s: address of a block store' % R)
                for k in range(n):
                    self.c[(b, c + k)] = (e, k)

    def at(self, addr, size=8):
        b, c, o = base_off(addr)
        r = self.c.get((b, c))
        if r is None or o:
            return None
        e, k = r
        if any(self.c.get((b, c + i), (None, 0)) != (e, k + i) for i in range(size)):
            vs = [self.c.get((b, c + i)) for i in range(size)]      # assembled from several zero stores
            if all(x is not None and self.byte0(x) for x in vs):
                return const(0, 8 * size)
            return None
        if e.kind == 'memset':
            return const(0, 8 * size) if const_is(e.val, True) else None
        if e.kind == 'memcpy':
            return None
        if k == 0 and e.size == size:
            return e.val
        return VV.slice_(e.val, 8 * k, 8 * size)

    def byte0(self, x):
        e, k = x
        if e.kind == 'memset':
            return const_is(e.val, True)
        return e.kind == 'store' and is_c(VV.slice_(e.val, 8 * k, 8)) and cval(VV.slice_(e.val, 8 * k, 8)) == 0

    def need(self, ok, tags, msg):
        return self.ctx.need(ok, tags, self.R, msg, self.t, self.t.ev[-1])

    def block(self, v, need, what, tags):
        """v points into an own block with need bytes left"""
        b, c, o = base_off(v) if v is not None else (None, 0, ())
        ok = b is not None and b.kind == 'obj' and not o and c >= 0
        if not self.need(ok, tags | {'C26'}, '%s has no block of its own' % what):
            return None
        s = self.t.ev[b.a[0]].x['args'][-1]
        if not is_c(s):
            raise AnalysisError('%s: size of %s' % (self.R, what))
        return (b, c) if self.ctx.need(c + need <= cval(s), tags | {'C19'}, self.R, 'the block of %s is too small' % what, self.t, self.t.ev[b.a[0]]) else None

    def vec(self, a, n, what, tags, mod, zero=False):
        """a toggle vector for n threads at a: the address of its words"""
        o = lambda f: self.ctx.off('ToggleVector', f, mod)
        nt, cells, cell = self.at(addc(a, o('nthreads')), 4), self.at(addc(a, o('tvec_cells')), 4), self.at(addc(a, o('cell')))
        ok = nt is not None and is_c(nt) and cval(nt) == n and cells is not None and is_c(cells) and cell is not None
        if not self.need(ok, tags | {'C20', 'C26'}, 'toggle vector %s is not set up for the number of threads' % what):
            return None
        m = cval(cells)
        self.need(64 * m >= n, tags | {'C19', 'C20'}, 'toggle vector %s has too few words' % what)
        self.m = getattr(self, 'm', m)
        self.need(m == self.m, tags | {'C19', 'C20'}, 'the toggle vectors differ in length')
        r = self.block(cell, 8 * max(m, tvec_words(self.ctx, n)), 'toggle vector %s' % what, tags | {'C20'})
        if r is not None and zero:
            for i in range(m):
                v = self.at(addc(cell, 8 * i))
                self.need(v is not None and const_is(v, True), tags | {'C20', 'C26'}, 'toggle vector %s is not cleared' % what)
        return cell if r is not None else None


SIMN = (1, 64)
SIMDEEP = (1, 2, 63, 64, 65)


def cargs(f, **kw):
    r = []
    for i, (t, nm) in enumerate(f.params):
        r.append(kw.get(nm, kw.get(i, sym('param', (i, nm), t.w if t.kind == 'int' else 64))))
    return r


def siminit(ctx, R, fn, tfn, S, H, sps, vectors, own, init, tpool, T):
    f, tf = ctx.prog.find(fn), ctx.prog.find(tfn)
    if f is None or tf is None:
        raise Missing('function ' + (fn if f is None else tfn))
    mod = f.mod.short
    o = lambda s, x: ctx.off(s, x, mod)
    TG = set(T)
    for n in SIMDEEP if ctx.deep else SIMN:
        rr = '%s.struct' % R
        ts = ctx.paths(f, None, k=8 * n + 16, args=cargs(f, **{f.params[1][1]: const(n, 32)}), seq=True, tvec_opaque=False, max_const_iters=12 * n + 40, max_events=40000)
        for t in ts:
            A = t.args[0]
            M = Mem(ctx, t, rr)
            v = M.at(addc(A, o(S, 'nthreads')), 4)
            M.need(v is not None and is_c(v) and cval(v) == n, TG | {'C26'}, 'the number of threads is not kept')
            M.need(M.at(addc(A, o(S, 'MAX_BACK')), 4) is not None, {'C26', 'C23'}, 'the limit of the back-off is not set')
            M.block(M.at(addc(A, o(S, 'announce'))), 8 * n, 'the announcements', TG)
            seen = {}
            for x in vectors:
                c = M.vec(addc(A, o(S, x)), n, x, TG, mod, True)
                if c is not None:
                    M.need(c not in seen, TG | {'C27'}, 'two toggle vectors share their words')
                    seen[c] = x
            heads = {}
            for sp, (pool, rn) in sps.items():
                v = M.at(addc(A, o(S, sp)))
                if not M.need(v is not None and is_c(v), TG | {'C26'}, 'the current record is not set'):
                    continue
                idx = cval(v) >> 40
                P = getattr(ctx, 'simP', {}).get(S, {}).get(pool, 4)
                pb = M.block(M.at(addc(A, o(S, pool))), 8 * (idx + 1), 'the pool of records', TG)
                if pb is None:
                    continue
                pa = addc(pb[0], pb[1])
                k = 0
                while M.at(addc(pa, 8 * k)) is not None:
                    k += 1
                # every thread has its part of P records, and the current one belongs to nobody
                M.need(k >= idx + 1 and idx >= P * n, TG | {'C19', 'C26'}, 'the pool has too few records, or the first one belongs to a thread')
                fl = ctx.prog.fields(rn, mod)
                flex = o(rn, '__flex')
                hasret = 'ret' in fl
                size = ctx.sizeof(rn) + 8 * tvec_words(ctx, n) + (8 * n if hasret else 0)
                blocks = set()
                for i in range(k):
                    r = M.block(M.at(addc(pa, 8 * i)), size, 'a record', TG)
                    if r is None:
                        break
                    if not M.need(r not in blocks, TG | {'C11', 'C19'}, 'two records share their block'):
                        break
                    blocks.add(r)
                    ra = addc(*r)
                    c = M.vec(addc(ra, o(rn, 'applied')), n, 'applied', TG, mod, i == idx)
                    if c is None:
                        break
                    # the records are copied as a whole, from behind this vector on: the words lie at the same place in all of them
                    if not M.need(c is addc(ra, flex), TG | {'C11', 'C19'}, 'the words of a record do not follow it'):
                        break
                    if hasret:
                        q = M.at(addc(ra, o(rn, 'ret')))
                        d = diff_const(q, ra) if q is not None else None
                        if not M.need(d is not None and d >= flex + 8 * M.m and d % 8 == 0, TG | {'C19', 'C26'}, 'the results of a record overlap its words, or are missing'):
                            break
                        if M.block(q, 8 * n, 'the results of a record', TG) is None:
                            break
                    if i == idx:
                        for x in init.get(rn, ()) + tuple(y for y in fl if y in ('counter', 'rounds')):
                            v = M.at(addc(ra, o(rn, x)), fl[x][1] // 8 if x in ('counter', 'rounds') else 8)
                            M.need(v is not None and const_is(v, True), TG | {'C26'}, 'member %s of the first record is not cleared' % x)
                        for x in ('head', 'tail'):
                            if x in fl and x not in init.get(rn, ()):
                                heads[x] = M.at(addc(ra, o(rn, x)))
            if 'tail' in [x for sp in sps.values() for x in ctx.prog.fields(sp[1], mod)]:
                h, q = heads.get('head'), heads.get('tail')
                if M.need(h is not None and h is q and not is_c(h), TG | {'C04', 'C26'}, 'the queue does not start with one guard node at both ends'):
                    b, c, _ = base_off(h)
                    if b is not A:
                        M.block(h, ctx.sizeof('Node'), 'the guard', TG)
                    v = M.at(addc(h, o('Node', 'next')))
                    M.need(v is not None and const_is(v, True), TG | {'C04', 'C26'}, 'the guard of the queue is not the last node')
        rr = '%s.thread' % R
        for bank in range(0, (n - 1) // 64 + 1):
            pid = VV.mk_bits(((sym('pid', 'p', 6), 0, 6), (bank, None, 26)), 32)
            bit = VV.shl(const(1, 64), VV.mk_bits(((sym('pid', 'p', 6), 0, 6), (0, None, 58)), 64), 64)
            args = cargs(tf)
            args[-1] = pid
            if tf.params[1][0].kind == 'int':
                args[1] = const(n, 32)
            fx = {}
            for (ty, nm), a in zip(tf.params, args):
                if a is args[0] and tf.params[1][0].kind == 'ptr':
                    fx[addc(a, o(S, 'nthreads'))] = const(n, 32)
            Th = args[1] if fx else args[0]
            ts = ctx.paths(tf, None, k=n // 64 + 2, args=args, seq=True, tvec_opaque=False, max_const_iters=n // 64 + 40, max_events=4000,
                           fix=lambda eng, st, addr, size: fx.get(addr), opaque=('synchInitPool',), pure=('synchInitPool',))
            for t in ts:
                M = Mem(ctx, t, rr)
                fl = ctx.prog.fields(H, mod)
                seen = {}
                vecs = [x for x in fl if x + '.cell' in fl and x != 'mask']
                for x in vecs:
                    c = M.vec(addc(Th, o(H, x)), n, x, TG, mod)
                    if c is None:
                        continue
                    M.need(c not in seen, TG | {'C20'}, 'two toggle vectors of a thread share their words')
                    seen[c] = x
                    w = M.at(addc(c, 8 * bank))
                    for toggle, my, li in own:
                        if x == my:
                            M.need(w is bit, TG | {'C10', 'C20', 'C26'}, 'the own bit of a thread is not set at first')
                        elif x == toggle:
                            M.need(w is not None and w is VV.sub(const(0, 64), bit), TG | {'C10', 'C20', 'C26'}, 'the toggle of a thread is not the negative of its bit at first')
                for toggle, my, li in own:
                    v = M.at(addc(Th, o(H, li)), 4)
                    M.need(v is not None and is_c(v) and cval(v) < (min(getattr(ctx, 'simP', {}).get(S, {4: 4}).values() or [4])), TG | {'C11', 'C19', 'C26'}, 'the first record of a thread is not one of its part of the pool')
                M.need(M.at(addc(Th, o(H, 'max_backoff' if 'max_backoff' in fl else 'backoff')), 4) is not None, {'C23', 'C26'}, 'the back-off of a thread is not set')
                if tpool:
                    ps = [e for e in t.calls('synchInitPool') if e.x['args'][0] is addc(Th, o(H, tpool))]
                    ok = len(ps) == 1 and is_c(ps[0].x['args'][1]) and cval(ps[0].x['args'][1]) >= ctx.sizeof('Node')
                    M.need(ok, TG | {'C08', 'C19', 'C26'}, 'the pool of a thread is not set up for nodes')


@group('siminit')
def siminit_(ctx):
    T = {'C10', 'C11'}
    siminit(ctx, 'siminit.sim', 'synchSimStructInit', 'SimThreadStateInit', 'SimStruct', 'SimThreadState', {'sp': ('pool', 'SimObjectState')}, ['a_toggles'],
            [('toggle', 'my_bit', 'local_index')], {'SimObjectState': ('state',)}, None, T)
    siminit(ctx, 'siminit.stack', 'SimStackStructInit', 'SimStackThreadStateInit', 'SimStackStruct', 'SimStackThreadState', {'sp': ('pool', 'SimStackState')}, ['a_toggles'],
            [('toggle', 'my_bit', 'local_index')], {'SimStackState': ('head',)}, 'pool', T)
    siminit(ctx, 'siminit.queue', 'SimQueueStructInit', 'SimQueueThreadStateInit', 'SimQueueStruct', 'SimQueueThreadState',
            {'enq_sp': ('enq_pool', 'EnqState'), 'deq_sp': ('deq_pool', 'DeqState')}, ['enqueuers', 'dequeuers'],
            [('enq_toggle', 'my_enq_bit', 'enq_local_index'), ('deq_toggle', 'my_deq_bit', 'deq_local_index')],
            {'EnqState': ('first', 'last')}, 'pool_node', T)
