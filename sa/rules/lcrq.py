"""LCRQ: steps of enqueue and dequeue on a ring, linking and leaving of rings."""
from .base import *
from .combining import const_is
from .serial import EMPTY, GUARD
from .lockfree import is_empty

K = {'C13'}
TOP = 1 << 63
M63 = TOP - 1


def c64(x):
    return const(VV.wrap(x, 64), 64)


def idx63(v):
    return VV.band(v, c64(M63), 64)


def closed(v):
    return VV.band(v, c64(TOP), 64)


def is_guard(v):
    return is_c(v) and cval(v) & (1 << 64) - 1 == GUARD & (1 << 64) - 1


class Ring:
    def __init__(self, ctx):
        m = 'lcrq'
        self.ctx = ctx
        self.head, self.tail, self.next = (ctx.off('RingQueue', f, m) for f in ('head', 'tail', 'next'))
        o, n = ctx.bits('RingQueue', 'array', m)
        self.arr = o // 8
        self.cs = ctx.sizeof('RingNode')
        self.n = n // 8 // self.cs
        self.val, self.idx = ctx.off('RingNode', 'val', m), ctx.off('RingNode', 'idx', m)
        self.base = min(self.val, self.idx)
        self.lo_val = self.val < self.idx

    def cell(self, rq, ticket):
        """addresses of the cell of a ticket"""
        return addc(add(rq, VV.scale(VV.band(ticket, c64(self.n - 1), 64), self.cs)), self.arr + self.base)

    def pair(self, p):
        return (p[0], p[1]) if self.lo_val else (p[1], p[0])


def nounsigned(t, a, b):
    """known not a > b"""
    return t.known(icmp('ugt', a, b)) is False or t.known(icmp('ule', a, b)) is True


def sgt(t, a, b):
    return t.known(icmp('ugt', a, b)) is True


def bit0(t, v):
    return t.known(eq(closed(v), c64(0))) is True or t.known(icmp('slt', v, c64(0))) is False


def bit1(t, v):
    return t.known(eq(closed(v), c64(0))) is False or t.known(icmp('slt', v, c64(0))) is True


def allowed_writes(ctx, t, R, G, q, th, rqs, fresh, S):
    """every write of the path is one of the steps of the algorithm"""
    pub = None
    for e in t.ev:
        if e.kind not in ('store', 'cas', 'rmw', 'memcpy', 'memset'):
            continue
        b, c, o = base_off(e.addr)
        if b is th or b is not None and b.kind == 'alloca':
            continue
        if e.kind == 'cas' and e.x['ok'] and len(e.x['new']) == 1 and e.x['new'][0] in fresh and c == G.next and b in rqs:
            pub = e
        if b in fresh:
            ctx.need(e.kind in ('store', 'memset') and pub is None, K, R, 'a ring is written after it was linked', t, e)
            continue
        if e.kind == 'cas' or e.kind == 'rmw':
            if b is q:
                ctx.need(e.kind == 'cas' and e.size == 8 and not o and c in (t.off(S, 'head'), t.off(S, 'tail')), K, R,
                         'the queue is changed by another step than the switch to the next ring', t, e)
                continue
            ctx.need(b in rqs, K, R, 'something else than the ring that was read from the queue is changed', t, e)
            continue
        ctx.need(False, K | {'C12'}, R, 'shared memory is written without an atomic primitive', t, e)


def close_ok(ctx, t, R, e):
    x, n = e.x['exp'][0], e.x['new'][0]
    return n is VV.bor(x, c64(TOP), 64)


def tail_events(ctx, t, R, G, rq, tick, e):
    """one access that changes the tail of a ring"""
    if e.kind == 'rmw':
        if e.x['op'] == 'add':
            if is_c(e.val) and cval(e.val) == 0:
                return
            ctx.need(tick is not None and e is tick, K, R, 'the tail of a ring moves without a ticket being used', t, e)
        else:
            ctx.need(e.x['op'] == 'or' and is_c(e.val) and cval(e.val) & (1 << 64) - 1 == TOP, K, R,
                     'the tail of a ring is changed by something else than closing it', t, e)
        return
    x, n = e.x['exp'][0], e.x['new'][0]
    if close_ok(ctx, t, R, e):
        ctx.count('ring is closed without moving the tail')
        return
    # repair: the tail catches up with the head
    rd = lambda v, o: v.kind == 'ld' and v.a[1] is addc(rq, o) or \
        v.kind == 'rmw' and t.ev[v.a].addr is addc(rq, o) and t.ev[v.a].x['op'] == 'add'
    ctx.need(rd(x, G.tail) and rd(n, G.head) and nounsigned(t, x, n), K, R,
             'the tail of a ring is set to something else than the head that was seen beyond it, or may be opened again', t, e)


@group('lcrq')
def lcrq(ctx):
    G = Ring(ctx)
    S, T = 'LCRQStruct', 'LCRQThreadState'
    ctx.need(G.n & (G.n - 1) == 0 and G.n > 1, K | {'C19'}, 'lcrq.ring', 'the size of a ring is not a power of two', where='lcrq.h')
    ctx.need(G.base % 16 == 0 and abs(G.val - G.idx) == 8 and G.cs % 16 == 0 and G.arr % 16 == 0, K, 'lcrq.ring',
             'the index and the value of a cell are not one aligned double word', where='lcrq.h')
    for hv in (None, lambda f, h: f.name != 'init_ring'):
        enqueue(ctx, G, S, T, hv)
        dequeue(ctx, G, S, T, hv)
    init(ctx, G, S, T)


def ringinit(t, r, G, ctx, R, lo=0, hi=None):
    i = len(t.ev) if hi is None else hi
    z = lambda f: const_is(t.stored(addc(r, f), i), True)
    ctx.need(z(G.head) and z(G.next), K | {'C26'}, R, 'the head or the next pointer of a new ring is not cleared', t, t.ev[i - 1])
    for k in range(min(8, G.n)):
        a = addc(r, G.arr + k * G.cs)
        first = lambda ad: next((e for e in t.ev[lo:i] if e.kind == 'store' and e.addr is ad), None)
        v, x = first(addc(a, G.val)), first(addc(a, G.idx))
        ctx.need(v is not None and is_guard(v.val), K | {'C26'}, R, 'a cell of a new ring does not start empty', t, v or t.ev[i - 1])
        ctx.need(x is not None and is_c(x.val) and cval(x.val) == k, K | {'C26'}, R, 'the index of a cell of a new ring does not start with '
                 'its place', t, x or t.ev[i - 1])


def fullloop(ctx, G, R, S):
    """every cell of a new ring is empty and carries its own index"""
    for t in ctx.paths('LCRQInit', k=2, max_const_iters=8 * G.n + 100, max_events=64 * G.n + 1000, max_steps=200 * G.n + 100000):
        h = t.stored(t.fa(t.args[0], S, 'head'), len(t.ev))
        if h is None or h.kind != 'obj':
            continue
        got, last = {}, t.ev[-1]
        for e in t.find('store'):
            b, c, ts = base_off(e.addr)
            if b is h and not ts:
                got[c] = e.val
                last = e
        for f in ('val', 'idx'):
            o = G.arr + getattr(G, f)
            bad = [i for i in range(G.n) if o + i * G.cs not in got]
            ctx.need(not bad, K | {'C26', 'C19'}, R, 'some cells of a new ring are not initialised', t, last)
            if bad:
                return
        ctx.need(all(is_c(got[G.arr + G.idx + i * G.cs]) and cval(got[G.arr + G.idx + i * G.cs]) == i for i in range(G.n)), K | {'C26'}, R,
                 'a cell of a new ring does not carry its own index', t, last)
        ctx.need(len({got[G.arr + G.val + i * G.cs] for i in range(G.n)}) == 1, K | {'C26'}, R, 'a cell of a new ring is not empty', t, last)
        out = [c for c in got if not 0 <= c < ctx.sizeof('RingQueue')]
        ctx.need(not out, K | {'C26', 'C19'}, R, 'the initialisation of a ring writes beyond its cells', t, last)


def enqueue(ctx, G, S, T, hv):
    R = 'lcrq.enqueue'
    helps = False
    for t in ctx.paths('LCRQEnqueue', k=0, private=(1,), ends=('ret', 'cut'), delay=False, havoc=hv):
        q, th, arg = t.args[:3]
        qt = t.fa(q, S, 'tail')
        nrq = t.fa(th, T, 'nrq')
        rds = t.find('load', qt)
        if not rds:
            if t.end == 'ret':
                ctx.need(False, K, R, 'an element is added without reading the current ring', t, t.ev[-1])
            continue
        rqs = {e.res for e in rds}
        fresh = {e.res for e in t.calls() if e.res is not None and e.res.kind == 'obj'}
        own = [e for e in t.find('load', nrq) if t.nz(e.res)]
        fresh |= {e.res for e in own}
        allowed_writes(ctx, t, R, G, q, th, rqs, fresh, S)
        tick = None
        for e in t.find('rmw'):
            if e.addr in [addc(r, G.tail) for r in rqs] and e.x['op'] == 'add' and is_c(e.val) and cval(e.val) != 0:
                ctx.need(tick is None and cval(e.val) == 1 and e.size == 8, K, R, 'an attempt does not take exactly one ticket', t, e)
                tick = tick or e
        for e in t.ev:
            if e.kind in ('cas', 'rmw') and (e.kind == 'rmw' or e.x['ok']):
                for r in rqs:
                    if e.addr is addc(r, G.tail):
                        tail_events(ctx, t, R, G, r, tick, e)
                    elif e.addr is addc(r, G.head):
                        ctx.need(e.kind == 'rmw' and e.x['op'] == 'add' and const_is(e.val, True), K, R, 'an enqueue moves the head of a ring', t, e)
        took, links = [], []
        for e in t.find('cas'):
            b, c, o = base_off(e.addr)
            if e.size == 16:
                if not ctx.need(tick is not None and tick.idx < e.idx, K, R, 'a cell is changed without a ticket', t, e):
                    continue
                rq = addc(tick.addr, -G.tail)
                tk = tick.res
                ctx.need(e.addr is G.cell(rq, tk), K, R, 'the cell that is changed is not the one of the ticket', t, e)
                xv, xi = G.pair(e.x['exp'])
                nv, ni = G.pair(e.x['new'])
                ctx.need(bit0(t, tk), K, R, 'an element is stored although the ring was seen closed', t, e)
                ctx.need(is_guard(xv) or t.known(eq(xv, const(GUARD, 64))) is True, K, R, 'an element replaces another one', t, e)
                ctx.need(nv is arg, K | {'C06'}, R, 'another value than the argument is stored', t, e)
                ctx.need(ni is tk, K, R, 'the element does not carry its ticket', t, e)
                if ctx.need(xi.kind == 'ld' and xi.a[1] is addc(e.addr, G.idx - G.base) and xi.a[0] > tick.idx, K, R,
                            'the index that is expected was not read from the cell after the ticket was taken', t, e):
                    ctx.need(nounsigned(t, idx63(xi), tk), K, R, 'an element is stored in a cell whose index is already beyond its ticket', t, e)
                    hs = [h for h in t.find('load', addc(rq, G.head), tick.idx, e.idx) if t.known(icmp('ult', h.res, tk)) is True
                          or t.known(icmp('ule', h.res, tk)) is True]
                    ctx.need(bit0(t, xi) or bool(hs), K, R, 'an element is stored in an unsafe cell without having seen that its dequeuer '
                             'has not passed', t, e)
                if e.x['ok']:
                    took.append(e)
            elif b in rqs and c == G.next and not o:
                links.append(e)
        done = [e for e in links if e.x['ok']]
        for e in links:
            rq = base_off(e.addr)[0]
            n = e.x['new'][0]
            ctx.need(const_is(e.x['exp'][0], True), K, R, 'a linked ring is replaced', t, e)
            if not ctx.need(n in fresh, K, R, 'something else than a new ring is linked', t, e):
                continue
            shut = tick is not None and addc(rq, G.tail) is tick.addr and bit1(t, tick.res) or \
                [x for x in t.find(('cas', 'rmw'), addc(rq, G.tail), 0, e.idx)
                 if x.kind == 'rmw' and x.x['op'] == 'or' or x.kind == 'cas' and x.x['ok'] and close_ok(ctx, t, R, x)]
            ctx.need(bool(shut), K, R, 'a ring is linked behind a ring that was not seen closed', t, e)
            st = lambda a: t.stored(a, e.idx)
            tl = st(addc(n, G.tail))
            ctx.need(tl is not None and is_c(tl) and cval(tl) == 1, K, R, 'the tail of the new ring does not count its first element', t, e)
            c0 = addc(n, G.arr)
            v0, i0 = st(addc(c0, G.val)), st(addc(c0, G.idx))
            ctx.need(v0 is arg, K | {'C06'}, R, 'the new ring does not hold the argument in its first cell', t, e)
            ctx.need(i0 is not None and const_is(i0, True) or i0 is None and n.kind != 'obj', K, R, 'the first cell of the new ring does not carry '
                     'ticket 0', t, e)
            if n.kind == 'obj' and not hv:
                ringinit(t, n, G, ctx, R, n.a[0], e.idx)
                a = t.ev[n.a[0]].x['args']
                ctx.need(is_c(a[-1]) and cval(a[-1]) >= ctx.sizeof('RingQueue'), K | {'C18', 'C26'}, R, 'a new ring is too small', t, t.ev[n.a[0]])
        for e in t.find('cas', qt):
            x, n = e.x['exp'][0], e.x['new'][0]
            ok = x in rqs and (n.kind == 'ld' and n.a[1] is addc(x, G.next) and t.nz(n) or
                               any(d.idx < e.idx and d.addr is addc(x, G.next) and d.x['new'][0] is n for d in done))
            helps = helps or ok and n.kind == 'ld' and n.a[1] is addc(x, G.next)
            ctx.need(ok, K, R, 'the queue moves its tail to something else than the ring linked behind it', t, e)
        for e in t.find('store', nrq):
            ctx.need(const_is(e.val, True) or e.val in fresh and not [d for d in done if d.idx < e.idx], K, R,
                     'the spare ring of the thread is not a new ring', t, e)
        if done:
            ctx.need(const_is(t.stored(nrq, len(t.ev)), True), K, R, 'a linked ring stays the spare ring of the thread', t, t.ev[-1])
        if t.end == 'ret':
            ctx.need(len(took) + len(done) == 1, K, R, 'an enqueue ends without having stored its element exactly once', t, t.ev[-1])
        else:
            ctx.need(not took and not done, K, R, 'an enqueue goes on after its element was stored', t, (took + done + [t.ev[-1]])[0])
            nx = [e for r in rqs for e in t.find('load', addc(r, G.next)) if t.tested(e.res, False)]
            for e in nx:
                ctx.need(bool(t.find('cas', qt, e.idx)) or bool([y for y in rds if y.idx > e.idx]), K | {'C12'}, R,
                         'an enqueue that finds a linked ring does not help to move the tail', t, e)
    ctx.need(helps, K | {'C12'}, R, 'no enqueue helps to move the tail to a ring that another thread linked',
             where='%s.c (%s)' % ('libconcurrent/concurrent/lcrq', 'LCRQEnqueue'))


def dequeue(ctx, G, S, T, hv):
    R = 'lcrq.dequeue'
    for t in ctx.paths('LCRQDequeue', k=0, private=(1,), ends=('ret', 'cut'), delay=False, havoc=hv):
        q, th = t.args[:2]
        qh = t.fa(q, S, 'head')
        rds = t.find('load', qh)
        ticks = [e for e in t.find('rmw') if e.x['op'] == 'add' and e.addr in [addc(r.res, G.head) for r in rds] and not const_is(e.val, True)]
        rqs = {e.res for e in rds}
        allowed_writes(ctx, t, R, G, q, th, rqs, set(), S)
        if not ticks:
            ctx.need(t.end != 'ret' or not is_empty(t.ret), K, R, 'an empty queue is reported without having taken a ticket', t, t.ev[-1])
            ctx.need(t.end != 'ret', K, R, 'a dequeue ends without having taken a ticket', t, t.ev[-1])
            continue
        ctx.need(len(ticks) == 1 and cval(ticks[0].val) == 1 if is_c(ticks[0].val) else False, K, R, 'an attempt does not take exactly one ticket',
                 t, ticks[-1])
        tick = ticks[0]
        rq, h = addc(tick.addr, -G.head), tick.res
        for e in t.ev:
            if e.kind in ('cas', 'rmw') and (e.kind == 'rmw' or e.x['ok']):
                if e.addr is addc(rq, G.tail):
                    tail_events(ctx, t, R, G, rq, None, e)
                elif e.addr is addc(rq, G.head):
                    ctx.need(e is tick or e.kind == 'rmw' and e.x['op'] == 'add' and const_is(e.val, True), K, R, 'the head of a ring moves without a ticket',
                             t, e)
        cell = G.cell(rq, h)
        took, marked = [], []
        for e in t.find('cas', None, 0, None, 16):
            ctx.need(e.addr is cell and e.idx > tick.idx, K, R, 'the cell that is changed is not the one of the ticket', t, e)
            xv, xi = G.pair(e.x['exp'])
            nv, ni = G.pair(e.x['new'])
            # the index the value numbers lead back to
            li = [y for y in t.find('load', addc(cell, G.idx - G.base), tick.idx, e.idx)]
            lv = [y for y in t.find('load', addc(cell, G.val - G.base), tick.idx, e.idx)]
            ci = next((y.res for y in reversed(li) if xi is y.res or xi is idx63(y.res) and bit0(t, y.res)), None)
            if not ctx.need(ci is not None and any(xv is y.res for y in lv) or is_guard(xv) and ci is not None, K, R,
                            'the content that is expected was not read from the cell', t, e):
                continue
            ix = idx63(ci)
            ctx.need(nounsigned(t, ix, h), K, R, 'a cell whose index is beyond the ticket is changed', t, e)
            u = closed(ci)
            Nn = c64(G.n)
            adv = {add(VV.bor(u, h, 64), Nn), VV.bor(u, add(h, Nn), 64), add(u, add(h, Nn))}
            adv |= {add(VV.bor(u, ix, 64), Nn), add(ci, Nn)} if t.known(eq(ix, h)) is True else set()
            if bit0(t, ci):
                adv.add(add(h, Nn))
            if bit1(t, ci):
                adv |= {VV.bor(add(h, Nn), c64(TOP), 64), add(VV.bor(h, c64(TOP), 64), Nn)}
            empty = t.known(eq(xv, const(GUARD, 64)))
            empty = True if is_guard(xv) else empty
            if is_guard(nv) and empty is False:
                ctx.need(t.known(eq(ix, h)) is True, K, R, 'an element with another ticket is taken', t, e)
                ctx.need(ni in adv, K, R, 'a cell is not prepared for the ticket of the next round when its element is taken', t, e)
                if e.x['ok']:
                    took.append(e)
                continue
            ctx.need(nv is xv or empty is True and is_guard(nv), K, R, 'the element of a cell is changed', t, e)
            if empty is False:
                ctx.need(t.known(eq(ix, h)) is not True, K, R, 'an element with the own ticket is left behind', t, e)
                ctx.need(ni in (VV.bor(ix, c64(TOP), 64), VV.bor(ci, c64(TOP), 64)), K, R,
                         'a cell that holds an older element is not marked unsafe with its index kept', t, e)
            elif empty is True:
                ctx.need(ni in adv, K, R, 'an empty cell is not moved to the ticket of the next round with its mark kept', t, e)
            else:
                ctx.need(False, K, R, 'a cell is changed without having seen whether it is empty', t, e)
            if e.x['ok']:
                marked.append(e)
        passed = [y for y in t.find('load', addc(cell, G.idx - G.base), tick.idx) if sgt(t, idx63(y.res), h)]
        sw = t.find('cas', qh)
        rest = [e for e in t.find('load', addc(rq, G.next), tick.idx)]
        lastio = max([e.idx for e in t.find('load', addc(cell, G.idx - G.base), tick.idx)] + [tick.idx])
        if took:
            v = G.pair(took[0].x['exp'])[0]
            ctx.need(len(took) == 1 and t.end == 'ret' and t.ret is v, K | {'C06'}, R, 'a dequeue does not return the element it took', t, took[0])
            ctx.need(not t.find('cas', qh, took[0].idx) and not [e for e in t.find('cas', cell, took[0].idx + 1)], K, R, 'a dequeue goes on after it '
                     'took an element', t, took[0])
        elif t.end == 'ret':
            ctx.need(is_empty(t.ret), K | {'C06'}, R, 'a dequeue that took nothing does not return the answer for the empty queue', t, t.ev[-1])
            tl = drained(t, G, rq, h, lastio)
            nx = [e for e in rest if t.tested(e.res, True) and any(y.idx < e.idx for y in tl)]
            ctx.need(bool(tl), K, R, 'an empty queue is reported without having seen, after the ticket, that the ring holds nothing more', t, t.ev[-1])
            ctx.need(bool(nx), K, R, 'an empty queue is reported without having seen, after that, that no further ring is linked', t, t.ev[-1])
        if not took and (t.end == 'ret' or sw):
            ctx.need(bool(passed or marked), K, R, 'the cell of a ticket is left although an enqueuer can still store an element with this ticket', t,
                     (sw or [t.ev[-1]])[0])
        # a new ticket is taken only when the old one cannot be used any more
        if t.end == 'cut' and not took and not sw and cut_outer(t, tick):
            ctx.need(bool(passed or marked), K, R, 'the cell of a ticket is left although an enqueuer can still store an element with this ticket', t,
                     t.ev[-1])
        for e in sw:
            x, n = e.x['exp'][0], e.x['new'][0]
            if not ctx.need(x is rq and n.kind == 'ld' and n.a[1] is addc(rq, G.next) and t.nz(n) and n.a[0] > tick.idx and not took, K, R,
                            'the queue moves its head to something else than the ring linked behind it', t, e):
                continue
            ctx.need(bool([y for y in drained(t, G, rq, h, n.a[0]) if y.idx < e.idx]), K, R,
                     'a ring is left without having seen, after its successor was linked, that it holds nothing more', t, e)


def cut_outer(t, tick):
    """the path ended by starting another attempt: its last branch is not in the loop over the cell"""
    f = t.fn
    e = t.p.st.frames
    return len(e) == 1 and e[0].blk is not None and not any(e[0].blk in b and tickless(f, b) for b in f.loops().values())


def tickless(f, body):
    """a loop without a ticket of its own"""
    for b in body:
        for i in f.blocks[b]:
            if i.op == 'call' and i.a[1][0] == 'g' and i.a[1][1] in ('_FAA64',):
                return False
    return True


def drained(t, G, rq, h, lo):
    """reads of the tail that show no element beyond ticket h"""
    r = []
    for e in t.find('load', addc(rq, G.tail), lo):
        x = idx63(e.res)
        if nounsigned(t, x, addc(h, 1)) or t.known(icmp('ult', x, addc(h, 2))) is True or nounsigned(t, x, h):
            r.append(e)
    return r


def init(ctx, G, S, T):
    R = 'lcrq.init'
    for t in ctx.paths('LCRQInit', k=2):
        l, i = t.args[0], len(t.ev)
        h = t.stored(t.fa(l, S, 'head'), i)
        if ctx.need(h is not None and h.kind == 'obj' and t.stored(t.fa(l, S, 'tail'), i) is h, K | {'C26'}, R, 'head and tail of a new '
                    'queue are not the same ring', t, t.ev[-1]):
            ringinit(t, h, G, ctx, R)
            ctx.need(const_is(t.stored(addc(h, G.tail), i), True), K | {'C26'}, R, 'the tail of the first ring is not 0', t, t.ev[-1])
            a = t.ev[h.a[0]].x['args']
            ctx.need(is_c(a[-1]) and cval(a[-1]) >= ctx.sizeof('RingQueue'), K | {'C18', 'C26'}, R, 'the first ring is too small', t, t.ev[h.a[0]])
    for t in ctx.paths('LCRQThreadStateInit'):
        ctx.need(const_is(t.stored(t.fa(t.args[0], T, 'nrq'), len(t.ev)), True), K | {'C26'}, R, 'the spare ring of a new thread is not cleared',
                 t, t.ev[-1])
    fullloop(ctx, G, R, S)
