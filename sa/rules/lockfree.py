"""Lock-free stack, lock-free universal object, Michael-Scott queue."""
from .base import *
from .combining import const_is
from .serial import EMPTY, GUARD

E_ = (EMPTY, EMPTY & (1 << 64) - 1)
BK = ('synchResetBackoff', 'synchBackoffDelay')
OPQ = BK + ('synchRecycleObj', 'synchRollback')


def is_empty(v):
    return is_c(v) and cval(v) in E_


def no_recycle(ctx, t, R):
    for c in t.calls():
        if c.x['name'] in ('synchRecycleObj', 'synchRollback', 'synchFreeMemory', 'free', 'numa_free', 'synchDestroyPool'):
            ctx.need(False, {'C08'}, R, 'a node that other threads may still read is given back', t, c)


def fresh_load(t, v, addr, cas, at):
    """v was loaded from addr after every earlier attempt on addr"""
    if v.kind != 'ld' or v.a[1] is not addr or v.a[0] >= at:
        return False
    return not [e for e in cas if v.a[0] < e.idx < at]


def own_writes(ctx, t, R, tags, own, also=()):
    for e in t.writes():
        b = base_off(e.addr)[0]
        if e.kind == 'cas' or e.addr in also:
            continue
        ctx.need(b in own or b is not None and b.kind == 'alloca', tags, R, 'a shared location is written without a '
                 'compare-and-swap', t, e)


@group('lfstack')
def lfstack(ctx):
    S, T, K = 'LFStackStruct', 'LFStackThreadState', {'C12', 'C05'}
    N = lambda t, b, f: t.fa(b, 'Node', f)
    k = 3 if ctx.deep else 2
    pool = None
    for t in ctx.paths('LFStackPush', k=k, pure=OPQ, ends=('ret', 'cut')):
        l, th, arg = t.args
        R, top = 'lfstack.push', t.fa(l, S, 'top')
        al = t.calls('synchAllocObj')
        if not ctx.need(len(al) == 1 and al[0].x['args'][0] is t.fa(th, T, 'pool'), K | {'C09'}, R, 'a push does not allocate '
                        'exactly one node from the pool of the thread', t, al[0] if al else t.ev[-1]):
            continue
        n = al[0].res
        cs = t.find('cas', top)
        ok = [e for e in cs if e.x['ok']]
        if t.end == 'ret':
            ctx.need(len(ok) == 1, K, R, 'a push does not take effect exactly once', t, t.ev[-1])
        for e in t.find('cas'):
            ctx.need(e.addr is top and e.size == 8, K, R, 'a push changes another shared location', t, e)
        for e in cs:
            x = e.x['exp'][0]
            ctx.need(e.x['new'][0] is n, K, R, 'the new node does not become the top', t, e)
            ctx.need(fresh_load(t, x, top, cs, e.idx), K, R, 'the expected top is not read freshly', t, e)
            ctx.need(t.stored(N(t, n, 'next'), e.idx) is x, K | {'C25'}, R, 'the new node does not point to the expected top '
                     'when it is published', t, e)
            ctx.need(t.stored(N(t, n, 'val'), e.idx) is arg, K | {'C06', 'C25'}, R, 'the value is not stored unchanged in the '
                     'new node before it is published', t, e)
        if ok:
            for e in t.writes(ok[0].idx + 1):
                ctx.need(base_off(e.addr)[0] is th, K, R, 'the node is changed after it was published', t, e)
            ctx.need(not [e for e in cs if e.idx > ok[0].idx], K, R, 'a push goes on after it took effect', t, ok[0])
        own_writes(ctx, t, R, K, (n, th))
        no_recycle(ctx, t, R)
    for t in ctx.paths('LFStackPop', k=k, pure=OPQ, ends=('ret', 'cut')):
        l, th = t.args
        R, top = 'lfstack.pop', t.fa(l, S, 'top')
        cs = t.find('cas', top)
        ok = [e for e in cs if e.x['ok']]
        for e in t.find('cas'):
            ctx.need(e.addr is top and e.size == 8, K, R, 'a pop changes another shared location', t, e)
        for e in cs:
            x, nw = e.x['exp'][0], e.x['new'][0]
            ctx.need(fresh_load(t, x, top, cs, e.idx) and t.tested(x, False, 0, e.idx), K, R,
                     'the expected top is not read freshly and seen to exist', t, e)
            ctx.need(nw.kind == 'ld' and nw.a[1] is N(t, x, 'next') and nw.a[0] > x.a[0], K, R,
                     'the new top is not the successor of the expected top', t, e)
        if t.end == 'ret':
            if ok:
                x = ok[0].x['exp'][0]
                ctx.need(len(ok) == 1 and ok[0] is cs[-1], K, R, 'a pop removes more than one element', t, ok[0])
                ctx.need(t.ret.kind == 'ld' and t.ret.a[1] is N(t, x, 'val') and t.ret.a[0] > x.a[0], K | {'C06'}, R,
                         'a pop does not return the value of the node it removed', t, t.ev[-1])
            else:
                lds = t.find('load', top)
                ctx.need(is_empty(t.ret), K | {'C06'}, R, 'a pop that removed nothing does not return the answer for the '
                         'empty stack', t, t.ev[-1])
                ctx.need(lds and t.tested(lds[-1].res, True), K, R, 'a pop reports an empty stack that it did not see', t,
                         t.ev[-1])
        own_writes(ctx, t, R, K, (th,))
        no_recycle(ctx, t, R)
    for t in ctx.paths('LFStackInit'):
        ctx.need(const_is(t.stored(t.fa(t.args[0], S, 'top'), len(t.ev)), True), {'C26', 'C05'}, 'lfstack.init',
                 'a new stack is not empty', t, t.ev[-1])
    thread_state(ctx, 'LFStackThreadStateInit', T, K, 'lfstack.init')


def thread_state(ctx, fn, T, K, R, pool=True):
    for t in ctx.paths(fn, opaque=('synchInitPool', 'synchInitBackoff')):
        th, lo, hi = t.args
        b = t.calls('synchInitBackoff')
        ctx.need(len(b) == 1 and b[0].x['args'][0] is t.fa(th, T, 'backoff') and b[0].x['args'][1] is lo and
                 b[0].x['args'][2] is hi and is_c(b[0].x['args'][3]), K | {'C26', 'C23'}, R, 'the back-off is not initialised with '
                 'the given bounds', t, t.ev[-1])
        if pool:
            p = t.calls('synchInitPool')
            sz = ctx.sizeof('Node') or 16
            ctx.need(len(p) == 1 and p[0].x['args'][0] is t.fa(th, T, 'pool') and is_c(p[0].x['args'][1]) and
                     cval(p[0].x['args'][1]) >= sz, K | {'C26', 'C09'}, R, 'the pool of the thread is not initialised for '
                     'objects of the size of a node', t, t.ev[-1])


@group('lfuobject')
def lfuobject(ctx):
    K, R = {'C12'}, 'lfuobject.apply'
    for t in ctx.paths('LFUObjectApplyOp', k=3 if ctx.deep else 2, pure=BK, ends=('ret', 'cut')):
        l, th, sf, arg, pid = t.args
        cs = t.find('cas')
        ok = [e for e in cs if e.x['ok']]
        calls = t.icalls(sf)
        for e in cs:
            ctx.need(e.addr is l and e.size == 8, K, R, 'something else than the state is switched', t, e)
        lo = 0
        for e in cs:
            x, nw = e.x['exp'][0], e.x['new'][0]
            ctx.need(fresh_load(t, x, l, cs, e.idx), K, R, 'the expected state is not read freshly in this round', t, e)
            c = [y for y in calls if lo <= y.idx < e.idx]
            lo = e.idx
            if not ctx.need(len(c) == 1, K, R, 'the operation is not computed exactly once in each round', t, e):
                continue
            c = c[0]
            a = c.x['args']
            m = c.x['mem'][0] if a else None
            o = base_off(a[0])[1] if a else 0
            ctx.need(m is not None and m.get(o, (0, None))[1] is x, K, R, 'the new state is not computed on a private copy of '
                     'the expected state', t, c)
            ctx.need(len(a) > 2 and a[1] is arg and a[2] is pid, K, R, 'the operation is not computed with the arguments of '
                     'the caller', t, c)
            ctx.need(nw.kind == 'ld' and nw.a[1] is a[0] and nw.a[0] > c.idx, K, R, 'the switch does not install the '
                     'computed state', t, e)
        if t.end == 'ret':
            if ctx.need(len(ok) == 1 and ok[0] is cs[-1], K, R, 'the operation does not take effect exactly once', t,
                        t.ev[-1]):
                c = [y for y in calls if y.idx < ok[0].idx]
                ctx.need(bool(c) and t.ret is c[-1].res, K, R, 'the call does not return the result computed in the round '
                         'that took effect', t, t.ev[-1])
                ctx.need(not [y for y in calls if y.idx > ok[0].idx], K, R, 'the operation is computed again after it took '
                         'effect', t, t.ev[-1])
        own_writes(ctx, t, R, K, (th,))
    for t in ctx.paths('LFUObjectInit'):
        ctx.need(t.stored(t.args[0], len(t.ev)) is t.args[1], {'C26', 'C12'}, 'lfuobject.init',
                 'the object does not get its initial value', t, t.ev[-1])
    thread_state(ctx, 'LFUObjectThreadStateInit', 'LFUObjectThreadState', K, 'lfuobject.init', pool=False)


@group('msqueue')
def msqueue(ctx):
    S, T, K = 'MSQueueStruct', 'MSQueueThreadState', {'C12', 'C04'}
    N = lambda t, b, f: t.fa(b, 'Node', f)
    k = 3 if ctx.deep else 2

    def swing(t, R, e, tail, n, done):
        """the tail moves to the successor of the node it pointed to"""
        x, nw = e.x['exp'][0], e.x['new'][0]
        okx = x.kind == 'ld' and x.a[1] is tail or [y for y in t.equals(x) if y.kind == 'ld' and y.a[1] is tail]
        xs = [x] + [y for y in t.equals(x)]
        okn = any(nw.kind == 'ld' and nw.a[1] is N(t, y, 'next') for y in xs) and t.tested(nw, False, 0, e.idx) or \
            done is not None and nw is n and done.idx < e.idx and any(done.addr is N(t, y, 'next') for y in xs)
        ctx.need(bool(okx and okn) and e.size == 8, K, R, 'the tail is moved to something else than the successor of the node '
                 'it pointed to', t, e)

    for t in ctx.paths('MSQueueEnqueue', k=k, pure=OPQ, ends=('ret', 'cut')):
        l, th, arg = t.args
        R, tail, head = 'msqueue.enqueue', t.fa(l, S, 'tail'), t.fa(l, S, 'head')
        al = t.calls('synchAllocObj')
        if not ctx.need(len(al) == 1 and al[0].x['args'][0] is t.fa(th, T, 'pool'), K | {'C09'}, R, 'an enqueue does not '
                        'allocate exactly one node from the pool of the thread', t, al[0] if al else t.ev[-1]):
            continue
        n = al[0].res
        lk = [e for e in t.find('cas') if e.addr is not tail]
        ok = [e for e in lk if e.x['ok']]
        done = ok[0] if ok else None
        if t.end == 'ret':
            ctx.need(len(ok) == 1 and ok[0] is lk[-1], K, R, 'an enqueue does not take effect exactly once', t, t.ev[-1])
        for e in lk:
            b = addc(e.addr, -t.off('Node', 'next'))
            ctx.need(b.kind == 'ld' and b.a[1] is tail and e.size == 8, K, R, 'the new node is not linked behind the node that '
                     'the tail pointed to', t, e)
            x = e.x['exp'][0]
            ctx.need(t.is0(x) is True, K, R, 'the new node replaces the successor of a node', t, e)
            ctx.need(e.x['new'][0] is n, K, R, 'the new node is not the one that is linked', t, e)
            prev = [y for y in lk if y.idx < e.idx]
            ctx.need(b.kind == 'ld' and not [y for y in prev if b.a[0] < y.idx], K, R, 'the tail is not read again after a '
                     'failed attempt', t, e)
            ctx.need(t.stored(N(t, n, 'val'), e.idx) is arg, K | {'C06', 'C25'}, R, 'the value is not stored unchanged in the '
                     'new node before it is linked', t, e)
            ctx.need(const_is(t.stored(N(t, n, 'next'), e.idx), True), K | {'C25'}, R, 'the next pointer of the new node is not '
                     'cleared before it is linked', t, e)
        for e in t.find('cas', tail):
            swing(t, R, e, tail, n, done)
        if done is not None:
            for e in t.writes(done.idx + 1):
                ctx.need(e.kind == 'cas' or base_off(e.addr)[0] is th, K, R, 'the node is changed after it was linked', t, e)
        own_writes(ctx, t, R, K, (n, th))
        no_recycle(ctx, t, R)
    for t in ctx.paths('MSQueueDequeue', k=k, pure=OPQ, ends=('ret', 'cut')):
        l, th = t.args
        R, tail, head = 'msqueue.dequeue', t.fa(l, S, 'tail'), t.fa(l, S, 'head')
        cs = t.find('cas', head)
        ok = [e for e in cs if e.x['ok']]
        for e in t.find('cas'):
            ctx.need(e.addr in (head, tail) and e.size == 8, K, R, 'a dequeue changes another shared location', t, e)
        for e in t.find('cas', tail):
            swing(t, R, e, tail, None, None)
        for e in cs:
            x, nw = e.x['exp'][0], e.x['new'][0]
            ctx.need(fresh_load(t, x, head, cs, e.idx), K, R, 'the expected head is not read freshly', t, e)
            ctx.need(nw.kind == 'ld' and nw.a[1] is N(t, x, 'next') and x.kind == 'ld' and nw.a[0] > x.a[0], K, R,
                     'the new head is not the successor of the expected head', t, e)
            tl = [y for y in t.find('load', tail, x.a[0] if x.kind == 'ld' else 0, e.idx) if t.known(eq(y.res, x)) is False]
            ctx.need(bool(tl), K, R, 'the head is moved without having seen, after reading the head, that the tail is ahead of '
                     'it', t, e)
        if t.end == 'ret':
            if ok:
                x, nw = ok[0].x['exp'][0], ok[0].x['new'][0]
                ctx.need(len(ok) == 1 and ok[0] is cs[-1], K, R, 'a dequeue removes more than one element', t, ok[0])
                ctx.need(t.ret.kind == 'ld' and t.ret.a[1] is N(t, nw, 'val') and t.ret.a[0] > nw.a[0], K | {'C06'}, R,
                         'a dequeue does not return the value of the node that became the head', t, t.ev[-1])
            else:
                ctx.need(is_empty(t.ret), K | {'C06'}, R, 'a dequeue that removed nothing does not return the answer for the '
                         'empty queue', t, t.ev[-1])
                hs = t.find('load', head)
                good = False
                for h in hs:
                    ns = [y for y in t.find('load', N(t, h.res, 'next'), h.idx) if t.tested(y.res, True)]
                    tl = [y for y in t.find('load', tail) if t.known(eq(y.res, h.res)) is True]
                    good = good or bool(ns and tl)
                ctx.need(good, K, R, 'a dequeue reports an empty queue that it did not see', t, t.ev[-1])
        own_writes(ctx, t, R, K, (th,))
        no_recycle(ctx, t, R)
    for t in ctx.paths('MSQueueInit'):
        l, i = t.args[0], len(t.ev)
        h = t.stored(t.fa(l, S, 'head'), i)
        if ctx.need(h is not None and h.kind == 'obj' and t.stored(t.fa(l, S, 'tail'), i) is h, {'C26', 'C04'}, 'msqueue.init',
                    'head and tail of a new queue are not the same node', t, t.ev[-1]):
            ctx.need(const_is(t.stored(N(t, h, 'next'), i), True), {'C26', 'C04'}, 'msqueue.init',
                     'the first node has a successor', t, t.ev[-1])
            c = t.ev[h.a[0]]
            ctx.need(c.kind == 'call' and is_c(c.x['args'][-1]) and cval(c.x['args'][-1]) >= (ctx.sizeof('Node') or 16),
                     {'C18', 'C26'}, 'msqueue.init', 'the first node is too small', t, c)
    thread_state(ctx, 'MSQueueThreadStateInit', T, K, 'msqueue.init')
