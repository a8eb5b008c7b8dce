"""MCS and CLH locks, barrier."""
from .base import *
from .combining import const_is, accesses

C3 = {'C03'}
CLHS = (('CLHLockStruct', 'MyNode'), ('CLHLockStruct', 'MyPred'))


def elem_of(t, v, arr_addr, idx, size):
    """v is the address of element idx of the array whose base pointer is kept at arr_addr"""
    if v is None:
        return False
    for b in VV.subvals(v):
        if b.kind == 'ld' and b.a[1] is arr_addr:
            for i in (VV.sext(idx, 64), VV.zext(idx, 64)):
                if v is add(b, scale(i, size)):
                    return True
    return False


def loaded_elem(t, v, arr_addr, idx, size):
    return v is not None and v.kind == 'ld' and elem_of(t, v.a[1], arr_addr, idx, size)


def is_false(t, v):
    return t.is0(v) is True


def frees(t):
    return [c for c in t.calls() if c.x['name'] in ('synchFreeMemory', 'free', 'synchRecycleObj', 'numa_free')]


def pinned(t, e):
    """the compiler cannot leave the store out or put it off beyond the end of the operation"""
    return e.vol or any(x.kind in ('barrier', 'fence', 'cas', 'rmw') for x in t.ev[e.idx + 1:])


@group('mcs')
def mcs(ctx):
    S, T, N = 'MCSLockStruct', 'MCSThreadState', 'MCSLockNode'
    F = None
    for t in ctx.paths('MCSLock', private=(1,), k=2 if ctx.deep else 1, ends=('ret', 'cut')):
        l, th, pid = t.args
        done = t.end == 'ret'
        tail, mine = t.fa(l, S, 'Tail'), t.fa(th, T, 'MyNode')
        F = lambda b, f: t.fa(b, N, f)
        sw = t.find('rmw', tail)
        if not sw:
            if done:
                ctx.need(False, C3, 'mcs.lock', 'the thread is not queued by a SWAP on the tail', t, t.ev[-1])
            continue
        w = sw[0]
        my, prev = w.val, w.res
        ctx.need(len(sw) == 1 and w.x['op'] == 'xchg' and w.size == 8, C3, 'mcs.lock',
                 'the thread is not queued by exactly one SWAP on the tail', t, w)
        if not ctx.need(my.kind == 'ld' and my.a[1] is mine, C3, 'mcs.own-node', 'the queued node is not the one of the '
                        'calling thread', t, w):
            continue
        ctx.need(const_is(t.stored(F(my, 'next'), w.idx), True), C3 | {'C25'}, 'mcs.own-node',
                 'the next pointer of the node is not cleared before the node is queued', t, w)
        ctx.need(not t.find('store', mine), C3, 'mcs.own-node', 'the thread changes its node while it is queued', t, w)
        stores = [e for e in t.writes() if e is not w]
        if t.is0(prev):
            for e in stores:
                ok = base_off(e.addr)[0] is my and e.idx < w.idx
                ctx.need(ok and not (e.addr is F(my, 'locked') and const_is(e.val, False)), C3, 'mcs.lock',
                         'a thread that found the lock free writes to a node after it was queued', t, e)
            continue
        if not done and t.is0(prev) is None:
            continue
        if not ctx.need(t.nz(prev), C3, 'mcs.lock', 'the lock is taken without having seen whether it was free', t,
                        t.ev[-1]):
            continue
        lk = t.find('store', F(prev, 'next'))
        if lk or done:
            if ctx.need(len(lk) == 1 and lk[0].val is my and lk[0].idx > w.idx, C3, 'mcs.link',
                        'the node is not linked behind its predecessor by exactly one store', t, lk[0] if lk else w):
                e = t.last_store(F(my, 'locked'), lk[0].idx)
                ctx.need(e is not None and const_is(e.val, False), C3 | {'C25'}, 'mcs.link',
                         'the node is linked behind its predecessor before it is marked as waiting', t, lk[0])
                for e in t.find('store', F(my, 'locked'), lk[0].idx):
                    ctx.need(False, C3, 'mcs.link', 'the waiting mark is written after the predecessor can clear it', t, e)
                for e in t.find('store', F(my, 'next'), w.idx):
                    ctx.need(False, C3, 'mcs.link', 'the next pointer is written by its owner while others can set it', t, e)
        if done:
            wt = [e for e in t.find('load', F(my, 'locked'), (lk[0].idx if lk else w.idx)) if is_false(t, e.res)]
            ctx.need(bool(wt) and wt[-1].vol, C3, 'mcs.wait', 'the lock is taken without having seen the release by the '
                     'predecessor', t, t.ev[-1])
        for e in stores:
            b = base_off(e.addr)[0]
            ok = b is my or b is prev and e.addr is F(prev, 'next') or b is not None and b.kind == 'ld' and \
                b.a[1] is tail and e.addr is F(b, 'locked') and const_is(e.val, False) and lk and e.idx < lk[0].idx
            ctx.need(ok, C3, 'mcs.frame', 'locking writes to a location that does not belong to the own node or the '
                     'link from the predecessor', t, e)
    for t in ctx.paths('MCSUnlock', private=(1,), mono=[(N, 'next')], k=2 if ctx.deep else 1, ends=('ret',)):
        l, th, pid = t.args
        tail, mine = t.fa(l, S, 'Tail'), t.fa(th, T, 'MyNode')
        mys = [e.res for e in t.find('load', mine)]
        if not ctx.need(bool(mys), C3, 'mcs.unlock', 'the node of the thread is not used', t, t.ev[-1]):
            continue
        my = mys[0]
        ctx.need(all(m is my for m in mys) and not t.find('store', mine), C3, 'mcs.own-node',
                 'the thread changes its node while it is queued', t, t.ev[-1])
        cs = [e for e in t.find('cas', tail) if e.x['ok']]
        for e in t.find('cas', tail):
            ctx.need(e.size == 8 and e.x['exp'][0] is my and const_is(e.x['new'][0], True), C3, 'mcs.unlock',
                     'the lock is freed by something else than a CAS of the tail from the own node to NULL', t, e)
        for e in t.find(('store', 'rmw'), tail):
            ctx.need(False, C3, 'mcs.unlock', 'the tail is overwritten by an unlock', t, e)
        rel = []
        for e in t.writes():
            if e in cs:
                continue
            b = base_off(e.addr)[0]
            nx = b is not None and b.kind == 'ld' and b.a[1] is F(my, 'next')
            if nx and e.addr is F(b, 'locked') and const_is(e.val, True):
                rel.append((e, b))
                ctx.need(t.tested(b, False, 0, e.idx), C3, 'mcs.unlock', 'the next waiter is released without having waited '
                         'until it is linked', t, e)
            else:
                ctx.need(e.kind == 'store' and e.addr is F(my, 'next') and const_is(e.val, True), C3, 'mcs.unlock',
                         'an unlock writes to a location other than the flag of the next waiter', t, e)
                if e.kind == 'store' and e.addr is F(my, 'next'):
                    seen = [x for x in t.find('load', F(my, 'next'), 0, e.idx) if t.nz(x.res)]
                    ctx.need(bool(seen), C3, 'mcs.unlock', 'the next pointer is cleared before the next waiter was seen', t, e)
        if cs:
            ctx.need(not rel, C3, 'mcs.unlock', 'the lock is freed and also handed to a waiter', t, cs[0])
            for e in t.find('store', F(my, 'next'), cs[0].idx):
                ctx.need(False, C3, 'mcs.unlock', 'the own node is written after the lock was freed', t, e)
        else:
            ctx.need(len(rel) == 1, C3, 'mcs.unlock', 'an unlock neither frees the lock nor releases the next waiter '
                     'exactly once', t, t.ev[-1])
            for e, b in rel:
                ctx.need(pinned(t, e), {'C25', 'C03'}, 'mcs.unlock', 'the release store may be delayed by the compiler', t, e)
    for t in ctx.paths('MCSLockInit'):
        r = t.ret
        ctx.need(r.kind == 'obj' and const_is(t.stored(t.fa(r, S, 'Tail'), len(t.ev)), True), {'C26', 'C03'}, 'mcs.init',
                 'a new lock is not free', t, t.ev[-1])
    for t in ctx.paths('MCSThreadStateInit'):
        th = t.args[0]
        n = t.stored(t.fa(th, T, 'MyNode'), len(t.ev))
        if ctx.need(n is not None and n.kind == 'obj', {'C26', 'C03'}, 'mcs.init', 'the thread gets no node of its own', t,
                    t.ev[-1]):
            for f in ('locked', 'next'):
                ctx.need(const_is(t.stored(t.fa(n, N, f), len(t.ev)), True), {'C26', 'C03'}, 'mcs.init',
                         'member %s of the new node is not cleared' % f, t, t.ev[-1])


@group('clh')
def clh(ctx):
    S = 'CLHLockStruct'
    for t in ctx.paths('CLHLock', slots=CLHS, k=2 if ctx.deep else 1, ends=('ret', 'cut')):
        l, pid = t.args
        done = t.end == 'ret'
        tail, mn, mp = t.fa(l, S, 'Tail'), t.fa(l, S, 'MyNode'), t.fa(l, S, 'MyPred')
        sw = t.find('rmw', tail)
        if not sw:
            if done:
                ctx.need(False, C3, 'clh.lock', 'the thread is not queued by a SWAP on the tail', t, t.ev[-1])
            continue
        w = sw[0]
        my, prev = w.val, w.res
        ctx.need(len(sw) == 1 and w.x['op'] == 'xchg' and w.size == 8, C3, 'clh.lock',
                 'the thread is not queued by exactly one SWAP on the tail', t, w)
        ctx.need(loaded_elem(t, my, mn, pid, 8), C3, 'clh.own-node', 'the queued node is not the one of the calling thread',
                 t, w)
        e = t.last_store(my, w.idx)
        ctx.need(e is not None and const_is(e.val, False) and e.size == 1, C3 | {'C25'}, 'clh.own-node',
                 'the node is queued before it is marked locked', t, w)
        ctx.need(not t.find('store', my, w.idx), C3, 'clh.own-node', 'the own node is written after it was queued and '
                 'before the lock is held', t, w)
        if done:
            ps = [e for e in t.find('store') if elem_of(t, e.addr, mp, pid, 8)]
            ctx.need(len(ps) >= 1 and ps[-1].val is prev, C3, 'clh.own-node', 'the node of the predecessor is not kept for '
                     'the next use', t, t.ev[-1])
            wt = [e for e in t.find('load', prev, w.idx) if is_false(t, e.res)]
            ctx.need(bool(wt) and wt[-1].vol, C3, 'clh.wait', 'the lock is taken without having seen the release by the '
                     'predecessor', t, t.ev[-1])
        for e in t.writes():
            ok = e is w or e.addr is my or elem_of(t, e.addr, mp, pid, 8)
            ctx.need(ok, C3, 'clh.frame', 'locking writes to a location other than the own node', t, e)
    for t in ctx.paths('CLHUnlock', slots=CLHS):
        l, pid = t.args
        mn, mp = t.fa(l, S, 'MyNode'), t.fa(l, S, 'MyPred')
        rel = [e for e in t.writes() if e.kind == 'store' and loaded_elem(t, e.addr, mn, pid, 8) and const_is(e.val, True)]
        upd = [e for e in t.writes() if e.kind == 'store' and elem_of(t, e.addr, mn, pid, 8)]
        ctx.need(len(rel) == 1 and rel[0].size == 1 and pinned(t, rel[0]), C3, 'clh.unlock', 'the own node is not released by '
                 'exactly one store', t, t.ev[-1])
        ctx.need(len(upd) == 1 and loaded_elem(t, upd[0].val, mp, pid, 8), C3, 'clh.unlock', 'the thread does not take over '
                 'the node of its predecessor', t, t.ev[-1])
        if rel and upd:
            ctx.need(rel[0].addr.a[0] < upd[0].idx, C3, 'clh.unlock', 'the node of the predecessor is released instead of '
                     'the own one', t, rel[0])
        for e in t.writes():
            ctx.need(e in rel or e in upd, C3, 'clh.frame', 'an unlock writes to another location', t, e)
        for c in frees(t):
            ctx.need(False, C3 | {'C08'}, 'clh.frame', 'a queue node is given back', t, c)
    for t in ctx.paths('CLHLockInit', k=2, ends=('ret',)):
        r, n = t.ret, t.args[0]
        if not ctx.need(r.kind == 'obj', {'C26', 'C03'}, 'clh.init', 'no lock is returned', t, t.ev[-1]):
            continue
        tl = t.stored(t.fa(r, S, 'Tail'), len(t.ev))
        ctx.need(tl is not None and tl.kind == 'obj' and const_is(t.stored(tl, len(t.ev), 1), True), {'C26', 'C03'},
                 'clh.init', 'a new lock is not free', t, t.ev[-1])
        arr = t.stored(t.fa(r, S, 'MyNode'), len(t.ev))
        prd = t.stored(t.fa(r, S, 'MyPred'), len(t.ev))
        if not ctx.need(arr is not None and prd is not None and arr.kind == prd.kind == 'obj' and arr is not prd,
                        {'C26', 'C03', 'C19'}, 'clh.init', 'the arrays of nodes are not allocated', t, t.ev[-1]):
            continue
        vals = [e.val for e in t.find('store') if e.addr.kind in ('lin', 'obj') and base_off(e.addr)[0] is arr]
        ctx.need(all(v.kind == 'obj' for v in vals) and len(set(vals)) == len(vals) and tl not in vals, {'C26', 'C03'},
                 'clh.init', 'two threads start with the same node', t, t.ev[-1])


@group('barrier')
def barrier(ctx):
    S = 'SynchBarrier'
    C = {'C14'}

    def phase(t, b, lo, cnt, flag, other, hi):
        """checks one half of an episode that starts at event lo; returns the index after it"""
        R = 'barrier.' + cnt
        cs = t.find('rmw', t.fa(b, S, cnt), lo)
        if not ctx.need(len(cs) == 1 and cs[0].x['op'] == 'add' and is_c(cs[0].val) and cval(cs[0].val) in (-1, 0xffffffff)
                        and cs[0].size == 4, C, R, 'the thread is not counted by exactly one decrement of %s' % cnt, t,
                        cs[0] if cs else t.ev[-1]):
            return None
        c = cs[0]
        one = const(1, c.res.w)
        gt = t.known(VV.icmp('sgt', c.res, one))
        if gt is None:
            e1 = t.known(eq(c.res, one))
            gt = None if e1 is None else not e1
        if not ctx.need(gt is not None, C, R, 'the path does not depend on how many threads are still missing', t, c):
            return None
        val, fl, fo = t.fa(b, S, 'val_at_set'), t.fa(b, S, flag), t.fa(b, S, other)
        if gt:
            w = [e for e in t.find('load', fl, c.idx, hi) if t.is0(e.res)]
            ctx.need(bool(w) and w[-1].vol, C, R, 'a thread that is not the last one goes on without having seen %s '
                     'cleared' % flag, t, c)
            for e in t.writes(c.idx + 1, hi):
                ctx.need(False, C, R, 'a thread that is not the last one changes the barrier', t, e)
            return w[-1].idx if w else None
        rel = t.find('store', fl, c.idx, hi)
        if not ctx.need(len(rel) == 1 and const_is(rel[0].val, True) and pinned(t, rel[0]), C, R, 'the last thread does not release '
                        'the others by clearing %s' % flag, t, c):
            return None
        s = t.last_store(t.fa(b, S, cnt), rel[0].idx)
        ctx.need(s is not None and s.idx > c.idx and t.content(s.val, val, 0, s.idx), C, R,
                 'counter %s is not set back to the number of threads before the others are released' % cnt, t, rel[0])
        s = t.last_store(fo, rel[0].idx)
        ctx.need(s is not None and s.idx > c.idx and const_is(s.val, False) and pinned(t, s), C, R,
                 'the flag of the other half is not set before the others are released', t, rel[0])
        for e in t.writes(c.idx + 1, hi):
            ctx.need(e.addr in (fl, fo, t.fa(b, S, cnt)) and e.idx <= rel[0].idx, C, R,
                     'the barrier is changed after the others were released', t, e)
        return rel[0].idx

    for t in ctx.paths('synchBarrierWait', k=2 if ctx.deep else 1):
        b = t.args[0]
        l = t.find('rmw', t.fa(b, S, 'leave'))
        if not ctx.need(len(l) == 1, C, 'barrier.leave', 'the thread is not counted by exactly one decrement of leave', t,
                        t.ev[-1]):
            continue
        i = phase(t, b, 0, 'arrive', 'arrive_flag', 'leave_flag', l[0].idx)
        if i is None:
            continue
        phase(t, b, i, 'leave', 'leave_flag', 'arrive_flag', len(t.ev))
    for t in ctx.paths('synchBarrierSet'):
        b, n = t.args
        for f, ok in (('arrive', lambda v: v is n), ('leave', lambda v: v is n), ('val_at_set', lambda v: v is n),
                      ('arrive_flag', lambda v: const_is(v, False)), ('leave_flag', lambda v: const_is(v, False))):
            v = t.stored(t.fa(b, S, f), len(t.ev))
            ctx.need(v is not None and ok(v), C | {'C26'}, 'barrier.set', 'member %s does not get its initial value' % f, t,
                     t.ev[-1])
    for t in ctx.paths('synchBarrierLeave'):
        leaves(ctx, t, S, C)
    for t in ctx.paths('synchBarrierLastLeave', k=2):
        b = t.args[0]
        cs = leaves(ctx, t, S, C)
        for f, c in zip(('arrive', 'leave'), cs):
            z = [e for e in t.find('load', t.fa(b, S, f), c.idx) if t.is0(e.res)]
            ctx.need(bool(z) and z[-1].vol, C, 'barrier.leave-for-good', 'the last thread goes on although counter %s was '
                     'not seen at 0' % f, t, t.ev[-1])


def leaves(ctx, t, S, C):
    r = []
    for f in ('arrive', 'leave'):
        c = t.find('rmw', t.fa(t.args[0], S, f))
        if ctx.need(len(c) == 1 and c[0].x['op'] == 'add' and is_c(c[0].val) and cval(c[0].val) in (-1, 0xffffffff) and
                    c[0].size == 4, C, 'barrier.leave-for-good', 'counter %s is not decremented exactly once' % f, t, t.ev[-1]):
            r.append(c[0])
    for e in t.writes():
        ctx.need(e in r, C, 'barrier.leave-for-good', 'leaving changes something else of the barrier', t, e)
    return r
