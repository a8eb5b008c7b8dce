"""The two hash tables: bucket choice, exclusive access to the bucket, effect of each operation on the bucket's list.

The operation and the sequential function are analysed together: the application by the combiner (C01: with the announced
arguments) is modelled as a call, the bucket lock (C03) as the brackets of the exclusive part."""
from .base import *
from .combining import const_is

C7 = {'C07'}
MODEL = dict(DSMSynchApplyOp=(2, (3, 4, 5)))
SPEC = {
    'clhhash': ('CLHHash', 'CLHHashThreadState', 'CLHHashStructInit', 'CLHHashThreadStateInit', 'CLHHashInsert', 'CLHHashSearch', 'CLHHashDelete'),
    'dsmhash': ('DSMHash', 'DSMHashThreadState', 'DSMHashInit', 'DSMHashThreadStateInit', 'DSMHashInsert', 'DSMHashSearch', 'DSMHashDelete'),
}


def strip(v):
    """the value behind truncations and extensions"""
    while True:
        if v.kind == 'op' and v.a[0] in ('sext', 'zext'):
            v = v.a[1]
        elif v.kind == 'bits' and v.a and v.a[0][1] == 0 and all(s[1] is None or s is v.a[0] for s in v.a):
            v = v.a[0][0]
        else:
            return v


def index_of(addr, base, size):
    """x with addr = base + size * x, or None"""
    d = sub(addr, base)
    if d.kind == 'c':
        return None
    c, ts = terms(d)
    if c % size or any(q % size for _, q in ts) or len(ts) > 3:
        return None
    return VV.mk_lin(c // size, {x: q // size for x, q in ts}, 64)


def leaves(v, out=None):
    out = set() if out is None else out
    for x in VV.subvals(v):
        if x.kind in ('ld', 'param', 'call', 'obj', 'rmw', 'old', 'havoc', 'glob', 'undef'):
            out.add(x)
    return out


def index_ok(t, x, key, size):
    """True: 0 <= x < size follows; False: it does not; None: form not understood"""
    v = strip(x)
    lv = {strip(y) for y in leaves(v)}

    def rem(y):
        y = strip(y)
        if y.kind == 'op' and y.a[0] in ('srem', 'urem') and strip(y.a[2]) is size:
            return y.a[0]
        return None
    if rem(v) == 'urem':
        return True
    if rem(v) == 'srem':
        d = t.known(icmp('slt', v, const(0, v.w)))
        if d is False:
            return True
        lo = t.eng.rangeof(t.p.st, v, True)[0]
        if lo >= 0:
            return True
        a = strip(v.a[1])
        if a.kind == 'lin':
            # (k % size + size) % size
            ps = [strip(y) for y, q in a.a[1] if q == 1]
            if a.a[0] == 0 and len(ps) == 2 and size in ps and any(rem(y) for y in ps):
                return True
        return False
    if v.kind == 'lin':
        c, ts = v.a
        ps = [(strip(y), q) for y, q in ts]
        r = [(y, q) for y, q in ps if rem(y) == 'srem']
        if len(r) == 1 and all(y is size or y is r[0][0] for y, q in ps):
            # c + a * (key % size) + b * size: the extremes of the remainder are attained
            a, b = r[0][1], sum(q for y, q in ps if y is size)
            neg = t.known(icmp('slt', r[0][0], const(0, r[0][0].w)))
            inside = []
            for n in (2, 3, 7, 101):
                lo, hi = (-(n - 1), n - 1) if neg is None else (-(n - 1), -1) if neg else (0, n - 1)
                inside += [0 <= c + a * x + b * n < n for x in (lo, hi)]
            return all(inside)
        r = [y for y, q in ps if rem(y) == 'srem' and q == 1]
        if c == 0 and len(ps) == 2 and len(r) == 1 and (size, 1) in ps:
            return t.known(icmp('slt', r[0], const(0, r[0].w))) is True
        if len(ps) == 1 and r:
            return False
    if not any(y.kind == 'op' and y.a[0] in ('srem', 'urem') for y in VV.subvals(v)):
        return False if not any(y.kind == 'op' and y.a[0] in ('and', 'lshr', 'call') for y in VV.subvals(v)) else None
    return None


def hash_rules(ctx, mod, clh):
    H, T, sinit, tinit, ins, srch, dele = SPEC[mod]
    O = lambda s, f: ctx.off(s, f, mod)
    bshapes = {}
    kw = dict(seq=True, delay=False, slots=[(H, 'announce')] + ([(H, 'synch')] if clh else []),
              stable=[(H, f) for f in ('synch', 'cells', 'size')],
              model=MODEL, pure=('CLHLock', 'CLHUnlock', 'synchRecycleObj'), k=5 if ctx.deep else 3)
    for fn, role in ((ins, 'insert'), (srch, 'search'), (dele, 'delete')):
        R = '%s.%s' % (mod, role)
        for t in ctx.paths(fn, mod, **kw):
            h, th, key, pid = t.args[0], t.args[1], t.args[2], t.args[-1]
            value = t.args[3] if role == 'insert' else None
            N = lambda b, f: addc(b, O('HashNode', f))
            cells = [e.res for e in t.find('load', addc(h, O(H, 'cells')))]
            synch = [e.res for e in t.find('load', addc(h, O(H, 'synch')))]
            ann = [e.res for e in t.find('load', addc(h, O(H, 'announce')))]
            sizes = [e.res for e in t.find('load', addc(h, O(H, 'size')))]
            if not ctx.need(bool(cells and synch and sizes), C7, R, 'the operation does not use the buckets and locks of the '
                            'given table', t, t.ev[-1]):
                continue
            cells, synch, size = cells[0], synch[0], sizes[0]
            # exclusive part
            if clh:
                a, b = t.calls('CLHLock'), t.calls('CLHUnlock')
                if not ctx.need(len(a) == 1 and len(b) == 1 and a[0].idx < b[0].idx, C7 | {'C03'}, R, 'the bucket lock is not '
                                'taken and released exactly once', t, t.ev[-1]):
                    continue
                L = a[0].x['args'][0]
                lo, hi = a[0].idx, b[0].idx
                ctx.need(b[0].x['args'][0] is L and a[0].x['args'][1] is pid and b[0].x['args'][1] is pid, C7 | {'C03'}, R,
                         'the lock that is released is not the one that was taken by this thread', t, b[0])
                la = L.a[1] if L.kind == 'ld' else None
                lsz = 8
            else:
                a = t.calls('DSMSynchApplyOp')
                if not ctx.need(len(a) == 1, C7, R, 'the operation is not passed to the universal construction exactly once',
                                t, t.ev[-1]):
                    continue
                ar = a[0].x['args']
                la, lsz = ar[0], ctx.sizeof('DSMSynchStruct')
                lo, hi = a[0].idx, len(t.ev)
                ctx.need(ar[3] is h and ar[5] is pid, C7 | {'C01', 'C27'}, R, 'the operation is applied to another table or '
                         'for another thread', t, a[0])
                tb = [e.res for e in t.find('load', addc(th, O(T, 'th_state')))]
            li = index_of(la, synch, lsz) if la is not None else None
            if not ctx.need(li is not None, C7, R, 'the exclusive part is not guarded by the lock of a '
                            'bucket of this table', t, a[0]):
                continue
            cell = li
            if not clh:
                ti = index_of(ar[1], tb[0], ctx.sizeof('DSMSynchThreadState')) if tb else None
                ctx.need(ti is cell, C7 | {'C27'}, R,
                         'the thread state does not belong to the universal construction of the bucket', t, a[0])
            # bucket index
            ok = index_ok(t, cell, key, size)
            if ok is not None:
                ctx.need(ok, C7 | {'C19'}, R, 'the bucket index is not shown to lie between 0 and the number of buckets', t, a[0])
            ctx.need(leaves(cell) <= {key, size, h}, C7, R, 'the bucket depends on something else than the key', t, a[0])
            bshapes.setdefault(role, set()).add(shapes(sub(cell, const(0, cell.w)), 12).replace(show(key), 'KEY').replace(show(h), 'H'))
            heads = [e for e in t.find('load') if index_of(e.addr, cells, 64) is cell]
            others = [e for e in t.ev if e.addr is not None and e.kind in ('load', 'store') and e.addr.kind == 'lin' and
                      any(x is cells for x, _ in terms(e.addr)[1]) and index_of(e.addr, cells, 64) is not cell]
            for e in others:
                ctx.need(False, C7, R, 'the list and the lock belong to different buckets', t, e)
            if not ctx.need(bool(heads), C7, R, 'the bucket is not looked at', t, t.ev[-1]):
                continue
            B = heads[0].addr
            for e in t.ev:
                if e.kind in ('load', 'store') and e.addr is B or e.kind in ('load', 'store') and e.addr is not None and \
                        base_off(e.addr)[0] is not None and base_off(e.addr)[0].kind == 'ld' and \
                        base_off(e.addr)[0] is heads[0].res:
                    ctx.need(lo < e.idx < hi, C7 | {'C03'}, R, 'the bucket is accessed outside of the exclusive part', t, e)
            # walk
            walk, cur, found = [], heads[0].res, None
            while True:
                if t.is0(cur):
                    found = False
                    break
                kl = [e for e in t.find('load', N(cur, 'key')) if e.idx < hi]
                if not kl:
                    break
                c = t.known(eq(kl[0].res, key))
                walk.append(cur)
                if c is True:
                    found = True
                    break
                if c is None:
                    break
                nx = t.find('load', N(cur, 'next'))
                if not nx:
                    break
                cur = nx[0].res
            if any(t.known(eq(x, y)) is True for i, x in enumerate(walk) for y in walk[:i]):
                continue                    # a circular list does not occur
            wr = [e for e in t.writes() if not (ann and e.addr.kind == 'lin' and any(x is ann[0] for x, _ in terms(e.addr)[1]))]
            for e in t.writes():
                if e not in wr:
                    hs = ctx.sizeof('HashOperations')
                    c = terms(sub(e.addr, ann[0]))[0]
                    ix = index_of(addc(e.addr, -c), ann[0], hs)
                    ctx.need(ix is not None and strip(ix) is pid and 0 <= c and c + e.size <= hs and e.idx < lo,
                             C7 | {'C27'}, R, 'the operation is announced in the place of another thread', t, e)
            for e in wr:
                ctx.need(lo < e.idx < hi, C7 | {'C03'}, R, 'the table is changed outside of the exclusive part', t, e)
            al = t.calls('synchAllocObj')
            for c in al:
                ctx.need(c.x['args'][0] is addc(th, O(T, 'pool')), C7 | {'C09', 'C08'}, R, 'the node is taken from a pool of '
                         'another thread', t, c)
            if not ctx.need(found is not None, C7, R, 'the operation ends before the key was found or the list was '
                            'searched to its end', t, t.ev[-1]):
                continue
            rec = t.calls('synchRecycleObj')
            if role != 'insert':
                ctx.need(not al, C7 | {'C08'}, R, 'a node is allocated by an operation that does not insert', t, al[0] if al else None)
            if role == 'search':
                for e in wr:
                    ctx.need(False, C7, R, 'a search changes the table', t, e)
                ctx.need(not rec, C7 | {'C08'}, R, 'a search gives back a node', t, rec[0] if rec else None)
                ctx.need(t.ret is not None and (t.is0(t.ret) is (not found)), C7, R, 'the answer of a search does not tell whether the key was '
                         'found', t, t.ev[-1])
            elif role == 'delete':
                if not found:
                    for e in wr:
                        ctx.need(False, C7, R, 'the deletion of an absent key changes the table', t, e)
                    ctx.need(not rec, C7 | {'C08'}, R, 'a node that was not removed is given back', t, rec[0] if rec else None)
                else:
                    n = walk[-1]
                    link = B if len(walk) == 1 else N(walk[-2], 'next')
                    good = [e for e in wr if e.addr is link and e.size == 8 and t.content(e.val, N(n, 'next'), 0)]
                    ctx.need(len(good) == 1, C7, R, 'the node of the key is not unlinked from its predecessor', t, t.ev[-1])
                    for e in wr:
                        ctx.need(e in good, C7, R, 'a deletion changes another element', t, e)
                    for c in rec:
                        ctx.need(c.x['args'][1] is n and c.x['args'][0] is addc(th, O(T, 'pool')) and clh, {'C08'}, R,
                                 'another node than the removed one is given back', t, c)
            else:
                ctx.need(t.nz(t.ret), C7, R, 'a successful insertion does not return true', t, t.ev[-1])
                ctx.need(not rec or found and al and rec[0].x['args'][1] is al[0].res, {'C08'}, R, 'an insertion gives back a '
                         'node of the table', t, rec[0] if rec else None)
                if found:
                    n = walk[-1]
                    good = [e for e in wr if e.addr is N(n, 'value') and e.val is value and e.size == 8]
                    ctx.need(len(good) == 1, C7, R, 'the insertion of an existing key does not set its value', t, t.ev[-1])
                    for e in wr:
                        ctx.need(e in good or al and base_off(e.addr)[0] is al[0].res, C7, R, 'the insertion of an existing key '
                                 'changes another element', t, e)
                    continue
                if not ctx.need(len(al) == 1, C7, R, 'the insertion of a new key does not allocate exactly one node', t, t.ev[-1]):
                    continue
                n = al[0].res
                links = [e for e in wr if e.val is n and base_off(e.addr)[0] is not n]
                if not ctx.need(len(links) == 1, C7, R, 'the new node is not linked exactly once', t, t.ev[-1]):
                    continue
                l, end = links[0], len(t.ev)
                nv = t.stored(N(n, 'next'), end)
                if l.addr is B:
                    ctx.need(nv is heads[0].res, C7, R, 'the new node does not lead to the rest of the bucket', t, l)
                else:
                    ctx.need(bool(walk) and l.addr is N(walk[-1], 'next') and const_is(nv, True), C7, R,
                             'the new node is not linked at an end of the bucket', t, l)
                ctx.need(t.stored(N(n, 'key'), end) is key, C7, R, 'the new node does not carry the key', t, l)
                ctx.need(t.stored(N(n, 'value'), end) is value, C7 | {'C06'}, R, 'the new node does not carry the value', t, l)
                for e in wr:
                    ctx.need(e is l or base_off(e.addr)[0] is n, C7, R, 'an insertion changes another element', t, e)
    if len(bshapes) == 3:
        ctx.need(bshapes['insert'] == bshapes['search'] == bshapes['delete'], C7, mod + '.bucket', 'insertion, search and '
                 'deletion do not look for a key in the same bucket', where=mod)
    # initialisation
    R = mod + '.init'
    for t in ctx.paths(sinit, mod, opaque=('CLHLockInit', 'DSMSynchStructInit'), k=3, pure=('DSMSynchStructInit',),
                       stable=[(H, f) for f in ('synch', 'cells')], allocs=None):
        h, n, nt = t.args
        i = len(t.ev)
        ctx.need(t.stored(addc(h, O(H, 'size')), i, 4) is n, C7 | {'C26'}, R, 'the number of buckets is not kept', t, t.ev[-1])
        need_array(ctx, t, addc(h, O(H, 'announce')), nt, ctx.sizeof('HashOperations'), C7, R, 'announce')
        cb = need_array(ctx, t, addc(h, O(H, 'cells')), n, 64, C7, R, 'cells')
        sb = need_array(ctx, t, addc(h, O(H, 'synch')), n, 8 if clh else ctx.sizeof('DSMSynchStruct'), C7, R, 'synch')
        if cb is None or sb is None:
            continue
        locks = []
        ctx.need(len(t.calls('DSMSynchStructInit')) <= max(1, len(list(elems(t, n)))), C7 | {'C26', 'C19'}, R,
                 'more buckets are initialised than there are', t, t.ev[-1])
        for j in elems(t, n):
            ctx.need(const_is(t.stored(addc(cb, 64 * j), i), True), C7 | {'C26'}, R, 'a bucket is not empty after '
                     'initialisation', t, t.ev[-1])
            if clh:
                v = t.stored(addc(sb, 8 * j), i)
                ok = v is not None and v.kind == 'call' and t.ev[v.a[0]].x['name'] == 'CLHLockInit'
                ctx.need(ok and t.ev[v.a[0]].x['args'][0] is nt and v not in locks, C7 | {'C26', 'C19'}, R, 'a bucket does not get '
                         'a lock of its own for the given number of threads', t, t.ev[-1])
                locks.append(v)
            else:
                cs = [c for c in t.calls('DSMSynchStructInit') if c.x['args'][0] is addc(sb, ctx.sizeof('DSMSynchStruct') * j)]
                ctx.need(len(cs) == 1 and cs[0].x['args'][1] is nt, C7 | {'C26', 'C19'}, R, 'the universal construction of a '
                         'bucket is not initialised for the given number of threads', t, t.ev[-1])
    for t in ctx.paths(tinit, mod, opaque=('synchInitPool', 'DSMSynchThreadStateInit'), k=3,
                       pure=('synchInitPool', 'DSMSynchThreadStateInit'), stable=[(H, 'synch')] + ([] if clh else [(T, 'th_state')])):
        h, th, n, pid = t.args
        p = t.calls('synchInitPool')
        ctx.need(len(p) == 1 and p[0].x['args'][0] is addc(th, O(T, 'pool')) and is_c(p[0].x['args'][1]) and
                 cval(p[0].x['args'][1]) >= 24, C7 | {'C26', 'C09'}, R, 'the pool of the thread is not initialised for nodes '
                 'of the table', t, t.ev[-1])
        if not clh:
            tb = need_array(ctx, t, addc(th, O(T, 'th_state')), n, ctx.sizeof('DSMSynchThreadState'), C7, R, 'th_state')
            sy = [e.res for e in t.find('load', addc(h, O(H, 'synch')))]
            if tb is None:
                continue
            ctx.need(len(t.calls('DSMSynchThreadStateInit')) <= max(1, len(list(elems(t, n)))), C7 | {'C26', 'C19'}, R,
                     'more thread states are initialised than there are buckets', t, t.ev[-1])
            for j in elems(t, n):
                cs = [c for c in t.calls('DSMSynchThreadStateInit') if c.x['args'][1] is addc(tb, ctx.sizeof('DSMSynchThreadState') * j)]
                ctx.need(len(cs) == 1 and bool(sy) and cs[0].x['args'][0] is addc(sy[0], ctx.sizeof('DSMSynchStruct') * j) and
                         cs[0].x['args'][2] is pid, C7 | {'C26', 'C27'}, R, 'the thread state of a bucket is not initialised for '
                         'its universal construction', t, t.ev[-1])


def elems(t, n, kmax=6):
    """indices that exist on this path: i < n is not excluded"""
    for i in range(kmax):
        if t.known(icmp('sgt', n, const(i, n.w))) is True or t.known(icmp('ugt', n, const(i, n.w))) is True:
            yield i
        else:
            return


def need_array(ctx, t, field, n, elem, tags, R, name, extra=0):
    """the member at field gets an own block with room for n elements; returns the block"""
    i = len(t.ev)
    b = t.stored(field, i)
    if not ctx.need(b is not None and b.kind == 'obj', tags | {'C19', 'C26'}, R, 'array %s is not allocated' % name, t, t.ev[-1]):
        return None
    c = t.ev[b.a[0]]
    size = c.x['args'][-1]
    ok = None
    for x in (VV.sext(n, 64), VV.zext(n, 64)) if n.w < 64 else (n,):
        d = sub(size, addc(scale(x, elem), extra * elem))
        if d.kind == 'c' and cval(d) >= 0:
            ok = True
        else:
            cc, ts = terms(d)
            if len(ts) == 1 and ts[0][0] is x and ts[0][1] >= 0 and cc + ts[0][1] >= 0:
                ok = True
    # products the compiler computes in 32 bits before extending them are not decided
    if ok is None:
        lv = leaves(size)
        ok = False if n not in lv or size.kind in ('lin', 'op', 'c') and size.kind != 'op' else None
    ctx.count(R)
    if ok is False:
        ctx.need(False, tags | {'C19'}, R, 'array %s is smaller than the indices that are used' % name, t, c)
    return b


@group('clhhash')
def clhhash(ctx):
    hash_rules(ctx, 'clhhash', True)


@group('dsmhash')
def dsmhash(ctx):
    hash_rules(ctx, 'dsmhash', False)
