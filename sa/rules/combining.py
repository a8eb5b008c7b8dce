"""CC-Synch, DSM-Synch, H-Synch, Osci, Oyama, flat combining: typestate of the request nodes on every abstract path."""
from .base import *

BIG = (1, 1 << 20)


def serve_calls(t, sf):
    return t.icalls(sf)


def check_call_values(t, c, rule, node, S, f_arg, f_pid, state, lo, tags={'C01'}):
    """sfunc(state, content of node.arg_ret, content of node.pid)"""
    a = c.x['args']
    t.ctx.need(len(a) >= 3 and a[0] is state, tags, rule, 'the operation is not applied to the given state', t, c)
    if len(a) < 3:
        return
    t.ctx.need(t.content(a[1], t.fa(node, S, f_arg), lo, c.idx), tags, rule,
               'the operation is not applied with the argument announced in the request', t, c)
    t.ctx.need(t.content(a[2], t.fa(node, S, f_pid), lo, c.idx), tags, rule,
               'the operation is not applied with the thread id announced in the request', t, c)


def accesses(t, base, S, fields, lo, hi=None):
    out = []
    offs = {t.off(S, f): f for f in fields}
    for e in t.ev[lo:hi]:
        if e.addr is None or e.kind not in ('load', 'store', 'rmw', 'cas'):
            continue
        d = diff_const(e.addr, base)
        if d in offs:
            out.append((e, offs[d]))
    return out



B12 = {'C01', 'C02'}


def const_is(v, zero):
    return v is not None and is_c(v) and (v.a == 0) == zero


def is_flip(t, new, old):
    """new = 1 - old for old in {0, 1}"""
    if is_c(new):
        return new.a in (0, 1) and t.known(eq(old, const(1 - new.a, old.w))) is True
    if new is sub(const(1, old.w), old) or new is VV.bxor(old, const(1, old.w), old.w):
        return True
    if new.kind == 'bits' or new.kind in ('cmp', 'not', 'op'):
        z = eq(old, const(0, old.w))
        if new is VV.zext(z, new.w):
            return True
        if new is VV.zext(VV.trunc(VV.bxor(old, const(1, old.w), old.w), 1), new.w):
            return True
        if new.kind == 'op' and new.a[0] == 'srem' and new.a[1] is addc(old, 1) and new.a[2] is const(2, old.w):
            return True
        if new.kind == 'op' and new.a[0] == 'urem' and new.a[1] is addc(old, 1) and new.a[2] is const(2, old.w):
            return True
        a = addc(old, 1)
        if new is VV.band(a, const(1, a.w), a.w):
            return True
    return False


def serve_chain(t, R, N, p, lo, calls, state, done, early_next, own):
    """requests served in the order of the list: returns (served nodes, first request not served) or None"""
    ctx = t.ctx
    F = lambda b, f: t.fa(b, N, f)
    served, first = [], p
    for i, c in enumerate(calls):
        check_call_values(t, c, R + '.apply', p, N, 'arg_ret', 'pid', state, lo)
        if early_next:
            ld = t.find('load', F(p, 'next'), lo, c.idx)
            if not ctx.need(ld and t.nz(ld[-1].res), B12, R + '.apply', 'a request is applied without having been '
                            'announced (its next pointer was not seen set)', t, c):
                return None
        ctx.need(not [e for e in t.find('store', F(p, 'locked'), lo, c.idx) if const_is(e.val, True)], B12, R + '.serve',
                 'a request is released before it is applied', t, c)
        un = [e for e in t.find('store', F(p, 'locked'), c.idx)]
        if not un:
            if done:
                ctx.need(False, B12, R + '.serve', 'a served request is never released', t, c)
            return None
        u = un[0]
        ctx.need(const_is(u.val, True) and len(un) == 1, B12, R + '.serve',
                 'a served request is not released exactly once', t, u)
        ctx.need(t.stored(F(p, 'arg_ret'), u.idx) is c.res, {'C01'}, R + '.serve',
                 'the result of the operation is not stored in its request before the request is released', t, u)
        s = t.last_store(F(p, 'completed'), u.idx)
        if ctx.need(s is not None and s.idx > lo and const_is(s.val, False), B12, R + '.serve',
                    'a served request is released without being marked completed', t, u):
            a = t.last_store(F(p, 'arg_ret'), s.idx)
            ctx.need(a is not None and a.val is c.res, {'C01'}, R + '.serve',
                     'a request is marked completed before its result is stored', t, s)
        nx = [e for e in t.find('load', F(p, 'next'), lo) if t.nz(e.res)]
        if early_next:
            ctx.need(nx and nx[0].idx < u.idx, B12, R + '.serve',
                     'the successor is not read before the request is released', t, u)
        for e, f in accesses(t, p, N, ('next', 'arg_ret', 'pid', 'locked', 'completed'), u.idx + 1):
            if e.kind == 'load' and (f == 'next' and not early_next or p is own and f in ('arg_ret', 'completed', 'locked')):
                continue
            ctx.need(False, B12 | {'C08'}, R + '.serve', 'member %s of a request is accessed after its owner was allowed '
                     'to go on' % f, t, e)
        served.append(p)
        lo = c.idx
        p = nx[-1].res if nx else None
        if p is None and i + 1 < len(calls):
            ctx.need(False, B12, R + '.apply', 'an operation is applied that belongs to no announced request', t,
                     calls[i + 1])
            return None
        if p in served:
            ctx.need(False, B12, R + '.apply', 'a request is served twice', t, c)
            return None
    return served, p, F(served[-1], 'next') if served else None


def frame(t, R, N, nodes, allowed, lo, size):
    for e in t.find(('store', 'memcpy', 'memset'), lo=lo):
        ok = base_off(e.addr)[0] in allowed or any(
            diff_const(e.addr, q) is not None and 0 <= diff_const(e.addr, q) < size for q in nodes)
        t.ctx.need(ok, B12, R + '.frame', 'a location that belongs to no served request is written', t, e)


def fresh(t, R, N, nn, w, extra=()):
    for f, z in (('next', True), ('locked', False), ('completed', True)):
        t.ctx.need(const_is(t.stored(t.fa(nn, N, f), w.idx), z), B12, R + '.fresh-node',
                   'member %s of the new node is not prepared before the node becomes visible' % f, t, w)


def only_sfunc(t, R, calls, sf):
    for c in t.calls():
        if c.x['fn'].kind != 'fn' and c.x['fn'] is not sf:
            t.ctx.need(False, {'C01'}, R + '.apply', 'something other than the given function is applied', t, c)


def cc_like(ctx, R, fn, N, S, T, tailf, nextf, lock):
    """CC-Synch and the per-node lists of H-Synch"""
    opq = ('CLHLock', 'CLHUnlock') if lock else ()
    for t in ctx.paths(fn, k=3 if ctx.deep else 2, mono=[(N, 'next')], ranges={(S, 'nthreads'): BIG}, opaque=opq,
                       ends=('ret', 'cut')):
        l, th, sf, state, arg, pid = t.args
        done = t.end == 'ret'
        sw = [e for e in t.ev if e.kind == 'rmw' and tailf(t, e.addr)]
        if not sw:
            if done:
                ctx.need(False, B12, R + '.enqueue', 'the request is not added to the list by a SWAP on its tail', t)
            continue
        w = sw[0]
        nn, cur = w.val, w.res
        ctx.need(len(sw) == 1 and w.x['op'] == 'xchg' and w.size == 8, B12, R + '.enqueue',
                 'each call adds exactly one node to the list with one SWAP', t, w)
        ctx.need(nn.kind == 'ld' and nn.a[1] is t.fa(th, T, nextf) and nn.a[0] < w.idx, B12, R + '.own-node',
                 'the node added to the list is not the one the thread owns', t, w)
        fresh(t, R, N, nn, w)
        F = lambda b, f: t.fa(b, N, f)
        link = t.find('store', F(cur, 'next'))
        if not link and not done:
            continue
        if not ctx.need(len(link) == 1 and link[0].val is nn, B12, R + '.announce', 'the request is announced by exactly '
                        'one store of the new node to its next pointer', t, link[0] if link else w):
            continue
        lk = link[0]
        ctx.need(t.stored(F(cur, 'arg_ret'), lk.idx) is arg, {'C01'}, R + '.announce',
                 'the argument is not written to the request before the request is announced', t, lk)
        ctx.need(t.stored(F(cur, 'pid'), lk.idx) is pid, {'C01'}, R + '.announce',
                 'the thread id is not written to the request before the request is announced', t, lk)
        for e, f in accesses(t, nn, N, ('next', 'arg_ret', 'pid', 'locked', 'completed'), w.idx + 1, lk.idx):
            ctx.need(e.kind == 'load', B12, R + '.fresh-node', 'the visible tail node is written by its previous owner', t, e)
        calls = serve_calls(t, sf)
        only_sfunc(t, R, calls, sf)
        first = calls[0].idx if calls else (len(t.ev) - 1 if done else None)
        if first is None:
            continue
        waits = [e for e in t.find('load', F(cur, 'locked'), lk.idx, first) if t.is0(e.res)]
        if not ctx.need(waits and waits[-1].vol, B12, R + '.wait',
                        'the thread goes on without having seen its request unlocked', t, t.ev[first]):
            continue
        wt = waits[0]
        if done:
            ctx.need(t.stored(t.fa(th, T, nextf), len(t.ev)) is cur, B12, R + '.own-node',
                     'the thread does not take over the node of its request for its next call', t, t.ev[-1])
        comp = t.find('load', F(cur, 'completed'), wt.idx, first)
        nz = [e for e in comp if t.nz(e.res)]
        z = [e for e in comp if t.is0(e.res)]
        if lock:
            lks = t.calls('CLHLock')
            uls = t.calls('CLHUnlock')
        if nz:
            ctx.need(not calls, B12, R + '.completed', 'a thread whose request was completed applies operations',
                     t, calls[0] if calls else None)
            if done and not calls:
                ctx.need(t.ret.kind == 'ld' and t.content(t.ret, F(cur, 'arg_ret'), wt.idx), {'C01'}, R + '.result',
                         'a completed request does not return the result stored in it', t, t.ev[-1])
                for e in t.writes(wt.idx):
                    ctx.need(base_off(e.addr)[0] is th, B12, R + '.completed',
                             'a thread whose request was completed writes to shared nodes', t, e)
                if lock:
                    ctx.need(len(lks) == len(uls), {'C02'}, R + '.lock', 'the central lock is not released', t, t.ev[-1])
            continue
        if not ctx.need(bool(z), B12, R + '.completed', 'the thread serves requests without having seen that its '
                        'own one is not completed', t, t.ev[first]):
            continue
        r = serve_chain(t, R, N, cur, lk.idx, calls, state, done, True, cur)
        if lock and calls:
            la = t.fa(l, S, 'central_lock')
            okl = lambda c: t.content(c.x['args'][0], la, 0) and c.x['args'][1] is pid
            pre = [c for c in lks if c.idx < calls[0].idx]
            ctx.need(len(pre) == 1 and okl(pre[0]), {'C02', 'C01'}, R + '.lock', 'operations are applied without holding '
                     'the central lock of the object', t, calls[0])
            ctx.need(not [u for u in uls if u.idx < calls[-1].idx], {'C02', 'C01'}, R + '.lock',
                     'operations are applied after the central lock was released', t, calls[-1])
        if r is None or not done:
            continue
        served, p, _ = r
        if not ctx.need(bool(served), {'C01'}, R + '.apply', 'the thread returns although nobody applied its operation', t,
                        t.ev[-1]):
            continue
        if lock:
            ctx.need(len(lks) == 1 and len(uls) == 1 and uls[0].idx > calls[-1].idx and okl(uls[0]), {'C02'}, R + '.lock',
                     'the central lock is not released exactly once', t, t.ev[-1])
        un = t.find('store', F(p, 'locked'), lk.idx)
        if ctx.need(len(un) == 1 and const_is(un[0].val, True), B12, R + '.handover',
                    'the role of the combiner is not passed to the first request that was not served', t,
                    un[0] if un else t.ev[-1]):
            ctx.need(un[0].idx > calls[-1].idx, B12, R + '.handover', 'the next thread is released while operations '
                     'are still applied', t, un[0])
            ctx.need(not t.find('store', F(p, 'completed'), lk.idx), B12, R + '.handover',
                     'a request that was not served is marked completed', t, un[0])
            for e, f in accesses(t, p, N, ('next', 'arg_ret', 'pid', 'locked', 'completed'), un[0].idx + 1):
                ctx.need(False, B12 | {'C08'}, R + '.handover', 'a request is accessed after its owner was '
                         'allowed to go on', t, e)
        ctx.need(t.ret is calls[0].res or t.content(t.ret, F(cur, 'arg_ret'), calls[0].idx), {'C01'}, R + '.result',
                 'the call does not return the result of its own operation', t, t.ev[-1])
        frame(t, R, N, served + [p], (th, l), lk.idx + 1, ctx.sizeof(N) or 64)


@group('cc')
def cc(ctx):
    cc_like(ctx, 'cc', 'CCSynchApplyOp', 'CCSynchNode', 'CCSynchStruct', 'CCSynchThreadState',
            lambda t, a: a is t.fa(t.args[0], 'CCSynchStruct', 'Tail'), 'next', False)


@group('hsynch')
def hsynch(ctx):
    def tail(t, a):
        # &l->Tail[node_of_thread].ptr: the list of the node of the calling thread
        x = None
        for v in VV.subvals(a):
            if v.kind == 'ld' and v.a[1] is t.fa(t.args[0], 'HSynchStruct', 'Tail'):
                x = v
        if x is None:
            return False
        i = [e.res for e in t.find('load', t.fa(t.args[1], 'HSynchThreadState', 'node_of_thread'))]
        sz = ctx.sizeof_union('HSynchNodePtr')
        return any(a is add(x, scale(VV.zext(v, 64), sz)) for v in i)
    cc_like(ctx, 'hsynch', 'HSynchApplyOp', 'HSynchNode', 'HSynchStruct', 'HSynchThreadState', tail, 'next_node', True)


@group('dsm')
def dsm(ctx):
    N, S, T, R = 'DSMSynchNode', 'DSMSynchStruct', 'DSMSynchThreadState', 'dsm'
    for t in ctx.paths('DSMSynchApplyOp', k=2 if ctx.deep else 1, mono=[(N, 'next')], ranges={(S, 'nthreads'): BIG},
                       ends=('ret', 'cut')):
        l, th, sf, state, arg, pid = t.args
        done = t.end == 'ret'
        F = lambda b, f: t.fa(b, N, f)
        tail = t.fa(l, S, 'Tail')
        sw = t.find('rmw', tail)
        if not sw:
            if done:
                ctx.need(False, B12, R + '.enqueue', 'the request is not added to the list by a SWAP on Tail', t)
            continue
        w = sw[0]
        my, pred = w.val, w.res
        ctx.need(len(sw) == 1 and w.x['op'] == 'xchg' and w.size == 8, B12, R + '.enqueue',
                 'each call adds exactly one node to the list with one SWAP', t, w)
        own_alternates(t, R, th, T, 'MyNodes', my, w)
        fresh(t, R, N, my, w)
        ctx.need(t.stored(F(my, 'arg_ret'), w.idx) is arg and t.stored(F(my, 'pid'), w.idx) is pid, {'C01'}, R + '.announce',
                 'argument or thread id are not written to the request before it becomes visible', t, w)
        calls = serve_calls(t, sf)
        only_sfunc(t, R, calls, sf)
        pred_protocol(t, R, N, my, pred, w, calls, done, F(my, 'locked'), F(my, 'completed'), F(my, 'arg_ret'),
                      lambda lo: serve_chain(t, R, N, my, w.idx, calls, state, done, False, my), tail, l, th,
                      lambda q: [F(q, 'locked')], ctx.sizeof(N) or 64)


def own_alternates(t, R, th, T, arrf, my, w, size=8, deref=True):
    """the thread uses its two nodes alternately"""
    ctx = t.ctx
    tog = t.fa(th, T, 'toggle')
    new = t.stored(tog, len(t.ev), 4)
    first = t.find('store', tog)
    old = [e.res for e in t.find('load', tog, 0, first[0].idx if first else None)]
    ctx.need(len(first) <= 1 or t.end != 'ret', B12, R + '.own-node', 'the thread switches its node more than once', t, w)
    fin = t.end == 'ret'
    o = old[0] if old else None
    if fin:
        ctx.need(o is not None and new is not None and any(is_flip(t, new, x) for x in old), B12, R + '.own-node',
                 'the thread does not switch between its two nodes', t, t.ev[-1])
    if o is None:
        return
    arr = t.fa(th, T, arrf)
    addr = my.a[1] if deref and my.kind == 'ld' else my
    cand = old + ([new] if new is not None else [])
    ok = any(addr is add(arr, scale(VV.sext(v, 64), size)) for v in cand)
    if not ok:
        d = diff_const(addr, arr)
        ok = d in (0, size) and any(t.known(eq(x, const(k, x.w))) is True for x in old for k in (0, 1))
    ctx.need(ok, B12, R + '.own-node', 'the node added to the list is not the one whose turn it is', t, w)


def pred_protocol(t, R, N, my, pred, w, calls, done, locked, completed, result, chain, tail, l, th, unlock, size,
                  wait_first=True):
    """DSM-Synch and Osci after the SWAP: link to the predecessor, wait, serve, pass the role on"""
    ctx = t.ctx
    F = lambda b, f: t.fa(b, N, f)
    first = calls[0].idx if calls else (len(t.ev) - 1 if done else None)
    if first is None:
        return
    p0 = t.is0(pred)
    lk = t.find('store', F(pred, 'next'))
    if p0:
        ctx.need(not lk, B12, R + '.link', 'a node without predecessor writes through its predecessor', t,
                 lk[0] if lk else w)
        lo = w.idx
    else:
        if not ctx.need(p0 is False, B12, R + '.link', 'the thread does not look at its predecessor', t, w):
            return
        if not ctx.need(len(lk) == 1 and lk[0].val is my and lk[0].idx < first, B12, R + '.link',
                        'the node is not linked behind its predecessor', t, lk[0] if lk else w):
            return
        waits = [e for e in t.find('load', locked, lk[0].idx, first) if t.is0(e.res)]
        if not ctx.need(waits and waits[-1].vol, B12, R + '.wait',
                        'the thread goes on without having seen its request unlocked', t, t.ev[first]):
            return
        lo = waits[0].idx
        comp = t.find('load', completed, lo, first)
        if [e for e in comp if t.nz(e.res)]:
            ctx.need(not calls, B12, R + '.completed', 'a thread whose request was completed applies operations', t,
                     calls[0] if calls else None)
            if done and not calls:
                ctx.need(t.ret.kind == 'ld' and t.content(t.ret, result, lo), {'C01'}, R + '.result',
                         'a completed request does not return the result stored in it', t, t.ev[-1])
                for e in t.writes(lo):
                    ctx.need(base_off(e.addr)[0] is th, B12, R + '.completed',
                             'a thread whose request was completed writes to shared nodes', t, e)
            return
        if not ctx.need([e for e in comp if t.is0(e.res)], B12, R + '.completed', 'the thread serves requests without '
                        'having seen that its own one is not completed', t, t.ev[first]):
            return
    r = chain(lo)
    if r is None or not done:
        return
    served, p = r[0], r[1]
    if not ctx.need(bool(served), {'C01'}, R + '.apply', 'the thread returns although nobody applied its operation', t,
                    t.ev[-1]):
        return
    lastn = served[-1]
    cas = t.find('cas', tail)
    okc = [e for e in cas if e.x['ok']]
    for e in cas:
        ctx.need(e.x['exp'][0] is lastn and const_is(e.x['new'][0], True) and e.size == 8, B12, R + '.handover',
                 'the list is emptied although its last node may not have been served', t, e)
        ctx.need(e.idx > calls[-1].idx, B12, R + '.handover', 'the list is emptied while operations are applied', t, e)
    nodes = list(served)
    if okc:
        ctx.need(p is None, B12, R + '.handover', 'the list is emptied although a next request was seen', t, okc[0])
        un = [e for e in t.find('store', lo=okc[0].idx) if base_off(e.addr)[0] not in (th, l)]
        ctx.need(not un, B12, R + '.handover', 'something is written after the list was emptied', t, un[0] if un else None)
    else:
        if ctx.need(p is not None, B12, R + '.handover', 'the role of the combiner is neither passed on nor given up', t,
                    t.ev[-1]):
            nodes.append(p)
            ua = unlock(p)
            un = [e for a in ua for e in t.find('store', a, w.idx)] if ua is not None else None
            if un is not None and ctx.need(len(un) == 1 and const_is(un[0].val, True), B12, R + '.handover',
                                           'the role of the combiner is not passed to exactly the next request', t,
                                           un[0] if un else t.ev[-1]):
                ctx.need(un[0].idx > calls[-1].idx, B12, R + '.handover', 'the next thread is released while operations '
                         'are still applied', t, un[0])
                for e in t.find(('store', 'load'), lo=un[0].idx + 1):
                    for q in served[1:] + [p]:
                        d = diff_const(e.addr, q)
                        if d is not None and 0 <= d < size:
                            ctx.need(False, B12 | {'C08'}, R + '.handover',
                                     'a request is accessed after the role was passed on', t, e)
            ctx.need(not t.find('store', F(p, 'completed') if N == 'DSMSynchNode' else None, w.idx)
                     if N == 'DSMSynchNode' else True, B12, R + '.handover',
                     'a request that was not served is marked completed', t, t.ev[-1])
    ctx.need(t.ret is calls[0].res or t.content(t.ret, result, calls[0].idx), {'C01'}, R + '.result',
             'the call does not return the result of its own operation', t, t.ev[-1])
    if N == 'DSMSynchNode':
        frame(t, R, N, nodes + [pred], (th, l), w.idx + 1, size)


def unext(v):
    """v without sign/zero extension"""
    while True:
        if v.kind == 'op' and v.a[0] == 'sext':
            v = v.a[1]
        elif v.kind == 'bits' and len(v.a) == 2 and v.a[1][1] is None and v.a[1][0] == 0 and v.a[0][1] == 0 and \
                v.a[0][2] == v.a[0][0].w:
            v = v.a[0][0]
        else:
            return v


def is_divrem(v, kinds, a, baddr):
    v = unext(v)
    return v.kind == 'op' and v.a[0] in kinds and unext(v.a[1]) is a and unext(v.a[2]).kind == 'ld' and \
        unext(v.a[2]).a[1] is baddr


@group('osci')
def osci(ctx):
    N, S, T, R, Q = 'OsciNode', 'OsciStruct', 'OsciThreadState', 'osci', 'OsciFiberRec'
    doors = {}
    ts = ctx.paths('OsciApplyOp', k=1, k0=True, mono=[(N, 'next'), (N, 'rec')], ranges={(S, 'nthreads'): BIG,
                   (S, 'fibers_per_thread'): BIG}, ends=('ret', 'cut'))
    QS = ctx.sizeof(Q) or 16
    NS = ctx.sizeof(N) or 24
    for t in ts:
        l, th, sf, state, arg, pid = t.args
        F = lambda b, f: t.fa(b, N, f)
        G = lambda b, f: t.fa(b, Q, f)
        done = t.end == 'ret'
        calls = serve_calls(t, sf)
        only_sfunc(t, R, calls, sf)
        first = calls[0].idx if calls else (len(t.ev) - 1 if done else None)
        tail = F(l, 'next') if False else t.fa(l, S, 'Tail')
        fpt = t.fa(l, S, 'fibers_per_thread')
        sw = t.find('rmw', tail)
        # own record: where the argument goes
        sa = [e for e in t.find('store', lo=0, hi=first) if e.val is arg]
        if first is None:
            continue
        if not ctx.need(len(sa) == 1, {'C01'}, R + '.announce', 'the argument is not written to exactly one request', t,
                        t.ev[first]):
            continue
        rec = addc(sa[0].addr, -t.off(Q, 'arg_ret'))
        b, c, o = base_off(rec)
        okr = b is not None and b.kind == 'ld' and c == 0 and len(o) == 1 and o[0][1] == QS and \
            is_divrem(o[0][0], ('urem', 'srem'), pid, fpt)
        if not ctx.need(okr, {'C01', 'C19'}, R + '.announce', 'the request is not written to the record of the calling '
                        'fiber', t, sa[0]):
            continue
        cur = addc(b.a[1], -t.off(N, 'rec'))
        for f, chk, tg in (('pid', lambda v: v is pid, {'C01'}), ('locked', lambda v: const_is(v, False), B12),
                       ('completed', lambda v: const_is(v, True), B12)):
            s = t.find('store', G(rec, f), 0, first)
            ctx.need(len(s) >= 1 and chk(s[-1].val), tg, R + '.announce',
                     'member %s of the request is not prepared' % f, t, sa[0])
        prep = [e for f in ('arg_ret', 'pid', 'locked', 'completed') for e in t.find('store', G(rec, f), 0, first)]
        lastp = max(e.idx for e in prep)
        doorst = t.find('store', F(cur, 'door'), 0, first)
        doorcas = [e for e in t.find('cas', F(cur, 'door'), 0, first) if e.x['ok']]
        alias = [v for v in t.equals(cur) if base_off(v)[0] is th]
        mine = bool(alias)
        # the node in which the request is placed
        if not sw:
            # joined the node of another fiber
            cp = cur.kind == 'ld' or mine
            ctx.need(cur.kind == 'ld' and combining_point(t, cur.a[1], l, S, pid, fpt), B12, R + '.join',
                     'the request is not placed in the node found at the combining point of the group', t, sa[0])
            if not ctx.need(len(doorcas) == 1 and doorcas[0].idx < min(e.idx for e in prep) and len(doorst) == 1 and
                            doorst[0].idx > lastp, B12, R + '.door',
                            'the request is written without holding the door of the node', t, sa[0]):
                continue
            d = doorcas[0].x
            doors.setdefault('join', (d['exp'][0], d['new'][0], doorst[0].val, t, doorcas[0]))
            ctx.need(d['new'][0] is not d['exp'][0] and doorst[0].val is d['exp'][0], B12, R + '.door',
                     'the door of the node is not locked and reopened', t, doorcas[0])
            lo0 = doorst[0].idx
            waits = [e for e in t.find('load', G(rec, 'locked'), lo0, first) if t.is0(e.res)]
            if not ctx.need(waits and waits[-1].vol, B12, R + '.wait', 'the thread goes on without having seen its '
                            'request unlocked', t, t.ev[first]):
                continue
            comp = t.find('load', G(rec, 'completed'), waits[0].idx, first)
            ctx.need(not t.find('store', t.fa(th, T, 'toggle'), 0, first), B12, R + '.own-node', 'a thread that did not '
                     'use its node switches to the other one', t, t.ev[first])
            if [e for e in comp if t.nz(e.res)]:
                ctx.need(not calls, B12, R + '.completed', 'a thread whose request was completed applies operations', t,
                         calls[0] if calls else None)
                if done and not calls:
                    ctx.need(t.content(t.ret, G(rec, 'arg_ret'), waits[0].idx) and t.ret is not arg, {'C01'}, R + '.result',
                             'a completed request does not return the result stored in it', t, t.ev[-1])
                    w_ = t.writes(waits[0].idx)
                    ctx.need(not w_, B12, R + '.completed', 'a thread whose request was completed writes to shared nodes',
                             t, w_[0] if w_ else None)
                continue
            if not ctx.need([e for e in comp if t.is0(e.res)], B12, R + '.completed', 'the thread serves requests '
                            'without having seen that its own one is not completed', t, t.ev[first]):
                continue
            lo = waits[0].idx
            r = osci_chain(t, R, N, Q, cur, rec, lo, calls, state, done, l, S, QS)
            if r is None or not done:
                continue
            osci_end(t, R, N, Q, r, calls, tail, G(rec, 'arg_ret'), fpt, QS, lo)
        else:
            w = sw[0]
            ctx.need(len(sw) == 1 and w.val is cur and mine, B12, R + '.enqueue', 'the node that holds the own '
                     'request is not added to the list by one SWAP on Tail', t, w)
            ctx.need(lastp < w.idx and const_is(t.stored(F(cur, 'next'), w.idx), True), B12, R + '.fresh-node',
                     'the node is added to the list before it is prepared', t, w)
            own_alternates(t, R, th, T, 'next_node', alias[0] if alias else cur, w, NS, False)
            cps = [e for e in t.find('cas') if e.x['ok'] and e.x['new'][0] in [cur] + alias and e.idx < w.idx]
            lcp = [e for e in t.find('load', lo=0, hi=w.idx) if e.res is cur or
                   t.known(eq(e.res, cur)) is True and e.size == 8]
            point = None
            for e in cps + lcp:
                if combining_point(t, e.addr, l, S, pid, fpt):
                    point = e
            if not ctx.need(point is not None, B12, R + '.point', 'the thread adds its node without having acquired the '
                            'combining point of its group', t, w):
                continue
            rel = t.find('store', point.addr, point.idx)
            waits0 = t.find('load', G(rec, 'locked'), w.idx)
            lim = waits0[0].idx if waits0 else first
            ctx.need(len(rel) == 1 and const_is(rel[0].val, True) and rel[0].idx < lim and rel[0].idx > lastp, B12,
                     R + '.point', 'the combining point is not released once before the thread waits or serves', t,
                     rel[0] if rel else w)
            if not ctx.need(len(doorst) == 1 and len(doorcas) == 1 and doorst[0].idx > lastp and
                            doorcas[0].idx > doorst[0].idx and doorcas[0].idx < w.idx, B12, R + '.door',
                            'the door is not opened after the node is prepared and closed before it is added to the list',
                            t, w):
                continue
            s = t.find('store', F(cur, 'next'), 0, w.idx)
            d = doorcas[0].x
            ctx.need(d['exp'][0] is doorst[0].val and d['new'][0] is not d['exp'][0], B12, R + '.door',
                     'the door is closed although somebody may be inside', t, doorcas[0])
            doors.setdefault('own', (d['exp'][0], d['new'][0], t, doorcas[0]))
            pred_protocol(t, R, N, cur, w.res, w, calls, done, G(rec, 'locked'), G(rec, 'completed'), G(rec, 'arg_ret'),
                          lambda lo: osci_chain(t, R, N, Q, cur, rec, lo, calls, state, done, l, S, QS), tail, l, th,
                          lambda q: osci_unlock(t, R, N, Q, q, fpt, QS, calls), NS)
    if 'own' in doors and 'join' in doors:
        a, b = doors['own'], doors['join']
        ctx.need(a[0] is b[0] and a[1] is not b[1], B12, R + '.door', 'a fiber can enter a node whose door was closed',
                 b[3], b[4])


def combining_point(t, addr, l, S, pid, fpt):
    b, c, o = base_off(addr)
    return b is not None and b.kind == 'ld' and b.a[1] is t.fa(l, S, 'current_node') and c == 0 and len(o) == 1 and \
        o[0][1] >= 8 and is_divrem(o[0][0], ('udiv', 'sdiv'), pid, fpt)


def osci_chain(t, R, N, Q, cur, own, lo0, calls, state, done, l, S, QS):
    """every request of every node of the list that is not completed is served"""
    ctx = t.ctx
    F = lambda b, f: t.fa(b, N, f)
    G = lambda b, f: t.fa(b, Q, f)
    p, served, todo = cur, [], list(calls)
    fpt = t.fa(l, S, 'fibers_per_thread')
    pos = lo0
    pend_end = calls[-1].idx if calls else pos
    while True:
        # records of p: addresses rec + QS*i
        recs, released = {}, {}
        for e in t.find('load', lo=pos):
            b, c, o = base_off(e.addr)
            if b is not None and b.kind == 'ld' and b.a[1] is F(p, 'rec') and not o and c >= 0 and \
                    c % QS == t.off(Q, 'completed') and c // QS not in recs:
                recs[c // QS] = e
        mine = []
        while todo:
            c = todo[0]
            v = c.x['args'][1] if len(c.x['args']) > 1 else None
            if v is None or v.kind != 'ld':
                break
            b, k, o = base_off(v.a[1])
            if b is None or b.kind != 'ld' or b.a[1] is not F(p, 'rec') or o:
                break
            mine.append((c, addc(v.a[1], -t.off(Q, 'arg_ret')), k // QS))
            todo.pop(0)
        seen = set()
        for c, r, i in mine:
            a = c.x['args']
            ctx.need(a[0] is state, {'C01'}, R + '.apply', 'the operation is not applied to the given state', t, c)
            ctx.need(a[2].kind == 'ld' and a[2].a[1] is G(r, 'pid') or t.content(a[2], G(r, 'pid'), lo0, c.idx), {'C01'},
                     R + '.apply', 'the operation is not applied with the thread id of its own request', t, c)
            e = recs.get(i)
            ctx.need(e is not None and e.idx < c.idx and t.is0(e.res) and i not in seen, B12, R + '.apply',
                     'an operation is applied without having seen its request not completed', t, c)
            seen.add(i)
            un = t.find('store', G(r, 'locked'), lo0)
            if not un:
                if done:
                    ctx.need(False, B12, R + '.serve', 'a served request is never released', t, c)
                return None
            u = un[0]
            ctx.need(len(un) == 1 and const_is(u.val, True) and u.idx > c.idx, B12, R + '.serve',
                     'a served request is not released exactly once after it was applied', t, u)
            ctx.need(t.stored(G(r, 'arg_ret'), u.idx) is c.res, {'C01'}, R + '.serve', 'the result of the operation is '
                     'not stored in its request before the request is released', t, u)
            s = t.last_store(G(r, 'completed'), u.idx)
            if ctx.need(s is not None and s.idx > c.idx and const_is(s.val, False), B12, R + '.serve',
                        'a served request is released without being marked completed', t, u):
                x = t.last_store(G(r, 'arg_ret'), s.idx)
                ctx.need(x is not None and x.val is c.res, {'C01'}, R + '.serve', 'a request is marked completed before '
                         'its result is stored', t, s)
        # completeness of this node
        for i, e in recs.items():
            if t.is0(e.res) and i not in seen and (todo or done):
                ctx.need(False, B12, R + '.apply', 'a pending request of a served node is not applied', t, e)
        if todo or done:
            m = len(recs)
            if not ctx.need(sorted(recs) == list(range(m)), B12, R + '.apply', 'a record of the node is skipped', t,
                            t.ev[pos]):
                return None
            vals = [e.res for e in t.find('load', fpt)]
            ok = any(t.known(VV.lt('ult', const(m, v.w), v)) is False or t.known(VV.lt('slt', const(m, v.w), v)) is False
                     or t.known(eq(v, const(m, v.w))) for v in vals)
            ctx.need(ok, B12, R + '.apply', 'not all the records of a served node are looked at', t, t.ev[-1])
        if not calls and p is cur and recs and all(t.nz(e.res) for e in recs.values()):
            return None          # impossible: the own request is not completed
        served.append(p)
        nx = [e for e in t.find('load', F(p, 'next'), lo0) if t.nz(e.res)]
        p2 = nx[-1].res if nx else None
        if not todo:
            # a node without applied requests may have been visited too
            if p2 is not None and visited(t, F, p2, Q, QS, t.off(Q, 'completed')) and \
                    [e for e in t.find('load', F(p2, 'next'))]:
                p = p2
                continue
            return served, p2
        if p2 is None or p2 in served:
            ctx.need(False, B12, R + '.apply', 'an operation is applied that belongs to no announced request', t, todo[0])
            return None
        p = p2


def visited(t, F, p, Q, QS, co):
    ra = F(p, 'rec')
    for e in t.find('load'):
        b, c, o = base_off(e.addr)
        if b is not None and b.kind == 'ld' and b.a[1] is ra and not o and c % QS == co:
            # passed over in the serving loop: the next pointer is read after it
            if [x for x in t.find('load', F(p, 'next'), e.idx)]:
                return True
    return False


def osci_unlock(t, R, N, Q, q, fpt, QS, calls):
    """addresses whose locked member is the one to clear: the first record of q that is not completed"""
    ra = t.fa(q, N, 'rec')
    co, lo_ = t.off(Q, 'completed'), t.off(Q, 'locked')
    seen = {}
    for e in t.find('load', lo=calls[-1].idx if calls else 0):
        b, c, o = base_off(e.addr)
        if b is not None and b.kind == 'ld' and b.a[1] is ra and not o and c % QS == co:
            seen[c // QS] = e
    out, pend = set(), False
    for e in t.find('store'):
        b, c, o = base_off(e.addr)
        if b is not None and b.kind == 'ld' and b.a[1] is ra:
            if o or c % QS != lo_:
                t.ctx.need(False, B12, R + '.handover', 'a request that was not served is changed', t, e)
                continue
            x = seen.get(c // QS)
            t.ctx.need(x is not None and t.is0(x.res), B12, R + '.handover',
                       'the role of the combiner is passed to a fiber without a pending request', t, e)
            out.add(e.addr)
    if not out and seen and not [1 for e in seen.values() if not t.nz(e.res)]:
        return None     # a linked node always has a pending request
    return sorted(out, key=lambda v: v.id)


def osci_end(t, R, N, Q, r, calls, tail, result, fpt, QS, lo):
    ctx = t.ctx
    served, p = r
    if not ctx.need(bool(served), {'C01'}, R + '.apply', 'nothing is served', t, t.ev[-1]):
        return
    cas = t.find('cas', tail)
    for e in cas:
        ctx.need(e.x['exp'][0] is served[-1] and const_is(e.x['new'][0], True), B12, R + '.handover',
                 'the list is emptied although its last node may not have been served', t, e)
    if [e for e in cas if e.x['ok']]:
        ctx.need(p is None, B12, R + '.handover', 'the list is emptied although a next request was seen', t, cas[0])
    elif ctx.need(p is not None, B12, R + '.handover', 'the role of the combiner is neither passed on nor given up', t,
                  t.ev[-1]):
        u = osci_unlock(t, R, N, Q, p, fpt, QS, calls)
        if u is not None:
            un = [e for a in u for e in t.find('store', a)]
            ctx.need(len(un) == 1 and const_is(un[0].val, True), B12, R + '.handover',
                     'the role of the combiner is not passed to exactly one fiber of the next node', t,
                     un[0] if un else t.ev[-1])
    ctx.need(t.ret.kind == 'ld' and t.ret.a[1] is result and t.ret.a[0] > (calls[-1].idx if calls else lo), {'C01'},
             R + '.result', 'the call does not return the result of its own operation', t, t.ev[-1])


@group('oyama')
def oyama(ctx):
    N, S, T, R = 'OyamaAnnounceNode', 'OyamaStruct', 'OyamaThreadState', 'oyama'
    allf = ('next', 'arg_ret', 'pid', 'completed')
    for t in ctx.paths('OyamaApplyOp', k=2 if ctx.deep else 1, ranges={(S, 'nthreads'): BIG}, ends=('ret', 'cut')):
        l, th, sf, arg, pid = t.args
        F = lambda b, f: t.fa(b, N, f)
        done = t.end == 'ret'
        tail, lock = t.fa(l, S, 'tail'), t.fa(l, S, 'lock')
        my = t.fa(th, T, 'my_node')
        calls = serve_calls(t, sf)
        only_sfunc(t, R, calls, sf)
        first = calls[0].idx if calls else (len(t.ev) - 1 if done else None)
        if first is None:
            continue
        push = [e for e in t.find('cas', tail) if e.x['ok']]
        if not ctx.need(len(push) == 1 and push[0].idx < first and push[0].x['new'][0] is my and push[0].size == 8, B12,
                        R + '.enqueue', 'the request is not added to the list by exactly one successful CAS', t,
                        push[0] if push else t.ev[first]):
            continue
        pu = push[0]
        for f, ok in (('arg_ret', lambda v: v is arg), ('pid', lambda v: v is pid),
                      ('completed', lambda v: const_is(v, True)),
                      ('next', lambda v: v is not None and (v is pu.x['exp'][0] or
                                                            t.content(pu.x['exp'][0], F(my, 'next'), 0, pu.idx)))):
            s = t.last_store(F(my, f), pu.idx)
            ctx.need(s is not None and ok(s.val), {'C01'} if f in ('arg_ret', 'pid') else B12, R + '.announce',
                     'member %s of the request does not have its value when the request becomes visible' % f, t, pu)
        s = t.last_store(F(my, 'next'), pu.idx)
        if s is not None and pu.x['exp'][0].kind == 'ld':
            x = pu.x['exp'][0]
            ctx.need(x is s.val or x.a[1] is F(my, 'next') and x.a[0] > s.idx, B12, R + '.announce',
                     'the expected tail differs from the successor of the request', t, pu)
        for e, f in accesses(t, my, N, allf, pu.idx + 1):
            ctx.need(e.kind == 'load', B12, R + '.announce', 'the own request is written after it became visible', t, e)
        lk = [e for e in t.find('cas', lock) if e.x['ok']]
        un = t.find('store', lock)
        if not lk:
            ctx.need(not calls, B12, R + '.lock', 'operations are applied without holding the lock', t,
                     calls[0] if calls else None)
            ctx.need(not un, B12, R + '.lock', 'the lock is released by a thread that does not hold it', t,
                     un[0] if un else None)
            if done:
                c = [e for e in t.find('load', F(my, 'completed'), pu.idx) if t.nz(e.res)]
                ctx.need(c and t.ret.kind == 'ld' and t.ret.a[1] is F(my, 'arg_ret') and t.ret.a[0] > c[0].idx, {'C01'},
                         R + '.result', 'the call returns without having seen its request completed and reading its result '
                         'after that', t, t.ev[-1])
            continue
        a = lk[0]
        ctx.need(len(lk) == 1 and const_is(a.x['exp'][0], True) and const_is(a.x['new'][0], False) and a.idx < first and
                 a.size == 4, B12, R + '.lock', 'the lock is not taken from free to held by one CAS', t, a)
        if calls:
            ctx.need(not [e for e in un if e.idx < calls[-1].idx], B12, R + '.lock',
                     'operations are applied after the lock was released', t, calls[-1])
        sw = t.find('rmw', tail)
        todo = list(calls)
        open_ = False
        for w in sw:
            ctx.need(w.x['op'] == 'xchg' and const_is(w.val, True) and w.idx > a.idx, B12, R + '.take',
                     'the list of requests is not taken over by a SWAP with NULL under the lock', t, w)
            p = w.res
            if t.is0(p):
                continue
            lo = w.idx
            while True:
                if t.is0(p):
                    break
                c = todo.pop(0) if todo and owner_is(t, todo[0], p, N) else None
                if c is None:
                    if t.nz(p) or not done:
                        if done:
                            ctx.need(False, B12, R + '.apply', 'a request taken from the list is not applied', t, w)
                        open_ = True
                        break
                    ctx.need(False, B12, R + '.apply', 'a request taken from the list is not applied', t, w)
                    open_ = True
                    break
                g = c.x['args']
                ctx.need(t.content(g[0], F(p, 'arg_ret'), lo, c.idx) and t.content(g[1], F(p, 'pid'), lo, c.idx), {'C01'},
                         R + '.apply', 'the operation is not applied with argument and thread id of its request', t, c)
                cs = t.find('store', F(p, 'completed'), lo)
                if not cs:
                    if done:
                        ctx.need(False, B12, R + '.serve', 'a served request is never completed', t, c)
                    open_ = True
                    break
                u = cs[0]
                ctx.need(len(cs) == 1 and const_is(u.val, False) and u.idx > c.idx and
                         t.stored(F(p, 'arg_ret'), u.idx) is c.res, B12, R + '.serve',
                         'a request is completed before its result is stored', t, u)
                nx = [e for e in t.find('load', F(p, 'next'), lo)]
                if not nx:
                    open_ = True
                    break
                ctx.need(nx[-1].idx < u.idx, B12 | {'C08'}, R + '.serve', 'the successor is read after the request is '
                         'released to its owner', t, nx[-1])
                for e, f in accesses(t, p, N, allf, u.idx + 1):
                    ctx.need(False, B12 | {'C08'}, R + '.serve', 'a request is accessed after its owner was allowed to '
                             'go on', t, e)
                lo = u.idx
                p = nx[-1].res
            if open_:
                break
        if todo and not open_:
            ctx.need(False, B12, R + '.apply', 'an operation is applied that belongs to no request of the list', t, todo[0])
        if not done or open_:
            continue
        ctx.need(bool(sw) and (not un or sw[0].idx < un[0].idx), B12, R + '.take', 'the combiner does not look for requests '
                 'after it took the lock', t, a)
        ctx.need(len(un) == 1 and const_is(un[0].val, True) and un[0].idx > (calls[-1].idx if calls else a.idx), B12,
                 R + '.lock', 'the lock is not released exactly once', t, un[0] if un else t.ev[-1])
        ctx.need(t.ret.kind == 'ld' and t.ret.a[1] is F(my, 'arg_ret') and t.ret.a[0] > (calls[-1].idx if calls else a.idx),
                 {'C01'}, R + '.result', 'the call does not return the result of its own operation', t, t.ev[-1])


def owner_is(t, c, p, N, argi=0, f='arg_ret'):
    v = c.x['args'][argi] if len(c.x['args']) > argi else None
    return v is not None and v.kind == 'ld' and v.a[1] is t.fa(p, N, f)


@group('fc')
def fc(ctx):
    N, S, T, R = 'FCRequest', 'FCStruct', 'FCThreadState', 'fc'
    applied = False
    for t in ctx.paths('FCApplyOp', k=1, k0=True, mono=[(T, 'node')], ends=('ret', 'cut')):
        l, th, sf, state, arg, pid = t.args
        F = lambda b, f: t.fa(b, N, f)
        done = t.end == 'ret'
        calls = serve_calls(t, sf)
        applied = applied or bool(calls)
        only_sfunc(t, R, calls, sf)
        first = calls[0].idx if calls else (len(t.ev) - 1 if done else None)
        if first is None:
            continue
        head, lock = t.fa(l, S, 'head'), t.fa(l, S, 'lock')
        sa = [e for e in t.find('store', lo=0, hi=first) if e.val is arg]
        if not ctx.need(len(sa) == 1, {'C01'}, R + '.announce', 'the argument is not written to exactly one request', t,
                        t.ev[first]):
            continue
        rq = addc(sa[0].addr, -t.off(N, 'val'))
        ctx.need(rq.kind == 'ld' and rq.a[1] is t.fa(th, T, 'node'), B12, R + '.own-node',
                 'the request is not written to the node of the calling thread', t, sa[0])
        pe = [e for e in t.find('store', F(rq, 'pending'), 0, first) if const_is(e.val, False)]
        if not ctx.need(len(pe) == 1, B12, R + '.announce', 'the request is not marked pending exactly once', t, sa[0]):
            continue
        ctx.need(sa[0].idx < pe[0].idx and t.stored(F(rq, 'pid'), pe[0].idx) is pid, {'C01'}, R + '.announce',
                 'argument or thread id are not written before the request is marked pending', t, pe[0])
        for f in ('val', 'pid'):
            w = [e for e in t.find('store', F(rq, f), pe[0].idx) if not any(e.val is c.res for c in calls)]
            ctx.need(not w, {'C01'}, R + '.announce', 'the own request is changed while it is pending', t, w[0] if w else None)
        # insertion of the request into the list
        last_in = 0
        for e in t.find('cas', head):
            x = e.x
            ctx.need(x['new'][0] is rq and t.stored(F(rq, 'next'), e.idx) is x['exp'][0] and x['exp'][0].kind == 'ld' and
                     x['exp'][0].a[1] is head, B12, R + '.list', 'the request is linked into the list with a successor '
                     'that is not the expected head', t, e)
            ctx.need(const_is(t.stored(F(rq, 'active'), e.idx), False), B12, R + '.list',
                     'the request becomes reachable before it is marked active', t, e)
            if x['ok']:
                c = [y for y in t.find('load', F(rq, 'active'), last_in, e.idx) if t.is0(y.res)]
                ctx.need(bool(c), B12, R + '.list', 'a request that is in the list is inserted again', t, e)
                last_in = e.idx
        lk = [e for e in t.find('cas', lock) if e.x['ok']]
        un = t.find('store', lock)
        if not lk:
            ctx.need(not calls, B12, R + '.lock', 'operations are applied without holding the lock', t,
                     calls[0] if calls else None)
            ctx.need(not un, B12, R + '.lock', 'the lock is released by a thread that does not hold it', t,
                     un[0] if un else None)
            if done:
                c = [e for e in t.find('load', F(rq, 'pending'), pe[0].idx) if t.is0(e.res)]
                ctx.need(c and c[0].vol and t.ret.kind == 'ld' and t.ret.a[1] is F(rq, 'val') and t.ret.a[0] > c[0].idx,
                         {'C01'}, R + '.result', 'the call returns without having seen its request served and reading its '
                         'result after that', t, t.ev[-1])
            continue
        a = lk[0]
        ctx.need(len(lk) == 1 and const_is(a.x['exp'][0], True) and const_is(a.x['new'][0], False) and a.idx < first and
                 a.size == 8, B12, R + '.lock', 'the lock is not taken from free to held by one CAS', t, a)
        if calls:
            ctx.need(not [e for e in un if e.idx < calls[-1].idx], B12, R + '.lock',
                     'operations are applied after the lock was released', t, calls[-1])
        # own request in the list before the pass
        act = t.find('load', F(rq, 'active'), 0, first)
        inl = [e for e in t.find('cas', head, 0, first) if e.x['ok']]
        # every application belongs to a pending request reachable from the head
        lo_, relim = a.idx, (un[0].idx if un else len(t.ev))
        reach = {id(e.res) for e in t.find('load', head)}
        reach |= {id(e.x['exp'][0]) for e in t.find('cas', head)} | {id(rq)}
        nxt = {}
        for e in t.field('load', N, 'next'):
            b = addc(e.addr, -t.off(N, 'next'))
            if id(b) in reach:
                reach.add(id(e.res))
                nxt.setdefault(id(b), []).append(e.res)
        broken = False
        seen, served = set(), {}
        for c in calls:
            g = c.x['args']
            q = addc(g[1].a[1], -t.off(N, 'val')) if len(g) > 2 and g[1].kind == 'ld' else None
            if not ctx.need(q is not None and id(q) in reach, B12, R + '.apply', 'an operation is applied that belongs to '
                            'no request of the list', t, c):
                broken = True
                break
            pl = t.find('load', F(q, 'pending'), lo_, c.idx)
            zs = [e for e in t.find('store', F(q, 'pending'), lo_, c.idx) if const_is(e.val, True)]
            ok = pl and t.nz(pl[-1].res) and not (zs and zs[-1].idx > pl[-1].idx)
            if not ctx.need(ok, B12, R + '.apply', 'an operation is applied for a request that was not seen pending', t, c):
                broken = True
                break
            seen.add(pl[-1].idx)
            ctx.need(g[0] is state and t.content(g[1], F(q, 'val'), pl[-1].idx, c.idx) and
                     t.content(g[2], F(q, 'pid'), pl[-1].idx, c.idx), {'C01'}, R + '.apply', 'the operation is not '
                     'applied to the given state with argument and thread id of the pending request', t, c)
            st = [e for e in t.find('store', F(q, 'pending'), c.idx, relim)]
            if not st:
                if done:
                    ctx.need(False, B12, R + '.serve', 'a served request stays pending', t, c)
                broken = True
                break
            u = st[0]
            ctx.need(const_is(u.val, True) and t.stored(F(q, 'val'), u.idx) is c.res, B12, R + '.serve',
                     'a request is marked served before its result is stored', t, u)
            for w in t.find('store', F(q, 'val'), u.idx + 1):
                ctx.need(any(w.val is c2.res for c2 in calls if u.idx < c2.idx < w.idx), {'C01'}, R + '.serve',
                         'the result of a served request is changed', t, w)
        if done and not broken:
            for e in t.field('load', N, 'pending', lo_, relim):
                b = addc(e.addr, -t.off(N, 'pending'))
                if id(b) in reach and t.nz(e.res):
                    cs = [c for c in calls if c.idx > e.idx and c.x['args'][1].kind == 'ld' and
                          c.x['args'][1].a[1] is F(b, 'val')]
                    ctx.need(bool(cs), B12, R + '.apply', 'a pending request is passed over', t, e)
        # one pass looks at every node of the list
        passes = 0
        for p in [h.res for h in t.find('load', head, 0, relim)] + ([rq] if inl else []):
            ok, vis = True, set()
            while ok and not t.is0(p):
                vis.add(id(p))
                ok = bool(t.find('load', F(p, 'pending'), lo_, relim))
                nx = [x for x in nxt.get(id(p), ()) if id(x) not in vis]
                ok = ok and bool(nx)
                p = nx[-1] if nx else p
                if ok and len(nx) > 1 and not t.is0(p):
                    p = next((x for x in nx if t.is0(x)), p)
            passes += ok
        # removal from the list
        for e in t.field('store', N, 'next', a.idx):
            b = addc(e.addr, -t.off(N, 'next'))
            if b is rq and [c for c in t.find('cas', head) if c.x['exp'][0] is e.val]:
                continue
            v = e.val
            ok = v.kind == 'ld'
            if ok:
                x = addc(v.a[1], -t.off(N, 'next'))
                ok = x.kind == 'ld' and x.a[1] is e.addr
                z = [s for s in t.find('store', F(x, 'active'), e.idx) if const_is(s.val, True)] if ok else []
                ok = ok and (z or not done)
            ctx.need(bool(ok), B12, R + '.list', 'a node is unlinked from the list without being marked inactive after it',
                     t, e)
        for e in t.field('store', N, 'active', a.idx):
            if const_is(e.val, True):
                b = addc(e.addr, -t.off(N, 'active'))
                ok = [s for s in t.field('store', N, 'next', a.idx, e.idx) if s.val.kind == 'ld' and s.val.a[1] is F(b, 'next')]
                ctx.need(bool(ok), B12, R + '.list', 'a node that stays in the list is marked inactive', t, e)
        if not done or broken:
            continue
        ctx.need(passes > 0, B12, R + '.apply', 'the combiner never goes through the whole list', t, a)
        ctx.need(bool(act) and (t.nz(act[-1].res) or bool(inl)), B12, R + '.list', 'the combiner does not make sure that '
                 'its own request is in the list', t, a)
        ctx.need(len(un) == 1 and const_is(un[0].val, True) and un[0].idx > (calls[-1].idx if calls else a.idx), B12,
                 R + '.lock', 'the lock is not released exactly once', t, un[0] if un else t.ev[-1])
        ctx.need(t.ret.kind == 'ld' and t.ret.a[1] is F(rq, 'val') and t.ret.a[0] > (calls[-1].idx if calls else a.idx),
                 {'C01'}, R + '.result', 'the call does not return the result of its own operation', t, t.ev[-1])
    ctx.need(applied, B12, R + '.apply', 'no path of the combiner applies an operation', where='fc.c (FCApplyOp)')
