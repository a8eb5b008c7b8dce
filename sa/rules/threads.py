"""Starting and joining threads, fibers, and the placement of threads on cores and nodes."""
from .base import *
from .combining import const_is
from .prims import gdef, is_tls
import re


def narrow(v):
    """strips extensions: the value a widened or truncated one comes from"""
    while True:
        if v.kind == 'op' and v.a[0] in ('sext', 'zext'):
            v = v.a[1]
        elif v.kind == 'bits' and v.a[0][1] == 0 and all(p[1] is None and p[0] == 0 for p in v.a[1:]):
            v = v.a[0][0]
        else:
            return v


def same(a, b):
    return a is b or a is not None and (is_c(a) and is_c(b) and cval(a) == cval(b) or narrow(a) is b)


def isld(v, g):
    v = narrow(v)
    return v.kind == 'ld' and v.a[1] is g


def globs(v):
    """globals a value was loaded from"""
    r, seen, w = set(), set(), [v]
    while w:
        x = w.pop()
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        if x.kind == 'ld' and x.a[1].kind == 'glob':
            r.add(x.a[1])
        if isinstance(x.a, tuple):
            for y in x.a:
                w.append(y)
                if isinstance(y, tuple):
                    for z in y:
                        w.append(z)
                        if isinstance(z, tuple):
                            w += z
    return r


def created(prog, mod, name='pthread_create', arg=2):
    """functions that are handed to a call"""
    r = []
    for f in mod.funcs.values():
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'call' and i.a[1][0] == 'g' and i.a[1][1] == name and len(i.a[2]) > arg:
                    for o in passed(mod, f, i.a[2][arg][1]):
                        if o not in r:
                            r.append(o)
    return r


def passed(mod, f, op, depth=3):
    """the functions that an operand may be, also through the parameters of helpers"""
    o = f.source(op)
    if o[0] == 'g':
        return [o[1]]
    names = [p[1] for p in f.params]
    if o[0] != 'r' or o[1] not in names or not depth:
        return []
    k, r = names.index(o[1]), []
    for g in mod.funcs.values():
        for b in g.order:
            for i in g.blocks[b]:
                if i.op == 'call' and i.a[1] == ('g', f.name) and len(i.a[2]) > k:
                    r += passed(mod, g, i.a[2][k][1], depth - 1)
    return r


def below(t, j, n, pid=None):
    """known: j + 1 < n"""
    w = n.w
    if pid is not None and t.known(icmp('slt', addc(pid, j + 1), add(pid, VV.zext(n, 64)))) is True:
        return True
    c = lambda x: const(x, w)
    return any(t.known(icmp(p, c(j), add(n, c(-1), w))) is True or t.known(icmp(p, c(j + 1), n)) is True for p in ('ult', 'slt')) or \
        t.known(icmp('ule', c(j + 2), n)) is True


def done(t, j, n, pid=None):
    """known: not j + 1 < n"""
    w = n.w
    if pid is not None and t.known(icmp('slt', addc(pid, j + 1), add(pid, VV.zext(n, 64)))) is False:
        return True
    c = lambda x: const(x, w)
    return any(t.known(icmp(p, c(j), add(n, c(-1), w))) is False or t.known(icmp(p, c(j + 1), n)) is False for p in ('ult', 'slt')) or \
        t.known(eq(n, c(j + 1))) is True


OPQ = ('synchBarrierSet', 'synchBarrierLeave', 'synchBarrierLastLeave', 'synchThreadPin', 'synchInitFibers', 'synchSpawnFiber',
       'synchWaitForAllFibers', 'synchFiberYield', 'synchCurrentFiberIndex', 'synchStartCPUCounters', 'synchStopCPUCounters',
       'synchInitCPUCounters', 'synchFreeMemory', 'synchPreferredCoreOfThread', 'synchPreferredNumaNodeOfThread')


@group('threads')
def threads(ctx):
    K = {'C15'}
    prog = ctx.prog
    st = prog.find('synchStartThreadsN')
    if st is None:
        raise Missing('synchStartThreadsN')
    mod = st.mod
    wr = created(prog, mod)
    tls = lambda b: b.kind == 'glob' and is_tls(ctx, b)
    role = {}
    use = {}
    for t in ctx.paths('synchStartThreadsN', k=3 if ctx.deep else 2, opaque=OPQ + tuple(wr), priv=tls):
        R = 'threads.start'
        n, func, ut = t.args
        cr = t.calls('pthread_create')
        fib = t.known(icmp('ult', const(1, 32), ut))
        own = [c for c in t.calls() if c.x['name'] in wr]
        if not ctx.need(len(own) == 1 and not [c for c in cr if c.idx > own[0].idx], K, R, 'the starting thread does not run the function exactly once '
                        'itself, after it created the others', t, t.ev[-1]):
            continue
        own = own[0]
        w = own.x['name']
        one = t.known(eq(ut, const(1, 32))) is True or t.is0(ut) is True
        ctx.need(fib is not None or one, K, R, 'the number of fibers is not looked at', t, own)
        fib = fib is True and not one
        use.setdefault(fib, {}).setdefault(w, t)
        total = VV.divrem('udiv', n, ut, 32) if fib else n
        stride = VV.zext(ut, 64) if fib else const(1, 64)
        arrs = [e for e in t.find('store') if e.addr.kind == 'glob' and e.val.kind == 'obj']
        for j, c in enumerate(cr):
            a = c.x['args']
            ctx.need(a[2].kind == 'fn' and a[2].a == w, K, R, 'a created thread runs another wrapper than the starting thread', t, c)
            ctx.need(a[3] is VV.mul(const(j, 64), stride, 64), K, R, 'a created thread does not get the next free id', t, c)
            sl = [e for e in arrs if (b := base_off(a[0])[0]) is not None and (b is e.val or isld(b, e.addr))]
            ctx.need(bool(sl) and base_off(a[0])[1] == 8 * j and not base_off(a[0])[2], K, R, 'the handle of a created thread is not stored in its own '
                     'element of the array of handles', t, c)
            ctx.need(below(t, j, total), K, R, 'more threads are created than wanted', t, c)
            ctx.need(t.is0(c.res) is True, K, R, 'the start goes on although a thread was not created', t, c)
        j = len(cr)
        ctx.need(own.x['args'][0] is VV.mul(const(j, 64), stride, 64), K, R, 'the starting thread does not take the last id', t, own)
        ctx.need(done(t, j, total), K, R, 'fewer threads are created than wanted', t, own)
        first = (cr + [own])[0]
        bs = t.calls('synchBarrierSet')
        if ctx.need(len(bs) == 1 and bs[0].idx < first.idx and bs[0].x['args'][1] is add(total, const(1, 32)), K, R,
                    'the barrier that the join waits for is not set for all threads and the joining one before they start', t, first):
            role.setdefault('bar', bs[0].x['args'][0])
            ctx.need(role['bar'] is bs[0].x['args'][0], K, R, 'different barriers are used', t, bs[0])
        fs = [e for e in t.find('store', None, 0, first.idx) if e.addr.kind == 'glob' and e.val is func]
        if ctx.need(bool(fs), K, R, 'the function is not passed to the threads before they start', t, first):
            role['func'] = fs[-1].addr
            ctx.need(not [e for e in t.find('store', fs[-1].addr) if e is not fs[-1]], K, R, 'the function is changed again', t, fs[-1])
        if fib:
            us = [e for e in t.find('store', None, 0, first.idx) if e.addr.kind == 'glob' and e.val is ut]
            if ctx.need(bool(us), K, R, 'the number of fibers is not passed to the threads before they start', t, first):
                role['ut'] = us[-1].addr
        for e in arrs:
            c = t.ev[e.val.a[0]]
            ctx.need(c.x['args'][-1] is VV.scale(VV.zext(n, 64), 8) or fib, K | {'C19'}, R, 'the array of handles is not large enough', t, c)
        # counting the threads to join
        if cr:
            cnt = [e for e in t.find('store') if e.addr.kind == 'glob' and e.idx > cr[0].idx and
                   (diff_const(e.val, const(0, e.val.w)) == j or e.val.kind == 'lin' and len(e.val.a[1]) == 1 and isld(e.val.a[1][0][0], e.addr)
                    and e.val.a[1][0][1] == 1 and e.val.a[0] == j)]
            ctx.need(bool(cnt) and cnt[-1] is t.find('store', cnt[-1].addr)[-1], K, R, 'the created threads are not counted for the join', t, cr[-1])
            if cnt:
                role['count'] = cnt[-1].addr
                if [e for e in t.find('store', cnt[-1].addr, 0, cr[0].idx) if const_is(e.val, True)]:
                    role['count0'] = True
        # who gives way to whom
        for e in t.find('store', None, 0, first.idx):
            if e.addr.kind == 'glob' and e.size == 1:
                role.setdefault('flags', {}).setdefault(e.addr, {})[fib] = (e, t)
    ctx.need(bool(use.get(True)) and bool(use.get(False)) and not set(use[True]) & set(use[False]), K, 'threads.start',
             'threads with and without fibers run the same wrapper', where='%s (synchStartThreadsN)' % mod.short)
    if 'func' not in role or 'bar' not in role:
        raise Missing('the roles of the globals')
    idg = None
    for t in ctx.paths('synchGetPosixThreadId'):
        g = globs(t.ret)
        if ctx.need(len(g) == 1 and isld(t.ret, list(g)[0]) and is_tls(ctx, list(g)[0]), K, 'threads.id', 'the id of a posix thread is not its own '
                    'variable', t, t.ev[-1]):
            idg = list(g)[0]
    for t in ctx.paths('synchGetThreadId', opaque=OPQ):
        c = t.calls('synchCurrentFiberIndex')
        ok = len(c) == 1 and t.ret.kind == 'lin' and t.ret.a[0] == 0 and len(t.ret.a[1]) == 2 and all(q == 1 for _, q in t.ret.a[1]) and \
            any(x is c[0].res for x, _ in t.ret.a[1]) and any(isld(x, idg) for x, _ in t.ret.a[1])
        ctx.need(ok, K, 'threads.id', 'the id of a thread is not the id of its posix thread plus the index of the fiber', t, t.ev[-1])
    for fib in (False, True):
        for w in use.get(fib, ()):
            wrapper(ctx, t, w, fib, role, idg, K)
    if 'count' in role and gdef(ctx, role['count']) is not None:
        ctx.need(cval_init(gdef(ctx, role['count'])) == 0 or role.get('count0'), K | {'C26'}, 'threads.start', 'the number of threads to join does not start with zero',
                 where='%s (synchStartThreadsN)' % mod.short)
    ctx.need('count' in role, K, 'threads.start', 'no path of the start creates a thread', where='%s (synchStartThreadsN)' % mod.short)
    join(ctx, role, K)
    resched(ctx, role, K | {'C24'})


def spread(t, a, pid, ut):
    """a is the id of the thread (divided by the number of fibers), possibly modulo the number of cores"""
    a = narrow(a)
    if a.kind == 'op' and a.a[0] in ('urem', 'srem'):
        m = narrow(a.a[2])
        if m.kind != 'ld' and m.kind != 'call' and m.kind != 'undef':
            return False
        a = narrow(a.a[1])
    if ut is not None:
        if a.kind != 'op' or a.a[0] not in ('udiv', 'sdiv') or not isld(narrow(a.a[2]), ut):
            return False
        a = narrow(a.a[1])
    return a is pid


def wrapper(ctx, t, w, fib, role, idg, K):
    R = 'threads.wrapper'
    for t in ctx.paths(w, k=3 if ctx.deep else 2, opaque=OPQ):
        pid = t.args[0]
        runs = [c for c in t.calls() if c.x['fn'].kind != 'fn']
        ok = len(runs) == 1 and isld(runs[0].x['fn'], role['func']) and runs[0].x['args'] and runs[0].x['args'][0] is pid
        if not ctx.need(ok, K, R, 'a thread does not run the given function exactly once with its id', t, (runs or [t.ev[-1]])[0]):
            continue
        r = runs[0]
        ids = [e for e in t.find('store', idg)]
        sp = t.calls('synchSpawnFiber')
        first = min([r.idx] + [c.idx for c in sp])
        ctx.need(len(ids) == 1 and ids[0].idx < first and ids[0].val is VV.trunc(pid, 32), K, R, 'a thread does not set its id before it runs the function', t,
                 (ids or [r])[0])
        pins = [c for c in t.calls('synchThreadPin', 0, r.idx)]
        ctx.need(bool(pins) and all(c.idx < first for c in pins), {'C21'}, R, 'a thread runs the function without having been bound to its core', t, r)
        for c in pins:
            a = VV.zext(c.x['args'][0], 64)
            ctx.need(spread(t, a, pid, role.get('ut') if fib else None), {'C21'}, R, 'a thread is not bound to the core of its own id', t, c)
        lv = t.calls('synchBarrierLeave')
        ctx.need(len(lv) == 1 and lv[0].x['args'][0] is role['bar'] and lv[0].idx > r.idx, K, R, 'a thread does not leave the barrier of the join '
                 'exactly once, after the function returned', t, (lv or [t.ev[-1]])[0])
        if not fib:
            continue
        isut = lambda v: isld(v, role.get('ut'))
        fi = t.calls('synchInitFibers')
        ctx.need(len(fi) == 1 and fi[0].idx < first and isut(fi[0].x['args'][0]), K, R, 'the fibers of a thread are not initialised for their number before '
                 'they are created', t, (fi or [r])[0])
        uts = [e.res for e in t.find('load') if e.addr is role.get('ut')]
        for j, c in enumerate(sp):
            a = c.x['args']
            ctx.need(isld(a[0], role['func']) and a[1] is addc(pid, j + 1), K, R, 'a fiber does not run the given function with the next id', t, c)
            ctx.need(c.idx < r.idx and any(below(t, j, u, pid) for u in uts), K, R, 'more fibers are created than wanted, or too late', t, c)
        ctx.need(any(done(t, len(sp), u, pid) for u in uts), K, R, 'fewer fibers are created than wanted', t, r)
        wa = t.calls('synchWaitForAllFibers')
        ctx.need(len(wa) >= 1 and wa[0].idx > r.idx and (not lv or wa[0].idx < lv[0].idx), K, R, 'a thread leaves before all of its fibers finished', t,
                 (wa or [t.ev[-1]])[0])


def join(ctx, role, K):
    R = 'threads.join'
    cnt = role.get('count')
    tls = lambda b: b.kind == 'glob' and is_tls(ctx, b)
    some = False
    for t in ctx.paths('synchJoinThreadsN', k=2, opaque=OPQ, priv=tls):
        ll = t.calls('synchBarrierLastLeave')
        pj = t.calls('pthread_join')
        ctx.need(len(ll) == 1 and ll[0].x['args'][0] is role['bar'], K, R, 'the join does not wait for the barrier of the threads', t, (ll or [t.ev[-1]])[0])
        fr = [c for c in t.calls('synchFreeMemory')]
        ctx.need(not [c for c in fr if ll and c.idx < max([ll[0].idx] + [p.idx for p in pj])], K, R, 'the handles are released before all threads were joined', t,
                 (fr or [t.ev[-1]])[0])
        for c in fr:
            ctx.need(c.x['args'][1] is VV.scale(VV.zext(t.args[0], 64), 8), {'C18'}, R, 'the handles are released with another size than they were allocated with', t, c)
        if cnt is None:
            continue
        c0 = next((e.res for e in t.find('load', cnt)), None)
        if not ctx.need(c0 is not None, K, R, 'the join does not look at the number of created threads', t, t.ev[-1]):
            continue
        seen, up = set(), False
        for p in pj:
            a = p.x['args'][0]
            if a.kind == 'ld':
                b, c, o = base_off(a.a[1])
                ix = [x for x, q in o if narrow(x) is c0 and q == 8]
                if not o and c >= 0 and c % 8 == 0 and c not in seen:       # from the first one to the last
                    ctx.need(t.known(icmp('slt', const(c // 8, 32), c0)) is True, K, R, 'a thread is joined that was not created', t, p)
                    some = up = True
                    seen.add(c)
                    continue
                ctx.need(len(ix) == 1 and c < 0 and c % 8 == 0 and c not in seen, K, R, 'the join does not join each created thread once', t, p)
                k = -c // 8
                ctx.need(t.known(icmp('slt', const(k - 1, 32), c0)) is True or t.known(icmp('sge', c0, const(k, 32))) is True or k == 1 and t.is0(c0) is False,
                         K, R, 'a thread is joined that was not created', t, p)
                some = True
                seen.add(c)
        last = t.stored(cnt, len(t.ev), 4)
        n = len(pj)
        fin = last if last is not None else c0
        left = t.known(icmp('slt', const(n, 32), c0)) is not False and t.known(eq(c0, const(n, 32))) is not True if up else False
        ctx.need(not left and (t.known(icmp('slt', const(0, 32), fin)) is False or t.is0(fin) is True), K, R, 'the join returns before all created threads were joined', t,
                 t.ev[-1])
        ctx.need(seen == {-8 * (i + 1) for i in range(n)} or seen == {8 * i for i in range(n)}, K, R, 'the join does not join each created thread once', t,
                 t.ev[-1])
        some = some or bool(pj)
    ctx.need(some or cnt is None, K, R, 'no path of the join joins a thread', where='threadtools (synchJoinThreadsN)')


def resched(ctx, role, K):
    R = 'threads.resched'
    fl = {}
    for g, d in role.get('flags', {}).items():
        fl[g] = d
    yes = {}
    for t in ctx.paths('synchResched', opaque=OPQ, k=1):
        y = [c.x['name'] for c in t.calls() if c.x['name'] in ('sched_yield', 'synchFiberYield')]
        facts = {}
        for e in t.find('load'):
            if e.addr in fl:
                facts[e.addr] = t.is0(e.res)
        yes.setdefault(tuple(y), []).append((facts, t))
        ctx.need(len(y) <= 1, K, R, 'a thread gives way twice', t, t.ev[-1])
    # with fibers every path that agrees with the flags set at the start must reach the fiber scheduler
    for fib, want in ((True, 'synchFiberYield'), (False, 'sched_yield')):
        for y, l in yes.items():
            for facts, t in l:
                feas = True
                quiet = False
                for g, z in facts.items():
                    if fib not in fl[g]:
                        continue
                    e, ts = fl[g][fib]
                    v = e.val
                    if v.kind == 'c':
                        if (v.a & 1 == 0) != z:
                            feas = False
                    elif not z:
                        quiet = True        # a flag that depends on the number of cores
                if not feas:
                    continue
                if fib:
                    ctx.need(y == (want,), K, R, 'a fiber that waits does not give way to the other fibers of its thread', t, t.ev[-1])
                elif not quiet:
                    ctx.need(y == (want,), K, R, 'a thread that waits on a machine with more threads than cores does not give way', t, t.ev[-1])
    # the flag that keeps threads from giving way is set only if there is a core for every thread
    for g, d in fl.items():
        if False not in d or d[False][0].val.kind == 'c':
            continue
        e, ts = d[False]
        off = [t2 for y, l in yes.items() if y == () for facts, t2 in l if facts.get(g) is False]
        if not off:
            continue
        c, neg = (e.val.a[0][0] if e.val.kind == 'bits' else e.val), False
        while c.kind == 'not':
            c, neg = c.a[0], not neg
        if c.kind != 'cmp' or c.a[0] not in ('ult', 'slt'):
            raise Missing('the test of the number of cores')
        n = ts.args[0]

        def what(v, i):
            """'n', 'c' or None: the number of threads, of cores"""
            v = narrow(v)
            while v.kind == 'ld' and v.a[1].kind == 'glob':
                w = ts.stored(v.a[1], v.a[0])
                if w is None:
                    break
                v = narrow(w)
            if v is n:
                return 'n'
            return 'c' if v.kind == 'call' and v.a[1] in ('sysconf', 'synchGetNCores') else None
        a, b = what(c.a[1], e.idx), what(c.a[2], e.idx)
        ok = neg and (a, b) == ('c', 'n') or not neg and (a, b) == ('n', 'c')
        if not ok and is_c(c.a[2]) is False and (a, b) == (None, None):
            raise Missing('the test of the number of cores')
        ctx.need(ok, K, R, 'threads spin without giving way although there may be more threads than cores', ts, e)


# ---------------------------------------------------------------- fibers
class Fib:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = ctx.sizeof('Fiber')
        m = 'uthreads'
        self.o = {f: ctx.off('Fiber', f, m) for f in ('context', 'jmp', 'active')}
        self.stack = self.o['context'] + ctx.off('ucontext_t', 'uc_stack', m) if False else None
        self.max = self.list = self.cur = self.n = self.rec = None
        self.set = set()

    def elem(self, a):
        """(index expression, offset in the element) of an address in the fiber table"""
        b, c, o = base_off(a)
        if b is None or not (isld(b, self.list) or b.kind == 'obj'):
            return None
        if not o:
            return const(c // self.S, 64), c % self.S
        if len(o) == 1 and o[0][1] == self.S:
            return addc(narrow(o[0][0]), c // self.S), c % self.S
        return None

    def at(self, a, f):
        e = self.elem(a)
        return e[0] if e is not None and e[1] == self.o[f] else None


@group('uthreads')
def uthreads(ctx):
    K = {'C16'}
    prog = ctx.prog
    F = Fib(ctx)
    spawn = prog.find('synchSpawnFiber')
    if spawn is None:
        raise Missing('synchSpawnFiber')
    start = created(prog, spawn.mod, 'makecontext', 1)
    R = 'fibers.init'
    tls = lambda b: b.kind == 'glob' and is_tls(ctx, b)
    for t in ctx.paths('synchCurrentFiberIndex'):
        g = list(globs(t.ret))
        if ctx.need(len(g) == 1 and is_tls(ctx, g[0]), K | {'C15'}, 'fibers.index', 'the index of the running fiber is not a variable of the thread', t, t.ev[-1]):
            F.cur = g[0]
    for t in ctx.paths('synchInitFibers', k=3, priv=tls):
        mx = t.args[0]
        s = [e for e in t.find('store') if e.addr.kind == 'glob']
        l = [e for e in s if e.val.kind == 'obj']
        m = [e for e in s if e.val is mx]
        if not ctx.need(len(l) == 1 and len(m) == 1 and is_tls(ctx, l[0].addr) and is_tls(ctx, m[0].addr), K, R, 'the table of fibers and its size are not set '
                        'once, per thread', t, t.ev[-1]):
            continue
        F.list, F.max = l[0].addr, m[0].addr
        F.set |= {e.addr for e in s if const_is(e.val, True)}
        o = l[0].val
        c = t.ev[o.a[0]]
        sz = c.x['args'][-1]
        ctx.need(sz is VV.scale(VV.sext(mx, 64), F.S) or sz is VV.scale(VV.zext(mx, 64), F.S), K | {'C19'}, R, 'the table has no entry for each fiber', t, c)
        ac = {}
        for e in t.find('store'):
            i = F.at(e.addr, 'active') if base_off(e.addr)[0] is o else None
            if i is not None and is_c(i):
                ac[cval(i)] = e.val
        ctx.need(0 in ac and cval(ac[0]) is not None and cval(ac[0]) & 1 == 1, K, R, 'the first fiber is not active', t, t.ev[-1])
        ctx.need(all(is_c(v) and cval(v) & 1 == 0 for i, v in ac.items() if i), K, R, 'another fiber is active before it was created', t, t.ev[-1])
        n = len(ac)
        ctx.need(sorted(ac) == list(range(n)) and (t.known(icmp('slt', const(n, 32), mx)) is False), K | {'C26'}, R,
                 'a fiber is left without a state', t, t.ev[-1])
    if F.cur is None or F.list is None:
        raise Missing('the roles of the globals')
    ctx.need(len(start) == 1, K, 'fibers.spawn', 'fibers do not start in one function', where='%s (synchSpawnFiber)' % spawn.mod.short)
    for t in ctx.paths('synchWaitForAllFibers', k=2, opaque=('synchFiberYield',), ends=('ret', 'cut')):
        lds = [e for e in t.find('load') if e.addr.kind == 'glob']
        if lds:
            F.n = lds[0].addr
        y = t.calls('synchFiberYield')
        if t.end == 'ret':
            last = lds[-1] if lds else None
            ctx.need(last is not None and (not y or last.idx > y[-1].idx) and
                     (t.known(icmp('slt', const(1, 32), last.res)) is False or t.known(eq(last.res, const(1, 32))) is True), K, 'fibers.wait',
                     'the wait ends before the last fiber finished', t, t.ev[-1])
            ctx.need(last is None or t.known(eq(last.res, const(1, 32))) is not False and t.known(icmp('slt', last.res, const(1, 32))) is not True, K, 'fibers.wait',
                     'the wait goes on although all fibers finished', t, t.ev[-1])
        else:
            ctx.need(bool(y), K | {'C24'}, 'fibers.wait', 'the wait does not give way to the fibers', t, t.ev[-1])
    if F.n is None:
        raise Missing('the number of fibers')
    g = gdef(ctx, F.n)
    ctx.need(is_tls(ctx, F.n) and g and cval_init(g) == 1, K | {'C26'}, 'fibers.count', 'the number of fibers of a thread does not start with one', where='uthreads.c')
    stack = spawn_rules(ctx, F, K, start)
    yield_rules(ctx, F, K, stack)
    if start:
        start_rules(ctx, F, K, start[0], stack)
    if F.rec is None:
        raise Missing('the stack of a finished fiber')
    for v, what in ((F.cur, 'the index of the running fiber'), (F.rec, 'the stack of a finished fiber')):
        g = gdef(ctx, v)
        ctx.need(g is not None and cval_init(g) == 0 or v in F.set, K | {'C26'}, R, '%s does not start with zero' % what, where='uthreads.c')


def cval_init(g):
    i = g['init']
    return i[1] if i and i[0] in ('c', 'int') else 0 if i and i[0] == 'zero' else None


def full_table(t, F, s, at):
    """every slot was seen taken although there was room: no such table exists"""
    n = [e.res for e in t.find('load', F.n, 0, at.idx)]
    m = [e.res for e in t.find('load', F.max)]
    room = any(t.known(eq(a, b)) is False or t.known(icmp('slt', a, b)) is True for a in n for b in m)
    end = any(t.known(icmp('slt', const(s, b.w), b)) is False for b in m)
    act = {cval(F.at(e.addr, 'active')) for e in t.find('load', None, 0, at.idx) if F.at(e.addr, 'active') is not None and t.is0(e.res) is False}
    return room and end and act >= set(range(1, s))


def spawn_rules(ctx, F, K, start):
    R = 'fibers.spawn'
    size = None
    ss = None
    for t in ctx.paths('synchSpawnFiber', k=2):
        func, arg = t.args
        sw = t.calls('swapcontext')
        mk = t.calls('makecontext')
        if not sw:
            ctx.need(not [e for e in t.writes() if base_off(e.addr)[0].kind != 'alloca'], K, R, 'a fiber that cannot be created changes the table', t, t.ev[-1])
            n = [e.res for e in t.find('load', F.n)]
            m = [e.res for e in t.find('load', F.max)]
            ctx.need(any(t.known(eq(a, b)) is True or t.known(icmp('slt', a, b)) is False for a in n for b in m) and cval(t.ret) is not None and cval(t.ret) < 0,
                     K, R, 'a fiber is refused although there is room, or the refusal is not reported', t, t.ev[-1])
            continue
        ok = len(sw) == 1 and len(mk) == 1 and mk[0].idx < sw[0].idx
        if not ctx.need(ok, K, R, 'a new fiber is not entered exactly once to hand over its arguments', t, sw[0]):
            continue
        s = F.at(sw[0].x['args'][1], 'context')
        ctx.need(s is not None and F.at(mk[0].x['args'][0], 'context') is s, K, R, 'another context than the one that was made is entered', t, sw[0])
        if s is None:
            continue
        ctx.need(is_c(s) and cval(s) > 0, K, R, 'a new fiber takes the slot of the thread itself', t, sw[0])
        free = [e for e in t.find('load') if F.at(e.addr, 'active') is s and e.size == 1 and t.is0(e.res) is True]
        if not free and full_table(t, F, cval(s), sw[0]):
            continue
        ctx.need(bool(free), K, R, 'a new fiber takes a slot that was not seen free', t, sw[0])
        full = [e for e in t.find('load', None, 0, sw[0].idx) if e.addr is F.n]
        mxs = [e.res for e in t.find('load', F.max)]
        ctx.need(any(t.known(eq(a.res, b)) is False or t.known(icmp('slt', a.res, b)) is True for a in full for b in mxs), K | {'C19'}, R,
                 'a fiber is created without having seen that there is room', t, sw[0])
        before = [e for e in t.find('load', None, 0, free[0].idx if free else 0) if F.at(e.addr, 'active') is not None]
        ctx.need({cval(F.at(e.addr, 'active')) for e in before} >= set(range(1, cval(s) or 1)), K | {'C15'}, R, 'fibers do not take the first free slot, so the id '
                 'of a fiber differs from its argument', t, sw[0])
        act = [e for e in t.find('store') if F.at(e.addr, 'active') is not None]
        ctx.need(len(act) == 1 and F.at(act[0].addr, 'active') is s and is_c(act[0].val) and cval(act[0].val) & 1 == 1, K, R, 'the slot of a new fiber is not '
                 'marked, or another one is', t, (act or [sw[0]])[0])
        al = [e for e in t.find('store') if e.val.kind == 'obj']
        stk = [e for e in al if (x := F.elem(e.addr)) is not None and x[0] is s]
        if ctx.need(len(stk) == 1 and stk[0].idx < mk[0].idx, K, R, 'a new fiber does not get a stack of its own before its context is made', t, mk[0]):
            off = F.elem(stk[0].addr)[1]
            gc = [c for c in t.calls('getcontext') if F.at(c.x['args'][0], 'context') is s]
            ctx.need(len(gc) == 1 and gc[0].idx < stk[0].idx, K, R, 'the context of a new fiber is not prepared before its stack is set', t, mk[0])
            c = t.ev[stk[0].val.a[0]]
            a = cval(c.x['args'][-1])
            szs = [e for e in t.find('store') if (x := F.elem(e.addr)) is not None and x[0] is s and is_c(e.val) and x[1] == off + 16]
            ctx.need(a is not None and len(szs) == 1 and cval(szs[0].val) <= a and szs[0].idx < mk[0].idx, K, R, 'the stack of a new fiber is smaller than its '
                     'context says', t, stk[0])
            size, ss = a, off
        n = [e for e in t.find('store', F.n)]
        ctx.need(len(n) == 1 and n[0].val.kind == 'lin' and n[0].val.a[0] == 1 and isld(n[0].val.a[1][0][0], F.n), K, R, 'a new fiber is not counted once', t,
                 (n or [sw[0]])[0])
        ctx.need(cval(t.ret) is not None and cval(t.ret) >= 0, K, R, 'a created fiber is reported as refused', t, t.ev[-1])
        cx = mk[0].x['args'][-1]
        ctx.need(mk[0].x['args'][1].kind == 'fn' and is_c(mk[0].x['args'][2]) and cval(mk[0].x['args'][2]) == 1, K, R, 'a fiber does not start with its data', t, mk[0])
        m = mk[0].x['mem'][-1]
        o = lambda f: ctx.off('FiberData', f, 'uthreads')
        if m is not None:
            g = lambda f: m.get(base_off(cx)[1] + o(f), (0, None))[1]
            ctx.need(g('func') is func and g('arg') is arg, K | {'C15'}, R, 'a fiber does not get the given function and argument', t, mk[0])
            ctx.need(g('cur') is not None and F.at(g('cur'), 'jmp') is s, K, R, 'a fiber does not save its state in its own slot', t, mk[0])
            ctx.need(g('prev') is sw[0].x['args'][0], K, R, 'a fiber does not return to the one that created it', t, mk[0])
        if ss is not None:
            F.ss = ss
    return size


def next_fiber(ctx, t, F, K, R, lo, hi, prev):
    """the fiber that is chosen in [lo,hi): the next active one; returns its index"""
    st = t.find('store', F.cur, lo, hi)
    if not st:
        return None
    maxs = [m.res for m in t.find('load', F.max)]
    cur, ok, last = prev, True, None
    for x in t.find('load', None, lo, hi):
        v = F.at(x.addr, 'active')
        if v is None or v is cur and x is not last:
            if v is not None:
                last = x
            continue
        if v.w != cur.w:
            v = const(cval(v), cur.w) if is_c(v) else narrow(v)
        if last is not None:
            ctx.need(t.is0(last.res) is True, K, R, 'an active fiber is skipped', t, x)
        good = v.kind == 'op' and v.a[0] in ('srem', 'urem') and isld(v.a[2], F.max) and diff_const(v.a[1], cur) == 1
        nx = addc(cur, 1) if cur.w == 64 else add(cur, const(1, 32))
        good = good or is_c(v) and cval(v) == 0 and any(t.known(eq(nx, m)) is True or t.known(icmp('slt', nx, m)) is False for m in maxs) or \
            v is nx and any(t.known(eq(nx, m)) is False or t.known(icmp('slt', nx, m)) is True for m in maxs)
        ctx.need(good, K, R, 'the next fiber in turn is skipped', t, x)
        ok = ok and good
        cur, last = v, x
    if last is not None:
        ctx.need(t.is0(last.res) is False, K, R, 'a fiber is continued that was not seen active', t, last)
    if not ctx.need(last is not None and st[-1].val is cur, K, R, 'a fiber is continued that was not seen active', t, st[-1]):
        return None
    return cur if ok else None


def freed(ctx, t, F, K, R, lo, hi, stack):
    """the stack of a finished fiber is released in [lo,hi)"""
    fr = [c for c in t.calls(None, lo, hi) if c.x['name'] in ('numa_free', 'free', 'synchFreeMemory')]
    rec = [e for e in t.find('load', None, lo, hi) if e.addr.kind == 'glob' and e.size == 8 and is_tls(ctx, e.addr) and e.addr not in (F.list, F.cur)]
    if not ctx.need(bool(rec), K, R, 'a fiber that is continued does not look for the stack of a finished fiber', t, t.ev[lo]):
        return
    g = rec[0].addr
    F.rec = F.rec or g
    ctx.need(F.rec is g, K, R, 'another stack than that of the finished fiber is released', t, rec[0])
    if t.is0(rec[0].res) is True:
        ctx.need(not fr, K, R, 'a stack is released although no fiber finished', t, (fr or [rec[0]])[0])
        return
    if ctx.need(len(fr) == 1 and fr[0].x['args'][0] is rec[0].res, K, R, 'the stack of a finished fiber is not released once', t, (fr or [rec[0]])[0]):
        s = fr[0].x['args']
        if len(s) > 1:
            ctx.need(stack is None or cval(s[1]) == stack, K | {'C18'}, R, 'a stack is released with another size than it was allocated with', t, fr[0])
        cl = t.find('store', g, fr[0].idx, hi) or t.find('store', g, lo, fr[0].idx)
        ctx.need(bool(cl) and const_is(cl[-1].val, True), K, R, 'a released stack can be released again', t, fr[0])


def yield_rules(ctx, F, K, stack):
    R = 'fibers.yield'
    tls = lambda b: b.kind == 'glob' and b is F.cur
    for t in ctx.paths('synchFiberYield', k=2, ends=('ret', 'exit', 'cut')):
        sj = t.calls('_setjmp') + t.calls('setjmp') + t.calls('__sigsetjmp')
        lj = t.calls('_longjmp') + t.calls('longjmp') + t.calls('siglongjmp')
        if t.end == 'cut':
            continue
        if not sj:
            n = [e for e in t.find('load', F.n)]
            ctx.need(bool(n) and (t.known(eq(n[0].res, const(1, 32))) is True or t.known(icmp('slt', const(1, 32), n[0].res)) is False), K | {'C24'}, R,
                     'a fiber does not give way although there are others', t, t.ev[-1])
            ctx.need(not t.writes() and not lj, K, R, 'a thread without other fibers changes its state', t, t.ev[-1])
            continue
        c0 = t.find('load', F.cur)
        if not ctx.need(len(sj) == 1 and bool(c0), K, R, 'the state of a fiber is not saved once', t, sj[0]):
            continue
        prev = c0[0].res
        s = F.at(sj[0].x['args'][0], 'jmp')
        ctx.need(s is not None and narrow(s) is prev and not t.find('store', F.cur, 0, c0[0].idx), K, R, 'the state of a fiber is not saved in its own slot', t, sj[0])
        nxt = next_fiber(ctx, t, F, K, R, 0, len(t.ev) if t.is0(sj[0].res) else sj[0].idx, prev)
        if t.is0(sj[0].res):
            if ctx.need(len(lj) == 1 and t.end == 'exit', K, R, 'a fiber that saved its state goes on instead of giving way', t, t.ev[-1]):
                ctx.need(nxt is not None and same(F.at(lj[0].x['args'][0], 'jmp'), nxt), K, R, 'another fiber than the chosen one is continued', t, lj[0])
                ctx.need(is_c(lj[0].x['args'][1]) and cval(lj[0].x['args'][1]) != 0, K, R, 'a continued fiber cannot know it', t, lj[0])
        else:
            ctx.need(t.end == 'ret' and not lj, K, R, 'a fiber that is continued does not go on where it stopped', t, t.ev[-1])
            freed(ctx, t, F, K, R, sj[0].idx, len(t.ev), stack)
            ctx.need(not [e for e in t.find('store', F.cur, sj[0].idx)], K, R, 'a fiber that is continued changes the index of the running fiber', t, t.ev[-1])


def start_rules(ctx, F, K, fn, stack):
    R = 'fibers.run'
    seen = False
    for t in ctx.paths(fn, k=2, ends=('ret', 'exit', 'cut')):
        d = t.args[0]
        fo = lambda f: addc(d, ctx.off('FiberData', f, 'uthreads'))
        sj = t.calls('_setjmp') + t.calls('setjmp')
        sw = t.calls('swapcontext')
        lj = t.calls('_longjmp') + t.calls('longjmp')
        run = [c for c in t.calls() if c.x['fn'].kind != 'fn']
        if not run:
            ctx.need(t.end == 'cut', K, R, 'a fiber ends without running its function', t, t.ev[-1])
            continue
        if not ctx.need(len(run) == 1 and bool(sj) and sj[0].idx < run[0].idx, K | {'C15'}, R, 'a fiber does not run its function exactly once, after it handed '
                        'back the control', t, run[0]):
            continue
        r = run[0]
        ctx.need(isld(r.x['fn'], fo('func')) and isld(r.x['args'][0], fo('arg')), K | {'C15'}, R, 'a fiber does not run the given function with the given argument',
                 t, r)
        entry = sj[0]
        ctx.need(isld(entry.x['args'][0], fo('cur')), K, R, 'a new fiber does not save its state in its own slot', t, entry)
        if t.is0(entry.res):
            ctx.need(len(sw) == 1 and entry.idx < sw[0].idx < r.idx and isld(sw[0].x['args'][1], fo('prev')), K, R, 'a new fiber does not hand the control back to '
                     'its creator before it runs', t, r)
        elif not ctx.need(not sw or sw[0].idx < entry.idx, K, R, 'a fiber that is continued hands the control back to its creator', t, entry):
            continue
        for e in t.find('load', None, (sw or [entry])[0].idx):
            ctx.need(base_off(e.addr)[0] is not d, K, R, 'the data of a fiber is read after its creator may have gone on', t, e)
        if not t.is0(entry.res):
            for e in t.find('load', None, entry.idx):
                ctx.need(base_off(e.addr)[0] is not d, K, R, 'the data of a fiber is read after its creator may have gone on', t, e)
            freed(ctx, t, F, K, R, entry.idx, r.idx, stack)
        # the end of a fiber
        if t.end == 'cut':
            continue
        if not lj:
            one = [e for e in t.find('load', F.n, r.idx) if t.known(eq(e.res, const(1, 32))) is True]
            again = len(sj) > 1 and t.is0(sj[1].res) is False
            ctx.need(bool(one) or again, K, R, 'a fiber that finished returns to nowhere', t, t.ev[-1])
            continue
        seen = True
        cur = t.find('load', F.cur, r.idx)
        if not ctx.need(bool(cur), K, R, 'a fiber that finished does not know its slot', t, t.ev[-1]):
            continue
        me = cur[0].res
        act = [e for e in t.find('store', None, r.idx) if F.at(e.addr, 'active') is not None]
        firstc = next(iter(t.find('store', F.cur, r.idx)), lj[0])
        isme = lambda x: x is not None and isld(x, F.cur) and not t.find('store', F.cur, r.idx, x.a[0] if x.kind == 'ld' else None)
        ctx.need(len(act) == 1 and isme(narrow(F.at(act[0].addr, 'active'))) and is_c(act[0].val) and cval(act[0].val) & 1 == 0 and act[0].idx < firstc.idx, K, R,
                 'a fiber that finished is not taken out of the turn before the next one is chosen', t, (act or [lj[0]])[0])
        n = t.find('store', F.n, r.idx)
        ctx.need(len(n) == 1 and n[0].val.kind == 'lin' and n[0].val.a[0] == -1 and isld(n[0].val.a[1][0][0], F.n), K, R, 'a fiber that finished is not counted off '
                 'once', t, (n or [lj[0]])[0])
        rc = [e for e in t.find('store', None, r.idx) if e.addr.kind == 'glob' and e.size == 8]
        ok = False
        if len(rc) == 1 and rc[0].val.kind == 'ld':
            x = F.elem(rc[0].val.a[1])
            ok = x is not None and x[1] == getattr(F, 'ss', x[1]) and isme(narrow(x[0]))
            F.rec = F.rec or rc[0].addr
            ok = ok and F.rec is rc[0].addr
        ctx.need(ok, K, R, 'the stack of a finished fiber is not left to the next fiber for release', t, (rc or [lj[0]])[0])
        for c in sj[1:]:
            b = base_off(c.x['args'][0])[0]
            ctx.need(b is not None and b.kind == 'alloca' or isme(narrow(x) if (x := F.at(c.x['args'][0], 'jmp')) is not None else None), K, R,
                     'a fiber that finished saves its state in the slot of another one', t, c)
        fr = [c for c in t.calls(None, r.idx) if c.x['name'] in ('numa_free', 'free', 'synchFreeMemory')]
        ctx.need(not fr, K, R, 'a finishing fiber releases the stack it runs on', t, (fr or [r])[0])
        lo = next((e.idx for e in t.find('load', F.cur, r.idx) if e.idx > act[0].idx), r.idx) if act else r.idx
        c1 = [e for e in t.find('load', F.cur, r.idx, firstc.idx)]
        nxt = next_fiber(ctx, t, F, K, R, r.idx, lj[0].idx, c1[-1].res if c1 else me)
        ctx.need(nxt is not None and same(F.at(lj[0].x['args'][0], 'jmp'), nxt), K, R, 'another fiber than the chosen one is continued', t, lj[0])
        ctx.need(is_c(lj[0].x['args'][1]) and cval(lj[0].x['args'][1]) != 0, K, R, 'a continued fiber cannot know it', t, lj[0])
    ctx.need(seen, K, R, 'a fiber that finished does not continue another one', where='uthreads (%s)' % fn)


# ---------------------------------------------------------------- placement
@group('placement')
def placement(ctx):
    K, R = {'C21'}, 'placement'
    fn = 'synchPreferredCoreOfThread'
    NC = sym('call', (-1, 'synchGetNCores'), 32)

    def nodes(t):
        return [c.res for c in t.calls('numa_num_task_nodes')]

    def positive(t, v, ns, seen=0):
        """v > 0, given at least one core and one node"""
        if v is NC or v in ns or v.kind == 'ld' or any(v.kind == 'call' and v.a[1] == 'numa_num_task_nodes' for _ in (0,)):
            return v is NC or v.kind == 'call'
        if t.known(eq(v, const(0, v.w))) is False:
            return True
        if is_c(v):
            return cval(v) != 0
        if t.p.eng.rangeof(t.p.st, v, False)[0] > 0:
            return True
        if v.kind == 'op' and v.a[0] in ('udiv', 'sdiv'):
            a, b = v.a[1], v.a[2]
            if is_c(b) and cval(b) > 0:
                return t.p.eng.rangeof(t.p.st, a, False)[0] >= cval(b)
            return t.known(icmp('ult', b, a)) is True or t.known(icmp('ult', a, b)) is False or t.known(eq(a, b)) is True
        if v.kind == 'lin' and v.a[0] >= 0 and all(q > 0 for _, q in v.a[1]):
            return any(positive(t, x, ns) for x, _ in v.a[1])       # sizes are small: no overflow
        if v.kind == 'bits' and len(v.a) == 2 and v.a[0][1] is None and v.a[0][0] == 0 and v.a[1][1] == 0:
            return positive(t, v.a[1][0], ns)
        return False

    pol = None
    for t in ctx.paths('synchGetThreadPlacementPolicy'):
        g = list(globs(t.ret))
        if ctx.need(len(g) == 1 and isld(t.ret, g[0]), K, R, 'the reported policy is not the one that was set', t, t.ev[-1]):
            pol = g[0]
    if pol is not None:
        g = gdef(ctx, pol)
        ctx.need(g is not None and cval_init(g) is not None and 1 <= cval_init(g) <= 5, K | {'C26'}, R, 'the policy does not start with a supported one',
                 where='threadtools.c')
    for t in ctx.paths('synchSetThreadPlacementPolicy'):
        p = t.args[0]
        s = t.find('store', pol)
        if not ctx.need(len(s) >= 1, K, R, 'a policy that is set is not stored', t, t.ev[-1]):
            continue
        v = s[-1].val
        if is_c(v):
            ctx.need(1 <= cval(v) <= 5 and (t.known(icmp('ult', const(5, 32), p)) is True or t.known(eq(p, v)) is True or
                                            t.known(icmp('ult', p, const(1, 32))) is True or t.is0(p) is True), K, R,
                     'a supported policy is replaced by another one', t, s[-1])
        else:
            ctx.need(v is p and t.known(icmp('ult', const(5, 32), p)) is False, K, R, 'a policy beyond the supported ones is stored', t, s[-1])
    handled = set()
    for t in ctx.paths(fn, pure=('numa_num_task_nodes', 'numa_node_of_cpu', 'numa_max_node', 'numa_num_configured_nodes'), max_paths=4000):
        ns = nodes(t)
        v = t.ret
        ok = v.kind == 'op' and v.a[0] in ('urem', 'srem') and v.a[2] is NC and v.a[0] == 'urem' or t.known(icmp('ult', v, NC)) is True
        ctx.need(ok, K, R, 'the preferred core may not exist', t, t.ev[-1])
        for e in t.find('div'):
            ctx.need(positive(t, e.val, ns), K, R, 'a division by zero is possible', t, e)
            ctx.need(e.x[0][0] == 'u', K, R, 'a signed division of an id may be negative', t, e)
        ps = [e.res for e in t.find('load', pol)]
        ctx.need(bool(ps), K, R, 'the policy that was set is not used', t, t.ev[-1])
        bad = [c for c in t.calls() if c.x['name'] in ('fprintf', 'perror')]
        for q in range(1, 6):
            if all(t.known(eq(x, const(q, 32))) is not False for x in ps):
                if not bad:
                    handled.add(q)
                if all(t.known(eq(x, const(q, 32))) is True for x in ps):
                    ctx.need(not bad, K, R, 'a supported policy is reported as unsupported', t, (bad or [t.ev[-1]])[0])
        if any(t.known(eq(x, const(1, 32))) is True for x in ps):
            ctx.need(v.kind == 'op' and v.a[1] is t.args[0], K, R, 'the flat policy does not go round the cores', t, t.ev[-1])
    for q in range(1, 6):
        ctx.need(q in handled, K, R, 'the supported policy %d is reported as unsupported' % q, where='threadtools (%s)' % fn)
    for t in ctx.paths('synchPreferredNumaNodeOfThread', opaque=(fn,), pure=('numa_num_task_nodes', 'numa_node_of_cpu', fn), max_paths=4000):
        ns = nodes(t)
        v = t.ret
        ok = const_is(v, True) or any(v.kind == 'op' and v.a[0] == 'urem' and v.a[2] is n or t.known(icmp('ult', v, n)) is True for n in ns)
        ctx.need(ok, K, R, 'the preferred node may not exist', t, t.ev[-1])
        for e in t.find('div'):
            ctx.need(positive(t, e.val, ns), K, R, 'a division by zero is possible', t, e)
            ctx.need(e.x[0][0] == 'u', K, R, 'a signed division of an id may be negative', t, e)
        c = t.calls(fn)
        ctx.need(not ns or bool(c) and all(x.x['args'][0] is t.args[0] for x in c), K, R, 'the preferred node is not the one of the preferred core', t, t.ev[-1])
    core = node = None
    added = False
    for t in ctx.paths('synchThreadPin', opaque=(fn, 'synchPreferredNumaNodeOfThread')):
        a = t.args[0]
        c, n = t.calls(fn), t.calls('synchPreferredNumaNodeOfThread')
        sc = [e for e in t.find('store') if e.addr.kind == 'glob' and c and e.val is c[0].res]
        sn = [e for e in t.find('store') if e.addr.kind == 'glob' and n and e.val is n[0].res]
        if ctx.need(len(sc) == 1 and len(sn) == 1 and c[0].x['args'][0] is a and n[0].x['args'][0] is a, K, R, 'the core and the node of a thread are not set to '
                    'the preferred ones', t, t.ev[-1]):
            core, node = sc[0].addr, sn[0].addr
            ctx.need(is_tls(ctx, core) and is_tls(ctx, node), K, R, 'threads share the variable for their core', t, sc[0])
        sa = t.calls('sched_setaffinity')
        ctx.need(len(sa) == 1, K, R, 'a thread is not bound to its core', t, t.ev[-1])
        for y in sa:
            x = y.x['args']
            ctx.need(not is_c(x[0]) or cval(x[0]) == 0, K, R, 'another thread than the calling one is bound', t, y)
            ctx.need(not is_c(x[1]) or cval(x[1]) <= 128, K, R, 'the set of cores is read beyond its end', t, y)
        al = [e for e in t.find('store') if base_off(e.addr)[0] is not None and base_off(e.addr)[0].kind == 'alloca' and base_off(e.addr)[2]]
        if not al and sa and not is_c(sa[0].x['args'][2]):
            m = sa[0].x['mem'][2]                   # no core was added (its number is beyond the set): the set as it was cleared
            z = m[0][1] if m and 0 in m else None
            ctx.need(z is not None and const_is(z, True), K, R, 'the set of cores is not cleared first', t, sa[0])
        added = added or bool(al)
        for e in al:
            ctx.need(c and any(contains(e.addr, x.res) for x in c) and any(contains(e.val, x.res) for x in c), K, R, 'a thread is bound to another core than '
                     'its preferred one', t, e)
    ctx.need(added or core is None, K, R, 'no path adds the preferred core to the set of cores', where='threadtools (synchThreadPin)')
    for f, g in (('synchGetPreferredCore', core), ('synchGetPreferredNumaNode', node)):
        for t in ctx.paths(f):
            ctx.need(g is not None and isld(t.ret, g), K, R, 'the reported core or node is not the one that was chosen', t, t.ev[-1])
    for t in ctx.paths('synchGetNCores'):
        g = list(globs(t.ret))
        s = [c for c in t.calls('sysconf') if t.ret is VV.trunc(c.res, 32)]
        ctx.need(bool(s) or len(g) == 1 and isld(t.ret, g[0]) and t.nz(t.ret), K, R, 'the number of cores is used before it is known', t, t.ev[-1])
        for x in g:
            d = gdef(ctx, x)
            ctx.need(d is None or cval_init(d) == 0, K | {'C26'}, R, 'the number of cores starts with an arbitrary number', t, t.ev[-1])
        for c in t.calls('sysconf'):
            ctx.need(is_c(c.x['args'][0]) and cval(c.x['args'][0]) == 84, K, R, 'something else than the number of available cores is asked for', t, c)


def contains(v, x):
    seen, w = set(), [v]
    while w:
        y = w.pop()
        if y is x:
            return True
        if not isinstance(y, V) or y in seen:
            continue
        seen.add(y)
        if isinstance(y.a, tuple):
            for z in y.a:
                w.append(z)
                if isinstance(z, tuple):
                    for u in z:
                        w.append(u)
                        if isinstance(u, tuple):
                            w += list(u)
    return False
