"""Queues and stacks on top of the combining constructions: wrappers, wiring and the sequential functions.

The sequential functions run under the mutual exclusion that C02 gives them, so they are analysed with exclusive access to
the object; what remains to check is their effect on the list on every path."""
from .base import *
from .combining import const_is

GUARD = -(1 << 63)
EMPTY = GUARD + 1
POOLFN = ('synchRecycleObj', 'synchInitPool', 'synchRollback', 'synchDestroyPool')

# family -> (ApplyOp, StructInit, (lock index), ThreadStateInit, (lock index, thread state index, pid index or None), obj arg)
COMB = {
    'cc': ('CCSynchApplyOp', 'CCSynchStructInit', 'CCSynchThreadStateInit', 0, 1, 2),
    'dsm': ('DSMSynchApplyOp', 'DSMSynchStructInit', 'DSMSynchThreadStateInit', 0, 1, 2),
    'h': ('HSynchApplyOp', 'HSynchStructInit', 'HSynchThreadStateInit', 0, 1, 2),
    'osci': ('OsciApplyOp', 'OsciInit', 'OsciThreadStateInit', 1, 0, 2),
    'fc': ('FCApplyOp', 'FCStructInit', 'FCThreadStateInit', 0, 1, 2),
}
QUEUES = {
    'ccqueue': ('cc', 'CCQueueStruct', 'CCQueueStructInit', 'CCQueueThreadStateInit', 'CCQueueApplyEnqueue', 'CCQueueApplyDequeue'),
    'dsmqueue': ('dsm', 'DSMQueueStruct', 'DSMQueueStructInit', 'DSMQueueThreadStateInit', 'DSMQueueApplyEnqueue', 'DSMQueueApplyDequeue'),
    'hqueue': ('h', 'HQueueStruct', 'HQueueInit', 'HQueueThreadStateInit', 'HQueueApplyEnqueue', 'HQueueApplyDequeue'),
    'osciqueue': ('osci', 'OsciQueueStruct', 'OsciQueueInit', 'OsciQueueThreadStateInit', 'OsciQueueApplyEnqueue', 'OsciQueueApplyDequeue'),
    'fcqueue': ('fc', 'FCQueueStruct', 'FCQueueStructInit', 'FCQueueThreadStateInit', 'FCQueueApplyEnqueue', 'FCQueueApplyDequeue'),
}
STACKS = {
    'ccstack': ('cc', 'CCStackStruct', 'CCStackInit', 'CCStackThreadStateInit', 'CCStackPush', 'CCStackPop'),
    'dsmstack': ('dsm', 'DSMStackStruct', 'DSMSStackInit', 'DSMStackThreadStateInit', 'DSMStackPush', 'DSMStackPop'),
    'hstack': ('h', 'HStackStruct', 'HStackInit', 'HStackThreadStateInit', 'HStackPush', 'HStackPop'),
    'oscistack': ('osci', 'OsciStackStruct', 'OsciStackInit', 'OsciStackThreadStateInit', 'OsciStackApplyPush', 'OsciStackApplyPop'),
    'fcstack': ('fc', 'FCStackStruct', 'FCStackInit', 'FCStackThreadStateInit', 'FCStackPush', 'FCStackPop'),
}


def rel(v, p):
    """shape of v with parameter p replaced by a marker: comparable between functions"""
    def f(x):
        if x is p:
            return '$'
        k = x.kind
        if k == 'ld':
            return '[' + f(x.a[1]) + ']'
        if k == 'lin':
            c, ts = x.a
            return '(' + '+'.join(sorted('%d*%s' % (q, f(y)) for y, q in ts)) + '+%d)' % c
        return show(x)
    return f(v)


def wrapper(ctx, t, fam, tags, want_arg):
    """the single call of ApplyOp of a wrapper; returns (lock, thread state, function) shapes"""
    ap = COMB[fam][0]
    cs = t.calls(ap)
    R = ctx.group + '.call'
    if not ctx.need(len(cs) == 1 and len(cs[0].x['args']) >= 6, tags, R, 'the operation is not passed to %s exactly once' % ap,
                    t, t.ev[-1]):
        return None
    c = cs[0]
    l, th, fn, st, arg, pid = c.x['args'][:6]
    obj, me, p = t.args[0], t.args[1], t.args[-1]
    ctx.need(st is obj, tags, R, 'the operation is not applied to the given object', t, c)
    ctx.need(pid is p, tags | {'C01'}, R, 'the operation does not carry the thread id of the caller', t, c)
    ctx.need(want_arg(arg), tags | {'C06'}, R, 'the operation does not carry the given value', t, c)
    ctx.need(fn.kind == 'fn', tags, R, 'the sequential function is not a constant', t, c)
    for e in t.writes():
        ctx.need(False, tags | {'C27'}, R, 'the wrapper itself changes memory', t, e)
    if fn.kind != 'fn':
        return None
    return rel(l, obj), rel(th, me), fn.a, c


def wiring(ctx, spec, uses, tags):
    """locks and thread states used together were initialised together, once, for this object"""
    fam, S, sinit, tinit = spec[:4]
    ap, si, ti, li, hi, pi = COMB[fam]
    R = ctx.group + '.wiring'
    for t in ctx.paths(sinit, opaque=(si,)):
        got = {rel(c.x['args'][0], t.args[0]): c for c in t.calls(si)}
        own = {}
        for l, c in got.items():
            v = c.x['args'][0]
            # a separately allocated instance is named by the member it is kept in
            for e in t.find('store'):
                if e.val is v and base_off(e.addr)[0] is t.args[0]:
                    l = '[' + rel(e.addr, t.args[0]) + ']'
            own[l] = c
            ctx.need(c.x['args'][1] is t.args[1], tags | {'C19', 'C26'}, R, 'the universal construction is not initialised '
                     'for the given number of threads', t, c)
            if len(c.x['args']) > 2:
                ctx.need(len(t.args) > 2 and c.x['args'][2] is t.args[2], tags | {'C19', 'C26'}, R, 'the universal '
                         'construction is not initialised with the given parameter', t, c)
        for l, th in uses:
            ctx.need(l in own, tags | {'C26'}, R, 'an operation uses a universal construction that is not initialised', t,
                     t.ev[-1])
        ctx.need(len(own) == len(t.calls(si)), tags | {'C26'}, R, 'two universal constructions share their memory', t,
                 t.ev[-1])
    for t in ctx.paths(tinit, opaque=(ti,) + POOLFN):
        got = [(rel(c.x['args'][li], t.args[0]), rel(c.x['args'][hi], t.args[1])) for c in t.calls(ti)]
        for u in uses:
            ctx.need(got.count(u) == 1, tags | {'C26'}, R, 'an operation uses a thread state that was not initialised for '
                     'its universal construction', t, t.ev[-1])
        ctx.need(len({b for a, b in got}) == len(got), tags | {'C26'}, R, 'a thread state is initialised twice', t, t.ev[-1])
        for c in t.calls(ti):
            ctx.need(c.x['args'][pi] is t.args[2], tags | {'C26'}, R, 'a thread state is initialised for another thread', t, c)


def same_pool(ctx, t, p):
    """normal form of a pool address"""
    b, c, o = base_off(p)
    if b is not None and b.kind == 'glob':
        g = ctx.prog.global_(b.a)
        return ('tls' if g and g['tls'] else 'shared', b.a, c)
    return ('obj', rel(p, t.args[0]), 0)


def pools(ctx, spec, used, tags):
    """used: pool normal forms of the sequential functions; all equal, private to the thread, and initialised"""
    R = ctx.group + '.pool'
    T = {'C08', 'C09'}
    sz = ctx.sizeof('Node') or 16
    places = set()
    for t in ctx.paths(spec[3], opaque=(COMB[spec[0]][2],) + POOLFN):
        ini = [(same_pool(ctx, t, c.x['args'][0]), c) for c in t.calls('synchInitPool')]
        for u, (tr, e) in used.items():
            ok = [c for p, c in ini if p == u]
            ctx.need(bool(ok), T | {'C26'} | tags, R, 'nodes are taken from a pool that the thread does not initialise', t, t.ev[-1])
            ctx.need(u[0] != 'shared', T | tags, R, 'nodes are taken from a pool that is shared by threads', tr, e)
            if u[0] == 'obj':
                ctx.need('synchGetThreadId' in u[1], T | tags, R, 'nodes are taken from a pool that does not belong to '
                         'the running thread', tr, e)
        for p, c in ini:
            s = c.x['args'][1]
            ctx.need(is_c(s) and cval(s) >= sz, T | tags, R, 'the objects of the pool are smaller than a node', t, c)
            b = base_off(c.x['args'][0])[0]
            if p[0] == 'obj' and b is not None and b.kind == 'ld':
                d = sub(b.a[1], t.args[0])
                if d.kind == 'c':
                    places.add(cval(d))
    # an array of pools has one for each thread
    from .hash import need_array
    for d in places:
        for t in ctx.paths(spec[2], opaque=(COMB[spec[0]][1],)):
            need_array(ctx, t, addc(t.args[0], d), t.args[1], ctx.sizeof('SynchPoolStruct'), T | tags, R, 'of pools')


def no_use_after(ctx, t, rec, R, own=()):
    """a recycled node is not accessed afterwards, nor recycled again"""
    nodes = [(c, c.x['args'][1]) for c in rec]
    for i, (c, n) in enumerate(nodes):
        for e in t.ev[c.idx + 1:]:
            if e.kind in ('load', 'store', 'rmw', 'cas') and e.addr is not None:
                d = diff_const(e.addr, n)
                ctx.need(d is None or not 0 <= d < 16, {'C08'}, R, 'a node is accessed after it was given back', t, e)
        for c2, m in nodes[i + 1:]:
            ctx.need(m is not n, {'C08', 'C09'}, R, 'a node is given back twice', t, c2)


SEQ = dict(seq=True, pure=('synchRecycleObj',), max_rec=3, k=3)


def serial_enqueue(ctx, fn, mod, S, tags, used):
    R = ctx.group + '.enqueue'
    A = tags | {'C06'}
    for t in ctx.paths(fn, mod, **SEQ):
        st, arg, pid = t.args
        al = t.calls('synchAllocObj')
        if not ctx.need(len(al) == 1, tags, R, 'an enqueue does not allocate exactly one node', t, t.ev[-1]):
            continue
        n = al[0].res
        used.setdefault(same_pool(ctx, t, al[0].x['args'][0]), (t, al[0]))
        N = lambda b, f: t.fa(b, 'Node', f)
        last = t.fa(st, S, 'last')
        ld = t.find('load', last)
        lk = [e for e in t.find('store') if e.val is n and e.addr is not last]
        if not ctx.need(len(lk) == 1 and ld and lk[0].addr is N(ld[0].res, 'next'), tags, R, 'the new node is not linked '
                        'behind the last node of the queue by exactly one store', t, lk[0] if lk else t.ev[-1]):
            continue
        sl = t.find('store', last)
        ctx.need(len(sl) == 1 and sl[0].val is n, tags, R, 'the new node does not become the last one', t, t.ev[-1])
        s = t.last_store(N(n, 'val'), lk[0].idx)
        ctx.need(s is not None and s.val is arg and s.size == 8, A | {'C25'}, R, 'the value is not stored unchanged in the new '
                 'node before the node is linked', t, lk[0])
        s = t.last_store(N(n, 'next'), lk[0].idx)
        ctx.need(s is not None and const_is(s.val, True), tags | {'C25'}, R, 'the next pointer of the new node is not '
                 'cleared before the node is linked', t, lk[0])
        for e in t.writes(lk[0].idx + 1):
            ctx.need(e.addr is last, tags, R, 'memory is changed after the new node was linked', t, e)
        for e in t.writes(0, lk[0].idx):
            ctx.need(base_off(e.addr)[0] is n or e.addr is last, tags, R, 'an enqueue changes another location', t, e)
        for c in t.calls('synchRecycleObj'):
            ctx.need(False, {'C08'} | tags, R, 'an enqueue gives back a node', t, c)


def serial_dequeue(ctx, fn, mod, S, tags, used):
    R = ctx.group + '.dequeue'
    for t in ctx.paths(fn, mod, **SEQ):
        st = t.args[0]
        first = t.fa(st, S, 'first')
        N = lambda b, f: t.fa(b, 'Node', f)
        ld = t.find('load', first)
        rec = t.calls('synchRecycleObj')
        for c in t.calls('synchAllocObj'):
            ctx.need(False, tags, R, 'a dequeue allocates a node', t, c)
        if not ctx.need(bool(ld), tags, R, 'a dequeue does not look at the first node', t, t.ev[-1]):
            continue
        # follow the list from the first node as the path saw it
        cur, passed, ok = ld[0].res, [], True
        val = None
        while True:
            nx = t.find('load', N(cur, 'next'))
            if not ctx.need(bool(nx), tags, R, 'the result does not depend on whether the queue is empty', t, t.ev[-1]):
                ok = False
                break
            n = nx[0].res
            z = t.tested(n, True)
            if z:
                val = None
                break
            if not ctx.need(t.tested(n, False), tags, R, 'an element is taken without having seen that there is one', t,
                            nx[0]):
                ok = False
                break
            passed.append(cur)
            vl = t.find('load', N(n, 'val'))
            cur = n
            if vl and t.known(eq(vl[0].res, const(GUARD))) is True:
                continue
            val = vl[0].res if vl else False
            break
        if not ok:
            continue
        fin = [e for e in t.find('store', first)]
        if val is None:
            ctx.need(is_c(t.ret) and cval(t.ret) in (EMPTY, EMPTY & (1 << 64) - 1), tags | {'C06'}, R,
                     'a dequeue from the empty queue does not return the documented answer', t, t.ev[-1])
            if passed:
                ctx.need(fin and fin[-1].val is cur, tags, R, 'a skipped guard stays in the queue', t, t.ev[-1])
        else:
            ctx.need(val is not False and (t.ret is val or t.ret.kind == 'ld' and t.ret.a[1] is N(cur, 'val')), tags | {'C06'}, R,
                     'a dequeue does not return the value of the oldest element', t, t.ev[-1])
            ctx.need(bool(fin) and fin[-1].val is cur, tags, R, 'the oldest element is not removed', t, t.ev[-1])
        for e in t.writes():
            ctx.need(e.addr is first and e.val in passed + [cur] and (passed or False), tags, R,
                     'a dequeue changes another location', t, e)
        for c in rec:
            used.setdefault(same_pool(ctx, t, c.x['args'][0]), (t, c))
            n = c.x['args'][1]
            ctx.need(n in passed, {'C08'} | tags, R, 'a node is given back that is still in the queue', t, c)
        no_use_after(ctx, t, rec, R)


def serial_pushpop(ctx, fn, mod, S, tags, used, pushes, pops):
    R = ctx.group + '.apply'
    for t in ctx.paths(fn, mod, **SEQ):
        st, arg, pid = t.args
        top = t.fa(st, S, 'top')
        N = lambda b, f: t.fa(b, 'Node', f)
        pop = t.known(eq(arg, const(GUARD)))
        if not ctx.need(pop is not None, tags | {'C06'}, R, 'push and pop are not told apart by the reserved value '
                        'alone', t, t.ev[-1]):
            continue
        ld = t.find('load', top)
        if not ctx.need(bool(ld), tags, R, 'the top of the stack is not looked at', t, t.ev[-1]):
            continue
        o = ld[0].res
        fin = t.find('store', top)
        rec = t.calls('synchRecycleObj')
        al = t.calls('synchAllocObj')
        for c in rec + al:
            used.setdefault(same_pool(ctx, t, c.x['args'][0]), (t, c))
        if pop:
            for c in al:
                ctx.need(False, tags, R, 'a pop allocates a node', t, c)
            if t.tested(o, True):
                ctx.need(is_c(t.ret) and cval(t.ret) in (EMPTY, EMPTY & (1 << 64) - 1), tags | {'C06'}, R,
                         'a pop from the empty stack does not return the documented answer', t, t.ev[-1])
                for e in t.writes():
                    ctx.need(False, tags, R, 'a pop from the empty stack changes it', t, e)
                for c in rec:
                    ctx.need(False, tags | {'C08'}, R, 'a pop from the empty stack gives back a node', t, c)
                continue
            if not ctx.need(t.tested(o, False), tags, R, 'a pop does not look whether the stack is empty', t, t.ev[-1]):
                continue
            ctx.need(t.ret.kind == 'ld' and t.ret.a[1] is N(o, 'val'), tags | {'C06'}, R,
                     'a pop does not return the value of the top element', t, t.ev[-1])
            ctx.need(len(fin) == 1 and fin[-1].val.kind == 'ld' and fin[-1].val.a[1] is N(o, 'next'), tags, R,
                     'a pop does not remove exactly the top element', t, t.ev[-1])
            for e in t.writes():
                ctx.need(e.addr is top, tags, R, 'a pop changes another location', t, e)
            for c in rec:
                ctx.need(c.x['args'][1] is o, {'C08'} | tags, R, 'a pop gives back a node that is still in the stack', t, c)
            no_use_after(ctx, t, rec, R)
        else:
            if not ctx.need(len(al) == 1, tags, R, 'a push does not allocate exactly one node', t, t.ev[-1]):
                continue
            n = al[0].res
            for c in rec:
                ctx.need(False, tags | {'C08'}, R, 'a push gives back a node', t, c)
            ctx.need(len(fin) == 1 and fin[0].val is n, tags, R, 'the new node does not become the top', t, t.ev[-1])
            i = len(t.ev)
            s = t.last_store(N(n, 'val'), i)
            ctx.need(s is not None and s.val is arg and s.size == 8, tags | {'C06'}, R, 'the value is not stored unchanged in '
                     'the new node', t, t.ev[-1])
            ctx.need(t.stored(N(n, 'next'), i) is o, tags, R, 'the new node does not point to the former top', t, t.ev[-1])
            for e in t.writes():
                ctx.need(e.addr is top or base_off(e.addr)[0] is n, tags, R, 'a push changes another location', t, e)


def queue(ctx, mod, spec):
    fam, S, sinit, tinit, enq, deq = spec
    tags = {'C04'}
    uses, used = {}, {}
    fns = {}
    for role, w in (('enq', enq), ('deq', deq)):
        for t in ctx.paths(w, opaque=(COMB[fam][0],)):
            r = wrapper(ctx, t, fam, tags, (lambda a: a is t.args[2]) if role == 'enq' else (lambda a: True))
            if r is None:
                continue
            uses.setdefault(role, set()).add(r[:2])
            fns.setdefault(role, set()).add(r[2])
            if role == 'deq':
                ctx.need(t.ret is r[3].res, tags | {'C06'}, ctx.group + '.call', 'the result of the operation is not returned '
                         'unchanged', t, t.ev[-1])
    for role in uses:
        ctx.need(len(uses[role]) == 1 and len(fns[role]) == 1, tags, ctx.group + '.call', 'the same operation is sent to '
                 'different universal constructions', where=mod)
    if set(uses) != {'enq', 'deq'}:
        return
    wiring(ctx, spec, {u for r in uses.values() for u in r}, tags)
    for f in fns['enq']:
        serial_enqueue(ctx, f, mod, S, tags, used)
    for f in fns['deq']:
        serial_dequeue(ctx, f, mod, S, tags, used)
    ctx.need(len(used) == 1, {'C08', 'C09'}, ctx.group + '.pool', 'nodes are taken from and given back to different pools',
             where=mod)
    pools(ctx, spec, used, tags)
    for t in ctx.paths(sinit, opaque=(COMB[fam][1],)):
        o, i = t.args[0], len(t.ev)
        f, l = t.stored(t.fa(o, S, 'first'), i), t.stored(t.fa(o, S, 'last'), i)
        if ctx.need(f is not None and f is l, tags | {'C26'}, ctx.group + '.init', 'first and last of the empty queue are not '
                    'the same node', t, t.ev[-1]):
            b = base_off(f)[0]
            ctx.need(b is o or b is not None and b.kind == 'obj', tags | {'C26', 'C27'}, ctx.group + '.init',
                     'the first node does not belong to the queue', t, t.ev[-1])
            ctx.need(const_is(t.stored(t.fa(f, 'Node', 'next'), i), True), tags | {'C26'}, ctx.group + '.init',
                     'the empty queue has a second node', t, t.ev[-1])


def stack(ctx, mod, spec):
    fam, S, sinit, tinit, push, pop = spec
    tags = {'C05'}
    uses, used, fns = set(), {}, set()
    isg = lambda a: is_c(a) and cval(a) in (GUARD, GUARD & (1 << 64) - 1)
    n = 0
    for w in (push, pop):
        for t in ctx.paths(w, opaque=(COMB[fam][0],)):
            r = wrapper(ctx, t, fam, tags, (lambda a: a is t.args[2]) if w is push else isg)
            if r is None:
                continue
            uses.add(r[:2])
            fns.add(r[2])
            if w is pop:
                ctx.need(t.ret is r[3].res, tags | {'C06'}, ctx.group + '.call', 'the result of the operation is not returned '
                         'unchanged', t, t.ev[-1])
    ctx.need(len(uses) == 1, tags, ctx.group + '.call', 'push and pop are not sent to the same universal construction',
             where=mod)
    wiring(ctx, spec, uses, tags)
    for f in fns:
        serial_pushpop(ctx, f, mod, S, tags, used, 0, 0)
    ctx.need(len(used) == 1, {'C08', 'C09'}, ctx.group + '.pool', 'nodes are taken from and given back to different pools',
             where=mod)
    pools(ctx, spec, used, tags)
    for t in ctx.paths(sinit, opaque=(COMB[fam][1],)):
        ctx.need(const_is(t.stored(t.fa(t.args[0], S, 'top'), len(t.ev)), True), tags | {'C26'}, ctx.group + '.init',
                 'a new stack is not empty', t, t.ev[-1])


def _mk(nm, f, spec):
    @group(nm)
    def g(ctx):
        f(ctx, nm, spec)


for _n, _s in QUEUES.items():
    _mk(_n, queue, _s)
for _n, _s in STACKS.items():
    _mk(_n, stack, _s)
