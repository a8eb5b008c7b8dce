"""Waiting loops (C24): with the memory frozen, a thread that runs alone either finishes or repeats one round of a
loop for ever. Such a round is a round of waiting for another thread; it reads the awaited location from memory and
gives the core away."""
from .base import *
from . import sanity
from ..interp import AnalysisError

K = {'C24'}
YIELD = ('synchResched', 'synchFiberYield', 'sched_yield', 'pthread_yield')
SKIP = ('synchResched',)


def barrier(e):
    return e.kind in ('barrier', 'fence', 'rmw', 'cas') or e.kind == 'asm' and 'memory' in str(e.x) or \
        e.kind == 'call' and (e.x['fn'].kind != 'fn' or not e.x['name'].startswith(('llvm.', '__builtin')))


def waits(ctx, mods, skip=None, ranges=None):
    """runs every exported function of the modules"""
    seen = {}
    for ms in mods:
        m = ctx.prog.bysrc.get(ms)
        if m is None:
            raise Missing('source file %s.c' % ms)
        for f in m.funcs.values():
            if f.internal or f.name in SKIP or not f.blocks:
                continue
            if not has_loop(ctx, f, set()):
                continue
            try:
                ts = ctx.paths(f, None, k=1, seq=True, delay=False, stuck=10, max_const_iters=4, max_paths=6000, ends=('stuck', 'cut'),
                               ranges=ranges, opaque=YIELD)
            except AnalysisError as ex:
                ctx.inconclusive.append('%s: %s' % (f.name, ex))
                continue
            for t in ts:
                if t.end == 'stuck':
                    one(ctx, t, seen, skip)
    return seen


def has_loop(ctx, f, done):
    if f.name in done:
        return False
    done.add(f.name)
    if f.loops():
        return True
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == 'call' and i.a[1] and i.a[1][0] == 'g':
                g = ctx.prog.lookup(f.mod, i.a[1][1])
                if g is not None and g.name not in YIELD and has_loop(ctx, g, done):
                    return True
    return False


def one(ctx, t, seen, skip):
    fn, ix, counted = t.p.st.round
    if counted or len(ix) < 2:
        return
    rnd = t.ev[ix[-2]:ix[-1]]
    prev = t.ev[ix[-3]:ix[-2]] if len(ix) > 2 else rnd
    acts = [e for e in rnd if e.kind not in ('assume', 'ret')]
    # a round that changes shared memory is work, not waiting
    if any(e.kind == 'store' or e.kind in ('cas', 'rmw') and (e.kind == 'rmw' and not (is_c(e.val) and cval(e.val) == 0) or e.kind == 'cas' and e.x['ok']) for e in acts):
        return
    if skip and skip(t, acts):
        return
    key = (fn, tuple((e.kind, e.where) for e in acts))
    where = '%s (%s)' % (t.fn.mod.short, fn)
    at = acts[0] if acts else t.ev[-1]
    seen.setdefault(key, t)
    rd = [e for e in acts if e.kind in ('load', 'cas', 'rmw')]
    ctx.need(bool(rd), K | {'C25'}, 'waits.read', 'a loop waits for another thread without reading memory again', t, at, where=where)
    clob = any(barrier(e) for e in acts)
    for e in rd:
        ctx.need(e.kind != 'load' or e.vol or e.atomic or clob, K | {'C25'}, 'waits.read', 'the compiler may read the awaited location only once', t, e, where=where)
    for e in rd:
        hs = [h for h in t.eng.hints.get(e.addr, ()) if h in sanity.links(ctx)]
        if hs and t.is0(e.res):
            n = addc(e.addr, -hs[0][1])
            ctx.need(not_last(t, n), K | {'C02', 'C03'}, 'waits.successor', 'a thread waits for a successor although its node may be the last one', t, e, where=where)
    for r in (rnd, prev):
        if not ctx.need(any(e.kind == 'call' and e.x['name'] in YIELD for e in r), K, 'waits.yield', 'a thread that waits here does not give its core to others', t, at,
                        where=where):
            break


def not_last(t, n):
    """the path saw that n is not the last node of the list"""
    return any(e.kind == 'cas' and not e.x['ok'] and e.x['exp'][0] is n or e.kind == 'load' and e.res is not None and e.res.w == n.w and t.known(eq(e.res, n)) is False and
               any(f in TAILS for f in fields(t, e.addr)) for e in t.ev)


TAILS = ('Tail', 'tail')


def fields(t, a):
    r = set()
    for s, o in t.eng.hints.get(a, ()):
        if s.startswith('struct.'):
            for f, i in (t.ctx.prog.fields(s[7:]) or {}).items():
                if i[0] == 8 * o:
                    r.add(f)
    return r


def mk(name, mods, ranges=None, skip=None):
    @group('wait' + name)
    def g(ctx):
        waits(ctx, mods, skip, ranges)
    return g


def osci_new(t, acts):
    """a fiber that finds the node of its group in the combining point with a closed door: the fibers of a group share one
    thread, and none of them gives the core away between entering its node and opening the door; the node is taken
    out before the door is closed"""
    rd = [e for e in acts if e.kind == 'load']
    got = {e.res for e in rd}
    return any(addc(e.addr, -t.off('OsciNode', 'door')) in got for e in rd)


mk('cc', ('ccsynch', 'ccqueue', 'ccstack'))
mk('dsm', ('dsmsynch', 'dsmqueue', 'dsmstack', 'dsmhash'))
mk('h', ('hsynch', 'hqueue', 'hstack'))
mk('osci', ('osci', 'osciqueue', 'oscistack'), skip=osci_new)
mk('oyama', ('oyama',), {('OyamaStruct', 'lock'): (0, 1)})
def fc_held(t, acts):
    """a request waits only while somebody holds the lock"""
    l = [e for e in acts if e.kind == 'load' and ('struct.FCStruct', t.off('FCStruct', 'lock')) in t.eng.hints.get(e.addr, ())]
    a = [e for e in acts if e.kind == 'load' and ('struct.FCRequest', t.off('FCRequest', 'pending')) in t.eng.hints.get(e.addr, ())]
    if l or a:
        t.ctx.need(any(t.nz(e.res) for e in l), K | {'C02'}, 'waits.combiner', 'a request waits although nobody holds the lock', t, (l + a)[0])
    return False


mk('fc', ('fc', 'fcqueue', 'fcstack'), skip=fc_held)
mk('locks', ('clh', 'mcs', 'clhhash'))
mk('lf', ('msqueue', 'lfstack', 'lfuobject', 'lcrq'))
mk('prims', ('barrier', 'threadtools', 'uthreads', 'pool', 'backoff', 'primitives'))
mk('sim', ('sim', 'simstack', 'simqueue'))
