"""Separate instances (C27): the objects keep no state outside of their own memory. The only exception is the pool of
nodes that a thread uses for all objects of one kind; it holds free nodes only."""
from .base import *

K = {'C27'}
OBJECT_DIR = '/concurrent/'
POOL = 'struct.SynchPoolStruct'
SHARED_PRIMS = ('pool', 'barrier', 'backoff')
READ = ('load', 'icmp', 'br', 'switch', 'ret')


def uses(m, g):
    """instructions that may write the global or hand out its address: (function, instruction)"""
    r = []
    for f in m.funcs.values():
        der = set()
        ins = [i for b in f.order for i in f.blocks[b]]
        grow = True
        while grow:     # addresses derived from the global
            grow = False
            for i in ins:
                tl = i.op == 'call' and i.a[1] and i.a[1][0] == 'g' and i.a[1][1].startswith('llvm.threadlocal')
                if i.dst is not None and i.dst not in der and (tl or i.op in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'phi', 'select', 'add')) and \
                        mentions(i.a, g, der):
                    der.add(i.dst)
                    grow = True
                if i.op == 'load' and i.dst not in der and i.a[1][0] == 'r' and i.a[1][1] in f.once() and mentions(f.once()[i.a[1][1]], g, der):
                    der.add(i.dst)
                    grow = True
        for i in ins:
            if i.op == 'load' or i.dst in der or i.op == 'icmp':
                continue
            if i.op == 'store' and i.a[2][0] == 'r' and i.a[2][1] in f.once():
                continue
            if mentions(i.a, g, der):
                r.append((f, i))
    return r


def mentions(x, g, der):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], str) and y[0] in ('r', 'g'):
            if y[0] == 'g' and y[1] == g or y[0] == 'r' and y[1] in der:
                return True
        elif isinstance(y, (tuple, list)):
            st.extend(y)
    return False


@group('globals')
def globals_(ctx):
    n = 0
    for m in ctx.prog.mods:
        if OBJECT_DIR not in m.src and m.short not in SHARED_PRIMS:
            continue
        for f in m.funcs.values():
            if f.blocks:
                ctx.fns.add((m.short, f.name))
        for name, g in m.globals.items():
            if g['const'] or g['external'] and name in ('stderr', 'stdout', 'stdin', 'environ'):
                continue
            n += 1
            where = '%s (%s)' % (m.short + '.c', name)
            if g['external']:
                us = [(f, i) for f, i in uses(m, name)]
                ctx.need(not us, K, 'globals.extern', 'variable %s of another source file is changed by %s' %
                         (name, us[0][0].name if us else ''), where=where)
                continue
            if g['tls'] and repr(g['type']) == POOL:
                only_pool(ctx, m, name, where)
                continue
            us = uses(m, name)
            ctx.need(not us, K, 'globals.state', 'all instances share the variable %s, changed by %s' % (name.split('.')[-1], us[0][0].name if us else ''), where=where)
    ctx.count('globals.modules', n + 1, K)


def only_pool(ctx, m, name, where):
    """the pool is used by the functions of the pool only"""
    for f, i in uses(m, name):
        ok = False
        if i.op == 'call' and i.a[1] and i.a[1][0] == 'g':
            g = ctx.prog.lookup(m, i.a[1][1])
            ok = g is not None and (g.mod.short == 'pool' or g.mod is m)
        ctx.need(ok, K, 'globals.pool', 'the pool of the thread is changed by %s otherwise than by the functions of the pool' % f.name, where=where)
