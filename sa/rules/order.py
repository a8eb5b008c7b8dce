"""Order of hand-over accesses (C25): applied to every path that the other rules analyse (Ctx.paths calls check)."""
from .base import *

K = {'C25'}
OWN = ('ThreadState',)


def barrier(e):
    if e.kind in ('barrier', 'fence', 'rmw', 'cas'):
        return True
    if e.kind == 'asm':
        return 'memory' in str(e.x)
    if e.kind == 'call':
        return not e.x['name'].startswith(('llvm.', '__builtin'))
    return e.kind in ('load', 'store') and e.atomic


class Order:
    def __init__(self, ctx, t):
        self.ctx, self.t, self.eng = ctx, t, t.eng
        self.h = t.eng.hints
        self.sim = t.fn.mod.short.startswith('sim')      # the records of the Sim objects have their own rules
        self.rule()

    def hint(self, a):
        return self.h.get(a, ())

    def private(self, e):
        """memory of the calling thread: stack, thread-local variables, thread states"""
        a = e.addr
        if any(any(o in s for o in OWN) for s, _ in self.hint(a)):
            return True
        b = base_off(a)[0]
        while b is not None and b.kind not in ('ld',):
            if b.kind == 'alloca' or any(any(o in s for o in OWN) for s, _ in self.hint(b)):
                return True
            n = base_off(b)[0]
            if n is b or n is None:
                break
            b = n
        if b is not None and b.kind == 'ld':
            return any(any(o in s for o in OWN) for s, _ in self.hint(b.a[1]))
        return False

    def depends(self, e, k):
        """the address uses what event k loaded, or something loaded later"""
        st, seen = [e.addr], set()
        while st:
            x = st.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.kind == 'ld':
                if x.a[0] >= k.idx or x.a[1] is k.addr:
                    return True
                st.append(x.a[1])
                continue
            stack = list(x.a) if isinstance(x.a, tuple) else [x.a]
            while stack:
                y = stack.pop()
                if isinstance(y, V):
                    st.append(y)
                elif isinstance(y, (tuple, list)):
                    stack.extend(y)
        return False

    def rule(self):
        ctx, t = self.ctx, self.t
        pend, lastv = [], None
        for e in t.ev:
            if barrier(e):
                pend, lastv = [], None
                continue
            if e.kind not in ('load', 'store') or e.addr is None:
                continue
            b = base_off(e.addr)[0]
            if b is not None and b.kind == 'alloca':
                continue
            if e.kind == 'store':
                if e.vol:
                    if b is not None and b.kind == 'obj':
                        continue
                    for p in pend:
                        ctx.need(False, K, 'order.publish', 'the compiler may move this plain store below the volatile store at %s' % e.where, t, p)
                    ctx.count('order.publish', 1, K)
                elif not self.private(e):
                    pend.append(e)
            elif e.vol:
                lastv = e
            elif lastv is not None and not self.sim and not self.private(e):
                if self.stable(e) or self.depends(e, lastv) or set(self.hint(e.addr)) & set(self.hint(lastv.addr)) or self.atomic_only(e):
                    continue
                ctx.need(False, K, 'order.observe', 'the compiler may move this plain load above the volatile load at %s' % lastv.where, t, e)

    def stable(self, e):
        hs = self.hint(e.addr)
        w = self.ctx.prog.config_fields()
        return bool(hs) and all(h in w for h in hs)


    def atomic_only(self, e):
        """a place that only atomic instructions change: whoever reads it has to confirm what it read by one of them"""
        hs = self.hint(e.addr)
        w = self.ctx.prog.stored_fields()
        return bool(hs) and all(h not in w for h in hs)


def check(ctx, ts):
    for t in ts:
        m = t.fn.mod
        if '/concurrent/' not in m.src and m.short not in ('barrier',):
            return
        if 'Init' in t.fn.name:
            return
        Order(ctx, t)
