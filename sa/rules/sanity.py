"""Rules for every path that is analysed: no access through a pointer that was last seen to be null, and no access beyond a
block whose size is known."""
from .base import *

ACC = ('load', 'store', 'cas', 'rmw', 'memcpy', 'memset')
LOADED = ('ld', 'rmw', 'old', 'call', 'havoc', 'obj')


class Sanity:
    def __init__(self, ctx, t):
        self.ctx, self.t = ctx, t
        n = 0
        for e in t.ev:
            if e.kind == 'assume':
                if unset(e.val):
                    ctx.bad({'*'}, e.where, 'access: a decision depends on a variable that was not set', t, e)
            elif e.kind in ACC and e.addr is not None:
                if unset(e.addr):
                    ctx.bad({'*'}, e.where, 'access: the place depends on a variable that was not set', t, e)
                b, c, ts = base_off(e.addr)
                if e.kind == 'store' and unset(e.val) and (b is None or b.kind != 'alloca'):
                    ctx.bad({'*'}, e.where, 'access: a value is stored that was not set', t, e)
                if b is not None:
                    n += 1
                    if b.kind == 'obj':
                        self.bounds(e, b, c, ts)
                    elif b.kind == 'ld':
                        self.null(e, b)
                    elif b.kind == 'rmw' and self.seen(b, e) is not False and any(h in tails(ctx) for h in t.eng.hints.get(self.place(b), ())):
                        ctx.bad({'*'}, e.where, 'access: the previous tail is used without having been seen set', t, e)
            elif e.kind == 'call' and e.x['fn'].kind == 'fn' and e.x['name'] in EXT:
                for a in e.x['args']:
                    b, c, ts = base_off(a)
                    if b is not None and b.kind == 'obj':
                        n += 1
                        self.bounds(e, b, c, ts, 1)
        ctx.count('access', n)
        if t.end == 'ret' and t.ret is not None and t.ret.kind in ('undef', 'uninit'):
            ctx.bad({'*'}, t.where, 'access: the result is not set on a path', t, t.ev[-1])

    def bounds(self, e, b, c, ts, size=None):
        size = size or e.size
        a = self.t.ev[b.a[0]] if isinstance(b.a[0], int) and b.a[0] < len(self.t.ev) else None
        if a is None or a.kind != 'call' or not a.x.get('args') or a.x['name'] not in SIZED:
            return
        s = a.x['args'][-1]
        if not size:
            return
        msg = 'access: the block allocated at %s is smaller than the access' % a.where
        if is_c(s):
            if not ts and not 0 <= c <= cval(s) - size:
                self.ctx.bad({'*'}, e.where, msg, self.t, e)
            return
        if not ts and c < 0:
            self.ctx.bad({'*'}, e.where, 'access: the access lies in front of the block allocated at %s' % a.where, self.t, e)
            return
        if ts:
            # the end of the access less the end of the block
            d = sub(addc(sub(e.addr if e.addr is not None else addc(b, c), b), size), s)
            if d.kind == 'c' and 0 < cval(d) < 1 << 40:
                self.ctx.bad({'*'}, e.where, msg, self.t, e)
            return
        c0, xs = terms(s)
        if len(xs) == 1 and 0 < xs[0][1] < 1 << 32:
            x, q = xs[0]
            m = -((c0 - c - size) // q)           # the smallest x for which the access lies in the block
            while x.kind == 'op' and x.a[0] in ('sext', 'zext'):
                x = x.a[1]
            if 2 <= m < 1 << (x.w - 1) and self.t.known(icmp('sge', x, const(m, x.w))) is False and \
                    self.t.known(icmp('sge', x, const(1, x.w))) is not False:
                self.ctx.bad({'*'}, e.where, msg, self.t, e)

    def null(self, e, b):
        t = self.t
        if exempt(t, b):
            return
        if t.end == 'null' and e is t.ev[-1]:
            self.ctx.bad({'*'}, e.where, 'access: a null pointer is used', t, e)
            return
        # the pointer itself was loaded after the last look at its place, which found it null
        at = b.a[1]
        if self.seen(b, e) is not None:
            return
        must = any(h in links(self.ctx) for h in t.eng.hints.get(at, ()))
        for x in reversed(t.ev[:b.a[0]]):
            if x.kind in ('store', 'rmw', 'cas', 'call') and (x.addr is at or x.addr is None):
                if x.kind == 'store' and must and is_c(x.val) and cval(x.val) == 0:
                    break
                if x.kind != 'call':
                    return
                continue
            if x.kind == 'load' and x.addr is at and x.res is not None:
                z = self.seen(x.res, e)
                if z is True:
                    self.ctx.bad({'*'}, e.where, 'access: a pointer is used that was last seen to be null (%s)' % x.where, t, e)
                if z is not None:
                    return
        if must:
            self.ctx.bad({'*'}, e.where, 'access: the next pointer of a node is followed without having been seen set', t, e)

    def place(self, b):
        for x in self.t.ev:
            if x.kind == 'rmw' and x.res is b:
                return x.addr

    def seen(self, v, e):
        """the path tested v: True if it was null, False if not, None if it was not tested"""
        r = None
        z = eq(v, const(0, v.w))
        for x in self.t.ev:
            if x.kind == 'assume':
                c, b = x.val, x.x
                while c.kind == 'not':
                    c, b = c.a[0], not b
                if c is z and x.idx < e.idx:
                    r = bool(b)
        return r


_unset = {}


def unset(v):
    """the value is computed from a local variable that was not written on the path"""
    if v is None:
        return False
    r = _unset.get(v)
    if r is None:
        if v.kind == 'undef':
            r = len(v.a) == 3
        elif v.kind in ('ld', 'c', 'alloca', 'obj', 'glob', 'fn', 'param', 'call', 'rmw', 'old', 'havoc'):
            r = False
        else:
            r, st = False, [v.a]
            while st and not r:
                x = st.pop()
                if isinstance(x, V):
                    r = unset(x)
                elif isinstance(x, (tuple, list)):
                    st.extend(x)
        _unset[v] = r
    return r


EXT = ('getcontext', 'makecontext', 'swapcontext', '_setjmp', 'setjmp', 'pthread_create')      # they write where their argument points to
SIZED = ('synchGetMemory', 'synchGetAlignedMemory', 'malloc')


def links(ctx):
    """next pointers that stay null until the next thread sets them"""
    r = ctx.__dict__.get('_links')
    if r is None:
        r = set()
        for s in ('CCSynchNode', 'DSMSynchNode', 'HSynchNode', 'OsciNode', 'MCSLockNode'):
            try:
                r.add(ctx.hint(s, 'next'))
            except Missing:
                pass
        ctx._links = r
    return r


def tails(ctx):
    """tail pointers that are null while the list is empty"""
    r = ctx.__dict__.get('_tails')
    if r is None:
        r = set()
        for s, f in (('DSMSynchStruct', 'Tail'), ('OsciStruct', 'Tail'), ('MCSLockStruct', 'Tail'), ('OyamaStruct', 'tail')):
            try:
                r.add(ctx.hint(s, f))
            except Missing:
                pass
        ctx._tails = r
    return r


def exempt(t, b):
    """the list of flat combining is never empty after the own request was added to it (the requests are not removed from its
    front); the paths do not know that"""
    return any(s == 'struct.FCStruct' for s, _ in t.eng.hints.get(b.a[1], ()))


def check(ctx, ts):
    for t in ts:
        Sanity(ctx, t)
