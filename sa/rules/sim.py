"""Sim: announced operations are applied once, in private records, and switched in by a validated CAS.

The operations are analysed for instances with one and with two words of toggles; the id of the thread, the arguments and all
memory contents stay symbolic.  The vectors, pools and records have the addresses that the init functions give them (checked
by the group `init`)."""
from .base import *
from .serial import EMPTY, GUARD

def const_is(v, n):
    return v is not None and is_c(v) and v is const(n, v.w)


TV = 'ToggleVector'
POOL = ('synchRecycleObj', 'synchRollback')


class Inst:
    def __init__(self, ctx, fn, S, T, R, names, n, bank, k, mod=None):
        self.ctx, self.n, self.bank, self.nm = ctx, n, bank, names
        self.S, self.Th, self.Rn = S, T, R
        f = ctx.prog.find(fn, mod)
        if f is None:
            raise Missing('function %s' % fn)
        self.f = f
        m = f.mod.short
        self.cells = tvec_words(ctx, n)
        off = lambda s, x: ctx.off(s, x, m)
        self.pid = VV.mk_bits(((sym('pid', 'p', 6), 0, 6), (bank, None, 26)), 32)
        self.pid64 = VV.zext(self.pid, 64)
        self.bit = VV.shl(const(1, 64), VV.mk_bits(((sym('pid', 'p', 6), 0, 6), (0, None, 58)), 64), 64)
        args = [sym('param', (i, nm), t.w if t.kind == 'int' else 64) for i, (t, nm) in enumerate(f.params)]
        args[-1] = self.pid
        self.args = args
        A, Th = args[0], args[1]
        self.A, self.T = A, Th
        fx = self.fixed = {}

        def g(name):
            return sym('glob', 'sim:' + name, 64)
        self.announce, self.tog = g('announce'), g('toggles')
        fx[addc(A, off(S, 'announce'))] = self.announce
        fx[addc(A, off(S, 'nthreads'))] = const(n)
        self.pools = {}
        for x in names['pools']:
            p = g('pool' if x == names['pool'] else x)
            self.pools[p] = names['pools'][x]
            fx[addc(A, off(S, x))] = p
            if x == names['pool']:
                self.pool = p
            else:
                self.opool = p
        self.spaddr = addc(A, off(S, names['sp']))

        def vec(base, cell):
            fx[addc(base, off(TV, 'nthreads'))] = const(n)
            fx[addc(base, off(TV, 'tvec_cells'))] = const(self.cells)
            fx[addc(base, off(TV, 'cell'))] = cell
        for x in names['vectors']:
            vec(addc(A, off(S, x)), self.tog if x == names['tog'] else g('other.' + x))
        tf = ctx.prog.fields(T, m) or {}
        self.tv = {}
        for x in tf:
            if x + '.cell' in tf:
                self.tv[x] = g('T.' + x)
                vec(addc(Th, off(T, x)), self.tv[x])
        for b, s, x, v in ((A, S, 'MAX_BACK', 0), (Th, T, 'backoff', 1), (Th, T, 'max_backoff', 1)):
            try:                    # the length of the delays is irrelevant here
                fx[addc(b, off(s, x))] = const(v)
            except Missing:
                pass
        self.toggle = self.tv.get(names['toggle'])
        self.my = self.tv.get(names['my_bit'])
        if self.toggle is None or self.my is None:
            raise Missing('toggle vectors of ' + T)
        self.li = addc(Th, off(T, names['li']))
        self.rl = {}
        for rn in set(names['pools'].values()):
            fl = ctx.prog.fields(rn, m)
            if not fl:
                raise Missing('struct ' + rn)
            d = {x: i[0] // 8 for x, i in fl.items()}
            for x in ('applied', '__flex'):
                if x not in d:
                    raise Missing('member %s of %s' % (x, rn))
            d['$ret'] = d['__flex'] + self.cells * 8
            d['$size'] = ctx.sizeof(rn) + self.cells * 8 + (8 * n if 'ret' in d else 0)
            a = d['applied']
            d['$fix'] = {a + off(TV, 'nthreads'): const(n), a + off(TV, 'tvec_cells'): const(self.cells)}
            d['$cell'] = a + off(TV, 'cell')
            self.rl[rn] = d
        self.r = self.rl[names['pools'][names['pool']]]
        self.val, self.next = off('Node', 'val') if names.get('node') else 0, off('Node', 'next') if names.get('node') else 0
        pool = names.get('tpool')
        self.npool = addc(Th, off(T, pool)) if pool else None
        self.ts = ctx.paths(f, None, k=k, args=self.args, fix=self.fix, priv=self.priv, split=True, tvec_opaque=False,
                            private=(1,), opaque=POOL, assume=self.assume, ends=('ret', 'cut'), pure=POOL,
                            cutat=self.cutat, one_cas=True, mono=(('Node', 'next'),) if names.get('node') else (), consts={'synchFastRandomRange': 1})

    def cutat(self, eng, st, e):
        """keeps the number of paths small: a second attempt after one with several requests, or with several requests, brings
        nothing new; and a value of sp that was replaced does not come back (its stamp grows)"""
        b = base_off(e.addr)[0]
        deq = bool(self.nm.get('other_sp'))
        sps = [x for x in st.log[:-1] if x.kind == 'load' and x.addr is self.spaddr]
        again = any(x.kind == 'cas' and x.addr is self.spaddr for x in st.log[:-1])
        for i, x in enumerate(sps):
            if any(eng.decide(st, eq(x.res, y.res)) is False for y in sps[i + 1:]):
                again = True
                if e.addr is self.spaddr:
                    eng.assume(st, eq(x.res, e.res), False)
        if not again or not (b is self.announce or deq and (e.addr is self.spaddr or b is not None and b.kind == 'ld')):
            return False
        n = len({x.addr for x in st.log if x.kind == 'load' and base_off(x.addr)[0] is self.announce})
        n = max(n, len({x.addr for x in st.log if x.kind == 'store' and self.rec(base_off(x.addr)[0]) and base_off(x.addr)[2]}))
        return n >= (1 if deq else 2)

    @staticmethod
    def assume(eng, st):
        eng.assume(st, eq(sym('call', (-1, 'synchIsSystemOversubscribed'), 1), const(0, 1)), True)
        eng.assume(st, sym('call', (-1, 'synchIsSystemOversubscribed'), 1), False)

    def rec(self, b):
        return b is not None and b.kind == 'glob' and isinstance(b.a, tuple) and b.a[0] == 'rec'

    def mkrec(self, off, pool):
        return sym('glob', ('rec', off, pool), 64)

    def fix(self, eng, st, addr, size):
        v = self.fixed.get(addr)
        if v is not None:
            return v
        b, c, o = base_off(addr)
        if b in self.pools:
            return self.mkrec(sub(addr, b), b)
        if self.rec(b) and not o:
            r = self.rl[self.pools[b.a[2]]]
            v = r['$fix'].get(c)
            if v is not None:
                return v
            if c == r['$cell']:
                return addc(b, r['__flex'])
            if c == r.get('ret', -1):
                return addc(b, r['$ret'])
        return None

    def priv(self, b):
        if self.rec(b):             # the record that the thread prepares; records that sp selects are shared
            return not any(x.kind == 'ld' and x.a[1] is self.spaddr for x in VV.subvals(b.a[1]))
        return b.kind == 'glob' and b in self.tv.values()

    # ------------------------------------------------ values
    def spindex(self, s):
        """byte offset into the pool of the record a value of sp selects"""
        return scale(VV.zext(VV.slice_(s, 40, 24), 64), 8)

    def qof(self, v):
        """'own', ('q', word, difference) or None; v: a thread id of 64 bits"""
        if v is self.pid64:
            return ('own',)
        if v.kind == 'bits' and len(v.a) == 2 and v.a[0][1] == 0 and v.a[0][2] == 6 and v.a[1][1] is None:
            x = v.a[0][0]
            if x.kind == 'op' and x.a[0] == 'cttz':
                return ('q', v.a[1][0], x.a[1])
        return None

    def idx8(self, addr, base):
        """the thread id q of address base+8*q"""
        c, ts = terms(sub(addr, base))
        if len(ts) == 1 and ts[0][1] == 8 and c % 8 == 0:
            return addc(ts[0][0], c // 8)
        if not ts and c % 8 == 0:
            return const(c // 8)
        return None

    def rem(self, D):
        """D without its lowest bit"""
        b = VV.shl(const(1, 64), VV.mk_bits(((VV.op('cttz', (D,), 64), 0, 6), (0, None, 58)), 64), 64)
        return {VV.bxor(D, b, 64), VV.band(D, addc(D, -1), 64), VV.band(D, VV.bxor(b, const(-1, 64), 64), 64), sub(D, b)}

    def bitof(self, D):
        return VV.shl(const(1, 64), VV.mk_bits(((VV.op('cttz', (D,), 64), 0, 6), (0, None, 58)), 64), 64)


class Att:
    """one attempt to switch the state"""


def attempt(I, t, c):
    a = Att()
    a.cas = c
    x = c.x['exp'][0]
    a.s = x
    a.own = a.src = None
    if x.kind == 'ld' and x.a[1] is I.spaddr:
        a.lo = x.a[0]
        a.src = I.mkrec(I.spindex(x), I.pool)
    return a


def alg(ctx, I, kind, extra):
    """kind: universal, stack, enq, deq; extra: tags of the data structure"""
    nm, R = I.nm, ctx.group
    ts = I.ts
    C10, C11 = {'C10'} | extra, {'C11'} | extra
    r = I.r
    aw = lambda i: r['__flex'] + 8 * i
    npub = 0
    for t in ts:
        ev = t.ev
        end = ev[-1]
        tw = [e for e in ev if e.kind in ('store', 'cas', 'rmw', 'memcpy', 'memset') and base_off(e.addr)[0] is I.tog]
        if t.end == 'ret' or tw:
            ok = len(tw) == 1 and tw[0].kind == 'rmw' and tw[0].x['op'] == 'add' and tw[0].size == 8
            if not ctx.need(ok, C10 | {'C20'}, R + '.toggle', 'the operation does not toggle its bit by exactly one atomic addition', t, tw[-1] if tw else end):
                continue
        if not tw:
            continue
        T0 = tw[0]
        # ---- toggle, own bit, announcement
        tc = addc(I.toggle, 8 * I.bank)
        old = [e.res for e in t.find('load', tc, hi=T0.idx)]
        ctx.need(T0.addr is addc(I.tog, 8 * I.bank), C10 | {'C20'}, R + '.toggle', 'the toggled word is not the one of the thread', t, T0)
        ctx.need(any(T0.val is VV.sub(const(0, 64), x) for x in old), C10 | {'C20'}, R + '.toggle', 'the toggle added is not the negative of the previous one',
                 t, T0)
        if t.end == 'ret':
            st = [e for e in t.find('store') if base_off(e.addr)[0] is I.toggle]
            ctx.need(bool(st) and st[-1].addr is tc and st[-1].val is T0.val and len(st) == 1, C10 | {'C20'}, R + '.toggle',
                     'the toggle added is not remembered for the next operation', t, st[-1] if st else T0)
        mc = addc(I.my, 8 * I.bank)
        mo = t.find('load', mc)
        st = [e for e in t.find('store') if base_off(e.addr)[0] is I.my]
        mynew = VV.bxor(mo[0].res, I.bit, 64) if mo else None
        if t.end == 'ret':
            ctx.need(len(st) == 1 and st[0].addr is mc and st[0].val is mynew, C10 | {'C20'}, R + '.mybit',
                     'the thread does not flip its own bit exactly once', t, st[-1] if st else T0)
        if mynew is None:
            continue
        an = [e for e in ev if e.kind in ('store', 'cas', 'rmw', 'memcpy') and base_off(e.addr)[0] is I.announce]
        if nm.get('arg') is not None:
            want = nm['arg'](I)
            ok = len(an) >= 1 and an[0].idx < T0.idx and an[-1].idx < T0.idx
            ctx.need(ok, C10 | {'C25'}, R + '.announce', 'the operation is not announced before its bit is toggled', t, an[-1] if an else T0)
            for e in an:
                ctx.need(e.addr is add(I.announce, scale(I.pid64, 8)) and e.val is want, C10 | {'C06'}, R + '.announce',
                         'not the own request is announced in the own place', t, e)
        else:
            for e in an:
                ctx.need(False, C10, R + '.announce', 'an announcement is overwritten', t, e)
        # ---- writes to records
        own = None
        cs = [e for e in ev if e.kind == 'cas' and base_off(e.addr)[0] is I.A and e.addr is I.spaddr]
        spw = [e for e in t.writes() if e.addr is I.spaddr and e.kind != 'cas']
        for e in spw:
            ctx.need(False, C11, R + '.switch', 'the current record is switched without a validated CAS', t, e)
        li = [e.res for e in t.find('load', I.li)]
        owns = {}
        lisv = [li[0]] if li else []
        for v in lisv:
            for e in ev:
                if e.kind in ('store', 'memcpy', 'memset'):
                    b = base_off(e.addr)[0]
                    if I.rec(b) and b not in owns:
                        o = b.a[1]
                        # 8 * (P * pid + local_index)
                        c_, tt = terms(o)
                        P = None
                        x = sub(o, scale(VV.sext(v, 64), 8))
                        if b.a[2] is I.pool and diff_const(x, const(0, 64)) is None:
                            for p in range(2, 65):
                                if x is scale(I.pid64, 8 * p):
                                    P = p
                        owns[b] = P
        okc = [e for e in cs if e.x['ok']]
        for e in ev:
            if e.kind in ('store', 'memcpy', 'memset') or e.kind in ('cas', 'rmw'):
                b = base_off(e.addr)[0]
                if I.rec(b):
                    P = owns.get(b)
                    if ctx.need(P is not None and e.kind not in ('cas', 'rmw'), C11 | {'C19'}, R + '.private', 'a record is written that is not in the own part of the pool', t, e):
                        own = b
                        if I.nm['P'].setdefault(nm['pool'], P) != P:
                            ctx.bad(C11, e.where, R + '.private: the parts of the pool overlap', t, e)
                    if okc:
                        ctx.need(e.idx < okc[0].idx, C11, R + '.private', 'a record is written after it was published', t, e)
        # ---- local index
        lst = [e for e in t.find('store') if e.addr is I.li]
        if t.end == 'ret':
            if okc:
                P = owns.get(own) if own is not None else None
                M = None
                if lst and li:
                    v1 = addc(li[0], 1)
                    for m in range(2, 65):
                        if lst[-1].val in (VV.divrem('srem', v1, const(m, 32), 32), VV.divrem('urem', v1, const(m, 32), 32)) or \
                                m & (m - 1) == 0 and lst[-1].val is VV.band(v1, const(m - 1, 32), 32):
                            M = m
                    if const_is(lst[-1].val, 0) and t.known(eq(v1, const(P or 0, 32))) is True:
                        M = P
                    if lst[-1].val is v1 and P and t.known(eq(v1, const(P, 32))) is False:
                        M = P
                ctx.need(M is not None and P is not None and M <= P and lst[-1].idx > okc[0].idx, C11, R + '.advance',
                         'after a switch the next record of the own part of the pool is not taken', t, lst[-1] if lst else okc[0])
            else:
                ctx.need(not lst, C11, R + '.advance', 'the record to use next changes without a switch', t, lst[-1] if lst else end)
        ctx.need(len(okc) <= 1, C10, R + '.once', 'the state is switched twice', t, okc[-1] if okc else end)
        # infeasible: a successful CAS although sp was seen to change (the stamp of sp never returns)
        dead = False
        for c in okc:
            x = c.x['exp'][0]
            if any(e.addr is I.spaddr and e.kind == 'load' and e.res is not x and t.known(eq(e.res, x)) is False
                   and x.kind == 'ld' and x.a[0] < e.idx < c.idx for e in ev):
                dead = True
        if dead:
            continue
        # ---- each attempt that reached its CAS
        last_att = None
        for c in cs:
            a = attempt(I, t, c)
            if not ctx.need(a.src is not None, C11, R + '.cas', 'the switch does not compare with a value of the switched word read before', t, c):
                continue
            ctx.need(a.lo > T0.idx, C10, R + '.cas', 'the state is read before the own bit is toggled', t, c)
            nw = c.x['new'][0]
            seq, oseq = VV.slice_(nw, 0, 40), VV.slice_(a.s, 0, 40)
            inc = None
            d = VV.zext(oseq, 64)
            for k_ in (1, 2, 3):
                if seq is VV.slice_(addc(d, k_), 0, 40) or seq is VV.slice_(addc(a.s, k_), 0, 40):
                    inc = k_
            ctx.need(inc is not None, C11, R + '.stamp', 'the new value does not carry the next stamp', t, c)
            if not ctx.need(own is not None, C11, R + '.private', 'no record was prepared for the switch', t, c):
                continue
            ixs = VV.slice_(nw, 40, 24)
            e0 = own.a[1]
            ok = any(ixs is VV.slice_(add(scale(I.pid, owns[own] or 0), v), 0, 24) for v in li)
            ctx.need(ok, C11, R + '.index', 'the new value does not select the record that was prepared', t, c)
            body(ctx, I, t, a, own, T0, mynew, kind, C10, C11, extra)
            last_att = a
            npub += 1
        # ---- result
        if t.end == 'ret':
            result(ctx, I, t, T0, mynew, own, okc, kind, C10)
    if not npub:
        raise AnalysisError('%s: no path that switches the state was followed' % R)


def result(ctx, I, t, T0, mynew, own, okc, kind, C10):
    R, r, ev, end = ctx.group, I.r, t.ev, t.ev[-1]
    sps = [e for e in ev if e.kind == 'load' and e.addr is I.spaddr]
    if okc:
        if kind in ('enq',) or I.nm.get('noret'):
            return
        ra = add(addc(own, r['$ret']), scale(I.pid64, 8))
        v = t.ret
        ls = t.last_store(ra, okc[0].idx)
        ok = v.kind == 'ld' and v.a[1] is ra or ls is not None and ls.val is v
        if not ok and v.kind == 'ld' and own is not None:
            # copied with the state: the own request was applied before
            src = attempt(I, t, okc[0]).src
            ok = v.a[1] is add(addc(src, r['$ret']), scale(I.pid64, 8))
        ctx.need(ok, C10, R + '.result', 'the result is not the one computed for the own request in the switched record', t, end)
        return
    # applied by somebody else: evidence
    evid = None
    for s in sps:
        if s.idx < T0.idx:
            continue
        src = I.mkrec(I.spindex(s.res), I.pool)
        for e in t.find('load', addc(src, r['__flex'] + 8 * I.bank)):
            if applied(I, t, e.res, mynew):
                evid = s.idx if evid is None else min(evid, s.idx)
    pos, n, first = T0.idx, 0, None
    while True:
        f = None
        for e in ev[pos + 1:]:
            if e.kind == 'cas' and e.addr is I.spaddr and not e.x['ok'] and e.x['exp'][0].kind == 'ld' and e.x['exp'][0].a[0] >= pos:
                f = e
            elif e.kind == 'load' and e.addr is I.spaddr and any(pos <= s.idx < e.idx and t.known(eq(s.res, e.res)) is False for s in sps):
                f = e
            if f:
                break
        if f is None:
            break
        pos, n = f.idx, n + 1
        if n == 2:
            break
    ok = evid is not None or n >= 2
    ctx.need(ok, C10, R + '.helped', 'the operation returns although it may not have been applied yet', t, end)
    if not ok or kind == 'enq' or I.nm.get('noret'):
        return
    lo = min(x for x in (evid, pos if n >= 2 else None) if x is not None)
    v = t.ret
    ok = v.kind == 'ld' and any(s.idx >= lo and v.a[0] > s.idx and
                                v.a[1] is add(addc(I.mkrec(I.spindex(s.res), I.pool), r['$ret']), scale(I.pid64, 8)) for s in sps)
    ctx.need(ok, C10, R + '.result', 'the result is not read from a record that contains it', t, end)


def applied(I, t, ap, mynew):
    """the path knows that the bit of the thread in ap equals its current toggle; False: that it does not; None: unknown"""
    D = VV.bxor(ap, mynew, 64)
    p = VV.mk_bits(((sym('pid', 'p', 6), 0, 6), (0, None, 58)), 64)
    k = t.known(VV.trunc(VV.lshr(D, p, 64), 1))
    if k is None:
        k = t.known(eq(VV.band(D, I.bit, 64), const(0, 64)))
        k = None if k is None else not k
    return k


def body(ctx, I, t, a, own, T0, mynew, kind, C10, C11, extra):
    """the preparation of the record that attempt a switches to"""
    R, r, ev = ctx.group, I.r, t.ev
    s, c, src = a.s, a.cas, a.src
    lo, hi = a.lo, c.idx
    seg = ev[lo:hi]
    # ---- toggles seen and applied bits of the current record
    tg = {}
    for i in range(I.cells):
        tg[i] = [e for e in seg if e.kind == 'load' and e.addr is addc(I.tog, 8 * i)]
    # ---- copy
    words = []
    skip = range(r['applied'], r['applied'] + 16)
    for f, o in r.items():
        if f[0] == '$' or '.' in f or f in ('applied', 'ret', 'pad', 'counter', 'rounds', 'copy_point', '__flex'):
            continue
        words.append((o, f))
    if 'ret' in r:
        words += [(r['$ret'] + 8 * i, 'ret') for i in (0, 1, I.n // 2, I.n - 1)]
    cps = [e for e in seg if e.kind == 'memcpy' and base_off(e.addr)[0] is own]
    copied = []
    for e in cps:
        b, o, rest = base_off(e.addr)
        sb, so, sr = base_off(e.val)
        ok = sb is src and not rest and not sr and o == so and is_c(e.x)
        if not ctx.need(ok, C11, R + '.copy', 'the copy is not one of the current record, place for place', t, e):
            continue
        ctx.need(o + e.x.a <= r['$size'] and o >= 0, C11 | {'C19'}, R + '.copy', 'the copy exceeds the record', t, e)
        ctx.need(o >= r['$cell'] + 8 or o + e.x.a <= r['$cell'], C11, R + '.copy', 'the copy replaces the pointer to the private words', t, e)
        if 'ret' in r:
            ctx.need(o >= r['ret'] + 8 or o + e.x.a <= r['ret'], C11, R + '.copy', 'the copy replaces the pointer to the private results', t, e)
        copied.append((o, o + e.x.a, e.idx))
    for o, f in words:
        ok = any(x <= o and o + 8 <= y for x, y, _ in copied) or any(
            e.kind == 'store' and e.addr is addc(own, o) and e.val.kind == 'ld' and e.val.a[1] is addc(src, o) for e in seg)
        ctx.need(ok, C11 | ({'C10'} if f == 'ret' else set()), R + '.copy', 'not the whole state is copied (%s)' % (f if f != 'ret' else 'results'), t, c)
    cend = max([x[2] for x in copied] + [lo])
    iscopy = set()
    for e in seg:
        if e.kind == 'store' and base_off(e.addr)[0] is own and e.val.kind == 'ld' and e.val.a[1] is add(src, sub(e.addr, own)) and \
                not any(x <= (diff_const(e.addr, own) or 0) < y for x, y, _ in copied) and (t.last_store(e.addr, e.idx) is None or t.last_store(e.addr, e.idx).idx < lo):
            iscopy.add(e.idx)
            cend = max(cend, e.idx)
    # ---- what is applied
    apps = []       # (event, q)
    first = None
    for e in seg:
        if kind == 'universal' and e.kind == 'call' and e.x['fn'] is nmfn(I):
            first = first or e
        elif kind != 'universal' and e.kind == 'call' and e.x['name'] == 'synchAllocObj':
            first = first or e
        elif e.idx > cend and e.idx not in iscopy and e.kind == 'store' and base_off(e.addr)[0] is own and (kind != 'universal'):
            q = I.idx8(e.addr, addc(own, r['$ret'])) if 'ret' in r else None
            if q is not None or not base_off(e.addr)[2] and base_off(e.addr)[1] < r['__flex']:
                first = first or e
        elif kind == 'enq' and e.kind == 'cas':
            first = first or e
    fidx = first.idx if first is not None else hi
    # ---- the copy is validated before it is used
    ok = any(e.kind == 'load' and e.addr is I.spaddr and cend < e.idx <= fidx and t.known(eq(e.res, s)) is True and
             all(any(x.idx < e.idx for x in tg[i]) for i in range(I.cells)) for e in ev[lo + 1:fidx])
    ctx.need(ok, C11, R + '.validate', 'the copy is used without checking that the current record did not change while it was taken', t,
             first if first is not None else c)
    # ---- toggles that are installed
    togs = []
    for i in range(I.cells):
        w = t.last_store(addc(own, r['__flex'] + 8 * i), hi)
        ok = w is not None and w.idx > lo and any(w.val is e.res for e in tg[i])
        if not ctx.need(ok, C10, R + '.applied', 'the record does not say which requests it contains', t, w if w is not None and w.idx > lo else c):
            return
        togs.append(w.val)
    cur = []
    for i in range(I.cells):
        l = {e.res for e in ev[lo:fidx] if e.kind == 'load' and e.addr is addc(src, r['__flex'] + 8 * i)}
        for x in list(ev[lo:fidx]):
            if x.kind == 'memcpy' and base_off(x.addr)[0] is own:
                l.add(sym('ld', (x.idx, addc(src, r['__flex'] + 8 * i), 8), 64))
        cur.append({VV.bxor(x, togs[i], 64) for x in l})
    tlast = max(v.a[0] for v in togs)
    st = State_(ctx, I, t, a, own, cur, tlast, fidx, C10, C11, extra)
    na = any(applied(I, t, e.res, mynew) is False for e in ev[lo:fidx] if e.kind == 'load' and e.addr is addc(src, r['__flex'] + 8 * I.bank))
    st.notapplied = na
    {'universal': universal, 'stack': stack, 'enq': enq, 'deq': deq}[kind](st)


def nmfn(I):
    return I.args[2]


class State_:
    def __init__(self, ctx, I, t, a, own, cur, tlast, fidx, C10, C11, extra):
        self.ctx, self.I, self.t, self.a, self.own, self.cur, self.tlast, self.fidx = ctx, I, t, a, own, cur, tlast, fidx
        self.C10, self.C11, self.extra = C10, C11, extra
        self.lo, self.hi = a.lo, a.cas.idx
        self.did_own = False
        self.seen = {}

    def step(self, q, e):
        """request of q is taken from the set of pending ones; True if it was pending"""
        I, R = self.I, self.ctx.group
        if q is None:
            return self.ctx.need(False, self.C10, R + '.pending', 'something else than a pending request is applied', self.t, e)
        if q[0] == 'own':
            ok = self.notapplied and not self.did_own
            self.did_own = True
            self.cur[I.bank] = {VV.bxor(x, I.bit, 64) for x in self.cur[I.bank]}
            return self.ctx.need(ok, self.C10, R + '.pending', 'the own request is applied without checking that nobody applied it', self.t, e)
        _, i, D = q
        ok = i < len(self.cur) and D in self.cur[i] and self.t.known(eq(D, const(0, 64))) is False
        if self.ctx.need(ok, self.C10 | {'C20'}, R + '.pending', 'a request is applied that is not pending (or twice)', self.t, e):
            self.cur[i] = I.rem(D)
            return True
        return False

    def done(self, what='not all pending requests are applied'):
        for i, c in enumerate(self.cur):
            ok = any(is_c(x) and x.a == 0 or self.t.known(eq(x, const(0, 64))) is True for x in c)
            self.ctx.need(ok, self.C10, self.ctx.group + '.pending', what, self.t, self.a.cas)

    def ann(self, v, q64):
        """v is the announced argument of thread q64, read after the toggles"""
        return v.kind == 'ld' and v.a[1] is add(self.I.announce, scale(q64, 8)) and v.a[0] > self.tlast


def q64of(q):
    return VV.zext(q, 64) if q.w < 64 else q


def universal(S):
    I, t, ctx, R = S.I, S.t, S.ctx, S.ctx.group
    for e in t.ev[S.lo:S.hi]:
        if not (e.kind == 'call' and e.x['fn'] is nmfn(I)):
            continue
        st, arg, pid = e.x['args'][:3]
        q = VV.zext(pid, 64)
        if not S.step(I.qof(q), e):
            continue
        ctx.need(st is addc(S.own, I.r['state']), S.C11, R + '.state', 'the request is not applied to the private copy', t, e)
        ok = S.ann(arg, q) or pid is I.pid and arg is I.args[3]
        ctx.need(ok, S.C10, R + '.argument', 'the request is not applied with its announced argument', t, e)
        ra = add(addc(S.own, I.r['$ret']), scale(q, 8))
        w = [x for x in t.find('store', ra, lo=e.idx, hi=S.hi)]
        ctx.need(bool(w) and w[0].val is e.res, S.C10, R + '.ret', 'the result is not stored for its thread', t, w[0] if w else e)
    S.done()
    for e in t.find('store', lo=S.lo, hi=S.hi):
        if base_off(e.addr)[0] is S.own:
            q = I.idx8(e.addr, addc(S.own, I.r['$ret']))
            if q is not None and I.qof(q) is not None or base_off(e.addr)[2]:
                ctx.need(any(x.kind == 'call' and x.res is e.val for x in t.ev[S.lo:e.idx]), S.C10, R + '.ret', 'a result is overwritten', t, e)


POP = GUARD


def designated(S):
    """goes through the pending requests in the order they are read; returns {q: announced value}"""
    I, t = S.I, S.t
    order = []
    for e in t.ev[S.lo:S.hi]:
        if e.kind == 'load' and base_off(e.addr)[0] is I.announce:
            q = I.idx8(e.addr, I.announce)
            if q not in [x for x, _ in order]:
                if S.step(I.qof(q) if q is not None else None, e):
                    S.ctx.need(e.idx > S.tlast, S.C10 | {'C25'}, S.ctx.group + '.argument', 'the announcement is read before the toggles', t, e)
                    order.append((q, e))
    return order


def is_pop(t, q, I):
    """True/False/None: the announced value of q is known to be POP"""
    r = None
    for e in t.ev:
        if e.kind == 'load' and e.addr is add(I.announce, scale(q, 8)):
            k = t.known(eq(e.res, const(POP, 64)))
            if k is not None:
                return k
    return r


def stack(S):
    I, t, ctx, R = S.I, S.t, S.ctx, S.ctx.group
    C5 = S.C10 | {'C05'}
    ev, own, src = t.ev, S.own, S.a.src
    order = designated(S)
    S.done()
    pops, pushes = [], []
    for q, e in order:
        k = is_pop(t, q, I)
        if not ctx.need(k is not None, C5, R + '.kind', 'a request is applied without looking at what it asks for', t, e):
            return
        (pops if k else pushes).append(q)
    # pending pops, as words
    pw = [const(0, 64)] * I.cells
    dq = {}
    for q in pops:
        _, i, D = I.qof(q)
        pw[i] = VV.bor(pw[i], I.bitof(D), 64)
        dq[q] = (i, D)
    pcur = [{x} for x in pw]
    ha = addc(own, I.r['head'])
    h = {sym('ld', (e.idx, addc(src, I.r['head']), 8), 64) for e in ev[S.lo:S.hi] if e.kind == 'memcpy' and base_off(e.addr)[0] is own}
    h |= {e.res for e in ev[S.lo:S.hi] if e.kind == 'load' and e.addr in (addc(src, I.r['head']), ha) and e.idx < S.fidx}
    h |= {e.res for e in ev[S.lo:S.hi] if e.kind == 'load' and e.addr is ha and t.last_store(ha, e.idx) is None}
    if not ctx.need(bool(h), C5, R + '.head', 'the top of the copied stack is not used', t, S.a.cas):
        return
    x0 = None
    stk = []            # pushed objects still on the private stack
    objs, popped = [], []
    done = set()
    left = set(pops)
    for e in ev[S.lo:S.hi]:
        if e.kind == 'call' and e.x['name'] == 'synchAllocObj':
            ctx.need(e.x['args'][0] is I.npool, {'C08', 'C10'}, R + '.alloc', 'the node is not taken from the own pool', t, e)
            objs.append(e.res)
        if e.kind != 'store' or base_off(e.addr)[0] is not own:
            continue
        if e.addr is ha:
            v = e.val
            if v in objs:        # push
                nx, vl = t.stored(addc(v, I.next), e.idx), t.stored(addc(v, I.val), e.idx)
                nx2 = t.stored(addc(v, I.next), S.hi)
                ok = nx is not None and nx in h and nx2 is nx
                ctx.need(ok, C5, R + '.push', 'the pushed node does not point to the previous top', t, e)
                qs = [q for q in pushes if vl is not None and S.ann(vl, q)]
                ok = len(qs) == 1 and qs[0] not in done
                if ctx.need(ok, C5 | {'C06'}, R + '.push', 'the pushed node does not carry the value of one pending push', t, e):
                    done.add(qs[0])
                h = {v}
            else:
                hh = [x for x in h if v.kind == 'ld' and v.a[1] is addc(x, I.next)]
                # the node pushed in this batch: its next is known
                hn = [x for x in h if t.stored(addc(x, I.next), e.idx) is v]
                ok = bool(hh or hn)
                if ctx.need(ok, C5, R + '.pop', 'the top is not replaced by the next node', t, e):
                    x = (hh or hn)[0]
                    popped.append(x)
                    ctx.need(t.known(eq(x, const(0, 64))) is not True, C5, R + '.pop', 'an empty stack is popped', t, e)
                    h = {v}
                else:
                    return
            continue
        q = I.idx8(e.addr, addc(own, I.r['$ret']))
        if q is None or q not in dq and I.qof(q) is None:
            continue
        if q in left:
            left.discard(q)
            i, D = dq[q]
        else:
            k = I.qof(q)
            ok = k is not None and k[0] == 'q' and k[1] < I.cells and k[2] in pcur[k[1]]
            if not ctx.need(ok, C5, R + '.pop', 'a result is written for a request that is not a pending pop', t, e):
                continue
            pcur[k[1]] = I.rem(k[2])
        v = e.val
        # the result may be written before or after the top is moved
        late = len(popped) - S.seen.get('pops', 0)
        src = h if late == 0 else {popped[-1]} if late == 1 else ()
        ok = any(v.kind == 'ld' and v.a[1] is addc(x, I.val) or t.stored(addc(x, I.val), e.idx) is v for x in src) or \
            late == 0 and const_is(v, EMPTY) and any(t.known(eq(x, const(0, 64))) is True for x in h)
        ctx.need(ok, C5 | {'C06'}, R + '.pop', 'the result is not the value of the top (or the empty value of an empty stack)', t, e)
        # each popped result moves the top
        if not const_is(v, EMPTY):
            nxt = [x for x in ev[e.idx + 1:S.hi] if x.kind == 'store' and x.addr is ha]
            prv = [x for x in ev[S.lo:e.idx] if x.kind == 'store' and x.addr is ha]
            S.seen['pops'] = S.seen.get('pops', 0) + 1
    ctx.need(S.seen.get('pops', 0) == len(popped), C5, R + '.pop', 'a popped node is not removed, or removed twice', t, S.a.cas)
    ctx.need(len(done) == len(pushes), C5, R + '.push', 'not every pending push is applied', t, S.a.cas)
    ok = not left or all(any(is_c(x) and x.a == 0 or t.known(eq(x, const(0, 64))) is True for x in c) for c in pcur)
    if not ok and not S.a.cas.x['ok']:
        ok = True
    ctx.need(ok, C5, R + '.pop', 'not every pending pop is applied', t, S.a.cas)
    # ---- nodes are given back by the winner that removed them, or by the loser that made them
    nxt = [e.idx for e in ev[S.hi + 1:] if e.kind == 'load' and e.addr is I.spaddr]
    end = nxt[0] if nxt else len(ev)
    rc = [e for e in ev if e.kind == 'call' and e.x['name'] == 'synchRecycleObj' and S.lo < e.idx < end]
    for e in rc:
        ctx.need(e.idx > S.hi, {'C08'}, R + '.recycle', 'a node is given back before the outcome of the switch is known', t, e)
        ctx.need(e.x['args'][0] is I.npool, {'C08'}, R + '.recycle', 'the node is not given back to the own pool', t, e)
        for l in VV.subvals(e.x['args'][1]):
            if l.kind == 'ld':
                b = addc(l.a[1], -I.next)
                ctx.need(not any(x.x['args'][1] is b and x.idx < l.a[0] for x in rc), {'C08'}, R + '.recycle', 'a node is read after it was given back', t, e)
    if t.end == 'ret' or nxt:
        got = sorted(shapes(e.x['args'][1]) for e in rc)
        want = sorted(shapes(x) for x in (popped if S.a.cas.x['ok'] else objs))
        if got != want and not S.a.cas.x['ok']:
            # the pushed nodes as they hang in the private list
            want2 = []
            x = list(h)[0] if not popped else popped[0]
            ok = True
        ctx.need(len(got) == len(set(got)) and same_nodes(t, rc, popped if S.a.cas.x['ok'] else objs, I), {'C08'}, R + '.recycle',
                 'the nodes given back are not exactly the popped ones' if S.a.cas.x['ok'] else
                 'the nodes given back after a failed switch are not exactly the ones it made', t, rc[-1] if rc else S.a.cas)


def resolve(t, v, I, d=12):
    """a pointer read from the next field of a node this path wrote is the node written there"""
    while d and v.kind == 'ld':
        b = resolve(t, addc(v.a[1], -I.next), I, d - 1)
        w = t.last_store(addc(b, I.next), v.a[0])
        if w is None:
            return v if b is addc(v.a[1], -I.next) else sym('ld', (v.a[0], addc(b, I.next), 8), 64)
        v, d = w.val, d - 1
    return v


def same_nodes(t, rc, want, I):
    a = sorted(shapes(resolve(t, e.x['args'][1], I)) for e in rc)
    b = sorted(shapes(resolve(t, x, I)) for x in want)
    return a == b


def links(S, first, last, lo, hi, null_ok=True):
    """CAS events that link node `first` to `last`"""
    I = S.I
    return [e for e in S.t.ev[lo:hi] if e.kind == 'cas' and any(e.addr is addc(f, I.next) for f in first) and const_is(e.x['exp'][0], 0) and
            e.x['new'][0] in last]


def enq(S):
    I, t, ctx, R = S.I, S.t, S.ctx, S.ctx.group
    C4 = S.C10 | {'C04'}
    ev, own, src, r = t.ev, S.own, S.a.src, I.r

    def copied(f):
        v = {sym('ld', (e.idx, addc(src, r[f]), 8), 64) for e in ev[S.lo:S.hi] if e.kind == 'memcpy' and base_off(e.addr)[0] is own}
        v |= {e.res for e in ev[S.lo:S.hi] if e.kind == 'load' and e.addr in (addc(src, r[f]), addc(own, r[f])) and
              (t.last_store(addc(own, r[f]), e.idx) is None or t.last_store(addc(own, r[f]), e.idx).idx < S.lo)}
        return v
    first, last, tail = copied('first'), copied('last'), copied('tail')
    lk = links(S, first, last, S.lo, S.hi)
    ok = bool(lk) or any(t.known(eq(f, const(0, 64))) is True for f in first)
    ctx.need(ok, C4, R + '.link', 'the previous batch is not linked before the next one replaces it', t, S.a.cas)
    # ---- the new nodes
    objs = [e for e in ev[S.lo:S.hi] if e.kind == 'call' and e.x['name'] == 'synchAllocObj']
    for e in objs:
        ctx.need(e.x['args'][0] is I.npool, {'C08', 'C10'}, R + '.alloc', 'the node is not taken from the own pool', t, e)
    order = []
    vals = {}
    for e in objs:
        w = t.stored(addc(e.res, I.val), S.hi)
        ok = w is not None
        if not ctx.need(ok, C4 | {'C06'}, R + '.value', 'a new node carries no value', t, e):
            return
        vals[e.res] = w
    used = {}
    for o, v in vals.items():
        if v is I.args[2]:
            q = I.pid64
        else:
            q = I.idx8(v.a[1], I.announce) if v.kind == 'ld' and base_off(v.a[1])[0] is I.announce else None
            ctx.need(v.kind != 'ld' or v.a[0] > S.tlast, C4 | {'C25'}, R + '.argument', 'the announcement is read before the toggles', t, S.a.cas)
        used[o] = q
    done = set()
    # in the order of allocation the pending set shrinks
    for e in objs:
        q = used[e.res]
        S.step(I.qof(q) if q is not None else None, e)
        ctx.need(q not in done, C4, R + '.once', 'a request is enqueued twice', t, e)
        done.add(q)
    S.done('not all pending requests are enqueued')
    # ---- the chain
    fv, lv, tv = (t.stored(addc(own, r[f]), S.hi) for f in ('first', 'last', 'tail'))
    if not ctx.need(fv is not None and fv in tail, C4, R + '.batch', 'the batch does not continue at the old tail', t, S.a.cas):
        return
    names = {e.res for e in objs}
    x, n, lst = lv, 0, None
    while x in names and n <= len(names):
        lst = x
        n += 1
        x = t.stored(addc(x, I.next), S.hi)
        if x is None:
            break
    ok = n == len(names) and n > 0 and x is not None and const_is(x, 0) and lst is tv
    ctx.need(ok, C4, R + '.batch', 'the new nodes are not one list from the first node to the new tail', t, S.a.cas)
    # ---- other CAS operations
    for e in ev[S.lo:S.hi]:
        if e.kind == 'cas' and e.addr is not I.spaddr:
            ctx.need(e in lk, C4, R + '.link', 'something else than the previous batch is linked', t, e)
    nxt = [e.idx for e in ev[S.hi + 1:] if e.kind == 'load' and e.addr is I.spaddr]
    end = nxt[0] if nxt else len(ev)
    lk2 = links(S, tail, {lv}, S.hi, end)
    for e in ev[S.hi + 1:end]:
        if e.kind == 'cas' and e.addr is not I.spaddr:
            ctx.need(S.a.cas.x['ok'] and e in lk2, C4, R + '.link', 'something else than the new batch is linked after the switch', t, e)
        if e.kind == 'store' and base_off(e.addr)[0] in names and S.a.cas.x['ok']:
            ctx.need(False, C4, R + '.batch', 'a published node is changed', t, e)
    rb = [e for e in ev[S.lo:end] if e.kind == 'call' and e.x['name'] in ('synchRollback', 'synchRecycleObj')]
    if S.a.cas.x['ok']:
        ctx.need(not rb, {'C08', 'C04'}, R + '.rollback', 'nodes are given back although they are in the queue', t, rb[0] if rb else S.a.cas)
    elif nxt or t.end == 'ret':
        ok = len(rb) == 1 and rb[0].x['name'] == 'synchRollback' and rb[0].idx > S.hi and rb[0].x['args'][0] is I.npool and \
            const_is(rb[0].x['args'][1], len(objs))
        if not ok and all(e.x['name'] == 'synchRecycleObj' and e.idx > S.hi for e in rb):
            ok = sorted(x.x['args'][1].id for x in rb) == sorted(o.id for o in names)
        ctx.need(ok, {'C08'}, R + '.rollback', 'the nodes of a failed switch are not given back, all of them once', t, rb[0] if rb else S.a.cas)


def deq(S):
    I, t, ctx, R = S.I, S.t, S.ctx, S.ctx.group
    C4 = S.C10 | {'C04'}
    ev, own, src, r = t.ev, S.own, S.a.src, I.r
    ha = addc(own, r['head'])
    h = {sym('ld', (e.idx, addc(src, r['head']), 8), 64) for e in ev[S.lo:S.hi] if e.kind == 'memcpy' and base_off(e.addr)[0] is own}
    h |= {e.res for e in ev[S.lo:S.hi] if e.kind == 'load' and e.addr in (addc(src, r['head']), ha) and
          (t.last_store(ha, e.idx) is None or t.last_store(ha, e.idx).idx < S.lo)}
    esp = addc(I.A, ctx.off(I.S, I.nm['other_sp'], I.f.mod.short))
    er = I.rl[I.pools[I.opool]]
    taken = []
    for e in ev[S.lo:S.hi]:
        if e.kind == 'store' and base_off(e.addr)[0] is own:
            if e.addr is ha:
                v = e.val
                ok = v.kind == 'ld' and any(v.a[1] is addc(x, I.next) for x in h) and t.known(eq(v, const(0, 64))) is False
                if not ctx.need(ok, C4, R + '.head', 'the head does not move to the next node', t, e):
                    return
                taken.append((v, e))
                h = {v}
                continue
            q = I.idx8(e.addr, addc(own, r['$ret']))
            if q is None or I.qof(q) is None:
                continue
            S.step(I.qof(q), e)
            v = e.val
            if const_is(v, EMPTY):
                nl = [l for l in ev[S.lo:e.idx] if l.kind == 'load' and any(l.addr is addc(x, I.next) for x in h) and
                      t.known(eq(l.res, const(0, 64))) is True]
                ok = bool(nl)
                ctx.need(ok, C4 | {'C06'}, R + '.empty', 'the queue is reported empty although it may not be', t, e)
                if ok:
                    help_ = [l for l in ev[S.lo:nl[-1].idx] if l.kind == 'load' and l.addr is esp]
                    ctx.need(bool(help_), C4, R + '.empty', 'the queue is reported empty without helping an enqueuer that has not linked its nodes', t, e)
            else:
                # the value of the node the head moves to
                nx = [x for x in ev[S.lo:S.hi] if x.kind == 'store' and x.addr is ha]
                cand = [v.a[1]] if v.kind == 'ld' else []
                nxt = [x.val for x in nx if x.idx > e.idx][:1]
                prv = list(h)
                ok = v.kind == 'ld' and (any(v.a[1] is addc(x, I.val) for x in nxt) or any(v.a[1] is addc(x, I.val) for x, w in taken[-1:]))
                ctx.need(ok, C4 | {'C06'}, R + '.value', 'the result is not the value of the node that becomes the head', t, e)
                S.seen['v'] = S.seen.get('v', 0) + 1
    ctx.need(S.seen.get('v', 0) == len(taken), C4, R + '.once', 'a node is dequeued without a request, or twice', t, S.a.cas)
    S.done()
    for e in ev[S.lo:S.hi]:
        if e.kind == 'cas' and e.addr is not I.spaddr:
            ok = False
            b = addc(e.addr, -I.next)
            nw = e.x['new'][0]
            for l in ev[:e.idx]:
                if l.kind == 'load' and l.addr is esp:
                    er_ = I.mkrec(I.spindex(l.res), I.opool)
                    fl = [x for x in ev[l.idx:e.idx] if x.kind == 'load' and x.addr is addc(er_, er['first']) and x.res is b]
                    ll = [x for x in ev[l.idx:e.idx] if x.kind == 'load' and x.addr is addc(er_, er['last']) and x.res is nw]
                    if fl and ll:
                        m = max(fl[-1].idx, ll[-1].idx)
                        ok = ok or any(x.kind == 'load' and x.addr is esp and x.idx > m and t.known(eq(x.res, l.res)) is True
                                       for x in ev[m:e.idx])
            ctx.need(ok and const_is(e.x['exp'][0], 0), C4, R + '.link', 'nodes are linked that are not a batch read from one state of the enqueuers', t, e)


def insts(ctx):
    r = [(40, 0, 2), (100, 1, 1)]
    return r + [(100, 0, 1)] if ctx.deep else r


def run(ctx, fns, S, T, names, kind, extra):
    names['P'] = ctx.__dict__.setdefault('simP', {}).setdefault(S, {})
    for fn, nm2 in fns:
        for n, b, k in insts(ctx):
            nm = dict(names)
            nm.update(nm2)
            if kind == 'stack' and n > 64 and not ctx.deep:
                k = 1
            alg(ctx, Inst(ctx, fn, S, T, None, nm, n, b, k), kind, extra)


@group('sim')
def sim(ctx):
    run(ctx, [('SimApplyOp', dict(arg=lambda I: I.args[3]))], 'SimStruct', 'SimThreadState',
        dict(pool='pool', pools={'pool': 'SimObjectState'}, sp='sp', tog='a_toggles', vectors=['a_toggles'], toggle='toggle', my_bit='my_bit',
             li='local_index'), 'universal', set())


@group('simstack')
def simstack(ctx):
    run(ctx, [('SimStackPush', dict(arg=lambda I: I.args[2], noret=True)), ('SimStackPop', dict(arg=lambda I: const(POP, 64)))],
        'SimStackStruct', 'SimStackThreadState',
        dict(pool='pool', pools={'pool': 'SimStackState'}, sp='sp', tog='a_toggles', vectors=['a_toggles'], toggle='toggle', my_bit='my_bit',
             li='local_index', node=True, tpool='pool'), 'stack', {'C05'} - {'C05'})


@group('simqueue')
def simqueue(ctx):
    com = dict(pools={'enq_pool': 'EnqState', 'deq_pool': 'DeqState'}, vectors=['enqueuers', 'dequeuers'], node=True, tpool='pool_node')
    run(ctx, [('SimQueueEnqueue', dict(arg=lambda I: I.args[2]))], 'SimQueueStruct', 'SimQueueThreadState',
        dict(com, pool='enq_pool', sp='enq_sp', tog='enqueuers', toggle='enq_toggle', my_bit='my_enq_bit', li='enq_local_index'), 'enq', set())
    run(ctx, [('SimQueueDequeue', dict(arg=None))], 'SimQueueStruct', 'SimQueueThreadState',
        dict(com, pool='deq_pool', sp='deq_sp', tog='dequeuers', toggle='deq_toggle', my_bit='my_deq_bit', li='deq_local_index', other_sp='enq_sp'), 'deq', set())
