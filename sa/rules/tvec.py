"""Toggle vectors: which word and which bit each function touches."""
from .base import *
from .combining import const_is

V_ = 'ToggleVector'


def wide(v, w=64):
    return v if v.w == w else VV.sext(v, w)


def words_cover(v, nt):
    """v words have room for bits 0..nt-1"""
    v = v.a[0][0] if v.kind == 'bits' and len(v.a) > 1 and v.a[0][1] == 0 and v.a[1][1] is None else v
    c, ts = terms(v)
    if len(ts) != 1 or ts[0][1] != 1:
        return False
    x = ts[0][0]
    for w in (32, 64):
        n = nt if w == 32 else VV.zext(nt, 64)
        if x in (VV.lshr(n, const(6, w), w), VV.divrem('udiv', n, const(64, w), w), VV.zext(VV.lshr(nt, const(6, 32), 32), 64)):
            return c >= 1
        if x in (VV.lshr(addc(n, 63), const(6, w), w), VV.divrem('udiv', addc(n, 63), const(64, w), w),
                 VV.zext(VV.lshr(addc(nt, 63), const(6, 32), 32), 64)):
            return c >= 0
    return False


@group('tvec')
def tvec(ctx):
    T = {'C20'}
    U = 'tvec_unit'
    if U not in ctx.prog.bysrc:
        raise Missing('tvec.h')
    off = lambda f: ctx.off(V_, f, U)
    kw = dict(seq=True, delay=False, k=4 if ctx.deep else 3, tvec_opaque=False,
              stable=((V_, 'cell'), (V_, 'tvec_cells'), (V_, 'nthreads')))
    have = ctx.prog.bysrc[U].funcs

    def run(n):
        if n not in have:
            ctx.inconclusive.append(n)
            return []
        return ctx.paths(n, U, **kw)

    def cells(t, tv):
        return [e.res for e in t.find('load', addc(tv, off('cell')))]

    def word(t, tv, i, idx=None):
        """addresses of word i (a 64-bit value)"""
        return [add(c, scale(i, 8)) for c in cells(t, tv)]

    def is_word(t, addr, tv, i):
        return any(addr is a for a in word(t, tv, i))

    def ldword(t, v, tv, i):
        return v.kind == 'ld' and is_word(t, v.a[1], tv, i)
    # single bits
    for fn in ('TVEC_REVERSE_BIT', 'TVEC_SET_BIT', 'TVEC_IS_SET'):
        for t in run(fn):
            R = 'tvec.' + fn
            tv, bit = t.args
            b = bit
            idxs = [wide(VV.ashr(b, const(6, 32), 32)), VV.zext(VV.lshr(b, const(6, 32), 32), 64), wide(VV.divrem('sdiv', b, const(64, 32), 32)),
                    VV.zext(VV.divrem('udiv', b, const(64, 32), 32), 64)]
            offs = [VV.zext(VV.band(b, const(63, 32), 32), 64), wide(VV.divrem('srem', b, const(64, 32), 32)),
                    VV.zext(VV.divrem('srem', b, const(64, 32), 32), 64),
                    VV.zext(VV.divrem('urem', b, const(64, 32), 32), 64)]
            if fn == 'TVEC_IS_SET':
                lds = [e for e in t.find('load') if any(is_word(t, e.addr, tv, i) for i in idxs)]
                if not ctx.need(bool(lds), T, R, 'another word than that of the bit is tested', t, t.ev[-1]):
                    continue
                ok = False
                for e in lds:
                    for o in offs:
                        x = VV.lshr(e.res, o, 64)
                        y = VV.band(e.res, VV.shl(const(1, 64), o, 64), 64)
                        r = t.ret
                        ok = ok or r in (VV.trunc(x, 1), VV.trunc(VV.band(x, const(1, 64), 64), 1)) or r is lnot(eq(y, const(0, 64)))
                        z = t.known(eq(y, const(0, 64)))
                        ok = ok or is_c(r) and z is not None and bool(r.a) == (not z)
                        z = t.known(VV.trunc(x, 1))
                        ok = ok or is_c(r) and z is not None and bool(r.a) == z
                ctx.need(ok, T, R, 'the result is not the value of exactly the given bit', t, t.ev[-1])
                ctx.need(not t.writes(), T, R, 'testing a bit changes something', t, t.ev[-1])
                continue
            w = t.writes()
            if not w:
                # a bit that is already set need not be written
                ok = fn == 'TVEC_SET_BIT' and any(
                    t.known(eq(VV.band(e.res, VV.shl(const(1, 64), o, 64), 64), const(0, 64))) is False
                    for e in t.find('load') for o in offs if any(is_word(t, e.addr, tv, i) for i in idxs))
                ctx.need(ok, T, R, 'the bit is not changed', t, t.ev[-1])
                continue
            ok = len(w) == 1 and w[0].kind == 'store' and w[0].size == 8 and any(is_word(t, w[0].addr, tv, i) for i in idxs)
            if not ctx.need(ok, T, R, 'another word than that of the bit is changed', t, w[0]):
                continue
            old = [e.res for e in t.find('load', w[0].addr, hi=w[0].idx)]
            fs = []
            for o in offs:
                m = VV.shl(const(1, 64), o, 64)
                for l in old:
                    fs.append(VV.bxor(l, m, 64) if fn == 'TVEC_REVERSE_BIT' else VV.bor(l, m, 64))
            ctx.need(w[0].val in fs, T, R, 'not exactly the given bit is changed', t, w[0])
    # the bank of a bit
    for t in run('TVEC_GET_BANK_OF_BIT'):
        bit, nt = t.args
        r = t.ret
        ok = r in (VV.ashr(bit, const(6, 32), 32), VV.lshr(bit, const(6, 32), 32), VV.divrem('sdiv', bit, const(64, 32), 32)) or \
            const_is(r, True) and t.known(icmp('ugt', nt, const(64, 32))) is False
        ctx.need(ok, T, 'tvec.bank', 'the bank is not the word that contains the bit', t, t.ev[-1])
    # one word
    for fn, nsrc in (('TVEC_ATOMIC_COPY_BANKS', 1), ('TVEC_ATOMIC_ADD_BANK', 1), ('TVEC_NEGATIVE_BANK', 1), ('TVEC_XOR_BANKS', 2), ('TVEC_AND_BANKS', 2)):
        for t in run(fn):
            R = 'tvec.' + fn
            dst, srcs, bank = t.args[0], t.args[1:-1], wide(t.args[-1])
            w = t.writes()
            ok = len(w) == 1 and w[0].size == 8 and is_word(t, w[0].addr, dst, bank)
            if not ctx.need(ok, T, R, 'not exactly the given word is changed', t, w[0] if w else t.ev[-1]):
                continue
            if fn == 'TVEC_ATOMIC_ADD_BANK':
                ctx.need(w[0].kind == 'rmw' and w[0].x['op'] == 'add' and ldword(t, w[0].val, srcs[0], bank), T | {'C10'}, R,
                         'the word is not increased atomically by the given one', t, w[0])
                continue
            v = w[0].val
            l = [[e.res for e in t.find('load') if is_word(t, e.addr, s, bank)] for s in srcs]
            if not all(l):
                ctx.need(False, T, R, 'the words that are combined are not those of the bank', t, w[0])
                continue
            l = [x[-1] for x in l]
            want = {'TVEC_ATOMIC_COPY_BANKS': lambda: l[0], 'TVEC_NEGATIVE_BANK': lambda: sub(const(0, 64), l[0]),
                    'TVEC_XOR_BANKS': lambda: VV.bxor(l[0], l[1], 64), 'TVEC_AND_BANKS': lambda: VV.band(l[0], l[1], 64)}[fn]()
            ctx.need(v is want, T, R, 'the word does not get the documented value', t, w[0])
            if fn == 'TVEC_ATOMIC_COPY_BANKS':
                ctx.need(len(t.find('load', l[0].a[1])) == 1, T, R, 'the word is read more than once', t, w[0])

    # the number of words as TVEC_INIT computes it from the number of threads
    forms = [lambda x: addc(VV.lshr(x, const(6, 32), 32), 1), lambda x: VV.lshr(addc(x, 63), const(6, 32), 32),
             lambda x: addc(VV.divrem('udiv', x, const(64, 32), 32), 1), lambda x: VV.divrem('udiv', addc(x, 63), const(64, 32), 32)] + \
            [lambda x, k=k: addc(VV.lshr(x, const(6, 32), 32), k) for k in (2, 3)]
    used = [f for f in forms for t in run('TVEC_INIT')
            if t.stored(addc(t.args[0], off('tvec_cells')), len(t.ev), 4) is f(t.args[1])]
    form = used[0] if used else forms[0]

    def total(t, tv, n, nt=None):
        """the path did all n words of tv and no more"""
        cs = [e.res for e in t.find('load', addc(tv, off('tvec_cells')))]
        s = t.stored(addc(tv, off('tvec_cells')), len(t.ev), 4)
        cs += [s] if s is not None else []
        nts = [e.res for e in t.find('load', addc(tv, off('nthreads')))] + ([nt] if nt is not None else [])
        for x in nts:
            cs += [form(x), VV.zext(form(x), 64)]
        for c in cs:
            k = const(n, c.w)
            if t.known(icmp('ult', k, c)) is False and (n == 0 or t.known(icmp('ult', const(n - 1, c.w), c)) is True):
                return True
            if t.known(icmp('slt', k, c)) is False and (n == 0 or t.known(icmp('slt', const(n - 1, c.w), c)) is True):
                return True
        return False

    def length(t, v, tv, nt=None):
        """v bytes are all words of tv"""
        cs = [e.res for e in t.find('load', addc(tv, off('tvec_cells')))]
        s = t.stored(addc(tv, off('tvec_cells')), len(t.ev), 4)
        cs += [s] if s is not None else []
        for c in cs:
            if v in (scale(VV.zext(c, 64), 8), VV.zext(scale(c, 8), 64)):
                return True
        nts = [e.res for e in t.find('load', addc(tv, off('nthreads')))] + ([nt] if nt is not None else [])
        plus = {0: 1, 4: 2, 5: 3}.get(forms.index(form))
        return any(v in (addc(scale(VV.zext(VV.lshr(x, const(6, 32), 32), 64), 8), 8 * plus) if plus else None,
                         scale(VV.zext(form(x), 64), 8)) for x in nts)
    W = {'TVEC_INIT': 0, 'TVEC_INIT_AT': 0, 'TVEC_SET_ZERO': 0, 'TVEC_COPY': 1, 'TVEC_NEGATIVE': 1, 'TVEC_OR': 2, 'TVEC_AND': 2,
         'TVEC_XOR': 2}
    for fn, ns in W.items():
        for t in run(fn):
            R = 'tvec.' + fn
            dst = t.args[0]
            srcs = t.args[1:1 + ns]
            nt = t.args[1] if fn.startswith('TVEC_INIT') else None
            hdr = [addc(dst, off(f)) for f in ('nthreads', 'tvec_cells', 'cell')]
            cs = cells(t, dst) or []
            if nt is not None:
                TI = T | {'C19', 'C26'}
                c = t.stored(hdr[2], len(t.ev))
                k = t.stored(hdr[1], len(t.ev), 4)
                ctx.need(t.stored(hdr[0], len(t.ev), 4) is nt, TI, R, 'the vector does not know for how many threads it is', t, t.ev[-1])
                if not ctx.need(c is not None and k is not None and words_cover(k, nt), TI, R, 'the vector has fewer words than it needs', t, t.ev[-1]):
                    continue
                cs = [c]
                if fn == 'TVEC_INIT':
                    al = [e for e in t.calls() if e.res is c]
                    ctx.need(bool(al) and length(t, al[0].x['args'][-1], dst, nt), TI, R, 'the words are not allocated', t, t.ev[-1])
                else:
                    ctx.need(c is t.args[2], TI, R, 'the vector does not use the memory that it was given', t, t.ev[-1])
            w = [e for e in t.writes() if e.addr not in hdr]
            mc = [e for e in w if e.kind in ('memcpy', 'memset')]
            if mc:
                ok = len(w) == 1 and mc[0].addr in cs and length(t, mc[0].x, dst, nt) and \
                    (mc[0].kind == 'memcpy' and fn == 'TVEC_COPY' and mc[0].val in cells(t, srcs[0]) or
                     mc[0].kind == 'memset' and not ns and const_is(mc[0].val, True))
                ctx.need(ok, T, R, 'not exactly the words of the vector are set as documented', t, mc[0])
                continue
            n = len(w)
            ctx.need(total(t, dst, n, nt), T, R, 'not all words of the vector are handled', t, t.ev[-1])
            for i, e in enumerate(w):
                k = next((j for j in range(n) if any(e.addr is addc(c, 8 * j) for c in cs)), None)
                if not ctx.need(k is not None and e.size == 8, T, R, 'something else than the words of the vector is written', t, e):
                    continue
                if not ns:
                    ctx.need(const_is(e.val, True), T, R, 'a word is not cleared', t, e)
                    continue
                l = [[x.res for x in t.find('load', hi=e.idx) if any(x.addr is addc(c, 8 * k) for c in cells(t, s))] for s in srcs]
                if not ctx.need(all(l), T, R, 'words of different positions are combined', t, e):
                    continue
                l = [x[-1] for x in l]
                want = {'TVEC_COPY': lambda: l[0], 'TVEC_NEGATIVE': lambda: sub(const(0, 64), l[0]), 'TVEC_OR': lambda: VV.bor(l[0], l[1], 64),
                        'TVEC_AND': lambda: VV.band(l[0], l[1], 64), 'TVEC_XOR': lambda: VV.bxor(l[0], l[1], 64)}[fn]()
                ctx.need(e.val is want, T, R, 'a word does not get the documented value', t, e)
            ctx.need(len({e.addr for e in w}) == n, T, R, 'a word is handled twice', t, t.ev[-1])
    for t in run('TVEC_COUNT_BITS'):
        tv = t.args[0]
        ls = [e.res for e in t.find('load') if any(e.addr is addc(c, 8 * j) for c in cells(t, tv) for j in range(5))]
        ctx.need(total(t, tv, len(ls)), T, 'tvec.count', 'not all words are counted', t, t.ev[-1])
        s = [const(0, 32)]
        want = const(0, 32)
        for l in ls:
            want = add(want, VV.trunc(VV.op('ctpop', (l,), 64), 32))
        ctx.need(not ls or t.ret is want or t.ret.kind != 'lin' and len(ls) != 1, T, 'tvec.count', 'the result is not the number of bits', t,
                 t.ev[-1])
