"""Hash-consed abstract values (value numbers over access paths) and their normal forms."""

_tab = {}


class V:
    __slots__ = ('kind', 'a', 'w', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


def _mk(kind, a, w):
    k = (kind, a, w)
    v = _tab.get(k)
    if v is None:
        v = V()
        v.kind, v.a, v.w, v.id = kind, a, w, len(_tab)
        _tab[k] = v
    return v


def wrap(x, w):
    x &= (1 << w) - 1
    if w > 1 and x >> (w - 1):
        x -= 1 << w
    return x


def const(x, w=64):
    return _mk('c', wrap(x, w), w)


def sym(kind, a, w=64):
    return _mk(kind, a, w)


def is_c(v):
    return v.kind == 'c'


def cval(v):
    return v.a if v.kind == 'c' else None


# ------------------------------------------------------------------ linear
def terms(v):
    if v.kind == 'c':
        return v.a, ()
    if v.kind == 'lin':
        return v.a
    return 0, ((v, 1),)


def mk_lin(c, ts, w):
    ts = tuple(sorted(((x, wrap(k, w)) for x, k in ts.items() if wrap(k, w) != 0), key=lambda p: p[0].id))
    c = wrap(c, w)
    if not ts:
        return const(c, w)
    if len(ts) == 1 and ts[0][1] == 1 and ts[0][0].w == w:
        x = ts[0][0]
        if c == 0:
            return x
        if c > 0 and x.kind == 'bits' and len(x.a) == 2 and x.a[1][1] is None and x.a[0][1] is not None \
                and c % (1 << x.a[0][2]) == 0 and x.a[0][2] < 12:
            n = x.a[0][2]           # a multiple of 2^n above n unknown bits
            return mk_bits((x.a[0], ((x.a[1][0] + (c >> n)) & ((1 << w - n) - 1), None, w - n)), w)
    return _mk('lin', (c, ts), w)


def add(a, b, w=None, kb=1):
    w = w or a.w
    ca, ta = terms(a)
    cb, tb = terms(b)
    if not tb:
        if cb == 0 and a.w == w:
            return a
        if not ta:
            return const(ca + kb * cb, w)
        if a.kind != 'lin' or a.w == w:
            return mk_lin(ca + kb * cb, dict(ta), w)
    d = dict(ta)
    for x, k in tb:
        d[x] = d.get(x, 0) + kb * k
    return mk_lin(ca + kb * cb, d, w)


def sub(a, b, w=None):
    return add(a, b, w, -1)


def scale(a, k, w=None):
    w = w or a.w
    c, t = terms(a)
    return mk_lin(c * k, {x: q * k for x, q in t}, w)


def addc(a, k):
    return add(a, const(k, a.w))


def diff_const(a, b):
    """a-b if it is a constant, else None"""
    if a is b:
        return 0
    ca, ta = terms(a)
    cb, tb = terms(b)
    if ta == tb:
        return ca - cb
    return None


# ------------------------------------------------------------------ bit slices; segment = (V|int, lo, width)
def segs(v):
    if v.kind == 'bits':
        return v.a
    if v.kind == 'c':
        return ((v.a & ((1 << v.w) - 1), None, v.w),)
    return ((v, 0, v.w),)


def mk_bits(ss, w):
    out = []
    for s in ss:
        if s[2] <= 0:
            continue
        if out:
            p = out[-1]
            if p[1] is None and s[1] is None:
                out[-1] = (p[0] | (s[0] << p[2]), None, p[2] + s[2])
                continue
            if p[1] is not None and s[1] is not None and p[0] is s[0] and p[1] + p[2] == s[1]:
                out[-1] = (p[0], p[1], p[2] + s[2])
                continue
        out.append(s)
    if len(out) == 1:
        s = out[0]
        if s[1] is None:
            return const(s[0], w)
        if s[1] == 0 and s[2] == s[0].w == w:
            return s[0]
    return _mk('bits', tuple(out), w)


def slice_(v, lo, n):
    res, pos = [], 0
    for s in segs(v):
        a, b = max(lo, pos), min(lo + n, pos + s[2])
        if a < b:
            if s[1] is None:
                res.append(((s[0] >> (a - pos)) & ((1 << (b - a)) - 1), None, b - a))
            else:
                res.append((s[0], s[1] + a - pos, b - a))
        pos += s[2]
    r = mk_bits(res, n)
    # low bits of sums: keep the sum form (modular arithmetic commutes with truncation)
    return r


def zext(v, w):
    if v.kind == 'c':
        return const(v.a & ((1 << v.w) - 1), w)
    return mk_bits(list(segs(v)) + [(0, None, w - v.w)], w)


def sext(v, w):
    if v.kind == 'c':
        if v.w == 1:
            return const(-v.a, w)
        return const(v.a, w)
    if v.kind == 'bits':
        top = v.a[-1]
        if top[1] is None and not (top[0] >> (top[2] - 1)) & 1:
            return zext(v, w)
    if v.kind == 'lin':
        c, ts = v.a
        return mk_lin(c, {sext(x, w): k for x, k in ts}, w)
    return _mk('op', ('sext', v), w)


def trunc(v, w):
    if v.kind == 'c':
        return const(v.a, w)
    if v.kind == 'op' and v.a[0] == 'sext' and v.a[1].w >= w:
        return v.a[1] if v.a[1].w == w else trunc(v.a[1], w)
    if v.kind == 'lin':
        c, ts = v.a
        return mk_lin(c, {trunc(x, w): k for x, k in ts}, w)
    return slice_(v, 0, w)


def band(a, b, w):
    if a.kind == 'c':
        a, b = b, a
    if a is b:
        return a
    if b.kind == 'c':
        if a.kind == 'c':
            return const(a.a & b.a, w)
        m = b.a & ((1 << w) - 1)
        res, pos = [], 0
        while pos < w:
            bit = (m >> pos) & 1
            n = 1
            while pos + n < w and ((m >> (pos + n)) & 1) == bit:
                n += 1
            if bit:
                res.extend(segs(slice_(a, pos, n)))
            else:
                res.append((0, None, n))
            pos += n
        if len(res) <= 6:
            return mk_bits(res, w)
    x, y = sorted((a, b), key=lambda v: v.id)
    return _mk('op', ('and', x, y), w)


def bor(a, b, w):
    if a.kind == 'c' and b.kind == 'c':
        return const(a.a | b.a, w)
    if a is b:
        return a
    if a.kind == 'c' and a.a == 0:
        return b
    if b.kind == 'c' and b.a == 0:
        return a
    # disjoint?
    res, ok = [], True
    cuts = set()
    for v in (a, b):
        p = 0
        for s in segs(v):
            p += s[2]
            cuts.add(p)
            if s[1] is None:            # cut constants at runs of zeros
                x, n = s[0], s[2]
                q = 0
                while q < n:
                    bit = (x >> q) & 1
                    r = 1
                    while q + r < n and ((x >> (q + r)) & 1) == bit:
                        r += 1
                    cuts.add(p - n + q + r)
                    q += r
    pos = 0
    for c in sorted(cuts):
        n = c - pos
        if n <= 0:
            continue
        x, y = slice_(a, pos, n), slice_(b, pos, n)
        if x.kind == 'c' and (x.a & ((1 << n) - 1)) == 0:
            res.extend(segs(y))
        elif y.kind == 'c' and (y.a & ((1 << n) - 1)) == 0:
            res.extend(segs(x))
        elif x.kind == 'c' and y.kind == 'c':
            res.extend(segs(const(x.a | y.a, n)))
        elif x.kind == 'c' and (x.a & ((1 << n) - 1)) == (1 << n) - 1:
            res.extend(segs(x))
        elif y.kind == 'c' and (y.a & ((1 << n) - 1)) == (1 << n) - 1:
            res.extend(segs(y))
        else:
            ok = False
            break
        pos = c
    if ok and len(res) <= 8:
        return mk_bits(res, w)
    x, y = sorted((a, b), key=lambda v: v.id)
    return _mk('op', ('or', x, y), w)


def bxor(a, b, w):
    if a.kind == 'c' and b.kind == 'c':
        return const(a.a ^ b.a, w)
    if a is b:
        return const(0, w)
    if a.kind == 'c':
        a, b = b, a
    if b.kind == 'c' and b.a == 0:
        return a
    if w == 1 and b.kind == 'c':
        return lnot(a)
    # nested xor cancellation
    fa = list(a.a[1:]) if a.kind == 'op' and a.a[0] == 'xor' else [a]
    fb = list(b.a[1:]) if b.kind == 'op' and b.a[0] == 'xor' else [b]
    k, res = 0, []
    for x in fa + fb:
        if x.kind == 'c':
            k ^= x.a
        elif x in res:
            res.remove(x)
        else:
            res.append(x)
    res.sort(key=lambda v: v.id)
    if wrap(k, w):
        res.append(const(k, w))
    if not res:
        return const(0, w)
    if len(res) == 1:
        return res[0]
    return _mk('op', ('xor',) + tuple(res), w)


def shl(a, b, w):
    k = cval(b)
    if k is not None:
        if k >= w:
            return const(0, w)
        if a.kind == 'c':
            return const(a.a << k, w)
        if k == 0:
            return a
        if a.kind != 'bits' and k < 8:
            return scale(a, 1 << k, w)
        return mk_bits([(0, None, k)] + list(segs(slice_(a, 0, w - k))), w)
    return _mk('op', ('shl', a, b), w)


def lshr(a, b, w):
    k = cval(b)
    if k is not None:
        if a.kind == 'c':
            return const((a.a & ((1 << w) - 1)) >> k, w)
        if k == 0:
            return a
        if k >= w:
            return const(0, w)
        return mk_bits(list(segs(slice_(a, k, w - k))) + [(0, None, k)], w)
    return _mk('op', ('lshr', a, b), w)


def ashr(a, b, w):
    k = cval(b)
    if k is not None and a.kind == 'c':
        return const(a.a >> k, w)
    if k == 0:
        return a
    if k is not None and k < w and a.kind == 'bits' and a.a[-1][1] is None and not (a.a[-1][0] >> (a.a[-1][2] - 1)) & 1:
        return lshr(a, b, w)
    return _mk('op', ('ashr', a, b), w)


def mul(a, b, w):
    if a.kind == 'c':
        a, b = b, a
    if b.kind == 'c':
        return scale(a, b.a, w)
    x, y = sorted((a, b), key=lambda v: v.id)
    return _mk('op', ('mul', x, y), w)


def divrem(op, a, b, w):
    if a.kind == 'c' and b.kind == 'c' and b.a != 0:
        if op[0] == 'u':
            x, y = a.a & ((1 << w) - 1), b.a & ((1 << w) - 1)
            return const(x // y if op == 'udiv' else x % y, w)
        q = abs(a.a) // abs(b.a)
        if (a.a < 0) != (b.a < 0):
            q = -q
        return const(q if op == 'sdiv' else a.a - q * b.a, w)
    if b.kind == 'c' and b.a == 1:
        return a if 'div' in op else const(0, w)
    return _mk('op', (op, a, b), w)


def op(name, args, w):
    return _mk('op', (name,) + tuple(args), w)


# ------------------------------------------------------------------ conditions (w == 1)
TRUE, FALSE = const(1, 1), const(0, 1)


def lnot(x):
    if x.kind == 'c':
        return const(1 - (x.a & 1), 1)
    if x.kind == 'not':
        return x.a[0]
    return _mk('not', (x,), 1)


def _zx(v):
    """(x) if v is zero-extension of x, else None"""
    if v.kind == 'bits' and len(v.a) == 2 and v.a[1][1] is None and v.a[1][0] == 0 and v.a[0][1] is not None:
        x, lo, n = v.a[0]
        return mk_bits((v.a[0],), n)
    return None


def eq(a, b):
    d = diff_const(a, b)
    if d is not None:
        return TRUE if wrap(d, a.w) == 0 else FALSE
    if a.kind == 'c':
        a, b = b, a
    if b.kind == 'c':
        if a.w == 1:
            return a if (b.a & 1) else lnot(a)
        x = _zx(a)
        if x is not None:
            if (b.a & ((1 << a.w) - 1)) >> x.w:
                return FALSE
            return eq(x, const(b.a, x.w))
        if a.kind == 'op' and a.a[0] == 'sext':
            y = a.a[1]
            if wrap(b.a, y.w) != b.a:
                return FALSE
            return eq(y, const(b.a, y.w))
        if a.kind == 'op' and a.a[0] == 'xor' and b.a == 0 and len(a.a) == 3:
            return eq(a.a[1], a.a[2])
        if a.kind == 'lin' and a.a[0] != 0:
            return eq(mk_lin(0, dict(a.a[1]), a.w), const(b.a - a.a[0], a.w))
        if a.kind == 'lin' and len(a.a[1]) == 1 and a.a[1][0][1] == -1:
            return eq(a.a[1][0][0], const(-b.a, a.w))
        if a.kind == 'lin' and len(a.a[1]) == 2 and b.a == 0:
            (x, k), (y, q) = a.a[1]
            if k == -q and abs(k) == 1:
                return eq(x, y)
        return _mk('cmp', ('eq', a, b), 1)
    xa, xb = _zx(a), _zx(b)
    if xa is not None and xb is not None and xa.w == xb.w:
        return eq(xa, xb)
    if a.kind == 'op' and b.kind == 'op' and a.a[0] == b.a[0] == 'sext' and a.a[1].w == b.a[1].w:
        return eq(a.a[1], b.a[1])
    ca, ta = terms(a)
    cb, tb = terms(b)
    if ca and cb:
        a, b = addc(a, -ca), addc(b, -ca)
    x, y = sorted((a, b), key=lambda v: v.id)
    return _mk('cmp', ('eq', x, y), 1)


def lt(pred, a, b):
    """pred: 'slt' or 'ult'"""
    w = a.w
    if a.kind == 'c' and b.kind == 'c':
        if pred == 'ult':
            m = (1 << w) - 1
            return TRUE if (a.a & m) < (b.a & m) else FALSE
        return TRUE if a.a < b.a else FALSE
    if a is b:
        return FALSE
    if pred == 'slt':
        d = diff_const(a, b)
        if d is not None:
            return TRUE if d < 0 else FALSE
        if a.kind == 'lin' and b.kind == 'c' and a.a[0] != 0:       # signed sums do not overflow
            return lt(pred, mk_lin(0, dict(a.a[1]), w), const(b.a - a.a[0], w))
        if b.kind == 'lin' and a.kind == 'c' and b.a[0] != 0:
            return lt(pred, const(a.a - b.a[0], w), mk_lin(0, dict(b.a[1]), w))
    if pred == 'ult' and b.kind == 'c' and b.a == 0:
        return FALSE
    xa, xb = _zx(a), _zx(b)
    if xa is not None and xb is not None and xa.w == xb.w:
        return lt('ult', xa, xb)
    if xa is not None and b.kind == 'c' and (pred == 'ult' or b.a >= 0):
        bb = b.a & ((1 << w) - 1)
        if bb >> xa.w:
            return TRUE
        return lt('ult', xa, const(bb, xa.w))
    if xb is not None and a.kind == 'c' and (pred == 'ult' or a.a >= 0):
        aa = a.a & ((1 << w) - 1)
        if aa >> xb.w:
            return FALSE
        return lt('ult', const(aa, xb.w), xb)
    if pred == 'slt':
        sa = a.a[1] if a.kind == 'op' and a.a[0] == 'sext' else None
        sb = b.a[1] if b.kind == 'op' and b.a[0] == 'sext' else None
        if sa is not None and sb is not None and sa.w == sb.w:
            return lt('slt', sa, sb)
        if sa is not None and b.kind == 'c' and wrap(b.a, sa.w) == b.a:
            return lt('slt', sa, const(b.a, sa.w))
        if sb is not None and a.kind == 'c' and wrap(a.a, sb.w) == a.a:
            return lt('slt', const(a.a, sb.w), sb)
    return _mk('cmp', (pred, a, b), 1)


def icmp(pred, a, b):
    if pred == 'eq':
        return eq(a, b)
    if pred == 'ne':
        return lnot(eq(a, b))
    p = 's' if pred[0] == 's' else 'u'
    r = pred[1:]
    if r == 'lt':
        return lt(p + 'lt', a, b)
    if r == 'gt':
        return lt(p + 'lt', b, a)
    if r == 'ge':
        return lnot(lt(p + 'lt', a, b))
    return lnot(lt(p + 'lt', b, a))


# ------------------------------------------------------------------ structure queries
def subvals(v, seen=None):
    seen = seen if seen is not None else set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(kids(x))
    return seen


def kids(v):
    k = v.kind
    if k == 'lin':
        return [x for x, _ in v.a[1]]
    if k == 'bits':
        return [s[0] for s in v.a if s[1] is not None]
    if k in ('op', 'cmp'):
        return [x for x in v.a[1:] if isinstance(x, V)]
    if k == 'not':
        return [v.a[0]]
    if k == 'ld':
        return [v.a[1]]
    return []


PTR_ROOT_KINDS = ('param', 'glob', 'alloca', 'obj', 'ld', 'call', 'rmw', 'old', 'havoc', 'fn')


def base_off(addr):
    """(base atom or None, const offset, other terms) of an address"""
    r = _BASE.get(addr.id)
    if r is None:
        r = _BASE[addr.id] = _base_off(addr)
    return r


_BASE = {}


def _base_off(addr):
    c, ts = terms(addr)
    bases = [x for x, k in ts if k == 1 and x.w == 64 and x.kind in PTR_ROOT_KINDS]
    if len(bases) >= 1:
        b = None
        strong = [x for x in bases if x.kind in ('alloca', 'glob', 'obj', 'param')]
        b = strong[0] if strong else bases[0]
        return b, c, tuple((x, k) for x, k in ts if x is not b)
    return None, c, ts


def show(v, d=6):
    k = v.kind
    if d < 0:
        return '..'
    if k == 'c':
        return str(v.a)
    if k == 'lin':
        c, ts = v.a
        s = ' + '.join((show(x, d - 1) if q == 1 else '%d*%s' % (q, show(x, d - 1))) for x, q in ts)
        return '(%s%s)' % (s, ' + %d' % c if c else '')
    if k == 'bits':
        return '{' + ','.join(('%d:%d' % (s[0], s[2])) if s[1] is None else '%s[%d+%d]' % (show(s[0], d - 1), s[1], s[2])
                              for s in v.a) + '}'
    if k == 'op':
        return '%s(%s)' % (v.a[0], ', '.join(show(x, d - 1) if isinstance(x, V) else str(x) for x in v.a[1:]))
    if k == 'cmp':
        return '(%s %s %s)' % (show(v.a[1], d - 1), {'eq': '==', 'slt': '<', 'ult': '<u'}[v.a[0]], show(v.a[2], d - 1))
    if k == 'not':
        return '!' + show(v.a[0], d - 1)
    if k == 'ld':
        return '[%s]#%d' % (show(v.a[1], d - 1), v.a[0])
    if k == 'param':
        return v.a[1]
    if k == 'glob':
        return '@' + (v.a if isinstance(v.a, str) else '%s<%s>' % (v.a[0], show(v.a[1], d - 1)))
    if k == 'fn':
        return '&' + v.a
    if k == 'alloca':
        return '&%s' % (v.a[1],)
    if k in ('obj', 'call'):
        return '%s#%d' % (v.a[1], v.a[0])
    return '%s%s' % (k, v.a)
