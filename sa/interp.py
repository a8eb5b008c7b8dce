"""Path-sensitive abstract interpreter over the parsed IR: produces abstract paths (lists of events).

No solver: undecided branches split the path, contradictory ones are pruned by value-number facts and intervals;
loops are k-limited (the back edge taken more often than the limit with an undecided exit ends the path as 'cut').
"""
from . import val as VV
from .val import V, const, sym, is_c, cval, add, addc, sub, scale, mk_lin, eq, icmp, lnot, TRUE, FALSE, \
    diff_const, base_off, terms, show


class AnalysisError(Exception):
    pass


class Event:
    __slots__ = ('idx', 'kind', 'addr', 'val', 'size', 'vol', 'atomic', 'res', 'x', 'loc', 'hint', 'nfacts')

    def __init__(self, kind, loc):
        self.kind, self.loc = kind, loc
        self.idx = -1
        self.addr = self.val = self.res = self.x = self.hint = None
        self.size = 0
        self.vol = self.atomic = False

    @property
    def where(self):
        f = self.loc[-1]
        return '%s:%d (%s)' % (f[1], f[2], f[0])

    def __repr__(self):
        k = self.kind
        if k == 'load':
            return '%d load%s %s -> %s' % (self.idx, 'v' if self.vol else '', show(self.addr), show(self.res))
        if k == 'store':
            return '%d store%s %s <- %s' % (self.idx, 'v' if self.vol else '', show(self.addr), show(self.val))
        if k == 'cas':
            return '%d cas%d %s (%s -> %s) %s' % (self.idx, self.size, show(self.addr), self.x['exp'],
                                                  self.x['new'], 'OK' if self.x['ok'] else 'FAIL')
        if k == 'rmw':
            return '%d %s %s %s -> %s' % (self.idx, self.x['op'], show(self.addr), show(self.val), show(self.res))
        if k == 'call':
            return '%d call %s(%s) -> %s' % (self.idx, self.x['name'], ', '.join(show(a) for a in self.x['args']),
                                             show(self.res) if self.res else '')
        if k == 'assume':
            return '%d assume %s%s' % (self.idx, '' if self.x else '!', show(self.val))
        if k == 'ret':
            return '%d ret %s' % (self.idx, show(self.val) if self.val is not None else '')
        if k in ('memcpy', 'memset'):
            return '%d %s %s <- %s len %s' % (self.idx, k, show(self.addr), show(self.val), show(self.x))
        return '%d %s %s' % (self.idx, k, self.x)


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'env', 'prev', 'retdst', 'iters', 'und', 'flag', 'site', 'uid', 'allocas')

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.prev, f.retdst, f.site, f.uid = \
            self.fn, self.blk, self.ip, self.prev, self.retdst, self.site, self.uid
        f.env = dict(self.env)
        f.iters, f.und, f.flag = dict(self.iters), dict(self.und), set(self.flag)
        f.allocas = dict(self.allocas)
        return f


class State:
    __slots__ = ('frames', 'cells', 'log', 'facts', 'rng', 'eqc', 'neq', 'uid', 'nobj', 'done', 'tabs', 'steps', 'escaped', 'round')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.cells = {k: dict(v) for k, v in self.cells.items()}
        s.log = list(self.log)
        s.facts = dict(self.facts)
        s.rng = dict(self.rng)
        s.eqc = dict(self.eqc)
        s.neq = set(self.neq)
        s.uid, s.nobj, s.done, s.steps = self.uid, self.nobj, self.done, self.steps
        s.escaped = set(self.escaped)
        return s


ALLOCS = {'synchGetMemory', 'synchGetAlignedMemory', 'malloc', 'calloc', 'memalign', 'numa_alloc_local',
          'numa_alloc_interleaved', 'posix_memalign', 'numa_alloc', 'synchAllocObj'}
PURE = {'synchResched', 'synchIsSystemOversubscribed', 'synchFastRandomRange', 'synchFastRandom32', 'synchFastRandom',
        'fprintf', 'printf', 'perror', 'synchGetTimeMillis', 'synchGetMachineModel', 'sched_yield', 'exit',
        'synchGetNCores', 'synchGetThreadId', 'synchGetPreferredNumaNode', 'synchGetPreferredCore',
        'synchPreferredNumaNodeOfThread', 'synchPreferredCoreOfThread', 'synchReadPrefetch', 'putchar', 'puts',
        'fputs', 'fputc', 'fwrite', 'fflush', 'abort', '__assert_fail', 'synchGetPosixThreadId'}
STABLE_CALLS = {'synchIsSystemOversubscribed', 'synchGetNCores', 'synchGetThreadId', 'synchGetPreferredNumaNode',
                'synchGetMachineModel', 'synchGetPosixThreadId'}
ATOMS = {'_CASPTR': ('cas', 8), '_CAS64': ('cas', 8), '_CAS32': ('cas', 4), '_CAS128': ('cas128', 16),
         '_SWAP': ('xchg', 8), '_FAA64': ('add', 8), '_FAA32': ('add', 4), '_BitTAS64': ('bts', 8)}


class Policy:
    """what the analysis of one entry point assumes"""

    def __init__(self, seq=False, opaque=(), k=1, kmap=None, inline_atoms=False, private=(), stable=None,
                 max_paths=60000, max_events=4000, nonnull_ld=False, tvec_opaque=True, fork_unused_cas=True,
                 allocs=None, pure=None, max_steps=200000, max_const_iters=24, assume=None, max_rec=1, mono=None,
                 ranges=None, k0=False, slots=None, model=None, delay=True, fix=None, priv=None, split=False, cutat=None,
                 consts=None, one_cas=False, havoc=None, stuck=None):
        self.stuck = stuck                  # rounds of a loop without an open decision after which it is taken to go on for ever
        self.havoc = havoc                  # fn(function, header): the integer locals a loop changes are unknown when it is entered
        self.fix = fix                      # fn(engine, addr, size): the value of a location that is fixed by initialisation
        self.priv = priv                    # fn(base): more memory that belongs to the calling thread
        self.split = split                  # copies of known length are copies of words
        self.one_cas = one_cas              # a CAS whose result is not used is explored as successful only
        self.cutat = cutat                  # fn(engine, state, event): the path ends here
        self.consts = consts or {}          # name -> constant result of a call
        self.delay = delay                  # loops over locals are skipped as delays
        self.model = model or {}            # name -> (fn arg, arg indices): a call of it applies that function argument
        self.slots = slots                  # {(struct, offset)}: own elements of arrays that nobody else writes
        self.k0 = k0                        # waiting and retry loops without effects are not repeated
        self.max_rec = max_rec
        self.mono = mono                    # {(struct, offset)}: a non-zero value read once stays (until an own store)
        self.ranges = ranges or {}          # {(struct, offset): (lo, hi)} of loaded values
        self.seq = seq                      # exclusive access: loads are forwarded even if volatile
        self.opaque = set(opaque)
        self.k = k
        self.kmap = kmap or {}
        self.inline_atoms = inline_atoms    # analyse the atomic wrappers themselves
        self.private = set(private)         # argument indices whose pointees belong to the calling thread
        self.stable = stable                # fn(hints) -> bool: fields that do not change after initialisation
        self.max_paths, self.max_events, self.max_steps = max_paths, max_events, max_steps
        self.nonnull_ld = nonnull_ld
        self.max_const_iters = max_const_iters
        self.tvec_opaque = tvec_opaque
        self.allocs = ALLOCS if allocs is None else allocs
        self.pure = PURE if pure is None else PURE | set(pure)
        self.assume = assume                # fn(engine, state): initial facts


class Path:
    """one finished abstract path"""

    def __init__(self, st, eng, args, end):
        self.ev = st.log
        self.st = st
        self.eng = eng
        self.args = args
        self.end = end           # 'ret' | 'cut' | 'exit' | 'stuck'
        self.ret = st.log[-1].val if end == 'ret' else None

    def dump(self):
        return '\n'.join('%-120s %s' % (repr(e), e.where) for e in self.ev)


def uncomp(v):
    """the complement of x as -1 - x"""
    if v.kind == 'op' and v.a[0] == 'xor' and len(v.a) == 3 and v.w > 1:
        for x, c in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if is_c(c) and c.a in (-1, (1 << v.w) - 1):
                return sub(const(-1, v.w), x, v.w)
    return v


class Engine:
    def __init__(self, prog, entry, policy, args=None):
        self.prog, self.pol = prog, policy
        self.entry = prog.func(entry) if isinstance(entry, str) else entry
        self.args = args
        self.hints = {}
        self.config = prog.config_fields()
        self.paths = []
        self.nsteps = 0
        self.funcs_seen = set()
        self.ninst = 0

    # ------------------------------------------------------------ run
    def run(self):
        f = self.entry
        st = State()
        st.frames, st.cells, st.log, st.facts, st.rng, st.eqc, st.neq = [], {}, [], {}, {}, {}, set()
        st.uid, st.nobj, st.done, st.steps = 0, 0, None, 0
        st.escaped = set()
        args = []
        for i, (t, n) in enumerate(f.params):
            if self.args and i < len(self.args) and self.args[i] is not None:
                args.append(self.args[i])
            else:
                w = t.w if t.kind == 'int' else 64
                args.append(sym('param', (i, n), w))
        self.argv = args
        if self.pol.assume:
            self.pol.assume(self, st)
        self._push(st, f, args, None, None)
        work = [st]
        while work:
            s = work.pop()
            try:
                out = self._exec(s)
            except RecursionError:
                raise AnalysisError('recursion')
            for o in out:
                if o.done:
                    if o.done != 'prune':
                        self.paths.append(Path(o, self, args, o.done))
                        if len(self.paths) > self.pol.max_paths:
                            raise AnalysisError('too many paths in %s' % f.name)
                else:
                    work.append(o)
        return self.paths

    def _push(self, st, fn, args, retdst, site):
        if len(st.frames) > 30 or sum(1 for fr in st.frames if fr.fn is fn) > self.pol.max_rec:
            st.done = 'cut'
            return False
        self.funcs_seen.add(fn.name)
        fr = Frame()
        fr.fn, fr.blk, fr.ip, fr.prev, fr.retdst, fr.site = fn, fn.entry, 0, None, retdst, site
        fr.env = {n: a for (t, n), a in zip(fn.params, args)}
        fr.iters, fr.und, fr.flag, fr.allocas = {}, {}, set(), {}
        st.uid += 1
        fr.uid = st.uid
        st.frames.append(fr)
        return True

    def _loc(self, st, ins):
        r = []
        for fr in st.frames[1:]:
            r.append(fr.site)
        f, l = st.frames[-1].fn.mod.loc(ins.dbg)
        return tuple(r) + ((st.frames[-1].fn.name, f, l),)

    def emit(self, st, kind, ins, **kw):
        e = Event(kind, self._loc(st, ins))
        for k, v in kw.items():
            setattr(e, k, v)
        e.idx = len(st.log)
        st.log.append(e)
        a = e.addr
        if a is not None and kind in ('load', 'store', 'cas', 'rmw', 'memcpy', 'memset'):
            if a.kind == 'c':
                st.done = 'null'
            else:
                b, c, o = base_off(a)
                if b is not None and all(x.kind in ('op', 'bits') for x, _ in o) and -4096 < c < 1 << 16 and b.kind in ('ld', 'rmw', 'old', 'call', 'havoc', 'obj'):
                    if st.eqc.get(b) == 0:
                        st.done = 'null'
                    else:
                        st.neq.add((b, 0))
        if e.idx > self.pol.max_events:
            raise AnalysisError('path too long in %s' % self.entry.name)
        return e

    # ------------------------------------------------------------ operands
    def opv(self, st, fr, o, t=None):
        k = o[0]
        if k == 'r':
            return fr.env[o[1]]
        if k == 'c':
            w = t.w if t is not None and t.kind == 'int' else 64
            return const(o[1], w)
        if k == 'g':
            return self.globv(fr.fn.mod, o[1])
        if k == 'undef':
            w = t.w if t is not None and t.kind == 'int' else 64
            return sym('undef', ('undef',), w)
        if k == 'zero':
            return const(0, 64)
        if k == 'f':
            return sym('float', o[1], 64)
        if k == 'cgep':
            base = self.opv(st, fr, o[2][0][1])
            return self.gep(fr.fn.mod, o[1], base, [(tt, self.opv(st, fr, oo, tt)) for tt, oo in o[2][1:]])
        if k == 'ccast':
            return self.opv(st, fr, o[3], o[2])
        if k == 'cbin':
            a, b = self.opv(st, fr, o[3], o[2]), self.opv(st, fr, o[4], o[2])
            if o[1] == 'sub':
                return sub(a, b)
            if o[1] == 'add':
                return add(a, b)
        return sym('undef', (str(o),), 64)

    def globv(self, mod, name):
        if name in mod.funcs or name in mod.decls:
            return sym('fn', name, 64)
        g = mod.globals.get(name)
        if g and g['internal']:
            return sym('glob', '%s:%s' % (mod.short, name), 64)
        return sym('glob', name, 64)

    def gep(self, mod, st_ty, base, idx):
        cur = st_ty
        off = base
        # first index scales by whole type
        t0, v0 = idx[0]
        if not (is_c(v0) and v0.a == 0):
            off = self._addidx(off, v0, mod.size(cur))
        hints = []
        rel = []       # (structname, start value)
        for t, v in idx[1:]:
            r = mod.resolve(cur)
            if r.kind == 'struct':
                i = cval(v)
                o = mod.offsets(r)[i]
                rel = [(n, b + o) for n, b in rel]
                if r.name:
                    rel.append((r.name, o))
                off = addc(off, o)
                cur = r.elems[i]
            else:
                es = mod.size(r.e)
                if is_c(v):
                    rel = [(n, b + v.a * es) for n, b in rel]
                else:
                    rel = [(n, None) for n, b in rel if False]
                off = self._addidx(off, v, es)
                cur = r.e
        if rel:
            h = self.hints.get(off)
            if h is None:
                h = self.hints[off] = set()
            for x in rel:
                h.add(x)
        return off

    def _addidx(self, base, v, size):
        if v.w < 64:
            v = VV.sext(v, 64)
        return add(base, scale(v, size))

    # ------------------------------------------------------------ facts
    def rangeof(self, st, v, sg):
        """interval of v, signed (sg=True) or unsigned view"""
        w = v.w
        if v.kind == 'c':
            x = v.a if sg else v.a & ((1 << w) - 1)
            return x, x
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        r = st.rng.get((v, sg))
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if v.kind == 'bits':
            top = v.a[-1]
            if not sg or top[1] is None and not top[0] >> (top[2] - 1) & 1:
                a = b = sh = 0
                for p in v.a:
                    if p[1] is None:
                        a, b, sh = a | p[0] << sh, b | p[0] << sh, sh + p[2]
                    else:
                        b, sh = b | ((1 << p[2]) - 1) << sh, sh + p[2]
                lo, hi = max(lo, a), min(hi, b)
            if top[1] is None and top[0] == 0 and top[2] > 0:
                lo, hi = max(lo, 0), min(hi, (1 << (w - top[2])) - 1)
                if len(v.a) == 2 and v.a[0][1] is not None:
                    x = VV.mk_bits((v.a[0],), v.a[0][2])
                    a, b = self.rangeof(st, x, False)
                    lo, hi = max(lo, a), min(hi, b)
        elif v.kind == 'op':
            o = v.a[0]
            if o == 'sext' and sg:
                a, b = self.rangeof(st, v.a[1], True)
                lo, hi = max(lo, a), min(hi, b)
            elif o == 'urem' and is_c(v.a[2]) and v.a[2].a > 0:
                lo, hi = max(lo, 0), min(hi, v.a[2].a - 1)
            elif o == 'srem' and is_c(v.a[2]) and v.a[2].a > 0:
                m = v.a[2].a
                a, b = self.rangeof(st, v.a[1], True)
                if sg:
                    lo, hi = max(lo, 0 if a >= 0 else 1 - m), min(hi, m - 1)
                elif a >= 0:
                    lo, hi = 0, min(hi, m - 1)
            elif o == 'ctpop' or o == 'cttz':
                lo, hi = max(lo, 0), min(hi, 64)
        elif v.kind == 'lin' and sg:
            c, ts = v.a
            if len(ts) == 1:
                x, k = ts[0]
                a, b = self.rangeof(st, x, True)
                if k < 0:
                    a, b = b, a
                a, b = a * k + c, b * k + c
                if a >= -(1 << (w - 1)) and b < (1 << (w - 1)):
                    lo, hi = max(lo, a), min(hi, b)
        if sg:
            u = st.rng.get((v, False))
            if u and u[1] < (1 << (w - 1)):
                lo, hi = max(lo, u[0]), min(hi, u[1])
        else:
            s = st.rng.get((v, True))
            if s and s[0] >= 0:
                lo, hi = max(lo, s[0]), min(hi, s[1])
        return lo, hi

    def nonnull(self, st, v):
        b, c, o = base_off(v)
        if b is None:
            return False
        if b.kind in ('alloca', 'glob', 'fn', 'obj'):
            return True
        if b.kind == 'param' and b.w == 64 and self._isptrparam(b):
            return True
        if (b, 0) in st.neq and not o and c == 0:
            return True
        if b is not v and c > 0 and c < 1 << 20:    # address of a member
            return True
        return False

    def _bitset(self, a):
        """a value with at least one bit set"""
        if a.kind == 'c':
            return a.a != 0
        if a.kind == 'op':
            if a.a[0] == 'shl' and is_c(a.a[1]) and a.a[1].a & 1:
                x = a.a[2]
                return x.kind == 'bits' and len(x.a) == 2 and x.a[1][1] is None and x.a[1][0] == 0 and (1 << x.a[0][2]) <= a.w
            if a.a[0] == 'or':
                return any(self._bitset(x) for x in a.a[1:] if isinstance(x, V))
        return False

    def _isptrparam(self, b):
        i = b.a[0]
        return i < len(self.entry.params) and self.entry.params[i][0].kind == 'ptr'

    def distinct(self, st, a, b):
        """provably different pointers"""
        x, cx, ox = base_off(a)
        y, cy, oy = base_off(b)
        if x is None or y is None or x is y:
            return False
        k = {x.kind, y.kind}
        strong = ('alloca', 'glob', 'fn', 'obj')
        if x.kind in strong and y.kind in strong:
            return True
        for p, q in ((x, y), (y, x)):
            if p.kind == 'glob' and q.kind in ('param', 'ld', 'call', 'rmw') and self.pol.fix:
                return True
            if p.kind == 'alloca' and (q.kind == 'param' or p not in st.escaped):
                return True
            if p.kind == 'obj':
                if q.kind in ('param', 'glob'):
                    return True
                if q.kind in ('ld', 'rmw', 'old', 'call') and isinstance(q.a, tuple) and isinstance(q.a[0], int) \
                        and q.a[0] < p.a[0]:
                    return True
                if q.kind == 'rmw' and isinstance(q.a, int) and q.a < p.a[0]:
                    return True
        return False

    def decide(self, st, c):
        if c.kind == 'c':
            return bool(c.a & 1)
        if c.kind == 'not':
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        r = st.facts.get(c)
        if r is not None:
            return r
        if c.kind == 'cmp':
            p, a, b = c.a
            if p == 'eq':
                if b.kind == 'c':
                    e = st.eqc.get(a)
                    if e is not None:
                        return e == b.a
                    if (a, b.a) in st.neq:
                        return False
                    if b.a == 0 and a.w == 64 and self.nonnull(st, a):
                        return False
                    if b.a == 0 and a.kind == 'op' and self._bitset(a):
                        return False
                    for sg in (True, False):
                        lo, hi = self.rangeof(st, a, sg)
                        x = b.a if sg else b.a & ((1 << b.w) - 1)
                        if x < lo or x > hi:
                            return False
                        if lo == hi == x:
                            return True
                else:
                    if a.w == 64 and self.distinct(st, a, b):
                        return False
                    ea, eb = st.eqc.get(a), st.eqc.get(b)
                    if ea is not None and eb is not None:
                        return ea == eb
                    if ea is not None and (b, ea) in st.neq:
                        return False
                    if eb is not None and (a, eb) in st.neq:
                        return False
                    if ea == 0 and a.w == 64 and self.nonnull(st, b) or eb == 0 and b.w == 64 and self.nonnull(st, a):
                        return False
                    for sg in (True, False):
                        la, ha = self.rangeof(st, a, sg)
                        lb, hb = self.rangeof(st, b, sg)
                        if ha < lb or hb < la:
                            return False
                    if st.facts.get(VV._mk('cmp', ('slt', a, b), 1)) or st.facts.get(VV._mk('cmp', ('slt', b, a), 1)) \
                            or st.facts.get(VV._mk('cmp', ('ult', a, b), 1)) or st.facts.get(VV._mk('cmp', ('ult', b, a), 1)):
                        return False
            else:
                sg = p == 'slt'
                la, ha = self.rangeof(st, a, sg)
                lb, hb = self.rangeof(st, b, sg)
                ea, eb = st.eqc.get(a), st.eqc.get(b)
                if ea is not None:
                    la = ha = ea if sg else ea & ((1 << a.w) - 1)
                if eb is not None:
                    lb = hb = eb if sg else eb & ((1 << b.w) - 1)
                if ha < lb:
                    return True
                if la >= hb:
                    return False
                o = st.facts.get(VV._mk('cmp', (p, b, a), 1))
                if o:
                    return False
                if a.kind != 'c' and b.kind != 'c' and st.facts.get(eq(a, b)):
                    return False
        elif c.kind == 'bits' or c.kind in ('ld', 'call', 'param', 'old', 'rmw'):
            e = st.eqc.get(c)
            if e is not None:
                return bool(e & 1)
        elif c.kind == 'op' and c.a[0] in ('and', 'or') and c.w == 1:
            rs = [self.decide(st, x) for x in c.a[1:]]
            if c.a[0] == 'and':
                if False in rs:
                    return False
                if None not in rs:
                    return True
            else:
                if True in rs:
                    return True
                if None not in rs:
                    return False
        return None

    def assume(self, st, c, val):
        """adds the fact; returns False if contradictory"""
        if c.kind == 'c':
            return bool(c.a & 1) == val
        if c.kind == 'not':
            return self.assume(st, c.a[0], not val)
        d = self.decide(st, c)
        if d is not None:
            return d == val
        st.facts[c] = val
        if c.kind == 'cmp':
            p, a, b = c.a
            if p == 'eq':
                if val:
                    if b.kind == 'c':
                        self._seteq(st, a, b.a)
                    else:
                        for x, y in ((a, b), (b, a)):
                            e = st.eqc.get(x)
                            if e is not None and st.eqc.get(y) is None:
                                self._seteq(st, y, e)
                elif b.kind == 'c':
                    st.neq.add((a, b.a))
                    for sg in (True, False):
                        lo, hi = self.rangeof(st, a, sg)
                        x = b.a if sg else b.a & ((1 << b.w) - 1)
                        if x == lo:
                            st.rng[(a, sg)] = (lo + 1, hi)
                        elif x == hi:
                            st.rng[(a, sg)] = (lo, hi - 1)
            else:
                sg = p == 'slt'
                la, ha = self.rangeof(st, a, sg)
                lb, hb = self.rangeof(st, b, sg)
                if val:      # a < b
                    na, nb = (la, min(ha, hb - 1)), (max(lb, la + 1), hb)
                else:        # a >= b
                    na, nb = (max(la, lb), ha), (lb, min(hb, ha))
                if na[0] > na[1] or nb[0] > nb[1]:
                    return False
                for v, r in ((a, na), (b, nb)):
                    if v.kind != 'c':
                        st.rng[(v, sg)] = r
                        if r[0] == r[1] and st.eqc.get(v) is None:
                            st.eqc[v] = VV.wrap(r[0], v.w)
                        # propagate one-term sums
                        if v.kind == 'lin' and sg and len(v.a[1]) == 1 and abs(v.a[1][0][1]) == 1:
                            x, k = v.a[1][0]
                            lo, hi = r[0] - v.a[0], r[1] - v.a[0]
                            if k < 0:
                                lo, hi = -hi, -lo
                            a0, b0 = self.rangeof(st, x, True)
                            if max(a0, lo) <= min(b0, hi):
                                st.rng[(x, True)] = (max(a0, lo), min(b0, hi))
        return True

    def _seteq(self, st, a, cv):
        st.eqc[a] = cv
        w = a.w
        st.rng[(a, True)] = (cv, cv)
        u = cv & ((1 << w) - 1)
        st.rng[(a, False)] = (u, u)
        if a.kind == 'lin' and len(a.a[1]) == 1 and abs(a.a[1][0][1]) == 1:
            x, k = a.a[1][0]
            if st.eqc.get(x) is None:
                self._seteq(st, x, VV.wrap((cv - a.a[0]) * k, w))
        if a.kind == 'op' and a.a[0] == 'sext' and st.eqc.get(a.a[1]) is None:
            self._seteq(st, a.a[1], cv)

    # ------------------------------------------------------------ memory
    def mayalias(self, st, a, sa, b, sb):
        """'no', 'exact', 'in:<k>' (b inside a at k), 'may'"""
        d = diff_const(b, a)
        if d is not None:
            if sa is None or sb is None:
                return 'may'
            if d == 0 and sa == sb:
                return 'exact'
            if d >= sa or -d >= sb:
                return 'no'
            return 'may'
        if self.distinct(st, a, b):
            return 'no'
        ha, hb = self.hints.get(a), self.hints.get(b)
        if ha and hb:
            na = {n for n, _ in ha}
            nb = {n for n, _ in hb}
            com = na & nb
            if com:
                for n in com:
                    oa = [o for m, o in ha if m == n]
                    ob = [o for m, o in hb if m == n]
                    if None in oa or None in ob:
                        continue
                    if all(x + (sa or 1) <= y or y + (sb or 1) <= x for x in oa for y in ob):
                        return 'no'
                return 'may'
            return 'no'
        # symbolic offsets from one base: sext(i)*8 vs constant etc.
        xa, ca, ta = base_off(a)
        xb, cb, tb = base_off(b)
        if xa is xb and xa is not None and ta != tb:
            # different index terms over the same base: equal only if the terms are equal
            da = sub(a, b)
            if da.kind == 'lin' and len(da.a[1]) <= 2:
                c, ts = da.a
                g = 0
                for _, k in ts:
                    g = abs(k) if g == 0 else __import__('math').gcd(g, abs(k))
                if g and sa and sb and (c % g) + sb <= g and (g - (c % g)) % g + 0 >= 0 and c % g >= sa and (g - c % g) >= sb:
                    return 'no'
                lo = hi = c
                for x, k in ts:
                    p, q = self.rangeof(st, x, True)
                    if p < -(1 << 40) or q > 1 << 40:
                        lo = hi = None
                        break
                    lo, hi = lo + min(p * k, q * k), hi + max(p * k, q * k)
                if lo is not None and sa and sb and (lo >= sb or hi <= -sa):
                    return 'no'
                # facts: index difference known nonzero
                if g and len(ts) == 2 and c % g == 0:
                    e = eq(ts[0][0], ts[1][0]) if ts[0][1] == -ts[1][1] and ts[0][0].w == ts[1][0].w else None
                    if e is not None and self.decide(st, e) is False:
                        return 'no'
                if g and len(ts) == 1 and c % g == 0:
                    e = eq(ts[0][0], const(-c // ts[0][1], ts[0][0].w)) if c % ts[0][1] == 0 else None
                    if e is not None and self.decide(st, e) is False:
                        return 'no'
        return 'may'

    def is_private(self, addr):
        b, _, _ = base_off(addr)
        if b is None:
            return False
        if b.kind == 'alloca':
            return True
        if self.pol.priv and self.pol.priv(b):
            return True
        if b.kind == 'param':
            return b.a[0] in self.pol.private
        return False

    def slot(self, addr):
        """(field, index expression) if addr is an element of an array whose base is kept in a field of pol.slots"""
        if addr.kind not in ('lin', 'ld'):
            return None
        for b, q in terms(addr)[1]:
            if b.kind == 'ld' and q == 1:
                h = self.hints.get(b.a[1])
                if h and not self.pol.slots.isdisjoint(h):
                    return (b.a[1], sub(addr, b))
        return None

    def is_stable(self, addr):
        h = self.hints.get(addr)
        if h and self.pol.slots and not self.pol.slots.isdisjoint(h):
            return True
        if h and h <= self.config:
            return True
        return bool(self.pol.stable and h and self.pol.stable(h))

    def lookup(self, st, addr, size, vol=False, seq=None, upto=None, fresh=True):
        """last known value of a non-stack location, or None"""
        pol = self.pol
        seq = pol.seq if seq is None else seq
        if pol.slots:
            k = self.slot(addr)
            if k is not None:
                for e in reversed(st.log[:upto] if upto is not None else st.log):
                    if e.kind in ('store', 'load') and e.size == size and self.slot(e.addr) == k:
                        return e.val if e.kind == 'store' else e.res
                return None
        stable = self.is_stable(addr)
        priv = seq or self.is_private(addr)
        if vol and not priv and not stable:
            return None
        log = st.log
        i = (len(log) if upto is None else upto) - 1
        while i >= 0:
            e = log[i]
            k = e.kind
            if k == 'store':
                if e.addr is addr and e.size == size:
                    return e.val
                r = self.mayalias(st, e.addr, e.size, addr, size)
                if r == 'exact':
                    return e.val
                if r == 'may':
                    if stable and not (diff_const(e.addr, addr) is not None):
                        pass
                    else:
                        d = diff_const(addr, e.addr)
                        if d is not None and 0 <= d and d + size <= e.size:
                            return VV.slice_(e.val, d * 8, size * 8)
                        return None
            elif k == 'load':
                if e.addr is addr and e.size == size:
                    return e.res
            elif k in ('memcpy', 'memset'):
                d = diff_const(addr, e.addr)
                ln = cval(e.x)
                if d is not None:
                    if d >= 0 and (ln is None or d + size <= ln):
                        if ln is None and d < 0:
                            return None
                        if k == 'memset':
                            return const(0, size * 8) if is_c(e.val) and e.val.a == 0 else None
                        src = addc(e.val, d)
                        v = self.lookup(st, src, size, vol, seq, upto=i)
                        if v is None:
                            v = sym('ld', (e.idx, src, size), size * 8)
                        return v
                    if d < 0 and -d >= size:
                        pass
                    elif ln is not None and d >= ln:
                        pass
                    else:
                        return None
                else:
                    r = self.mayalias(st, e.addr, None, addr, None)
                    if r == 'may' and not stable:
                        ha = self.hints.get(addr)
                        return None
            elif k in ('cas', 'rmw'):
                if e.addr is addr and e.size == size:
                    if k == 'cas':
                        if e.x['ok']:
                            v = e.x['new']
                            return v[0] if len(v) == 1 and (priv or stable) else None
                        if not seq:
                            return None
                    else:
                        return e.x['after'] if priv else None
                elif k == 'cas' and not e.x['ok'] and priv:
                    pass
                else:
                    r = self.mayalias(st, e.addr, e.size, addr, size)
                    if r != 'no' and not stable:
                        return None
                    if not priv and not stable:
                        return None
            elif k in ('fence', 'barrier'):
                if not priv and not stable:
                    return None
            elif k == 'call':
                if e.x['clobber'] and not stable:
                    if priv and not seq and base_off(addr)[0] not in [base_off(a)[0] for a in e.x['args'] if a.w == 64]:
                        pass
                    elif not self._fresh_after(addr, e):
                        return None
            i -= 1
        return None

    def _fresh_after(self, addr, e):
        return False

    def load(self, st, ins, addr, size, vol, w, atomic=None, isptr=False):
        if addr.kind == 'undef':
            return sym('undef', ('deref', len(st.log)), w)
        b, c, o = base_off(addr)
        if b is not None and b.kind == 'alloca':
            v = self._cell_load(st, b, c, o, size, w)
            if v is not None:
                return v
            # partially unknown local memory
            e = self.emit(st, 'load', ins, addr=addr, size=size, vol=vol)
            e.res = sym('ld', (e.idx, addr, size), w)
            return e.res
        if self.pol.fix:
            v = self.pol.fix(self, st, addr, size)
            if v is not None:
                return v if v.w == w else const(v.a, w) if is_c(v) else v
        if b is not None and b.kind == 'glob' and not o:
            v = self.prog.const_global(b.a, c, size)
            if v is not None:
                return const(v, w)
        v = self.lookup(st, addr, size, vol or bool(atomic))
        if v is not None and v.w == w:
            if vol or self.pol.stuck:
                e = self.emit(st, 'load', ins, addr=addr, size=size, vol=vol, atomic=bool(atomic))
                e.res = v
            return v
        e = self.emit(st, 'load', ins, addr=addr, size=size, vol=vol, atomic=bool(atomic))
        h = self.hints.get(addr)
        if h and self.pol.mono and not self.pol.mono.isdisjoint(h):
            for p in reversed(st.log[:-1]):
                if p.addr is addr and p.kind in ('load', 'store', 'cas', 'rmw') and p.size == size:
                    v = p.res if p.kind == 'load' else p.val if p.kind == 'store' else None
                    if p.kind == 'cas' and p.x['ok'] and len(p.x['new']) == 1:
                        v = p.x['new'][0]
                    if v is not None and v.w == w and self.decide(st, eq(v, const(0, w))) is False:
                        e.res = v
                        return v
                    break
        e.res = sym('ld', (e.idx, addr, size), w)
        if self.pol.cutat and self.pol.cutat(self, st, e):
            st.done = 'cut'
        if h and self.pol.ranges:
            for x in h:
                r = self.pol.ranges.get(x)
                if r:
                    st.rng[(e.res, True)] = r
                    st.rng[(e.res, False)] = r
        return e.res

    def _cell_load(self, st, b, c, o, size, w):
        cells = st.cells.get(b)
        if cells is None:
            return None
        if o:
            return None
        x = cells.get(c)
        if x is not None and x[0] == size:
            return x[1]
        if x is not None and x[0] > size:
            return VV.slice_(x[1], 0, size * 8)
        for off, (sz, v) in cells.items():
            if off != '*' and off <= c and c + size <= off + sz:
                return VV.slice_(v, (c - off) * 8, size * 8)
        # assemble from smaller cells
        parts, p = [], c
        while p < c + size:
            y = cells.get(p)
            if y is None or p + y[0] > c + size:
                if '*' in cells:
                    return None
                return sym('undef', (b.a, c, size), w) if not any(
                    off < c + size and c < off + s for off, (s, _) in cells.items() if off != '*') else None
            parts.extend(VV.segs(y[1]))
            p += y[0]
        return VV.mk_bits(parts, size * 8)

    def store(self, st, ins, addr, val, size, vol, atomic=None):
        b, c, o = base_off(addr)
        if b is not None and b.kind == 'alloca':
            cells = st.cells.setdefault(b, {})
            if o:
                cells.clear()
                cells['*'] = (0, val)
                self.emit(st, 'store', ins, addr=addr, val=val, size=size, vol=vol)
                return
            for off in [k for k, (s, _) in cells.items() if k != '*' and k != c and k < c + size and c < k + s]:
                s, v = cells.pop(off)
                for i in range(s):      # keep the surviving bytes
                    q = off + i
                    if q < c or q >= c + size:
                        cells[q] = (1, VV.slice_(v, i * 8, 8))
            old = cells.get(c)
            if old is not None and old[0] > size:
                for i in range(size, old[0]):
                    cells[c + i] = (1, VV.slice_(old[1], i * 8, 8))
            cells[c] = (size, val)
            return
        self.emit(st, 'store', ins, addr=addr, val=val, size=size, vol=vol, atomic=bool(atomic))
        if val.w == 64:
            vb = base_off(val)[0]
            if vb is not None and vb.kind == 'alloca':
                st.escaped.add(vb)

    # ------------------------------------------------------------ execution
    def _exec(self, st):
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.ip]
            self.ninst += 1
            st.steps += 1
            if st.steps > self.pol.max_steps:
                raise AnalysisError('path of %s does not end (%s)' % (self.entry.name, fr.fn.mod.loc(ins.dbg)))
            r = self._step(st, fr, ins)
            if st.done in ('null', 'cut'):
                return [st]
            if r is not None:
                return r

    def _goto(self, st, fr, target):
        """follows a CFG edge; returns False if the path is cut"""
        fn = fr.fn
        loops = fn.loops()
        if target in loops:
            body = loops[target]
            if fr.blk in body:
                fr.iters[target] = fr.iters.get(target, 0) + 1
                if target in fr.flag:
                    fr.env[('und', target)] = fr.iters[target]
                    fr.flag.discard(target)
                    fr.und[target] = fr.und.get(target, 0) + 1
                k = self._klimit(fn, target)
                if fr.und.get(target, 0) > k and (('cx', target) not in fr.env or fr.und[target] > k + 1):
                    st.done = 'cut'
                    return False
                if self.pol.stuck and fr.iters[target] - fr.env.get(('und', target), 0) == self.pol.stuck:
                    fr.env[('snap', target)] = self._snap(st, fr, body)
                fr.env[('be', target)] = fr.env.get(('be', target), ()) + (len(st.log),)
                n = fr.iters[target] - fr.env.get(('und', target), 0)
                if n > (self.pol.stuck or self.pol.max_const_iters + 60):
                    counted = self._counted(st, fr, body, fr.env.get(('snap', target)))
                    if not (self.pol.stuck and counted and n < 100):     # a counted loop may be a part of a waiting round
                        st.done = 'stuck'
                        st.round = (fn.name, fr.env[('be', target)][-3:], counted)
                        return False
            else:
                fr.iters[target] = 0
                fr.env.pop(('be', target), None)
                fr.env.pop(('und', target), None)
                fr.und[target] = 0
                fr.flag.discard(target)
                if self.pol.havoc and self.pol.havoc(fn, target):
                    for b in body:
                        for i in fn.blocks[b]:
                            if i.op == 'store' and i.a[2][0] == 'r':
                                a = fr.env.get(i.a[2][1])
                                if a is not None and a.kind == 'alloca' and fn.mod.resolve(i.a[0]).kind == 'int':
                                    n = fn.mod.size(i.a[0])
                                    st.cells[a] = {0: (n, sym('havoc', (st.steps, i.a[2][1]), n * 8))}
        fr.prev, fr.blk, fr.ip = fr.blk, target, 0
        # phis
        vals = []
        for ins in fn.blocks[target]:
            if ins.op != 'phi':
                break
            for lb, v in ins.a[1]:
                if lb == fr.prev:
                    vals.append((ins.dst, self.opv(st, fr, v, ins.a[0])))
                    break
        for d, v in vals:
            fr.env[d] = v
        fr.ip = len(vals)
        return True

    def _klimit(self, fn, header):
        key = (fn.name, header)
        r = self._kc.get(key) if hasattr(self, '_kc') else None
        if r is None:
            if not hasattr(self, '_kc'):
                self._kc = {}
            r = self.pol.kmap.get(fn.name, self.pol.k)
            if r > 1 and not self.pol.seq and self._effect_free(fn, fn.loops()[header]) and not self._works(fn, fn.loops()[header]):
                r = 1
            if self.pol.k0 and self._effect_free(fn, fn.loops()[header], True):
                r = 0
            self._kc[key] = r
        return r

    def _works(self, fn, body):
        """calls a function that the rule wants to see, and waits for nothing"""
        ins = [i for b in body for i in fn.blocks[b]]
        return any(i.op == 'call' and i.a[1][0] == 'g' and i.a[1][1] in self.pol.opaque for i in ins) and \
            not any(i.op == 'load' and i.vol for i in ins)

    def _effect_free(self, fn, body, cas=False):
        """a pure waiting or delay loop: writes nothing but locals"""
        allocas = {i.dst for b in fn.order for i in fn.blocks[b] if i.op == 'alloca'}
        for b in body:
            for i in fn.blocks[b]:
                if i.op == 'store':
                    if not (i.a[2][0] == 'r' and i.a[2][1] in allocas):
                        return False
                elif i.op in ('cmpxchg', 'atomicrmw'):
                    return False
                elif i.op == 'call':
                    c = i.a[1]
                    if c[0] == 'g' and (c[1] in self.pol.pure or c[1].startswith('llvm.prefetch') or
                                        cas and c[1].startswith('_CAS')):
                        continue
                    if c[0] == 'asm' and 'cmpxchg' not in c[1] and 'xchg' not in c[1]:
                        continue
                    return False
        return True

    def _delay_loop(self, st, fr, blk):
        """loop around blk that touches locals only; returns (header, body) or None"""
        fn = fr.fn
        for h, body in fn.loops().items():
            if blk not in body or not self._effect_free(fn, body):
                continue
            ok = True
            allocas = {i.dst for b in fn.order for i in fn.blocks[b] if i.op == 'alloca'}
            for b in body:
                for i in fn.blocks[b]:
                    if i.op == 'load' and not (i.a[1][0] == 'r' and i.a[1][1] in allocas):
                        # loads of memory: allowed only if not volatile (nothing is awaited)
                        if i.vol:
                            ok = False
                    if i.op == 'call' and i.a[1][0] == 'g' and not i.a[1][1].startswith('llvm.'):
                        ok = False
            if ok:
                return h, body
        return None

    def _snap(self, st, fr, body):
        r = {}
        for b in body:
            for i in fr.fn.blocks[b]:
                if i.op == 'store' and i.a[2][0] == 'r':
                    a = fr.env.get(i.a[2][1])
                    if a is not None and a.kind == 'alloca':
                        r[i.a[2][1]] = tuple(sorted((str(k), v[0], id(v[1])) for k, v in st.cells.get(a, {}).items()))
        return r

    def _counted(self, st, fr, body, old):
        """a decision in the loop depends on a local that changed in the last round"""
        new = self._snap(st, fr, body)
        if old is None:
            return False
        diff = {k for k in new if old.get(k) != new[k]}
        if not diff:
            return False
        defs = {i.dst: i for b in body for i in fr.fn.blocks[b] if i.dst is not None}
        inner = [set(x) for x in fr.fn.loops().values()]
        body = set(body)
        for b in body:
            i = fr.fn.blocks[b][-1]
            if i.op not in ('br', 'switch'):
                continue
            # what a loop inside this one decides about its own rounds does not count
            if any(b in b2 and b2 < body for b2 in inner) and all(s in body for s in fr.fn.succs(b)):
                continue
            work, seen = [i.a], set()
            while work:
                x = work.pop()
                if isinstance(x, (list, tuple)):
                    if len(x) == 2 and x[0] == 'r' and isinstance(x[1], str):
                        if x[1] in seen:
                            continue
                        seen.add(x[1])
                        if x[1] in diff:
                            return True
                        if x[1] in defs:
                            work.append(defs[x[1]].a)
                    else:
                        work.extend(x)
        return False

    def _counter_cond(self, fr, ins, body):
        """the branch condition is computed from a local that the loop itself changes"""
        fn = fr.fn
        defs = {i.dst: i for b in body for i in fn.blocks[b] if i.dst is not None}
        stores = {}

        def canon(r):
            # a pointer parameter that points to a local of a caller
            d = defs.get(r)
            v = fr.env.get(r)
            if d is not None and d.op == 'load' and d.a[1][0] == 'r' and isinstance(v, V) and v.kind == 'alloca':
                return '*' + d.a[1][1]
            return r
        for b in body:
            for i in fn.blocks[b]:
                if i.op == 'store' and i.a[2][0] == 'r':
                    stores.setdefault(canon(i.a[2][1]), []).append(i.a[1])

        def locals_of(ops):
            seen, work, res = set(), list(ops), set()
            while work:
                o = work.pop()
                if o[0] != 'r' or o[1] in seen:
                    continue
                seen.add(o[1])
                i = defs.get(o[1])
                if i is None or i.op == 'call':
                    continue
                if i.op == 'load':
                    if i.a[1][0] == 'r':
                        res.add(canon(i.a[1][1]))
                else:
                    for x in i.a:
                        if isinstance(x, tuple):
                            work.append(x)
                        elif isinstance(x, list):
                            for y in x:
                                if isinstance(y, tuple):
                                    work.extend(z for z in y if isinstance(z, tuple))
            return res
        for a in locals_of([ins.a[0]]):
            for v in stores.get(a, ()):
                if a in locals_of([v]):
                    return True
        return False

    def _flag(self, st):
        """a split happened: the loops around it are not decided in this iteration"""
        for fr in st.frames:
            for h, body in fr.fn.loops().items():
                if fr.blk in body:
                    fr.flag.add(h)

    def _jump_out(self, st, fr, h, body):
        """a loop with a constant number of rounds is left after some of them: its counters become unknown"""
        for b in body:
            for i in fr.fn.blocks[b]:
                if i.op == 'store' and i.a[2][0] == 'r':
                    a = fr.env.get(i.a[2][1])
                    if a is not None and a.kind == 'alloca' and fr.fn.mod.resolve(i.a[0]).kind == 'int':
                        cl = st.cells.get(a, {})
                        for off, (sz, v) in list(cl.items()):
                            if off != '*' and v.kind == 'c':
                                cl[off] = (sz, sym('havoc', (st.steps, i.a[2][1], off), sz * 8))

    def _branch(self, st, fr, ins, c, t1, t2):
        d = self.decide(st, c)
        if d is not None:
            t = t1 if d else t2
            for h, body in fr.fn.loops().items():
                if fr.blk in body and ((t1 in body) != (t2 in body)) and c.kind == 'c' and \
                        self._counter_cond(fr, ins, body):
                    fr.env[('cx', h)] = True
                    if t in body and (fr.und.get(h, 0) > self._klimit(fr.fn, h) or
                                      fr.iters.get(h, 0) >= self.pol.max_const_iters):
                        self._jump_out(st, fr, h, body)
                        self.emit(st, 'loopjump', ins, x=h)
                        t = t2 if d else t1
                        break
            return None if self._goto(st, fr, t) else [st]
        # undecided
        self._flag(st)
        dl = self._delay_loop(st, fr, fr.blk) if self.pol.delay else None
        if dl and ((t1 in dl[1]) != (t2 in dl[1])):
            h, body = dl
            if not fr.env.get('$delay' + h):
                # forget every local the loop writes, and leave the loop
                for b in body:
                    for i in fr.fn.blocks[b]:
                        if i.op == 'store':
                            a = fr.env.get(i.a[2][1])
                            if a is not None:
                                st.cells[a] = {0: (fr.fn.mod.size(i.a[0]),
                                                   sym('havoc', (st.steps, i.a[2][1]), fr.fn.mod.size(i.a[0]) * 8))}
                fr.env['$delay' + h] = True
                self.emit(st, 'delay', ins, x=h)
                if fr.blk == h:
                    fr.ip = 0
                else:
                    if not self._goto(st, fr, h):
                        return [st]
                return None
            fr.env['$delay' + h] = False
            out, val = (t2, False) if t1 in body else (t1, True)
            if not self.assume(st, c, val):
                st.done = 'prune'
                return [st]
            self.emit(st, 'assume', ins, val=c, x=val)
            return None if self._goto(st, fr, out) else [st]
        res = []
        s2 = st.copy()
        for s, v, t in ((st, True, t1), (s2, False, t2)):
            f = s.frames[-1]
            if not self.assume(s, c, v):
                continue
            self.emit(s, 'assume', ins, val=c, x=v)
            if self._goto(s, f, t):
                res.append(s)
            else:
                res.append(s)
        return res

    def _step(self, st, fr, ins):
        op = ins.op
        mod = fr.fn.mod
        env = fr.env
        if op == 'load':
            t, o = ins.a
            r = mod.resolve(t)
            size = mod.size(t)
            w = r.w if r.kind == 'int' else size * 8
            addr = self.opv(st, fr, o)
            v = self.load(st, ins, addr, size, ins.vol, size * 8, ins.order)
            if w != size * 8:
                v = VV.trunc(v, w)
            env[ins.dst] = v
        elif op == 'store':
            t, vo, ao = ins.a
            r = mod.resolve(t)
            size = mod.size(t)
            v = self.opv(st, fr, vo, r)
            if vo[0] == 'zero' and size > 8:
                self.emit(st, 'memset', ins, addr=self.opv(st, fr, ao), val=const(0), x=const(size))
            else:
                if v.w != size * 8:
                    v = VV.zext(v, size * 8) if v.w < size * 8 else VV.trunc(v, size * 8)
                self.store(st, ins, self.opv(st, fr, ao), v, size, ins.vol, ins.order)
        elif op == 'getelementptr':
            base = self.opv(st, fr, ins.a[1][0][1])
            env[ins.dst] = self.gep(mod, ins.a[0], base, [(t, self.opv(st, fr, o, t)) for t, o in ins.a[1][1:]])
        elif op == 'alloca':
            nm = fr.fn.varnames.get(ins.dst)
            nm = mod.varname(nm) if nm else ins.dst
            a = sym('alloca', (fr.uid, nm, ins.dst), 64)
            env[ins.dst] = a
            st.cells[a] = {}
        elif op == 'br':
            if len(ins.a) == 1:
                if not self._goto(st, fr, ins.a[0]):
                    return [st]
                return None
            c = self.opv(st, fr, ins.a[0], None)
            if ins.a[0][0] == 'c':
                c = const(ins.a[0][1], 1)
            return self._branch(st, fr, ins, c, ins.a[1], ins.a[2])
        elif op == 'switch':
            t, vo, dflt, cases = ins.a
            v = self.opv(st, fr, vo, t)
            res = []
            live = st
            for cv, lb in cases:
                c = eq(v, const(cv, t.w))
                d = self.decide(live, c)
                if d is False:
                    continue
                if d is True:
                    self._goto(live, live.frames[-1], lb)
                    res.append(live)
                    return res
                s2 = live.copy()
                if self.assume(s2, c, True):
                    self.emit(s2, 'assume', ins, val=c, x=True)
                    self._goto(s2, s2.frames[-1], lb)
                    res.append(s2)
                if not self.assume(live, c, False):
                    return res
                self.emit(live, 'assume', ins, val=c, x=False)
            self._goto(live, live.frames[-1], dflt)
            res.append(live)
            return res
        elif op == 'ret':
            t, o = ins.a
            v = None if o is None else self.opv(st, fr, o, t)
            if len(st.frames) == 1:
                self.emit(st, 'ret', ins, val=v)
                st.done = 'ret'
                return [st]
            st.frames.pop()
            up = st.frames[-1]
            if fr.retdst is not None and v is not None:
                up.env[fr.retdst] = v
            up.ip += 1
            return None
        elif op == 'call':
            return self._call(st, fr, ins)
        elif op == 'icmp':
            p, t, a, b = ins.a
            env[ins.dst] = icmp(p, self.opv(st, fr, a, t), self.opv(st, fr, b, t))
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            t = ins.a[0]
            a, b = self.opv(st, fr, ins.a[1], t), self.opv(st, fr, ins.a[2], t)
            w = t.w
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                self.emit(st, 'div', ins, val=b, x=(op, self.decide(st, eq(b, const(0, w))), a))
                m = b.a if is_c(b) else 0
                if m > 1 and m & (m - 1) == 0 and self.rangeof(st, a, True)[0] >= 0:
                    op, b = ('ashr', const(m.bit_length() - 1, w)) if op in ('udiv', 'sdiv') else ('and', const(m - 1, w))
            env[ins.dst] = self._arith(st, op, a, b, w)
        elif op in ('zext', 'sext', 'trunc'):
            t, o, t2 = ins.a
            v = self.opv(st, fr, o, t)
            if v.w == 1 and not is_c(v):
                d = self.decide(st, v)
                if d is not None:
                    v = const(int(d), 1)
            env[ins.dst] = {'zext': VV.zext, 'sext': VV.sext, 'trunc': VV.trunc}[op](v, t2.w)
            if op == 'zext' and self.rangeof(st, v, True)[0] >= 0 and v.kind == 'lin':
                env[ins.dst] = VV.sext(v, t2.w)
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            t, o = ins.a[0], ins.a[1]
            v = self.opv(st, fr, o, t)
            if op == 'ptrtoint' and ins.a[2].w != 64:
                v = VV.trunc(v, ins.a[2].w)
            if op == 'inttoptr' and v.w != 64:
                v = VV.zext(v, 64)
            env[ins.dst] = v
        elif op == 'phi':
            raise AnalysisError('phi')
        elif op == 'select':
            t, c, a, b = ins.a
            cv = self.opv(st, fr, c, None)
            d = self.decide(st, cv)
            if d is None:
                s2 = st.copy()
                res = []
                for s, v, o in ((st, True, a), (s2, False, b)):
                    f = s.frames[-1]
                    if self.assume(s, cv, v):
                        self.emit(s, 'assume', ins, val=cv, x=v)
                        f.env[ins.dst] = self.opv(s, f, o, t)
                        f.ip += 1
                        res.append(s)
                return res
            env[ins.dst] = self.opv(st, fr, a if d else b, t)
        elif op == 'cmpxchg':
            t, ao, eo, no = ins.a
            size = mod.size(t)
            a = self.opv(st, fr, ao)
            return self._cas(st, fr, ins, a, (self.opv(st, fr, eo, t),), (self.opv(st, fr, no, t),), size, 'pair')
        elif op == 'atomicrmw':
            t, k, ao, vo = ins.a
            env[ins.dst] = self._rmw(st, fr, ins, k, self.opv(st, fr, ao), self.opv(st, fr, vo, t), mod.size(t))
        elif op == 'fence':
            self.emit(st, 'fence', ins, x='full')
        elif op == 'extractvalue':
            v = self.opv(st, fr, ins.a[1])
            if isinstance(v, tuple):
                env[ins.dst] = v[ins.a[2][0]]
            else:
                env[ins.dst] = sym('undef', ('extract',), 64)
        elif op == 'insertvalue':
            env[ins.dst] = sym('undef', ('insert',), 64)
        elif op == 'unreachable':
            st.done = 'exit'
            return [st]
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptosi',
                    'fptoui', 'fneg'):
            ops = [o for o in ins.a if isinstance(o, tuple)]
            vals = tuple(self.opv(st, fr, o, None) for o in ops)
            t2 = ins.a[-1] if op in ('fptosi', 'fptoui') else None
            w = 1 if op == 'fcmp' else (t2.w if t2 is not None else 64)
            env[ins.dst] = VV.op('f:' + op + (':' + ins.a[0] if op == 'fcmp' else ''), vals, w)
        else:
            raise AnalysisError('unhandled instruction ' + ins.text)
        fr.ip += 1
        return None

    def _arith(self, st, op, a, b, w):
        if op in ('add', 'sub'):
            a, b = uncomp(a), uncomp(b)
        if op == 'add':
            return add(a, b, w)
        if op == 'sub':
            return sub(a, b, w)
        if op == 'mul':
            return VV.mul(a, b, w)
        if op == 'and':
            return VV.band(a, b, w)
        if op == 'or':
            return VV.bor(a, b, w)
        if op == 'xor':
            return VV.bxor(a, b, w)
        if op == 'shl':
            return VV.shl(a, b, w)
        if op == 'lshr':
            return VV.lshr(a, b, w)
        if op == 'ashr':
            return VV.ashr(a, b, w)
        return VV.divrem(op, a, b, w)

    def _rmw(self, st, fr, ins, k, addr, v, size):
        idx = len(st.log)
        prev = self.lookup(st, addr, size, True) if (self.pol.seq or self.is_private(addr)) else None
        b, c, o = base_off(addr)
        if b is not None and b.kind == 'alloca':
            prev = self._cell_load(st, b, c, o, size, size * 8)
        old = prev if prev is not None else sym('rmw', idx, size * 8)
        after = {'xchg': lambda: v, 'add': lambda: add(old, v, size * 8), 'sub': lambda: sub(old, v, size * 8),
                 'or': lambda: VV.bor(old, v, size * 8), 'and': lambda: VV.band(old, v, size * 8),
                 'xor': lambda: VV.bxor(old, v, size * 8)}.get(k, lambda: VV.op(k, (old, v), size * 8))()
        if b is not None and b.kind == 'alloca':
            st.cells[b][c] = (size, after)
        self.emit(st, 'rmw', ins, addr=addr, val=v, size=size, vol=True, atomic=True, res=old,
                  x=dict(op=k, after=after, order=ins.order or ''))
        return old

    def _cas(self, st, fr, ins, addr, exp, new, size, form):
        res = []
        if self.pol.stuck and self.pol.seq and len(exp) == 1:
            # what a CAS does again and again while the memory does not change
            v = self.load(st, ins, addr, size, True, size * 8)
            d = self.decide(st, eq(v, exp[0]))
            if d is None:
                self._flag(st)
        else:
            self._flag(st)
        s2 = st.copy()
        unused = self.pol.one_cas and form == 'bool' and not self._used(fr.fn, ins.dst)
        for s, ok in ((st, True), (s2, False)):
            if unused and not ok:
                continue
            f = s.frames[-1]
            w = size * 8 if len(exp) == 1 else 64
            if (self.pol.seq or self.is_private(addr)) and len(exp) == 1:
                cur = self.lookup(s, addr, size, True)
                if cur is not None:
                    d = self.decide(s, eq(cur, exp[0]))
                    if d is not None and d != ok:
                        continue
                    if d is None:
                        self.assume(s, eq(cur, exp[0]), ok)
            e = self.emit(s, 'cas', ins, addr=addr, size=size, vol=True, atomic=True,
                          x=dict(exp=exp, new=new, ok=ok, order=ins.order or ''))
            e.res = const(1 if ok else 0, 1)
            old = exp[0] if ok else sym('old', (e.idx,), w)
            if form == 'pair':
                if not ok and 'weak' not in (ins.order or ''):
                    self.assume(s, eq(old, exp[0]), False)
                f.env[ins.dst] = (old, e.res)
            elif form == 'bool':
                if ins.dst is not None:
                    f.env[ins.dst] = e.res
            elif form == 'asm':
                f.env[ins.dst] = (sym('old', (e.idx, 'd'), 64), VV.zext(e.res, 8))
            f.ip += 1
            res.append(s)
        return res

    def _used(self, fn, dst):
        if dst is None:
            return False
        u = getattr(fn, '_uses', None)
        if u is None:
            u = fn._uses = set()

            def walk(x):
                if isinstance(x, (tuple, list)):
                    if len(x) == 2 and x[0] == 'r' and isinstance(x[1], str):
                        u.add(x[1])
                    for y in x:
                        walk(y)
            for b in fn.order:
                for i in fn.blocks[b]:
                    walk(i.a)
        return dst in u

    def _call(self, st, fr, ins):
        rt, callee, args = ins.a
        mod = fr.fn.mod
        if callee[0] == 'asm':
            return self._asm(st, fr, ins)
        cv = self.opv(st, fr, callee)
        av = [self.opv(st, fr, o, t) for t, o in args]
        pol = self.pol
        if cv.kind == 'fn':
            name = cv.a
        else:
            name = None
        w = rt.w if rt.kind == 'int' else 64
        if name is not None:
            if name.startswith('llvm.'):
                return self._intrinsic(st, fr, ins, name, av, w)
            if name in ATOMS and not pol.inline_atoms:
                k, size = ATOMS[name]
                if k == 'cas':
                    return self._cas(st, fr, ins, av[0], (av[1],), (av[2],), size, 'bool')
                if k == 'cas128':
                    return self._cas(st, fr, ins, av[0], (av[1], av[2]), (av[3], av[4]), 16, 'bool')
                v = av[1]
                if k == 'bts':
                    v = VV.shl(const(1, 64), VV.zext(v, 64) if v.w < 64 else v, 64)
                    k = 'or'
                r = self._rmw(st, fr, ins, k, av[0], v, size)
                if ins.dst:
                    fr.env[ins.dst] = r
                fr.ip += 1
                return None
            tgt = self.prog.lookup(mod, name)
            if name in pol.model:
                fi, ai = pol.model[name]
                tv = av[fi]
                sub_ = self.prog.lookup(mod, tv.a) if tv.kind == 'fn' else None
                e = self.emit(st, 'call', ins, x=dict(name=name, args=av, fn=cv, clobber=False, argt=[], mem=[None] * len(av)))
                if sub_ is not None:
                    e.res = tv
                    f, l = mod.loc(ins.dbg)
                    return None if self._push(st, sub_, [av[i] for i in ai], ins.dst, (fr.fn.name, f, l)) else [st]
            if tgt is not None and name not in pol.opaque and not (pol.tvec_opaque and name.startswith('TVEC_')) \
                    and name not in pol.pure and name not in pol.allocs:
                f, l = mod.loc(ins.dbg)
                return None if self._push(st, tgt, av, ins.dst, (fr.fn.name, f, l)) else [st]
        # opaque call
        x = dict(name=name or ('*' + show(cv)), args=av, fn=cv, clobber=not (name in pol.pure or name in pol.allocs),
                 argt=[t for t, _ in args], mem=[dict(st.cells.get(base_off(a)[0], {})) if a.w == 64 and base_off(a)[0] is not None
                                                 and base_off(a)[0].kind == 'alloca' else None for a in av])
        e = self.emit(st, 'call', ins, x=x)
        for a in av:
            if a.w == 64 and name not in pol.pure:
                b = base_off(a)[0]
                if b is not None and b.kind == 'alloca':
                    st.escaped.add(b)
        if x['clobber']:
            for b in list(st.escaped):
                if b in st.cells and st.cells[b]:
                    st.cells[b] = {'*': (0, const(0))}
        if rt.kind != 'void':
            if name in pol.consts:
                r = const(pol.consts[name], w)
            elif name in STABLE_CALLS:
                r = sym('call', (-1, name), w)
            elif name in pol.allocs:
                r = sym('obj', (e.idx, name), 64)
            else:
                r = sym('call', (e.idx, name or '*'), w)
            e.res = r
            if ins.dst:
                fr.env[ins.dst] = r
        if name in ('exit', 'abort', '__assert_fail', '_exit'):
            st.done = 'exit'
            return [st]
        fr.ip += 1
        return None

    def _intrinsic(self, st, fr, ins, name, av, w):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            dst, src, ln = av[0], av[1], av[2]
            vol = bool(cval(av[3]))
            n = cval(ln)
            if n in (1, 2, 4, 8):
                v = self.load(st, ins, src, n, vol, n * 8)
                self.store(st, ins, dst, v, n, vol)
            elif n is not None and n <= 256 and n % 8 == 0 and (self.pol.split or base_off(dst)[0] is not None and base_off(dst)[0].kind == 'alloca'
                                                 or base_off(src)[0] is not None and base_off(src)[0].kind == 'alloca'):
                for i in range(0, n, 8):
                    v = self.load(st, ins, addc(src, i), 8, vol, 64)
                    self.store(st, ins, addc(dst, i), v, 8, vol)
            else:
                self.emit(st, 'memcpy', ins, addr=dst, val=src, x=ln, vol=vol)
        elif name.startswith('llvm.memset'):
            b, c, o = base_off(av[0])
            n = cval(av[2])
            if b is not None and b.kind == 'alloca' and not o and n is not None and n <= 4096 and is_c(av[1]):
                by = av[1].a & 255
                cells = st.cells.setdefault(b, {})
                for k in [k for k in cells if k == '*' or c <= k < c + n]:
                    del cells[k]
                k = c
                while k < c + n:
                    s = 8 if k % 8 == 0 and k + 8 <= c + n else 1
                    cells[k] = (s, const(int.from_bytes(bytes([by]) * s, 'little'), s * 8))
                    k += s
            else:
                self.emit(st, 'memset', ins, addr=av[0], val=av[1], x=av[2])
        elif name.startswith('llvm.threadlocal'):
            fr.env[ins.dst] = av[0]
        elif name.startswith('llvm.cttz'):
            fr.env[ins.dst] = const((av[0].a & -av[0].a).bit_length() - 1, w) if is_c(av[0]) and av[0].a else \
                av[0].a[2] if av[0].kind == 'op' and av[0].a[0] == 'shl' and is_c(av[0].a[1]) and av[0].a[1].a == 1 and av[0].w == w \
                and self._bitset(av[0]) else VV.mk_bits(((VV.op('cttz', (av[0],), w), 0, 6 if w == 64 else 5), (0, None, w - (6 if w == 64 else 5))), w)
        elif name.startswith('llvm.ctpop'):
            fr.env[ins.dst] = const(bin(av[0].a & ((1 << w) - 1)).count('1'), w) if is_c(av[0]) else VV.op('ctpop', (av[0],), w)
        elif name.startswith('llvm.prefetch') or name.startswith('llvm.lifetime') or name.startswith('llvm.stackrestore'):
            pass
        elif name.startswith('llvm.expect'):
            fr.env[ins.dst] = av[0]
        elif ins.dst is not None:
            fr.env[ins.dst] = VV.op(name, tuple(av), w)
        fr.ip += 1
        return None

    def _asm(self, st, fr, ins):
        rt, callee, args = ins.a
        _, tmpl, cons, fl = callee
        av = [self.opv(st, fr, o, t) for t, o in args]
        cl = cons.split(',')
        mem = '~{memory}' in cl
        t = tmpl.replace('\\0A', '\n')
        if 'cmpxchg16b' in t:
            # inputs in order of constraints that take an operand
            ins_c = [c for c in cl if not c.startswith('=') or '*' in c]
            ins_c = [c for c in ins_c if not c.startswith('~')]
            regs = {}
            addr = None
            for c, v in zip(ins_c, av):
                if 'm' in c.split('{')[0] and '*' in c:
                    addr = addr or v
                else:
                    regs[c.strip('{}')] = v
            outs = [c for c in cl if c.startswith('=') and '*' not in c]
            exp = (regs.get('ax'), regs.get('dx'))
            new = (regs.get('bx'), regs.get('cx'))
            return self._cas128asm(st, fr, ins, addr, exp, new, outs, mem, 'lock' in t, t)
        if t.strip() in ('mfence', 'lfence', 'sfence'):
            self.emit(st, 'fence', ins, x={'mfence': 'full', 'lfence': 'load', 'sfence': 'store'}[t.strip()])
        elif mem:
            self.emit(st, 'barrier', ins, x=t)
        else:
            self.emit(st, 'asm', ins, x=t)
        if mem and av:
            for a in av:
                b = base_off(a)[0]
                if b is not None and b.kind == 'alloca':
                    st.cells[b] = {'*': (0, const(0))}
        if ins.dst is not None:
            n = len([c for c in cl if c.startswith('=') and '*' not in c])
            if n > 1:
                fr.env[ins.dst] = tuple(sym('asm', (len(st.log), i), 64) for i in range(n))
            else:
                w = rt.w if rt.kind == 'int' else 64
                fr.env[ins.dst] = sym('asm', (len(st.log), 0), w)
        fr.ip += 1
        return None

    def _cas128asm(self, st, fr, ins, addr, exp, new, outs, mem, lock, tmpl):
        res = []
        self._flag(st)
        s2 = st.copy()
        rt = ins.a[0]
        for s, ok in ((st, True), (s2, False)):
            f = s.frames[-1]
            e = self.emit(s, 'cas', ins, addr=addr, size=16, vol=True, atomic=lock,
                          x=dict(exp=exp, new=new, ok=ok, asm=tmpl, mem=mem))
            e.res = const(1 if ok else 0, 1)
            r = []
            el = rt.elems if rt.kind == 'struct' else [rt]
            for c, t in zip(outs, el):
                if c == '={ax}' and t.kind == 'int' and t.w == 8 and 'setz $' + str(outs.index(c)) in tmpl:
                    r.append(const(1 if ok else 0, 8))
                elif 'setz $%d' % outs.index(c) in tmpl or 'sete $%d' % outs.index(c) in tmpl:
                    r.append(const(1 if ok else 0, t.w))
                elif 'setnz $%d' % outs.index(c) in tmpl or 'setne $%d' % outs.index(c) in tmpl:
                    r.append(const(0 if ok else 1, t.w))
                else:
                    r.append(sym('old', (e.idx, c), t.w if t.kind == 'int' else 64))
            f.env[ins.dst] = tuple(r) if len(r) > 1 else r[0]
            f.ip += 1
            res.append(s)
        return res
