"""Rule context: runs the abstract interpreter on entry points, keeps paths, obligations and violations."""
import json, os
from ..interp import Engine, Policy, AnalysisError
from ..val import *
from .. import val as VV

HERE = os.path.dirname(os.path.abspath(__file__))
LAYOUT = os.path.join(HERE, 'layout.json')


class Missing(Exception):
    pass


class Violation:
    def __init__(self, group, tags, where, msg, path=None, upto=None):
        self.group, self.tags, self.where, self.msg, self.path, self.upto = group, tags, where, msg, path, upto

    def key(self):
        return (self.group, self.where, self.msg)


class Ctx:
    def __init__(self, prog, cfg, deep=False):
        self.prog, self.cfg, self.deep = prog, cfg, deep
        self.cache = {}
        self.viol = {}
        self.obl = {}            # (group, rule) -> count
        self.fns = set()
        self.npaths = 0
        self.ncut = 0
        self.inconclusive = []
        self.order = None           # rule applied to every path (C25)
        self.group = '?'
        try:
            self.base = json.load(open(LAYOUT))
        except OSError:
            self.base = {}

    # ------------------------------------------------------------ names
    def off(self, struct, field, mod=None):
        return self.fieldinfo(struct, field, mod)[0] // 8

    def bits(self, struct, field, mod=None):
        i = self.fieldinfo(struct, field, mod)
        return i[0], i[1]

    def fieldinfo(self, struct, field, mod=None):
        f = self.prog.fields(struct, mod)
        if f is None:
            raise Missing('struct %s' % struct)
        if field in f:
            return f[field]
        b = self.base.get(struct, {}).get(field)
        if b:
            # renamed member: the member at the place the baseline had it, if its name is new
            known = self.base[struct]
            for n, i in f.items():
                if n not in known and i[0] == b[0] and i[1] == b[1]:
                    return i
        raise Missing('member %s of %s' % (field, struct))

    def sizeof(self, struct):
        for m in self.prog.mods:
            for nm in ('struct.' + struct, 'union.' + struct):
                if nm in m.types:
                    return m.size(m.types[nm]) if not isinstance(m.types[nm], str) else None
        return None

    def sizeof_union(self, name):
        for m in self.prog.mods:
            if 'union.' + name in m.types:
                return m.size(m.types['union.' + name])
        raise Missing('union ' + name)

    def hint(self, struct, field, mod=None):
        return ('struct.' + struct, self.off(struct, field, mod))

    # ------------------------------------------------------------ analysis
    def paths(self, fn, mod=None, k=1, mono=(), ranges=None, opaque=(), ends=('ret',), slots=(), stable=(), **kw):
        f = self.prog.find(fn, mod) if isinstance(fn, str) else fn
        if f is None:
            raise Missing('function %s' % fn)
        key = (f.name, f.mod.short, k, tuple(mono), tuple(sorted((ranges or {}).items())), tuple(sorted(opaque)), tuple(sorted(slots)), tuple(sorted(stable)),
               tuple(sorted((a, str(b)) for a, b in kw.items())))
        if key not in self.cache:
            pm = set()
            for s, fl in mono:
                pm.add(self.hint(s, fl, f.mod.short))
            rg = {self.hint(s, fl, f.mod.short): r for (s, fl), r in (ranges or {}).items()}
            args = kw.pop('args', None)
            if stable:
                sf = {self.hint(a, b, f.mod.short) for a, b in stable}
                kw['stable'] = lambda h: not sf.isdisjoint(h)
            eng = Engine(self.prog, f, Policy(k=k, mono=pm, slots={self.hint(a, b, f.mod.short) for a, b in slots}, ranges=rg, opaque=opaque, **kw), args)
            ps = eng.run()
            self.cache[key] = [Tr(self, p) for p in ps]
            sanity.check(self, self.cache[key])
            if self.order is not None:
                self.order(self, self.cache[key])
            self.npaths += len(ps)
            self.ncut += sum(1 for p in ps if p.end == 'cut')
            for n in eng.funcs_seen:
                self.fns.add((f.mod.short if self.prog.lookup(f.mod, n) is None else self.prog.lookup(f.mod, n).mod.short, n))
        ts = [t for t in self.cache[key] if t.end in ends]
        if not [t for t in self.cache[key] if t.end == 'ret'] and 'ret' in ends:
            raise AnalysisError('no path of %s was followed to its end' % f.name)
        return ts

    # ------------------------------------------------------------ results
    def count(self, rule, n=1, tags=('*',)):
        k = (self.group, rule, frozenset(tags))
        self.obl[k] = self.obl.get(k, 0) + n

    def bad(self, tags, where, msg, tr=None, ev=None):
        v = Violation(self.group, frozenset(tags), where, msg, tr, ev.idx if ev is not None else None)
        self.viol.setdefault(v.key(), v)

    def need(self, ok, tags, rule, msg, tr=None, ev=None, where=None):
        """one obligation; tags: property ids it belongs to"""
        self.count(rule, 1, tags)
        if not ok:
            w = where or (ev.where if ev is not None else tr.where if tr is not None else '?')
            self.bad(tags, w, '%s: %s' % (rule, msg), tr, ev)
        return bool(ok)


class Tr:
    """queries over one abstract path"""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.ev, self.end, self.ret, self.eng = p.ev, p.end, p.ret, p.eng
        self.args = p.args
        self.fn = p.eng.entry

    @property
    def where(self):
        f = self.fn
        return '%s (%s)' % (f.mod.src_rel if hasattr(f.mod, 'src_rel') else f.mod.short + '.c', f.name)

    def dump(self):
        return self.p.dump()

    def arg(self, name):
        """parameter by name or index"""
        if isinstance(name, int):
            return self.args[name]
        for (t, n), a in zip(self.fn.params, self.args):
            if n.lstrip('%') == name:
                return a
        raise Missing('parameter %s of %s' % (name, self.fn.name))

    def known(self, c):
        return self.eng.decide(self.p.st, c)

    def is0(self, v):
        d = self.known(eq(v, const(0, v.w)))
        if d is None and v.w == 8:          # a bool in memory
            d = self.known(VV.trunc(v, 1))
            d = None if d is None else not d
        return d

    def nz(self, v):
        return self.is0(v) is False

    def tested(self, v, zero, lo=0, hi=None):
        """a branch of the path tested v against 0 with this outcome"""
        z = eq(v, const(0, v.w))
        for e in self.ev[lo:hi]:
            if e.kind != 'assume':
                continue
            c, b = e.val, e.x
            while c.kind == 'not':
                c, b = c.a[0], not b
            if c is z and bool(b) == zero:
                return True
        return False

    def same(self, a, b):
        return a is b or (a.w == b.w and self.known(eq(a, b)) is True)

    def off(self, s, f):
        return self.ctx.off(s, f, self.fn.mod.short)

    def fa(self, base, s, f):
        return addc(base, self.off(s, f))

    def at(self, addr, s, f):
        """base of the struct if addr is (by its type) member f of s"""
        h = self.eng.hints.get(addr)
        if h:
            o = self.off(s, f)
            if ('struct.' + s, o) in h:
                return addc(addr, -o)
        return None

    def find(self, kind, addr=None, lo=0, hi=None, size=None, name=None, pred=None):
        r = []
        ks = (kind,) if isinstance(kind, str) else kind
        for e in self.ev[lo:hi]:
            if e.kind not in ks:
                continue
            if addr is not None and e.addr is not addr:
                continue
            if size is not None and e.size != size:
                continue
            if name is not None and not (e.kind == 'call' and e.x['name'] == name):
                continue
            if pred is not None and not pred(e):
                continue
            r.append(e)
        return r

    def field(self, kind, s, f, lo=0, hi=None):
        r = []
        ks = (kind,) if isinstance(kind, str) else kind
        for e in self.ev[lo:hi]:
            if e.kind in ks and e.addr is not None and self.at(e.addr, s, f) is not None:
                r.append(e)
        return r

    def writes(self, lo=0, hi=None):
        return [e for e in self.ev[lo:hi] if e.kind in ('store', 'rmw', 'memcpy', 'memset') or
                e.kind == 'cas' and e.x['ok']]

    def calls(self, name=None, lo=0, hi=None):
        return [e for e in self.ev[lo:hi] if e.kind == 'call' and (name is None or e.x['name'] == name)]

    def icalls(self, fnval):
        """calls through a function pointer value"""
        return [e for e in self.ev if e.kind == 'call' and e.x['fn'] is fnval]

    def last(self, addr, idx, size=8):
        """what this path itself last knew of addr before event idx (own accesses)"""
        return self.eng.lookup(self.p.st, addr, size, False, True, upto=idx)

    def last_store(self, addr, idx, size=None):
        for e in reversed(self.ev[:idx]):
            if e.kind == 'store' and e.addr is addr and (size is None or e.size == size):
                return e
        return None

    def stored(self, addr, idx, size=8):
        """value this path last stored to addr before idx, or None"""
        e = self.last_store(addr, idx)
        return e.val if e is not None else None

    def content(self, v, addr, lo, hi=None):
        """v is what addr contains at some point of [lo,hi): a load from there, or the own last store"""
        hi = len(self.ev) if hi is None else hi
        if v.kind == 'ld' and v.a[1] is addr and lo <= v.a[0] < hi:
            return True
        if v.kind == 'bits' and len(v.a) == 1 and v.a[0][1] == 0 and v.a[0][0].kind == 'ld':
            x = v.a[0][0]
            if x.a[1] is addr and lo <= x.a[0] < hi:
                return True
        for e in reversed(self.ev[:hi]):
            if e.kind == 'store' and e.addr is addr:
                return e.val is v
        return False

    def equals(self, v):
        """values known equal to v on this path"""
        r = [v]
        for c, b in self.p.st.facts.items():
            if b and c.kind == 'cmp' and c.a[0] == 'eq':
                if c.a[1] is v:
                    r.append(c.a[2])
                elif c.a[2] is v:
                    r.append(c.a[1])
        return r


def root(v):
    while v.kind == 'ld':
        b = base_off(v.a[1])[0]
        if b is None:
            return None
        v = b
    return v


GROUPS = {}


def group(name):
    def d(f):
        GROUPS[name] = f
        return f
    return d


def shapes(v, d=8):
    """access path of a value without the time indices of its loads"""
    if d < 0:
        return '..'
    k = v.kind
    if k == 'ld':
        return '[' + shapes(v.a[1], d - 1) + ']'
    if k == 'lin':
        c, ts = v.a
        return '(' + '+'.join(sorted('%d*%s' % (q, shapes(x, d - 1)) for x, q in ts)) + '+%d)' % c
    if k == 'op':
        return '%s(%s)' % (v.a[0], ','.join(shapes(x, d - 1) if isinstance(x, V) else str(x) for x in v.a[1:]))
    if k == 'bits':
        return '{' + ','.join(('%d:%d' % (s[0], s[2])) if s[1] is None else '%s[%d+%d]' % (shapes(s[0], d - 1), s[1], s[2])
                              for s in v.a) + '}'
    return show(v)


def tvec_words(ctx, n):
    """how many words the vectors of the library have for n threads (the rules of the toggle vectors check that they suffice)"""
    try:
        f = ctx.prog.find('TVEC_INIT')
        for t in ctx.paths('TVEC_INIT', f.mod.short, args=[sym('param', (0, 'tv1'), 64), const(n, 32)], k=n // 64 + 3, tvec_opaque=False):
            a = addc(t.args[0], ctx.off('ToggleVector', 'tvec_cells', f.mod.short))
            for e in reversed(t.ev):
                if e.kind == 'store' and e.addr is a and is_c(e.val) and n <= 64 * cval(e.val) <= n + 128:
                    return cval(e.val)
    except (Missing, AnalysisError, AttributeError):
        pass
    return n // 64 + 1


from . import sanity   # noqa: E402  (it uses this module)
