"""Parser for the textual LLVM IR (clang 18, -O0 -g) of the library's translation units."""
import re

_TOK = re.compile(r'-?\d+\.\d+(?:e[+-]\d+)?|"(?:[^"\\]|\\.)*"|[%@!][-a-zA-Z$._0-9]+|[%@]"[^"]*"|<\{|\}>|\.\.\.|[-a-zA-Z$._0-9]+|[()\[\]{}<>,=*:]|\S')


def tokens(s):
    return _TOK.findall(s)


class TInt:
    __slots__ = ('w',)
    kind = 'int'

    def __init__(self, w):
        self.w = w

    def __repr__(self):
        return 'i%d' % self.w


class TPtr:
    kind = 'ptr'

    def __repr__(self):
        return 'ptr'


class TVoid:
    kind = 'void'


class TFloat:
    kind = 'float'

    def __init__(self, w):
        self.w = w


class TArr:
    kind = 'arr'

    def __init__(self, n, e):
        self.n, self.e = n, e

    def __repr__(self):
        return '[%d x %r]' % (self.n, self.e)


class TStruct:
    kind = 'struct'

    def __init__(self, elems, packed=False, name=None):
        self.elems, self.packed, self.name = elems, packed, name

    def __repr__(self):
        return self.name or '{..}'


class TNamed:
    kind = 'named'

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class TOther:
    kind = 'other'


PTR, VOID = TPtr(), TVoid()
_ints = {}


def tint(w):
    if w not in _ints:
        _ints[w] = TInt(w)
    return _ints[w]


class P:
    """token cursor"""

    def __init__(self, toks, i=0):
        self.t, self.i = toks, i

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise ValueError('expected %r at %r' % (x, self.t[self.i:self.i + 8]))

    def type(self):
        x = self.next()
        if x == 'ptr':
            r = PTR
        elif x == 'void':
            r = VOID
        elif re.fullmatch(r'i\d+', x):
            r = tint(int(x[1:]))
        elif x in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
            r = TFloat({'double': 64, 'float': 32, 'half': 16}.get(x, 128))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = TArr(n, e)
        elif x == '{' or x == '<{':
            close = '}' if x == '{' else '}>'
            el = []
            if not self.eat(close):
                while True:
                    el.append(self.type())
                    if self.eat(close):
                        break
                    self.expect(',')
            r = TStruct(el, x == '<{')
        elif x == '<':
            self.next(); self.expect('x'); self.type(); self.expect('>')
            r = TOther()
        elif x[0] == '%':
            r = TNamed(x[1:].strip('"'))
        elif x in ('metadata', 'label', 'token', 'opaque'):
            r = TOther()
        else:
            raise ValueError('type? %r in %r' % (x, self.t[max(0, self.i - 5):self.i + 8]))
        return r


ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'immarg',
         'returned', 'inreg', 'dso_local', 'nofree', 'readnone', 'allocptr', 'allocsize', 'inrange', 'dead_on_unwind', 'writable', 'returned', 'noreturn', 'swiftself', 'range'}


def skip_attrs(p):
    while True:
        x = p.peek()
        if x in ATTRS:
            p.next()
        elif x == 'align':
            p.next(); p.next()
        elif x in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'byref'):
            p.next(); p.expect('(')
            d = 1
            while d:
                y = p.next()
                d += (y == '(') - (y == ')')
        else:
            return


# operands: ('r', name) register, ('c', int), ('g', name), ('ce', ...) const expr, ('null',), ('undef',), ('zero',)
def operand(p, ty):
    x = p.next()
    if x[0] == '%':
        return ('r', x[1:].strip('"'))
    if x[0] == '@':
        return ('g', x[1:].strip('"'))
    if re.fullmatch(r'-?\d+', x):
        return ('c', int(x))
    if x == 'true':
        return ('c', 1)
    if x == 'false':
        return ('c', 0)
    if x == 'null':
        return ('c', 0)
    if x in ('undef', 'poison'):
        return ('undef',)
    if x == 'zeroinitializer':
        return ('zero',)
    if x == 'c':
        return ('str', p.next())
    if re.fullmatch(r'-?\d+\.\d+(e[+-]\d+)?|0x[0-9A-Za-z]+', x):
        return ('f', x)
    if x == 'getelementptr':
        inb = p.eat('inbounds')
        p.expect('(')
        st = p.type()
        p.expect(',')
        ops = []
        while True:
            skip_attrs(p)
            t = p.type()
            skip_attrs(p)
            ops.append((t, operand(p, t)))
            if p.eat(')'):
                break
            p.expect(',')
        return ('cgep', st, ops)
    if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        p.expect('(')
        t = p.type()
        o = operand(p, t)
        p.expect('to')
        t2 = p.type()
        p.expect(')')
        return ('ccast', x, t, o, t2)
    if x in ('{', '[', '<{'):
        close = {'{': '}', '[': ']', '<{': '}>'}[x]
        els = []
        if not p.eat(close):
            while True:
                t = p.type()
                els.append((t, operand(p, t)))
                if p.eat(close):
                    break
                p.expect(',')
        return ('agg', els)
    if x in ('sub', 'add', 'mul', 'shl', 'and', 'or', 'xor'):
        while p.peek() in ('nsw', 'nuw'):
            p.next()
        p.expect('(')
        t = p.type(); a = operand(p, t); p.expect(','); t2 = p.type(); b = operand(p, t2); p.expect(')')
        return ('cbin', x, t, a, b)
    raise ValueError('operand? %r in %r' % (x, p.t[max(0, p.i - 6):p.i + 6]))


class Inst:
    __slots__ = ('op', 'dst', 'a', 'dbg', 'text', 'vol', 'order')

    def __init__(self, op, dst, a, dbg, text):
        self.op, self.dst, self.a, self.dbg, self.text = op, dst, a, dbg, text
        self.vol = False
        self.order = None


class Func:
    def __init__(self, name, rettype, params, internal, mod):
        self.name, self.ret, self.params, self.internal, self.mod = name, rettype, params, internal, mod
        self.blocks = {}     # label -> [Inst]
        self.order = []
        self.dbg = None
        self.varnames = {}   # alloca reg -> source variable name
        self._loops = None
        self._once = None
        self.attrs = ''

    @property
    def entry(self):
        return self.order[0]

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [l for _, l in t.a[3]]
        return []

    def once(self):
        """locals that are written by one store only and whose address is not used otherwise: register -> stored operand"""
        if self._once is None:
            al, st, bad = {i.dst for b in self.order for i in self.blocks[b] if i.op == 'alloca'}, {}, set()

            def regs(x):
                if isinstance(x, (tuple, list)):
                    if len(x) == 2 and x[0] == 'r' and isinstance(x[1], str):
                        yield x[1]
                    else:
                        for y in x:
                            yield from regs(y)
            for b in self.order:
                for i in self.blocks[b]:
                    if i.op == 'alloca':
                        continue
                    if i.op == 'store' and i.a[2][0] == 'r' and i.a[2][1] in al:
                        if i.a[2][1] in st:
                            bad.add(i.a[2][1])
                        st[i.a[2][1]] = i.a[1]
                        bad.update(r for r in regs(i.a[1]) if r in al)
                    elif i.op != 'load':
                        bad.update(r for x in i.a for r in regs(x) if r in al)
            self._once = {r: v for r, v in st.items() if r not in bad}
        return self._once

    def source(self, o):
        """the operand that a local was set to"""
        d = None
        for _ in range(8):
            if o[0] != 'r':
                break
            if d is None:
                d = {i.dst: i for b in self.order for i in self.blocks[b] if i.dst is not None}
            i = d.get(o[1])
            if i is None or i.op != 'load' or i.a[1][0] != 'r' or i.a[1][1] not in self.once():
                break
            o = self.once()[i.a[1][1]]
        return o

    def loops(self):
        """natural loops: header -> set of blocks"""
        if self._loops is None:
            # dominators by iteration (small graphs)
            order, seen, stack = [], set(), [(self.entry, iter(self.succs(self.entry)))]
            seen.add(self.entry)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            rpo = order[::-1]
            idx = {b: i for i, b in enumerate(rpo)}
            preds = {b: [] for b in rpo}
            for b in rpo:
                for s in self.succs(b):
                    preds[s].append(b)
            dom = {b: None for b in rpo}
            dom[self.entry] = {self.entry}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    ps = [dom[q] for q in preds[b] if dom[q] is not None]
                    nd = set.intersection(*ps) | {b} if ps else {b}
                    if nd != dom[b]:
                        dom[b] = nd
                        ch = True
            loops = {}
            for b in rpo:
                for s in self.succs(b):
                    if s in dom[b]:
                        body = loops.setdefault(s, {s})
                        work = [b]
                        while work:
                            x = work.pop()
                            if x not in body:
                                body.add(x)
                                work.extend(preds[x])
            self._loops = loops
        return self._loops


class Module:
    def __init__(self, path, src):
        self.path, self.src = path, src
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}   # name -> dict(type, init, const, tls, internal, align)
        self.md = {}
        self._loc = {}

    # ---------------------------------------------------------------- parse
    def parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        cur = None
        while i < n:
            l = lines[i]
            i += 1
            if not l:
                continue
            c = l[0]
            if c == ';':
                continue
            if c == '%' and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                name = name[1:].strip('"')
                if rest.strip() == 'opaque':
                    self.types[name] = TStruct([], False, name)
                else:
                    t = P(tokens(rest)).type()
                    t.name = name
                    self.types[name] = t
            elif c == '@':
                self._global(l)
            elif l.startswith('define '):
                f = self._fhead(l)
                self.funcs[f.name] = f
                label = None
                while True:
                    l = lines[i]
                    i += 1
                    if l == '}':
                        break
                    if not l:
                        continue
                    if l[0] != ' ':
                        m = re.match(r'("?)([-a-zA-Z$._0-9]+)\1:', l)
                        if m:
                            label = m.group(2)
                            f.blocks[label] = []
                            f.order.append(label)
                            continue
                    if label is None:
                        label = 'entry'
                        f.blocks[label] = []
                        f.order.append(label)
                    s = l.strip()
                    if s.startswith('switch '):
                        while ']' not in s:
                            s += ' ' + lines[i].strip()
                            i += 1
                    ins = self._inst(s, f)
                    if ins is not None:
                        f.blocks[label].append(ins)
            elif l.startswith('declare '):
                m = re.search(r'@("?)([-a-zA-Z$._0-9]+)\1\(', l)
                if m:
                    self.decls[m.group(2)] = l
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)', l)
                if m:
                    self.md[m.group(1)] = m.group(2)

    def _global(self, l):
        m = re.match(r'@("?)([-a-zA-Z$._0-9]+)\1 = (.*)', l)
        name, rest = m.group(2), m.group(3)
        g = dict(name=name, tls='thread_local' in rest.split('global')[0].split('constant')[0],
                 internal=bool(re.match(r'(internal|private)', rest)),
                 external=bool(re.match(r'external', rest)), mod=self)
        mm = re.search(r'\b(global|constant)\b (.*)', rest)
        if not mm:
            return
        g['const'] = mm.group(1) == 'constant'
        p = P(tokens(mm.group(2)))
        g['type'] = p.type()
        g['init'] = None
        if not g['external'] and p.peek() is not None:
            try:
                g['init'] = operand(p, g['type'])
            except ValueError:
                g['init'] = ('undef',)
        self.globals[name] = g

    def _fhead(self, l):
        m = re.search(r'@("?)([-a-zA-Z$._0-9]+)\1\(', l)
        name = m.group(2)
        pre = l[len('define '):m.start()]
        internal = bool(re.search(r'\b(internal|private)\b', pre))
        p = P(tokens(pre))
        while p.peek() in ('dso_local', 'internal', 'private', 'linkonce_odr', 'weak', 'available_externally',
                           'hidden', 'local_unnamed_addr', 'fastcc'):
            p.next()
        skip_attrs(p)
        ret = p.type()
        p = P(tokens(l[m.end():]))
        params = []
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.expect(')')
                    break
                t = p.type()
                skip_attrs(p)
                params.append((t, p.next()[1:].strip('"')))
                if p.eat(')'):
                    break
                p.expect(',')
        f = Func(name, ret, params, internal, self)
        m = re.search(r'!dbg !(\d+)', l)
        f.dbg = m.group(1) if m else None
        return f

    def _inst(self, s, f):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        text = s
        if m:
            dbg = m.group(1)
            s = s[:m.start()]
        dst = None
        m = re.match(r'%("?)([-a-zA-Z$._0-9]+)\1 = (.*)', s)
        if m:
            dst, s = m.group(2), m.group(3)
        if '@llvm.dbg.' in s:
            m = re.search(r'declare\(metadata ptr %"?([-a-zA-Z$._0-9]+)"?, metadata !(\d+)', s)
            if m:
                f.varnames[m.group(1)] = m.group(2)
            return None
        op = s.split(' ', 1)[0]
        ins = Inst(op, dst, None, dbg, text)
        p = P(tokens(s))
        p.next()
        if op in ('tail', 'notail', 'musttail'):
            op = ins.op = p.next()
        if op == 'alloca':
            t = p.type()
            ins.a = (t,)
            if p.eat(',') and p.peek() != 'align':
                ct = p.type()
                ins.a = (t, operand(p, ct))
        elif op == 'load':
            if p.eat('atomic'):
                ins.order = 'atomic'
            ins.vol = p.eat('volatile')
            t = p.type()
            p.expect(',')
            p.type()
            ins.a = (t, operand(p, PTR))
            if ins.order:
                ins.order = p.peek()
        elif op == 'store':
            if p.eat('atomic'):
                ins.order = 'atomic'
            ins.vol = p.eat('volatile')
            t = p.type()
            v = operand(p, t)
            p.expect(',')
            p.type()
            ins.a = (t, v, operand(p, PTR))
            if ins.order:
                ins.order = p.peek()
        elif op == 'getelementptr':
            inb = p.eat('inbounds')
            st = p.type()
            ops = []
            while p.eat(','):
                t = p.type()
                ops.append((t, operand(p, t)))
            ins.a = (st, ops)
        elif op in ('icmp', 'fcmp'):
            pred = p.next()
            t = p.type()
            a = operand(p, t)
            p.expect(',')
            ins.a = (pred, t, a, operand(p, t))
        elif op == 'br':
            if p.eat('label'):
                ins.a = (p.next()[1:].strip('"'),)
            else:
                t = p.type()
                c = operand(p, t)
                p.expect(','); p.expect('label')
                a = p.next()[1:].strip('"')
                p.expect(','); p.expect('label')
                ins.a = (c, a, p.next()[1:].strip('"'))
        elif op == 'switch':
            t = p.type()
            v = operand(p, t)
            p.expect(','); p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.eat(']'):
                ct = p.type()
                cv = operand(p, ct)
                p.expect(','); p.expect('label')
                cases.append((cv[1], p.next()[1:].strip('"')))
            ins.a = (t, v, d, cases)
        elif op == 'ret':
            t = p.type()
            ins.a = (t, None if t.kind == 'void' else operand(p, t))
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc',
                               'afn', 'disjoint'):
                fl.add(p.next())
            t = p.type()
            a = operand(p, t)
            p.expect(',')
            ins.a = (t, a, operand(p, t), fl)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi',
                    'fptoui', 'fpext', 'fptrunc'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            a = operand(p, t)
            p.expect('to')
            ins.a = (t, a, p.type())
        elif op == 'fneg':
            t = p.type()
            ins.a = (t, operand(p, t))
        elif op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = operand(p, t)
                p.expect(',')
                inc.append((p.next()[1:].strip('"'), v))
                p.expect(']')
                if not p.eat(','):
                    break
            ins.a = (t, inc)
        elif op == 'select':
            t = p.type(); c = operand(p, t); p.expect(',')
            t1 = p.type(); a = operand(p, t1); p.expect(',')
            t2 = p.type(); b = operand(p, t2)
            ins.a = (t1, c, a, b)
        elif op == 'cmpxchg':
            weak = p.eat('weak')
            ins.vol = p.eat('volatile')
            p.type(); ad = operand(p, PTR); p.expect(',')
            t = p.type(); e = operand(p, t); p.expect(',')
            p.type(); nv = operand(p, t)
            ins.a = (t, ad, e, nv)
            ins.order = p.next() + (' weak' if weak else '')
        elif op == 'atomicrmw':
            ins.vol = p.eat('volatile')
            k = p.next()
            p.type(); ad = operand(p, PTR); p.expect(',')
            t = p.type()
            ins.a = (t, k, ad, operand(p, t))
            ins.order = p.next()
        elif op == 'fence':
            ins.a = ()
            ins.order = p.next() if p.peek() != 'syncscope' else 'syncscope'
        elif op in ('extractvalue',):
            t = p.type()
            a = operand(p, t)
            ix = []
            while p.eat(','):
                ix.append(int(p.next()))
            ins.a = (t, a, ix)
        elif op == 'insertvalue':
            t = p.type(); a = operand(p, t); p.expect(',')
            t2 = p.type(); b = operand(p, t2)
            ix = []
            while p.eat(','):
                ix.append(int(p.next()))
            ins.a = (t, a, t2, b, ix)
        elif op == 'call':
            while p.peek() in ('fastcc', 'ccc') or p.peek() in ATTRS:
                p.next()
            skip_attrs(p)
            rt = p.type()
            if p.peek() == '(':        # function type of a varargs call
                d = 0
                while True:
                    x = p.next()
                    d += (x == '(') - (x == ')')
                    if d == 0:
                        break
            if p.eat('asm'):
                fl = []
                while p.peek() in ('sideeffect', 'alignstack', 'inteldialect'):
                    fl.append(p.next())
                tmpl = p.next().strip('"'); p.expect(',')
                cons = p.next().strip('"')
                callee = ('asm', tmpl, cons, fl)
            else:
                callee = operand(p, PTR)
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    t = p.type()
                    if t.kind == 'other':      # metadata
                        return None
                    skip_attrs(p)
                    args.append((t, operand(p, t)))
                    if p.eat(')'):
                        break
                    p.expect(',')
            ins.a = (rt, callee, args)
        elif op == 'unreachable':
            ins.a = ()
        elif op == 'freeze':
            t = p.type()
            ins.a = (t, operand(p, t))
        elif op == 'va_arg':
            ins.a = ()
        else:
            raise ValueError('inst? ' + text)
        return ins

    # ---------------------------------------------------------------- layout
    def resolve(self, t):
        while t.kind == 'named':
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t.kind
        if k == 'int':
            w = t.w
            return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
        if k == 'ptr':
            return 8
        if k == 'float':
            return max(2, t.w // 8)
        if k == 'arr':
            return self.align(t.e)
        if k == 'struct':
            if t.packed or not t.elems:
                return 1
            return max(self.align(e) for e in t.elems)
        return 8

    def size(self, t):
        t = self.resolve(t)
        k = t.kind
        if k == 'int':
            w = t.w
            b = (w + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'float':
            return t.w // 8
        if k == 'arr':
            return t.n * self.size(t.e)
        if k == 'struct':
            return self.offsets(t)[-1]
        return 8

    def offsets(self, t):
        """offsets of the elements, last item: size"""
        o = getattr(t, '_offs', None)
        if o is not None:
            return o
        off, res = 0, []
        for e in t.elems:
            if not t.packed:
                a = self.align(e)
                off = (off + a - 1) // a * a
            res.append(off)
            off += self.size(e)
        a = self.align(t)
        off = (off + a - 1) // a * a
        res.append(off)
        t._offs = res
        return res

    # ---------------------------------------------------------------- debug info
    def loc(self, dbg):
        """(file, line) of a !dbg reference"""
        if dbg is None:
            return ('?', 0)
        r = self._loc.get(dbg)
        if r is None:
            s = self.md.get(dbg, '')
            m = re.search(r'line: (\d+)', s)
            line = int(m.group(1)) if m else 0
            m = re.search(r'scope: !(\d+)', s)
            r = (self._file(m.group(1)) if m else '?', line)
            self._loc[dbg] = r
        return r

    def _file(self, sc):
        for _ in range(40):
            s = self.md.get(sc, '')
            if 'DIFile(' in s:
                m = re.search(r'filename: "([^"]*)"', s)
                f = m.group(1)
                i = f.find('libconcurrent/')
                return f[i:] if i >= 0 else f
            m = re.search(r'file: !(\d+)', s) or re.search(r'scope: !(\d+)', s)
            if not m:
                return '?'
            sc = m.group(1)
        return '?'

    def varname(self, mdno):
        m = re.search(r'name: "([^"]*)"', self.md.get(mdno, ''))
        return m.group(1) if m else None

    def fields(self):
        """struct/union name -> {member: (bit offset, bit size)} including anonymous nesting by dotted names"""
        if hasattr(self, '_fields'):
            return self._fields
        md = self.md
        names = {}
        for k, s in md.items():
            if 'DICompositeType(' in s and ('DW_TAG_structure_type' in s or 'DW_TAG_union_type' in s):
                m = re.search(r'name: "([^"]*)"', s)
                if m:
                    names.setdefault(m.group(1), k)
            elif 'DW_TAG_typedef' in s:
                m = re.search(r'name: "([^"]*)"', s)
                b = re.search(r'baseType: !(\d+)', s)
                if m and b and 'DICompositeType(' in md.get(b.group(1), ''):
                    names.setdefault(m.group(1), b.group(1))
        res = {}
        for nme, k in names.items():
            res[nme] = self._members(k)
        self._fields = res
        return res

    def _strip(self, k):
        while True:
            s = self.md.get(k, '')
            if re.search(r'DW_TAG_(typedef|volatile_type|const_type)', s):
                b = re.search(r'baseType: !(\d+)', s)
                if not b:
                    return k
                k = b.group(1)
            else:
                return k

    def _members(self, k, base=0, depth=0):
        md = self.md
        out = {}
        m = re.search(r'elements: !(\d+)', md[k])
        if not m or depth > 4:
            return out
        for e in re.findall(r'!(\d+)', md[m.group(1)].split('{', 1)[1]):
            s = md[e]
            if 'DW_TAG_member' not in s:
                continue
            nm = re.search(r'name: "([^"]*)"', s)
            off = re.search(r'\boffset: (\d+)', s)
            sz = re.search(r'\bsize: (\d+)', s)
            off = base + (int(off.group(1)) if off else 0)
            szv = int(sz.group(1)) if sz else 0
            b = re.search(r'baseType: !(\d+)', s)
            vol = False
            if b:
                kk = b.group(1)
                while True:
                    ss = md.get(kk, '')
                    if 'DW_TAG_volatile_type' in ss:
                        vol = True
                    if re.search(r'DW_TAG_(typedef|volatile_type|const_type)', ss):
                        bb = re.search(r'baseType: !(\d+)', ss)
                        if not bb:
                            break
                        kk = bb.group(1)
                    else:
                        break
                sub = kk
            else:
                sub = None
            if nm:
                out[nm.group(1)] = (off, szv, vol)
            if sub and 'DICompositeType(' in md.get(sub, '') and \
                    ('DW_TAG_structure_type' in md[sub] or 'DW_TAG_union_type' in md[sub]):
                for n2, v2 in self._members(sub, off, depth + 1).items():
                    out[(nm.group(1) + '.' if nm else '') + n2] = v2
        return out
