"""Compiles /repo's current sources to LLVM IR with clang's front end (nothing is linked or run) and links the
symbol tables of the parsed modules."""
import glob, os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from .ir import Module

REPO = os.environ.get('SA_REPO', '/repo')
CLANG = '/usr/bin/clang-18' if os.path.exists('/usr/bin/clang-18') else 'clang'
BASE = ['-std=gnu89', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-S', '-emit-llvm',
        '-w', '-Wno-return-type', '-Wno-int-conversion', '-Wno-incompatible-function-pointer-types', '-Wno-implicit-function-declaration',
        '-Wno-implicit-int', '-D_GNU_SOURCE']


class BuildError(Exception):
    pass


class Program:
    def __init__(self, mods, config):
        self.mods = mods
        self.config = config
        self.sym = {}
        self.bysrc = {}
        for m in mods:
            self.bysrc[m.short] = m
            for n, f in m.funcs.items():
                if not f.internal:
                    self.sym[n] = f
        self._fields = None
        self._written = None
        self._stored = None

    def func(self, name, mod=None):
        f = self.find(name, mod)
        if f is None:
            raise KeyError('function %s not found' % name)
        return f

    def find(self, name, mod=None):
        if mod:
            m = self.bysrc.get(mod)
            if m and name in m.funcs:
                return m.funcs[name]
        if name in self.sym:
            return self.sym[name]
        for m in self.mods:
            if name in m.funcs:
                return m.funcs[name]
        return None

    def lookup(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        return self.sym.get(name)

    # ------------------------------------------------------------ fields that do not change after initialisation
    def config_fields(self):
        """{(struct type, byte offset)} of the members that are written, and only by init functions (functions with Init in
        their name and helpers that only those call); a member whose address goes anywhere but into a load, store or address
        computation counts as written there"""
        if self._written is not None:
            return self._written
        callers = {}
        writes = {}
        for m in self.mods:
            for f in m.funcs.values():
                der = {}
                for b in f.order:
                    for i in f.blocks[b]:
                        if i.op == 'getelementptr':
                            src = i.a[1][0][1]
                            r = m.resolve(i.a[0])
                            ix = [o for _, o in i.a[1][1:]]
                            if r.kind == 'struct' and r.name and len(ix) >= 2 and ix[1][0] == 'c':
                                der[i.dst] = {(r.name, m.offsets(r)[ix[1][1]])}
                            elif src[0] == 'r' and src[1] in der:
                                der[i.dst] = der[src[1]]
                            continue
                        used = []
                        whole = False
                        if i.op == 'load':
                            continue
                        stack = [i.a]
                        while stack:
                            x = stack.pop()
                            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'r' and isinstance(x[1], str):
                                if x[1] in der:
                                    used.append(der[x[1]])
                            elif isinstance(x, (tuple, list)):
                                stack.extend(x)
                        if i.op == 'call' and i.a[1] and i.a[1][0] == 'g':
                            g = self.lookup(m, i.a[1][1])
                            if g is not None:
                                callers.setdefault(id(g), set()).add(id(f))
                            whole = i.a[1][1].startswith('llvm.mem')
                        for u in used:
                            for h in u:
                                writes.setdefault(h, set()).add(id(f))
                                if whole:
                                    writes.setdefault((h[0], None), set()).add(id(f))
        init = set()
        funcs = {id(f): f for m in self.mods for f in m.funcs.values()}
        for k, f in funcs.items():
            if 'init' in f.name.lower():
                init.add(k)
        grow = True
        while grow:
            grow = False
            for k, f in funcs.items():
                if k not in init and f.internal and callers.get(k) and callers[k] <= init:
                    init.add(k)
                    grow = True
        dead = {h[0] for h, w in writes.items() if h[1] is None and not w <= init}
        self._written = frozenset(h for h, w in writes.items() if h[1] is not None and w <= init and h[0] not in dead)
        return self._written

    def stored_fields(self):
        """{(struct type, byte offset)} of the members that a store instruction outside of the init functions writes"""
        if self._stored is None:
            self._stored = set()
            for m in self.mods:
                for f in m.funcs.values():
                    if 'init' in f.name.lower():
                        continue
                    der = {}
                    for b in f.order:
                        for i in f.blocks[b]:
                            if i.op == 'getelementptr':
                                r = m.resolve(i.a[0])
                                ix = [o for _, o in i.a[1][1:]]
                                if r.kind == 'struct' and r.name and len(ix) >= 2 and ix[1][0] == 'c':
                                    der[i.dst] = (r.name, m.offsets(r)[ix[1][1]])
                            elif i.op == 'store' and i.a[2][0] == 'r' and i.a[2][1] in der:
                                self._stored.add(der[i.a[2][1]])
        return self._stored

    # ------------------------------------------------------------ globals
    def global_(self, gname):
        """gname: 'mod:name' or 'name'"""
        if ':' in gname:
            ms, n = gname.split(':', 1)
            m = self.bysrc.get(ms)
            return m.globals.get(n) if m else None
        for m in self.mods:
            g = m.globals.get(gname)
            if g and not g['external']:
                return g
        return None

    def const_global(self, gname, off, size):
        g = self.global_(gname)
        if not g or g['init'] is None:
            return None
        if not g['const']:
            return None
        return self._const_at(g['mod'], g['type'], g['init'], off, size)

    def _const_at(self, m, t, init, off, size):
        r = m.resolve(t)
        if init[0] == 'zero':
            return 0
        if init[0] == 'c' and off == 0 and r.kind == 'int' and m.size(r) == size:
            return init[1]
        if init[0] == 'str':
            return None
        if init[0] == 'agg':
            if r.kind == 'arr':
                es = m.size(r.e)
                i = off // es
                if i < len(init[1]):
                    return self._const_at(m, init[1][i][0], init[1][i][1], off - i * es, size)
            elif r.kind == 'struct':
                offs = m.offsets(r)
                for i, (tt, v) in enumerate(init[1]):
                    if offs[i] <= off < offs[i] + m.size(tt):
                        return self._const_at(m, tt, v, off - offs[i], size)
        return None

    # ------------------------------------------------------------ structs
    def fields(self, struct, mod=None):
        """{member: (bit offset, bit size, volatile)}; mod: short module name for names defined in several units"""
        if mod:
            m = self.bysrc.get(mod)
            if m:
                r = m.fields().get(struct)
                if r:
                    return r
        for m in self.mods:
            r = m.fields().get(struct)
            if r:
                return r
        return None


def compile_program(flags=(), undef=(), subset=None, repo=None, extra_src=()):
    repo = repo or REPO
    lib = os.path.join(repo, 'libconcurrent')
    srcs = sorted(glob.glob(lib + '/primitives/*.c') + glob.glob(lib + '/concurrent/*.c'))
    if subset:
        srcs = [s for s in srcs if os.path.basename(s)[:-2] in subset]
    tmp = tempfile.mkdtemp(prefix='sa-ir-')
    try:
        inc = []
        if undef:
            ov = os.path.join(tmp, 'ov')
            os.mkdir(ov)
            with open(ov + '/config.h', 'w') as f:
                f.write('#include "%s/config.h"\n' % lib + ''.join('#undef %s\n' % u for u in undef))
            inc = ['-I' + ov]
        inc += ['-I' + lib + '/includes', '-I' + lib]
        # the inline functions of the toggle vectors, also those that no source uses
        hdr = lib + '/includes/tvec.h'
        if os.path.exists(hdr) and not subset:
            names = sorted(set(re.findall(r'^static\s+inline\s+[\w\s*]*?\b(\w+)\s*\(', open(hdr).read(), re.M)))
            if names:
                with open(tmp + '/tvec_unit.c', 'w') as f:
                    f.write('#include <stdlib.h>\n#include <stdbool.h>\n#include <stdint.h>\n#include <tvec.h>\n'
                            'void *tvec_unit[] = {%s};\n' % ', '.join('(void *)' + n for n in names))
                srcs.append(tmp + '/tvec_unit.c')

        def one(src):
            short = os.path.basename(src)[:-2]
            out = os.path.join(tmp, short + '.ll')
            p = subprocess.run([CLANG] + BASE + list(flags) + inc + [src, '-o', out], capture_output=True, text=True,
                               timeout=300)
            if p.returncode != 0:
                raise BuildError('%s does not compile:\n%s' % (src, p.stderr[-2000:]))
            m = Module(out, src)
            m.short = short
            return m, open(out).read()

        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, srcs))
        mods = []
        for m, text in res:
            m.parse(text)
            mods.append(m)
        return Program(mods, (tuple(flags), tuple(undef)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
