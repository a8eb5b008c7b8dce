"""Command line of the benchmarks: help text, option tables and what each option stores."""
import re
from .base import *
from .combining import const_is
from .prims import cstring, gdef

CONV = {'atoi': 0, 'atol': 0, 'atoll': 0, 'strtol': 0, 'strtoul': 0, 'strtoll': 0, 'strtoull': 0}
CONV.update({'__isoc23_' + x: 0 for x in list(CONV) if x.startswith('strto')})     # the names of newer C libraries
SETS = {'threads': 'nthreads', 'fibers': 'fibers_per_thread', 'numa_nodes': 'numa_nodes', 'runs': 'runs', 'max_work': 'max_work',
        'backoff': 'backoff_high', 'backoff_high': 'backoff_high', 'backoff_low': 'backoff_low', 'help': None}
B = 'SynchBenchArgs'


def narrow(v):
    """the value before truncation or extension"""
    while True:
        if v.kind == 'bits' and v.a[0][1] == 0:
            v = v.a[0][0]
        elif v.kind == 'op' and v.a[0] in ('sext', 'trunc', 'zext'):
            v = v.a[1]
        else:
            return v


@group('cli')
def cli(ctx):
    T = {'C22'}
    f = ctx.prog.find('synchParseArguments', 'bench_args')
    if f is None:
        raise Missing('synchParseArguments')
    # ---------------------------------------------------------------- the documentation
    doc = {}
    default = {}
    for m in ctx.prog.mods:
        if m.short != 'bench_args':
            continue
        for n, g in m.globals.items():
            s = cstring(ctx, sym('glob', 'bench_args:' + n, 64))
            if not s or 'Usage' not in s:
                continue
            for ln in s.split('\n'):
                x = re.match(r'\s*-(\w)\W(.*)', ln)
                if x:
                    names = re.findall(r'--(\w+)', x.group(2))
                    doc[x.group(1)] = names
                    d = re.search(r'default is (\d+)', ln)
                    if d:
                        default[x.group(1)] = int(d.group(1))
            mod = m
    if len(doc) < 2:
        raise Missing('help text of the benchmarks')
    where = 'bench_args.c (synchParseArguments)'
    # ---------------------------------------------------------------- the tables
    kw = dict(seq=True, delay=False, k=2 if ctx.deep else 1, pure=('getopt_long', 'getopt') + tuple(CONV), max_paths=200000)
    ts = ctx.paths('synchParseArguments', 'bench_args', ends=('ret', 'exit', 'cut'), **kw)
    R = 'cli.tables'
    short, longs, done = {}, {}, set()
    for t in ts:
        for e in t.calls():
            if e.x['name'] not in ('getopt_long', 'getopt') or e.where in done:
                continue
            done.add(e.where)
            s = cstring(ctx, e.x['args'][2])
            if s is None:
                raise Missing('option string')
            for x in re.finditer(r'(\w)(:*)', s):
                short[x.group(1)] = len(x.group(2))
            if e.x['name'] == 'getopt_long':
                g = gdef(ctx, e.x['args'][3])
                if g is None or g['init'][0] != 'agg':
                    raise Missing('table of long options')
                for ty, row in g['init'][1]:
                    if row[0] != 'agg':
                        longs['\0'] = None
                        continue
                    cells = [c[1] for c in row[1]]
                    if cells[0][0] != 'g':
                        longs['\0'] = None
                        continue
                    nm = cstring(ctx, sym('glob', 'bench_args:' + cells[0][1], 64))
                    num = lambda c: c[1] if c[0] == 'c' else 0 if c[0] in ('zero', 'null') else None
                    longs[nm] = (num(cells[1]), num(cells[2]), num(cells[3]))
    if not done:
        raise Missing('call of getopt')
    if longs:
        ctx.need('\0' in longs, T, R, 'the table of long options has no end', where=where)
        longs.pop('\0', None)
    for c, names in doc.items():
        arg = 0 if 'help' in names else 1
        ctx.need(short.get(c) == arg, T, R, 'the documented option -%s is not accepted%s' % (c, ' with its value' if arg else ''), where=where)
        for n in names:
            l = longs.get(n)
            ctx.need(l is not None, T, R, 'the documented option --%s is not accepted' % n, where=where)
            if l is not None:
                ctx.need(l[0] == arg, T, R, 'the option --%s does not take %s' % (n, 'a value' if arg else 'no value'), where=where)
                ctx.need(l[1] == 0 and l[2] is not None and l[2] == ord(c), T, R, 'the option --%s is not the same as -%s' % (n, c), where=where)
    field = {}
    for c, names in doc.items():
        for n in names:
            if n in SETS and SETS[n]:
                field[ord(c)] = SETS[n]
    offs = {n: ctx.off(B, n, 'bench_args') for n in ('runs', 'total_runs', 'nthreads', 'fibers_per_thread', 'max_work', 'numa_nodes',
                                                     'backoff_low', 'backoff_high')}
    size = {n: ctx.fieldinfo(B, n, 'bench_args')[1] // 8 for n in offs}
    if any(t.end == 'ret' for t in ts):
        pass
    # ---------------------------------------------------------------- what the options store
    R = 'cli.options'
    base = None
    for t in ts:
        at = {n: addc(t.args[0], o) for n, o in offs.items()}
        inv = {a: n for n, a in at.items()}
        gets = [e for e in t.calls() if e.x['name'] in ('getopt_long', 'getopt')]
        if not gets:
            ctx.need(t.end != 'ret', T, R, 'the command line is not read', t, t.ev[-1])
            continue
        first = gets[0].idx
        for e in t.ev[:first]:
            if e.kind in ('memset', 'memcpy') or e.kind == 'store' and e.addr not in inv and base_off(e.addr)[0] is t.args[0]:
                raise Missing('form of the defaults')
        dfl = {n: t.stored(a, first) for n, a in at.items()}
        for n in set(field.values()):
            ctx.need(dfl[n] is not None, T, R, 'the setting %s has no default' % n, t, gets[0])
        for c, d in default.items():
            v = dfl[field[ord(c)]]
            ctx.need(v is None or is_c(v) and cval(v) == d, T, R, 'the default of -%s is not the documented one' % c, t, gets[0])
        if base is None:
            base = dfl
        # each round of the loop
        bad_in = False
        helped = False
        for i, g in enumerate(gets):
            end = gets[i + 1].idx if i + 1 < len(gets) else len(t.ev)
            r = g.res
            vals = [k for k in list(field) + [ord('?'), ord(':'), ord('h')] if t.known(eq(r, const(k, r.w))) is True]
            if t.known(eq(r, const(-1, r.w))) is True:
                continue
            w = [e for e in t.ev[g.idx:end] if e.kind == 'store' and base_off(e.addr)[0] is t.args[0]]
            if i + 1 == len(gets) and t.end == 'cut':
                # the last round of a path that was cut is incomplete only after its effects
                pass
            if not vals and t.end == 'exit' and i + 1 == len(gets) and not w:
                bad_in = True           # an unknown option ends the program
                continue
            if not vals and (t.end != 'cut' or i + 1 < len(gets)):
                for k, what in [(ord('?'), 'an invalid option')] + [(ord(c), 'the option -%s' % c) for c in doc]:
                    ctx.need(t.known(eq(r, const(k, r.w))) is False, T, R, '%s has no effect' % what, t, g)
            if not vals:
                ctx.need(not w or t.known(eq(r, const(-1, r.w))) is None, T, R, 'an option without documentation changes a setting', t, w[0] if w else g)
                continue
            k = vals[0]
            if k in (ord('?'), ord(':')):
                bad_in = True
                ctx.need(t.end == 'exit', T, R, 'the program goes on after an invalid option', t, g)
                continue
            if k == ord('h'):
                helped = True
                ctx.need(t.end == 'exit', T, R, 'the program goes on after the help text', t, g)
                continue
            fld = field[k]
            if not (i + 1 < len(gets)):
                if t.end == 'cut' and not w:
                    continue
            ok = False
            for e in w:
                if e.addr is not at[fld]:
                    if i + 1 < len(gets):
                        ctx.need(False, T, R, 'the option -%c changes %s' % (k, inv.get(e.addr, 'another setting')), t, e)
                    continue
                src = narrow(e.val)
                cv = [x for x in t.calls() if x.x['name'] in CONV and x.res in (src, narrow(src)) and x.idx < end]
                if cv and i + 1 <= len(gets) and not ok:
                    x = cv[0]
                    a = x.x['args'][0]
                    okc = a.kind == 'ld' and a.a[1] is sym('glob', 'optarg', 64)
                    if 'strto' in x.x['name']:
                        okc = okc and is_c(x.x['args'][2]) and cval(x.x['args'][2]) in (0, 10)
                    wide = {'atoi': 4}.get(x.x['name'], 8)
                    okc = okc and (wide >= size[fld] or size[fld] > 4 and wide >= 8)
                    ok = ok or okc
            ctx.need(ok, T, R, 'the option -%c does not set %s to its whole value' % (k, fld), t, g)
        help_ = [e for e in t.calls() if e.x['name'] in ('fprintf', 'printf', 'fputs', 'puts', 'fwrite') and
                 any('Usage' in (cstring(ctx, a) or '') for a in e.x['args'])]
        if t.end == 'exit':
            ex = [e for e in t.calls() if e.x['name'] in ('exit', '_exit', 'abort')]
            if not ex:
                continue
            st = ex[-1].x['args'][0] if ex[-1].x['args'] else const(1, 32)
            ctx.need(bool(help_), T, R, 'the program ends without the help text', t, ex[-1])
            ctx.need(const_is(st, True) if helped else is_c(st) and st.a != 0, T, R,
                     'the exit status is wrong after %s' % ('--help' if helped else 'invalid input'), t, ex[-1])
        if t.end != 'ret':
            continue
        # ------------------------------------------------------------ derived settings
        R2 = 'cli.derived'
        lastg = gets[-1].idx
        n0 = len(t.ev)
        last = lambda n, i=n0: t.stored(at[n], i)
        nt, fb, rn = last('nthreads', lastg), last('fibers_per_thread', lastg), last('runs', lastg)
        if None in (nt, fb, rn):
            continue
        for n in ('fibers_per_thread', 'max_work', 'numa_nodes', 'backoff_low', 'backoff_high'):
            ctx.need(last(n) is last(n, lastg), T, R2, 'the setting %s is changed after the options' % n, t, t.ev[-1])
        tot = VV.mul(nt, fb, 32)
        fin = last('nthreads')
        okn = fin is tot or fin is nt and t.known(eq(fb, const(1, fb.w))) is True
        ctx.need(okn, T, R2, 'the total number of threads is not that of threads times fibers', t, t.ev[-1])
        ctx.need(last('total_runs') is rn, T, R2, 'the total number of operations is not the one that was asked for', t, t.ev[-1])
        q = VV.divrem('udiv', rn, VV.zext(fin, 64), 64)
        ctx.need(last('runs') is q, T, R2, 'the operations of a thread are not the total divided by the number of threads', t, t.ev[-1])
        for v in (nt, fb):
            ctx.need(t.nz(v) or is_c(v) and v.a != 0 or v in [e.res for e in t.calls('synchGetNCores')], T, R2,
                     'zero threads or fibers are accepted', t, t.ev[-1])
