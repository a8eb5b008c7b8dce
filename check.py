#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --all | --list
Decides one property on /repo's current sources by static analysis (see DESIGN.md).
exit 0: holds on everything analysed; 1: VIOLATION line printed; 2: the sources do not compile"""
import argparse, concurrent.futures, importlib, glob, json, os, sys, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from sa.prog import compile_program, BuildError, REPO
from sa.rules import order
from sa.rules.base import Ctx, GROUPS, Missing
from sa.interp import AnalysisError
from sa.props import PROPS, CONFIGS

for f in sorted(glob.glob(ROOT + '/sa/rules/*.py')):
    n = os.path.basename(f)[:-3]
    if n not in ('__init__', 'base'):
        importlib.import_module('sa.rules.' + n)

KNOWN = ROOT + '/known-findings.txt'


def known():
    """lines 'known: property=<id> key=<group> | <function> | <message>'"""
    r = {}
    try:
        for ln in open(KNOWN):
            if ln.startswith('known: property='):
                pid, rest = ln[len('known: property='):].strip().split(' ', 1)
                r.setdefault(pid, set()).add(rest[len('key='):])
    except OSError:
        pass
    return r


def vkey(v):
    w = v.where
    w = w[w.rindex('(') + 1:-1] if w.endswith(')') and '(' in w else w
    return '%s | %s | %s' % (v.group, w, v.msg)


def analyse_config(pid, cn, deep):
    spec = PROPS[pid]
    flags, undef = CONFIGS[cn]
    ctx = Ctx(compile_program(flags, undef), cn, deep=deep)
    inc = []
    for g in spec['groups']:
        ctx.group = g
        ctx.order = order.check if g in spec.get('order', ()) else None
        try:
            GROUPS[g](ctx)
        except (AnalysisError, Missing) as ex:
            inc.append((cn, g, '%s: %s' % (type(ex).__name__, ex)))
        except RecursionError as ex:
            inc.append((cn, g, 'expression too deep'))
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as ex:
            if os.environ.get('SA_DEBUG'):
                raise
            inc.append((cn, g, 'the rule does not understand this form of the code (%s: %s)' % (type(ex).__name__, ex)))
    inc += [(cn, '-', x) for x in sorted(set(ctx.inconclusive))]
    imp = spec.get('implied', {})
    rls = spec.get('rules', ())
    viol = [v for v in ctx.viol.values() if pid in v.tags or '*' in v.tags or v.tags & imp.get(v.group, frozenset()) or
            v.msg.split(':')[0].split('.')[-1] in rls]
    obl = {}
    for (g, r, tg), n in ctx.obl.items():
        if pid in tg or '*' in tg or tg & imp.get(g, frozenset()) or r.split('.')[-1] in rls:
            obl[r] = obl.get(r, 0) + n
    for v in viol:  # the path goes back to the parent process as text
        v.dump = None
        if v.path is not None:
            v.dump = [(v.upto is not None and ln.split(' ')[0] == str(v.upto), ln.rstrip()) for ln in v.path.dump().split('\n')]
        v.path = None
    return viol, obl, inc, ctx.npaths, ctx.ncut, sorted('%s.c:%s' % f for f in ctx.fns)


def _one(a):
    try:
        return analyse_config(*a)
    except BuildError as ex:
        return str(ex)


def analyse(pid, tier):
    spec = PROPS[pid]
    cfgs = spec['quick'] if tier == 'quick' else spec.get('thorough', spec['quick'])
    jobs = [(pid, cn, tier == 'thorough') for cn in cfgs]
    if len(jobs) == 1 or os.environ.get('SA_SERIAL'):
        r = [_one(j) for j in jobs]
    else:
        with concurrent.futures.ProcessPoolExecutor(min(len(jobs), os.cpu_count() or 1)) as ex:
            r = list(ex.map(_one, jobs))
    for x in r:
        if isinstance(x, str):
            raise BuildError(x)
    return list(zip(cfgs, r))


def run(pid, tier):
    t0 = time.time()
    res = analyse(pid, tier)
    out = [(cn, v) for cn, r in res for v in r[0]]
    inc = [x for _, r in res for x in r[2]]
    kn = known().get(pid, set())
    ev = os.environ.get('SA_EVIDENCE', ROOT + '/evidence')
    os.makedirs(ev + '/replay', exist_ok=True)
    rp = '%s/replay/%s.txt' % (ev, pid)
    new, old = [], []
    seen = set()
    for cn, v in out:
        k = vkey(v)
        if (k in kn):
            if k not in seen:
                old.append((cn, v))
        elif (k, v.where) not in seen:
            new.append((cn, v))
        seen.add(k)
        seen.add((k, v.where))
    for cn, v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, v.where, v.msg))
    for cn, g, m in inc:
        print('INCONCLUSIVE property=%s configuration=%s rules=%s %s' % (pid, cn, g, m))
    if new:
        with open(rp, 'w') as f:
            f.write('property %s, tier %s: reproduce with  python3 %s/check.py %s --tier %s\n' % (pid, tier, ROOT, pid, tier))
            for cn, v in new:
                f.write('\n== %s\n   %s\n   rules %s, configuration %s\n' % (v.where, v.msg, v.group, cn))
                if v.dump is not None:
                    f.write('   path through the program (memory accesses, calls and branch decisions):\n')
                    for here, ln in v.dump:
                        f.write('   %s %s\n' % ('->' if here else '  ', ln))
        for cn, v in new[:20]:
            print('%s: %s [%s, %s]' % (v.where, v.msg, v.group, cn))
    obl = {}
    for _, r in res:
        for k, n in r[1].items():
            obl[k] = obl.get(k, 0) + n
    fns = sorted({f for _, r in res for f in r[5]})
    spec = PROPS[pid]
    j = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': spec['rule'] + ' Analysed: the LLVM IR that clang generates from the current sources in the '
                           'configurations listed; every abstract path of the entry functions up to the loop bound of the '
                           'rule; each obligation is one instance of a rule on one path or site.',
            'configurations': [cn for cn, _ in res],
            'rule_groups': spec['groups'],
            'abstract_paths': sum(r[3] for _, r in res),
            'paths_cut_at_loop_bound': sum(r[4] for _, r in res),
            'functions_analysed': len(fns), 'functions': fns,
            'obligations': sum(obl.values()), 'obligations_by_rule': obl,
            'inconclusive': ['%s/%s: %s' % x for x in inc],
            'known_findings': [vkey(v) for _, v in old],
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
        'assumptions': spec.get('assumptions', []) + [
            'clang\'s translation of the sources to IR agrees with the compiler that builds the library',
            'loops are followed for a bounded number of rounds that the rules treat as representative of any number'],
    }
    with open('%s/%s.json' % (ev, pid), 'w') as f:
        json.dump(j, f, indent=1)
        f.write('\n')
    print('%s %s: %d paths, %d obligations, %d violations, %.1f s' % (pid, tier, j['coverage']['abstract_paths'],
                                                                    j['coverage']['obligations'], len(new), j['wall_s']))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    if a.list:
        for p in PROPS:
            print(p, PROPS[p]['groups'])
        return 0
    try:
        if a.all:
            return max(run(p, a.tier) for p in PROPS)
        return run(a.prop, a.tier)
    except BuildError as ex:
        print(ex)
        return 2


sys.exit(main())
