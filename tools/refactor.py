#!/usr/bin/env python3
"""Behaviour-preserving source edits, generated from clang's syntax tree, to look for false alarms.
usage: refactor.py [-k kind,...] [-f file-substring,...] [-1] [-j N] [-c config,...]
Each (file, kind) is applied to a copy of the library (all sites at once; -1: one site at a time) and every rule
group that reads the file is run on the copy. Prints violations (alarms) and inconclusive groups."""
import sys, os, json, subprocess, shutil, tempfile, argparse, glob, re
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = '/repo'
CL = ['clang', '-std=gnu89', '-w', '-D_GNU_SOURCE', '-mcx16', '-march=native']


def inc(root):
    return ['-I%s/libconcurrent/includes' % root, '-I%s/libconcurrent' % root]


def ast(path, flags=()):
    r = subprocess.run(CL + inc(REPO) + list(flags) + ['-fsyntax-only', '-Xclang', '-ast-dump=json', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return json.loads(r.stdout)


class N:
    __slots__ = ('k', 'd', 'ch', 'b', 'e', 'bm', 'em', 'file', 'up')


def build(root, main):
    cur = [main]

    def loc(l):
        if not l:
            return None, False, None
        m = False
        if 'expansionLoc' in l:
            sp, ex = l['spellingLoc'], l['expansionLoc']
            for x in (sp, ex):
                if 'file' in x:
                    cur[0] = x['file']
            m = True
            return ex.get('offset'), True, (ex.get('tokLen'), sp.get('offset') if ex.get('isMacroArgExpansion') else None)
        if 'file' in l:
            cur[0] = l['file']
        return l.get('offset'), False, (l.get('tokLen'), None)

    def rec(d, up):
        n = N()
        n.k = d.get('kind')
        n.d = d
        n.up = up
        n.ch = []
        lo = None
        if 'loc' in d:
            lo = loc(d['loc'])
        n.b = n.e = None
        n.bm = n.em = False
        if 'range' in d:
            bo, bm, bt = loc(d['range'].get('begin'))
            f1 = cur[0]
            eo, em, et = loc(d['range'].get('end'))
            n.b = bo
            n.bm = bm
            n.em = em
            n.e = eo + (et[0] or 0) if eo is not None else None
        n.file = cur[0]
        d['_loc'] = lo
        for c in d.get('inner', ()):
            if c:
                n.ch.append(rec(c, n))
            else:
                n.ch.append(None)
        return n
    return rec(root, None)


def walk(n):
    yield n
    for c in n.ch:
        if c is not None:
            yield from walk(c)


class Src:
    def __init__(self, rel, via=None):
        self.rel = rel
        self.path = REPO + '/libconcurrent/' + rel
        self.text = open(self.path, 'rb').read().decode('latin1')
        tu = via or self.path
        self.tree = build(ast(tu), tu)
        self.fns = []
        seen = set()
        for n in walk(self.tree):
            if n.k == 'FunctionDecl' and n.ch and n.ch[-1] is not None and n.ch[-1].k == 'CompoundStmt':
                if os.path.realpath(n.file) == os.path.realpath(self.path) and not n.bm and n.b not in seen:
                    # check text
                    if n.d.get('name') in self.text[n.b:n.e].split('{')[0]:
                        seen.add(n.b)
                        self.fns.append(n)

    def t(self, n):
        return self.text[n.b:n.e]

    def ok(self, n):
        return n is not None and n.b is not None and n.e is not None and not n.bm and not n.em and n.e > n.b


def stmts(s, f):
    """statements directly inside compound statements: (stmt, compound, index)"""
    for n in walk(f):
        if n.k == 'CompoundStmt':
            for i, c in enumerate(n.ch):
                if c is not None:
                    yield c, n, i


def semi(s, n):
    """end offset including the ; of an expression statement"""
    m = re.compile(r'\s*;').match(s.text, n.e)
    return m.end() if m else None


EXPR = ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CallExpr')
cnt = [0]


def new(p):
    cnt[0] += 1
    return 'rf_%s%d' % (p, cnt[0])


def has(n, kinds, stop=()):
    for c in walk(n):
        if c.k in kinds:
            return True
    return False


def nocontinue(n):
    def r(x):
        if x is None:
            return True
        if x.k == 'ContinueStmt':
            return False
        if x is not n and x.k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            return True
        return all(r(c) for c in x.ch)
    return r(n)


def hasmacro(n):
    return any(c.bm or c.em for c in walk(n) if c.b is not None)


def k_noop(s, f):
    for c, p, i in stmts(s, f):
        if s.ok(c) or (not c.bm and c.b is not None):
            if c.k != 'DeclStmt' and c.k not in ('CaseStmt', 'DefaultStmt', 'LabelStmt'):
                yield [(c.b, c.b, '(void)0; ')]


def k_unused(s, f):
    b = f.ch[-1]
    yield [(b.b + 1, b.b + 1, ' int rf_unused = 0; (void)rf_unused; ')]


def k_dowhile0(s, f):
    for c, p, i in stmts(s, f):
        if s.ok(c) and c.k in EXPR:
            e = semi(s, c)
            if e:
                yield [(c.b, e, 'do { %s; } while (0);' % s.t(c))]


def k_rename(s, f):
    decl = {}
    for n in walk(f):
        if n.k in ('VarDecl', 'ParmVarDecl') and n.d.get('_loc') and n.d['_loc'][0] is not None and n.d.get('name') and n.d.get('storageClass') != 'static':
            decl[n.d['id']] = (n.d['name'], [], n.d['_loc'])
    bad = set()
    for i, (nm, l, lo) in decl.items():
        if lo[1]:
            bad.add(i)
        else:
            l.append(lo[0])
    for n in walk(f):
        if n.k == 'DeclRefExpr':
            i = n.d['referencedDecl']['id']
            if i in decl:
                if n.bm:
                    b = n.d['range']['begin']
                    o = b['spellingLoc'].get('offset') if b['expansionLoc'].get('isMacroArgExpansion') else None
                    if o is None or s.text[o:o + len(decl[i][0])] != decl[i][0]:
                        bad.add(i)
                    else:
                        decl[i][1].append(o)
                else:
                    decl[i][1].append(n.b)
    for i, (nm, l, lo) in decl.items():
        if i not in bad and all(s.text[o:o + len(nm)] == nm for o in l):
            yield [(o, o + len(nm), 'rf_' + nm) for o in sorted(set(l))]


def k_ifneg(s, f):
    for n in walk(f):
        if n.k == 'IfStmt' and len(n.ch) == 3 and n.d.get('hasElse') and all(s.ok(c) for c in n.ch[:1]) and not n.bm:
            c, a, b = n.ch
            ea = a.e if a.k == 'CompoundStmt' else semi(s, a)
            if b.k == 'IfStmt':
                continue
            eb = b.e if b.k == 'CompoundStmt' else semi(s, b)
            if ea and eb and not a.bm and not b.bm and not (a.em and a.k != 'CompoundStmt') and not (b.em and b.k != 'CompoundStmt'):
                yield [(n.b, eb, 'if (!(%s)) { %s } else { %s }' % (s.t(c), s.text[b.b:eb], s.text[a.b:ea]))]


def k_whiletrue(s, f):
    for n in walk(f):
        if n.k == 'WhileStmt' and not n.bm and s.ok(n.ch[0]) and n.ch[1].k == 'CompoundStmt':
            c, b = n.ch
            if s.t(c) in ('true', '1'):
                continue
            yield [(n.b, b.b + 1, 'for (;;) { if (!(%s)) break;' % s.t(c))]


def k_dowhile(s, f):
    for n in walk(f):
        if n.k == 'WhileStmt' and not n.bm and s.ok(n.ch[0]) and n.ch[1].k == 'CompoundStmt':
            c, b = n.ch
            if s.t(c) in ('true', '1'):
                continue
            yield [(n.b, b.e, 'if (%s) { do %s while (%s); }' % (s.t(c), s.text[b.b:b.e], s.t(c)))]


def k_for2while(s, f):
    for n in walk(f):
        if n.k == 'ForStmt' and not n.bm and n.ch[-1].k == 'CompoundStmt' and nocontinue(n.ch[-1]):
            i, _, c, u, b = n.ch
            if any(x is not None and not s.ok(x) for x in (c, u)):
                continue
            m = re.compile(r'for\s*\(([^;]*);').match(s.text, n.b)
            if not m:
                continue
            ct = s.t(c) if c is not None else '1'
            ut = s.t(u) + ';' if u is not None else ''
            yield [(n.b, b.b + 1, '{ %s; while (%s) {' % (m.group(1), ct)), (b.e - 1, b.e, ' %s } }' % ut)]


def k_nestand(s, f):
    for n in walk(f):
        if n.k == 'IfStmt' and not n.d.get('hasElse') and not n.bm:
            c = n.ch[0]
            if c.k == 'BinaryOperator' and c.d.get('opcode') == '&&' and s.ok(c) and s.ok(c.ch[0]) and s.ok(c.ch[1]):
                yield [(c.b, c.e, '%s) if (%s' % (s.t(c.ch[0]), s.t(c.ch[1])))]


def k_tmpassign(s, f):
    for c, p, i in stmts(s, f):
        if s.ok(c) and c.k == 'BinaryOperator' and c.d.get('opcode') == '=' and s.ok(c.ch[0]) and s.ok(c.ch[1]):
            e = semi(s, c)
            l, r = c.ch
            ty = c.d['type'].get('qualType', '')
            v = new('t')
            if e and not c.ch[1].k == 'InitListExpr':
                q = c.d['type'].get('desugaredQualType', ty)
                if 'struct' in q and '*' not in q:
                    continue
                yield [(c.b, e, '{ __typeof__((%s) + 0) %s = (%s); %s = %s; }' % (s.t(r), v, s.t(r), s.t(l), v))]


def k_tmpret(s, f):
    for n in walk(f):
        if n.k == 'ReturnStmt' and n.ch and s.ok(n.ch[0]) and not n.bm:
            e = semi(s, n.ch[0])
            ty = f.d['type']['qualType'].split('(')[0].replace('inline', '').strip()
            v = new('r')
            if e:
                yield [(n.b, e, '{ %s %s = %s; return %s; }' % (ty, v, s.t(n.ch[0]), v))]


def k_compound(s, f):
    for c, p, i in stmts(s, f):
        if s.ok(c) and c.k == 'CompoundAssignOperator' and s.ok(c.ch[0]) and s.ok(c.ch[1]) and not has(c.ch[0], ('CallExpr',)):
            l, r = c.ch
            yield [(c.b, c.e, '%s = %s %s (%s)' % (s.t(l), s.t(l), c.d['opcode'][:-1], s.t(r)))]
        if s.ok(c) and c.k == 'UnaryOperator' and c.d.get('opcode') in ('++', '--') and s.ok(c.ch[0]):
            yield [(c.b, c.e, '%s %s= 1' % (s.t(c.ch[0]), c.d['opcode'][0]))]


def k_ternary(s, f):
    for c, p, i in stmts(s, f):
        if s.ok(c) and c.k == 'BinaryOperator' and c.d.get('opcode') == '=':
            r = c.ch[1]
            while r.k in ('ImplicitCastExpr', 'ParenExpr') and r.ch:
                r = r.ch[0]
            if r.k == 'ConditionalOperator' and all(s.ok(x) for x in r.ch):
                e = semi(s, c)
                if e:
                    l = s.t(c.ch[0])
                    yield [(c.b, e, 'if (%s) %s = %s; else %s = %s;' % (s.t(r.ch[0]), l, s.t(r.ch[1]), l, s.t(r.ch[2])))]
    for n in walk(f):
        if n.k == 'IfStmt' and n.d.get('hasElse') and not n.bm and s.ok(n.ch[0]):
            def one(x):
                if x.k == 'CompoundStmt' and len(x.ch) == 1:
                    x = x.ch[0]
                if x is not None and x.k == 'BinaryOperator' and x.d.get('opcode') == '=' and s.ok(x) and s.ok(x.ch[0]) and s.ok(x.ch[1]):
                    return x
            a, b = one(n.ch[1]), one(n.ch[2])
            if a and b and s.t(a.ch[0]) == s.t(b.ch[0]):
                e = n.ch[2].e if n.ch[2].k == 'CompoundStmt' else semi(s, n.ch[2])
                yield [(n.b, e, '%s = (%s) ? (%s) : (%s);' % (s.t(a.ch[0]), s.t(n.ch[0]), s.t(a.ch[1]), s.t(b.ch[1])))]


def k_condtemp(s, f):
    for n in walk(f):
        if n.k == 'IfStmt' and not n.bm and s.ok(n.ch[0]) and n.up is not None and n.up.k == 'CompoundStmt':
            last = n.ch[-1]
            e = last.e if last.k in ('CompoundStmt',) else None
            if e:
                v = new('c')
                yield [(n.b, n.ch[0].b, '{ int %s = !!(' % v), (n.ch[0].e, n.ch[0].e, '); if (%s' % v), (e, e, ' }')]


def k_argtemp(s, f):
    for c, p, i in stmts(s, f):
        x = c
        pre = ''
        if c.k == 'BinaryOperator' and c.d.get('opcode') == '=':
            x = c.ch[1]
            while x.k == 'ImplicitCastExpr' and x.ch:
                x = x.ch[0]
        if s.ok(c) and x.k == 'CallExpr' and s.ok(x):
            e = semi(s, c)
            args = x.ch[1:]
            if not e or not args or not all(s.ok(a) for a in args):
                continue
            vs = [new('a') for _ in args]
            d = ''.join('__auto_type %s = %s; ' % (v, s.t(a)) for v, a in zip(vs, args))
            yield [(c.b, c.b, '{ ' + d)] + [(a.b, a.e, v) for v, a in zip(vs, args)] + [(e, e, ' }')]


def k_declsplit(s, f):
    for c, p, i in stmts(s, f):
        if c.k == 'DeclStmt' and len(c.ch) == 1 and s.ok(c) and c.ch[0].k == 'VarDecl' and c.ch[0].ch:
            v = c.ch[0]
            if v.d.get('storageClass') or 'const' in v.d['type']['qualType'] or '[' in v.d['type']['qualType']:
                continue
            i0 = v.ch[-1]
            if not s.ok(i0) or i0.k == 'InitListExpr':
                continue
            m = re.compile(r'\s*=\s*').match(s.text, v.d['_loc'][0] + len(v.d['name']))
            if m and m.end() == i0.b:
                yield [(m.start(), m.end(), '; %s = ' % v.d['name'])]


SW = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<=', '+': '+', '*': '*', '&': '&', '|': '|', '^': '^'}


def k_swap(s, f):
    for n in walk(f):
        if n.k == 'BinaryOperator' and n.d.get('opcode') in SW and s.ok(n) and s.ok(n.ch[0]) and s.ok(n.ch[1]) and not has(n, ('CallExpr', 'StmtExpr', 'AtomicExpr')):
            yield [(n.b, n.e, '(%s) %s (%s)' % (s.t(n.ch[1]), SW[n.d['opcode']], s.t(n.ch[0])))]


def k_index(s, f):
    for n in walk(f):
        if n.k == 'ArraySubscriptExpr' and s.ok(n) and s.ok(n.ch[0]) and s.ok(n.ch[1]):
            yield [(n.b, n.e, '(*((%s) + (%s)))' % (s.t(n.ch[0]), s.t(n.ch[1])))]


def k_arrow(s, f):
    for n in walk(f):
        if n.k == 'MemberExpr' and n.d.get('isArrow') and s.ok(n) and s.ok(n.ch[0]):
            yield [(n.b, n.e, '(*(%s)).%s' % (s.t(n.ch[0]), n.d['name']))]


def k_ptrtemp(s, f):
    for c, p, i in stmts(s, f):
        if s.ok(c) and c.k == 'BinaryOperator' and c.d.get('opcode') == '=' and c.ch[0].k in ('MemberExpr', 'ArraySubscriptExpr') and s.ok(c.ch[0]):
            e = semi(s, c)
            v = new('p')
            if e:
                yield [(c.b, c.ch[0].e, '{ __typeof__(%s) *%s = &%s; *%s' % (s.t(c.ch[0]), v, s.t(c.ch[0]), v)), (e, e, ' }')]


def jumps(n):
    if n.k == 'CompoundStmt':
        return bool(n.ch) and jumps(n.ch[-1])
    return n.k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt')


def k_noelse(s, f):
    for n, p, i in stmts(s, f):
        if n.k == 'IfStmt' and n.d.get('hasElse') and not n.bm and jumps(n.ch[1]) and not n.ch[1].bm and n.ch[1].k == 'CompoundStmt':
            a, b = n.ch[1:]
            m = re.compile(r'\s*else\b').match(s.text, a.e)
            if m and not b.bm:
                yield [(a.e, m.end(), ' ')]


def k_addelse(s, f):
    for n, p, i in stmts(s, f):
        if n.k == 'IfStmt' and not n.d.get('hasElse') and not n.bm and jumps(n.ch[1]) and n.ch[1].k == 'CompoundStmt' and not p.bm and not p.em:
            if i + 1 < len(p.ch) and not any(c is not None and c.k in ('LabelStmt', 'CaseStmt', 'DefaultStmt') for c in p.ch[i + 1:]):
                yield [(n.ch[1].e, n.ch[1].e, ' else {'), (p.e - 1, p.e - 1, '} ')]


def k_swapdecl(s, f):
    """declarations without initialisers in another order"""
    for n in walk(f):
        if n.k == 'CompoundStmt':
            ds = [c for c in n.ch if c is not None and c.k == 'DeclStmt']
            for a, b in zip(n.ch, n.ch[1:]):
                if a is not None and b is not None and a.k == b.k == 'DeclStmt' and s.ok(a) and s.ok(b) and not any(v.ch for x in (a, b) for v in x.ch):
                    yield [(a.b, a.e, s.t(b)), (b.b, b.e, s.t(a))]
                    break


def k_nulltest(s, f):
    for n in walk(f):
        if n.k in ('IfStmt', 'WhileStmt') and n.ch[0] is not None and n.ch[0].k == 'BinaryOperator' and n.ch[0].d.get('opcode') in ('==', '!=') and not n.bm:
            c = n.ch[0]
            m = re.match(r'(.*)(==|!=)\s*(NULL|false|0|true)$', s.text[c.b:c.b + 0] + s.text[c.b:(c.e if not c.em else c.b)] or '', re.S)
            if c.bm:
                continue
            tx = s.text[c.b:]
            m = re.match(r'([^;{}&|]*?)\s*(==|!=)\s*(NULL|false|true|0)\b', tx)
            if m and s.ok(c.ch[0]) and m.group(1).strip() == s.t(c.ch[0]).strip():
                neg = (m.group(2) == '==') != (m.group(3) == 'true')
                if m.group(3) == 'true' and 'int' in c.ch[0].d['type']['qualType']:
                    pass
                yield [(c.b, c.b + m.end(), ('!(%s)' if neg else '(%s)') % m.group(1))]


def free_vars(s, n, f):
    """locals of f that n uses and does not declare: {id: (name, type)}, [refs], ok"""
    inner = {x.d['id'] for x in walk(n) if x.k == 'VarDecl'}
    loc = {x.d['id']: x for x in walk(f) if x.k in ('VarDecl', 'ParmVarDecl') and x.d.get('storageClass') not in ('static', 'extern')}
    fv = {}
    refs = []
    for x in walk(n):
        if x.k == 'DeclRefExpr':
            i = x.d['referencedDecl']['id']
            if i in loc and i not in inner:
                o = x.b
                if x.bm:
                    b = x.d['range']['begin']
                    o = b['spellingLoc'].get('offset') if b['expansionLoc'].get('isMacroArgExpansion') else None
                if o is None:
                    return None
                nm = loc[i].d['name']
                if s.text[o:o + len(nm)] != nm:
                    return None
                fv[i] = (nm, loc[i].d['type'])
                refs.append((o, nm, i))
    # statics of the function
    st = {x.d['id'] for x in walk(f) if x.k == 'VarDecl' and x.d.get('storageClass') == 'static'}
    for x in walk(n):
        if x.k == 'DeclRefExpr' and x.d['referencedDecl']['id'] in st:
            return None
    return fv, refs


def escapes(n):
    def r(x, loop):
        if x is None:
            return False
        if x.k in ('ReturnStmt', 'GotoStmt', 'LabelStmt', 'CaseStmt', 'DefaultStmt'):
            return True
        if x.k in ('BreakStmt', 'ContinueStmt'):
            return not loop
        return any(r(c, loop or x.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt')) for c in x.ch)
    return r(n, False)


def outline(s, f, n, txt0, e, byval=False, ret=None):
    r = free_vars(s, n, f)
    if r is None:
        return None
    fv, refs = r
    h = new('helper')
    ps, as_ = [], []
    for i, (nm, ty) in fv.items():
        q = ty['qualType']
        if '[' in q and not q.endswith('*'):
            return None
        if '(*' in q:
            a, b = q.split('(*', 1)
            k = b.index(')')
            decl = a + '(*' + b[:k] + ('%s' + nm if not byval else nm)
            decl = '%s(*%s%s%s' % (a, b[:k], '' if byval else '*', nm) + b[k:]
        else:
            decl = '%s %s%s' % (q, '' if byval else '*', nm)
        ps.append(decl)
        as_.append(nm if byval else '&' + nm)
    body = txt0
    b0 = n.b
    if not byval:
        for o, nm, i in sorted(set(refs), reverse=True):
            if not (b0 <= o < e):
                return None
            body = body[:o - b0] + '(*' + nm + ')' + body[o - b0 + len(nm):]
    if ret:
        d = 'static inline %s %s(%s) { return %s; }\n' % (ret, h, ', '.join(ps) or 'void', body)
        return [(f.b, f.b, d), (n.b, e, '%s(%s)' % (h, ', '.join(as_)))]
    d = 'static inline void %s(%s) { %s }\n' % (h, ', '.join(ps) or 'void', body)
    return [(f.b, f.b, d), (n.b, e, '%s(%s);' % (h, ', '.join(as_)))]


def k_outline(s, f):
    """statements moved to helper functions"""
    for c, p, i in stmts(s, f):
        if c.bm or c.k in ('DeclStmt', 'NullStmt') or escapes(c):
            continue
        if c.k in EXPR:
            e = semi(s, c) if s.ok(c) else None
        elif c.k in ('CompoundStmt',):
            e = c.e
        elif c.k in ('IfStmt', 'WhileStmt', 'ForStmt'):
            l = c.ch[-1]
            e = l.e if l is not None and l.k == 'CompoundStmt' else None
        else:
            e = None
        if e is None:
            continue
        r = outline(s, f, c, s.text[c.b:e], e)
        if r:
            yield r


def k_outcond(s, f):
    """conditions moved to helper functions (arguments by value)"""
    for n in walk(f):
        if n.k in ('IfStmt', 'WhileStmt') and n.ch[0] is not None and s.ok(n.ch[0]) and not hasmacro(n.ch[0]) and not n.bm:
            c = n.ch[0]
            if has(c, ('UnaryOperator',)) and any(x.k == 'UnaryOperator' and x.d.get('opcode') in ('++', '--', '&') for x in walk(c)):
                continue
            if any(x.k == 'BinaryOperator' and x.d.get('opcode') == '=' for x in walk(c)):
                continue
            r = outline(s, f, c, s.t(c), c.e, byval=True, ret='int')
            if r:
                r[-1] = (r[-1][0], r[-1][1], r[-1][2])
                # !!(..) because the helper returns int
                d = r[0][2].replace('{ return ', '{ return !!(', 1)
                d = d[:d.rindex('; }')] + '); }\n'
                yield [(r[0][0], r[0][1], d), r[1]]


def k_outrhs(s, f):
    """right-hand sides moved to helper functions"""
    for c, p, i in stmts(s, f):
        if s.ok(c) and c.k == 'BinaryOperator' and c.d.get('opcode') == '=' and s.ok(c.ch[1]):
            x = c.ch[1]
            if x.k in ('IntegerLiteral', 'DeclRefExpr') or any(y.k == 'UnaryOperator' and y.d.get('opcode') in ('++', '--', '&') for y in walk(x)):
                continue
            ty = c.d['type']['qualType']
            if '(*' in ty:
                continue
            r = outline(s, f, x, s.t(x), x.e, byval=True, ret=ty.replace('volatile', ''))
            if r:
                yield r


def k_outbody(s, f):
    """the whole body of the function moved to another function"""
    b = f.ch[-1]
    ps = [c for c in f.ch if c is not None and c.k == 'ParmVarDecl']
    nm = f.d['name']
    head = s.text[f.b:b.b]
    if nm == 'main' or '...' in head:
        return
    h = new('body_')
    hd = re.sub(r'\b(extern|__attribute__\(\(.*?\)\))', '', head)
    hd = re.sub(r'\b%s\b' % re.escape(nm), h, hd, 1)
    hd = 'static ' + re.sub(r'\b(static|inline)\b', '', hd)
    call = '%s(%s);' % (h, ', '.join(p.d.get('name', '') for p in ps))
    isvoid = f.d['type']['qualType'].startswith('void (')
    yield [(f.b, f.b, '%s%s\n' % (hd, s.text[b.b:b.e])), (b.b, b.e, '{ %s%s }' % ('' if isvoid else 'return ', call))]


def k_cast(s, f):
    """redundant casts to the same type"""
    for n in walk(f):
        if n.k == 'CallExpr' and s.ok(n):
            q = n.d['type']['qualType']
            if q == 'void' or '(*' in q:
                continue
            yield [(n.b, n.e, '((%s)(%s))' % (q, s.t(n)))]


def k_foridx(s, f):
    """for (i = 0; i < n; i++) counted down in a second variable: i runs through the same values"""
    for n in walk(f):
        if n.k == 'ForStmt' and not n.bm and n.ch[-1].k == 'CompoundStmt':
            i, _, c, u, b = n.ch
            if c is not None and c.k == 'BinaryOperator' and c.d['opcode'] == '<' and s.ok(c) and u is not None and s.ok(u):
                yield [(c.b, c.e, '!(%s >= %s)' % (s.t(c.ch[0]), s.t(c.ch[1])))] if s.ok(c.ch[0]) and s.ok(c.ch[1]) else []


def k_unswitch(s, f):
    return
    yield


def k_retvar(s, f):
    """one return at the end, through a goto"""
    rs = [n for n in walk(f) if n.k == 'ReturnStmt']
    ty = f.d['type']['qualType'].split('(')[0].replace('inline', '').strip()
    if len(rs) < 2 or any(n.bm for n in rs) or ty == 'void':
        return
    ed = []
    for n in rs:
        m = re.compile(r'return\b([^;]*);').match(s.text, n.b)
        if not m:
            return
        ed.append((n.b, m.end(), '{ rf_ret =%s; goto rf_out; }' % m.group(1)))
    b = f.ch[-1]
    yield [(b.b + 1, b.b + 1, ' %s rf_ret; ' % ty)] + ed + [(b.e - 1, b.e, ' rf_out: return rf_ret; }')]


def k_fieldlocal(s, f):
    """a configuration-like member read twice in one expression statement is hoisted: p = x->f; g(x->f) ... (parameters only)"""
    return
    yield


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('k_') and callable(v)}


def apply(text, edits):
    ed = sorted(edits, key=lambda x: (x[0], x[1]))
    out, pos = [], 0
    for b, e, t in ed:
        if b < pos:
            return None
        out.append(text[pos:b])
        out.append(t)
        pos = e
    out.append(text[pos:])
    return ''.join(out)


def overlaps(a, b):
    for x in a:
        for y in b:
            if x[0] < y[1] and y[0] < x[1]:
                return True
            # insertion strictly inside a replaced range
            if x[0] == x[1] and y[0] < x[0] < y[1]:
                return True
            if y[0] == y[1] and x[0] < y[0] < x[1]:
                return True
    return False


def compiles(root, rel, via):
    p = via.replace(REPO, root) if via else root + '/libconcurrent/' + rel
    return subprocess.run(CL + inc(root) + ['-fsyntax-only', p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def variants(s, kind, single):
    sites = []
    for f in s.fns:
        for ed in KINDS[kind](s, f):
            if ed:
                sites.append((f.d['name'], ed))
    if single:
        for i, (fn, ed) in enumerate(sites):
            yield '%s#%d' % (fn, i), ed
        return
    while sites:  # rounds of sites that do not overlap
        take, rest = [], []
        cur = []
        # sites nested in others are left for the next round
        for fn, ed in sites:
            if overlaps(ed, cur):
                rest.append((fn, ed))
            else:
                take.append((fn, ed))
                cur = cur + ed
        yield 'all', take
        if not take:
            return
        sites = rest


GH = {'cc': 1}


def groups_for(rel):
    from sa.rules.base import GROUPS
    slow = {'simqueue', 'siminit', 'simstack'}
    b = os.path.basename(rel)
    g = list(GROUPS)
    if rel.endswith('.h') or 'sim' in b or b in ('primitives.c',):
        if b in ('primitives.h', 'tvec.h', 'sim.h') or 'sim' in b or 'pool' in b or 'fastrand' in b:
            return g
    return [x for x in g if x not in slow]


def job(a):
    rel, via, kind, single, cfgs = a
    cnt[0] = 0
    import importlib
    out = []
    root = tempfile.mkdtemp(prefix='rf')
    try:
        shutil.copytree(REPO + '/libconcurrent', root + '/libconcurrent', ignore=shutil.ignore_patterns('*.o', '*.a', '*.so'))
        for x in glob.glob(REPO + '/*.h') + glob.glob(REPO + '/*.mk') + glob.glob(REPO + '/Makefile*'):
            shutil.copy(x, root)
        s = Src(rel, via)
        dst = root + '/libconcurrent/' + rel
        for name, ed in variants(s, kind, single):
            if not single:
                sites = ed
                good = []
                flat = [e for _, x in sites for e in x]
                t = apply(s.text, flat)
                if t is not None:
                    open(dst, 'wb').write(t.encode('latin1'))
                if t is None or not compiles(root, rel, via):
                    for fn, x in sites:
                        t = apply(s.text, x)
                        if t is None:
                            continue
                        open(dst, 'wb').write(t.encode('latin1'))
                        if compiles(root, rel, via):
                            t2 = apply(s.text, [e for _, y in good for e in y] + x)
                            if t2 is not None:
                                open(dst, 'wb').write(t2.encode('latin1'))
                                if compiles(root, rel, via):
                                    good.append((fn, x))
                    flat = [e for _, x in good for e in x]
                    t = apply(s.text, flat)
                    if t is None:
                        continue
                    open(dst, 'wb').write(t.encode('latin1'))
                    n = len(good)
                else:
                    n = len(sites)
                if n == 0:
                    continue
            else:
                t = apply(s.text, ed)
                if t is None:
                    continue
                open(dst, 'wb').write(t.encode('latin1'))
                if not compiles(root, rel, via):
                    continue
                n = 1
            r = check(root, rel, cfgs)
            bad = [x for x in r if x[0] != 'ok']
            d = ''
            if bad:
                os.makedirs('/tmp/rf', exist_ok=True)
                d = '/tmp/rf/%s.%s.%s.diff' % (os.path.basename(rel), kind, name)
                o = subprocess.run(['diff', '-u', REPO + '/libconcurrent/' + rel, dst], stdout=subprocess.PIPE).stdout
                o = o.replace(b'--- ' + REPO.encode() + b'/', b'--- a/').replace(b'+++ ' + root.encode() + b'/', b'+++ b/')
                open(d, 'wb').write(o)
            out.append((rel, kind, name, n, bad, d))
    finally:
        shutil.rmtree(root)
    return out


CHECK = r'''
import sys, os, glob, importlib
sys.path.insert(0, sys.argv[1]); sys.setrecursionlimit(20000)
from sa.prog import *; from sa.rules.base import *; from sa.interp import AnalysisError
from sa.props import CONFIGS
for f in glob.glob(sys.argv[1] + '/sa/rules/*.py'):
    n = os.path.basename(f)[:-3]
    if n not in ('__init__', 'base'): importlib.import_module('sa.rules.' + n)
sys.path.insert(0, sys.argv[1] + '/tools')
import refactor
for cf in sys.argv[3].split(','):
    P = compile_program(*CONFIGS[cf])
    for g in refactor.groups_for(sys.argv[2]):
        c = Ctx(P, cf); c.group = g
        try: GROUPS[g](c)
        except Exception as ex: print('INC|%s|%s|%s: %s' % (cf, g, type(ex).__name__, str(ex)[:150]))
        for v in c.viol.values(): print('VIOL|%s|%s|%s %s %s' % (cf, g, sorted(v.tags), v.where, v.msg[:200]))
'''


def check(root, rel, cfgs):
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run([sys.executable, '-c', CHECK, v, rel, cfgs], env=dict(os.environ, SA_REPO=root), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = []
    for ln in r.stdout.split('\n'):
        if ln:
            out.append(tuple(ln.split('|', 3)))
    if r.returncode:
        out.append(('FAIL', '', '', r.stderr[-300:]))
    return out or [('ok',)]


def files():
    r = []
    for f in sorted(glob.glob(REPO + '/libconcurrent/concurrent/*.c') + glob.glob(REPO + '/libconcurrent/primitives/*.c')):
        r.append((f[len(REPO + '/libconcurrent/'):], None))
    for h, via in (('includes/primitives.h', 'concurrent/ccsynch.c'), ('includes/pool.h', 'concurrent/msqueue.c'), ('includes/tvec.h', 'concurrent/sim.c'),
                   ('includes/backoff.h', 'concurrent/msqueue.c'), ('includes/barrier.h', 'primitives/barrier.c'), ('includes/queue-stack.h', 'concurrent/msqueue.c'),
                   ('includes/fastrand.h', 'concurrent/sim.c'), ('includes/system.h', 'concurrent/sim.c'), ('includes/stats.h', 'primitives/primitives.c')):
        if os.path.exists(REPO + '/libconcurrent/' + h):
            r.append((h, REPO + '/libconcurrent/' + via))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-k')
    ap.add_argument('-f')
    ap.add_argument('-1', dest='one', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-c', default='release')
    a = ap.parse_args()
    import importlib
    for f in glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/sa/rules/*.py'):
        n = os.path.basename(f)[:-3]
        if n not in ('__init__', 'base'):
            importlib.import_module('sa.rules.' + n)
    ks = a.k.split(',') if a.k else list(KINDS)
    fs = [x for x in files() if not a.f or any(t in x[0] for t in a.f.split(','))]
    jobs = [(rel, via, k, a.one, a.c) for rel, via in fs for k in ks]
    tot = 0
    with ProcessPoolExecutor(a.j) as ex:
        for res in ex.map(job, jobs):
            for rel, kind, name, n, bad, d in res:
                tot += 1
                if os.environ.get('V'): print(rel, kind, name, n, len(bad))
                if bad:
                    print('%s %s %s (%d sites) %s' % (rel, kind, name, n, d))
                    for b in bad[:6]:
                        print('   ', ' '.join(b)[:230])
                    sys.stdout.flush()
    print('variants run:', tot)


if __name__ == '__main__':
    main()
