"""Memory pools: which part of which block is handed out, conservation of free entries, release of all blocks."""
from .base import *
from .combining import const_is

C9 = {'C09'}
ALL = {'synchGetMemory', 'synchGetAlignedMemory', 'malloc', 'calloc', 'memalign', 'aligned_alloc', 'posix_memalign'}


@group('pool')
def pool(ctx):
    P, M, B = 'SynchPoolStruct', 'SynchPoolBlockMetadata', 'SynchPoolBlock'
    off = lambda s, f: ctx.off(s, f, 'pool')
    md, heap = off(B, 'metadata'), off(B, 'heap')
    m = lambda b, f: addc(b, md + off(M, f))
    kw = dict(seq=True, delay=False, k=3 if ctx.deep else 2, allocs=ALL, max_rec=2)
    sizes = set()

    def new_block(t, R, b, osz, hi):
        """the fresh block b is set up for objects of size osz: nothing used, all that fits is free"""
        c = t.ev[b.a[0]]
        sz = c.x['args'][-1]
        if not ctx.need(is_c(sz), C9, R, 'the size of a block is not constant', t, c):
            return
        S = cval(sz)
        sizes.add(S)
        if c.x['name'] == 'synchGetAlignedMemory':
            ctx.need(is_c(c.x['args'][0]) and cval(c.x['args'][0]) % 8 == 0, C9, R, 'a block is not aligned', t, c)
        en, fr, cu = (t.stored(m(b, f), hi, 4) for f in ('entries', 'free_entries', 'cur_entry'))
        for nm, v in (('entries', en), ('free_entries', fr)):
            v0 = v
            if v is not None and v.kind == 'bits':
                v = v.a[0][0]
            ok = None
            if v is not None and v.kind == 'op' and v.a[0] in ('udiv', 'sdiv') and is_c(v.a[1]):
                d = v.a[2]
                d = d.a[0][0] if d.kind == 'bits' else d
                ok = cval(v.a[1]) + heap <= S and (d is osz or is_c(d) and d is VV.zext(osz, 64) or
                                                   d.kind == 'ld' and osz.kind == 'ld' and d.a[1] is osz.a[1] or
                                                   is_c(d) and is_c(osz) and cval(d) == cval(osz))
            elif v is not None and is_c(v) and is_c(osz):
                ok = cval(v) * cval(osz) + heap <= S
            ctx.need(bool(ok), C9, R, 'a new block promises more objects (%s) than fit into it' % nm, t, c)
        os_ = t.stored(m(b, 'object_size'), hi, 4)
        ctx.need(os_ is None or same_size(os_, osz), C9, R, 'a block is marked with another object size', t, c)
        ctx.need(en is fr, C9, R, 'not all entries of a new block are free', t, c)
        ctx.need(const_is(cu, True), C9, R, 'a new block does not start with its first entry', t, c)
        return en

    for t in ctx.paths('synchInitPool', 'pool', **kw):
        pl, n = t.args
        R = 'pool.init'
        hb, cb = t.stored(addc(pl, off(P, 'head_block')), len(t.ev)), t.stored(addc(pl, off(P, 'cur_block')), len(t.ev))
        al = [e for e in t.ev if e.kind == 'call' and e.res is not None and e.res.kind == 'obj']
        if not al:
            ctx.need(t.nz(t.ret), C9 | {'C26'}, R, 'a pool without memory is reported as initialised', t, t.ev[-1])
            continue
        b = al[0].res
        ctx.need(is_c(t.ret) and cval(t.ret) == 0, C9, R, 'success is not reported', t, t.ev[-1])
        if not ctx.need(len(al) == 1 and hb is b and cb is b, C9 | {'C26'}, R, 'head and current block of a new pool are not '
                        'its only block', t, t.ev[-1]):
            continue
        osz = t.stored(addc(pl, off(P, 'obj_size')), len(t.ev), 4)
        okmin = osz is not None and (is_c(osz) and cval(osz) >= 8 or osz is n and
                                     t.known(icmp('ult', n, const(8, 32))) is False)
        if not okmin and osz is not None and osz is not n and not is_c(osz):
            okmin = t.eng.rangeof(t.p.st, osz, False)[0] >= 8
        ctx.need(okmin, C9 | {'C26'}, R, 'objects can be smaller than the link that recycling stores in them', t, t.ev[-1])
        if osz is None:
            continue
        eb = t.stored(addc(pl, off(P, 'entries_per_block')), len(t.ev), 4)
        ctx.need(eb is not None and eb is t.stored(m(b, 'entries'), len(t.ev), 4), C9 | {'C26'}, R, 'the pool and its first block '
                 'do not agree on the number of entries', t, t.ev[-1])
        if is_c(osz):
            ctx.need(t.known(icmp('ugt', n, osz)) is False, C9, R, 'objects are smaller than asked for', t, t.ev[-1])
        new_block(t, R, b, osz, len(t.ev))
        S = cval(al[0].x['args'][-1])
        if osz is n and S:
            hi = t.eng.rangeof(t.p.st, n, False)[1]
            hi2 = t.eng.rangeof(t.p.st, VV.zext(n, 64), False)[1]
            ctx.need(min(hi, hi2) + heap <= S, C9, R, 'an object size for which a block has no entry is accepted', t, t.ev[-1])
        for f in ('next', 'back'):
            ctx.need(const_is(t.stored(m(b, f), len(t.ev)), True), C9 | {'C26'}, R, 'the only block of a pool has a '
                     'neighbour', t, t.ev[-1])
        ctx.need(const_is(t.stored(addc(pl, off(P, 'recycle_list')), len(t.ev)), True), C9 | {'C26'}, R, 'a new pool has '
                 'recycled objects', t, t.ev[-1])
    # allocation
    for t in ctx.paths('synchAllocObj', 'pool', **kw):
        R, pl, end = 'pool.alloc', t.args[0], len(t.ev)
        rl, cbf = addc(pl, off(P, 'recycle_list')), addc(pl, off(P, 'cur_block'))
        l0 = t.find('load', rl)
        if not ctx.need(bool(l0), C9, R, 'recycled objects are not looked for', t, t.ev[-1]):
            continue
        r = l0[0].res
        if t.nz(r):
            ctx.need(t.ret is r, C9, R, 'the recycled object is not the one that is handed out', t, t.ev[-1])
            w = t.writes()
            ctx.need(len(w) == 1 and w[0].addr is rl and w[0].val.kind == 'ld' and w[0].val.a[1] is r, C9, R,
                     'the object that is handed out does not leave the list of recycled objects', t, t.ev[-1])
            continue
        if not ctx.need(t.is0(r), C9, R, 'the list of recycled objects is not tested', t, t.ev[-1]):
            continue
        c0 = t.find('load', cbf)
        if not ctx.need(bool(c0), C9, R, 'the current block is not used', t, t.ev[-1]):
            continue
        cur, ok = c0[0].res, True
        fresh = {}
        last = cur
        for e in t.find('store', cbf):
            fl = t.find('load', m(last, 'free_entries'))
            z = [x for x in fl if t.is0(x.res)] or const_is(t.stored(m(last, 'free_entries'), e.idx, 4), True)
            if last in fresh:
                z = True
            ctx.need(bool(z), C9, R, 'a block is left that is not known to be used up', t, e)
            if e.val.kind == 'obj':
                pos = [y for y in t.find('load', m(last, 'next')) if t.is0(y.res)]
                ctx.need(bool(pos) or last in fresh, C9, R, 'a new block is taken although a later one may be free', t, e)
                osz = [y.res for y in t.find('load', addc(pl, off(P, 'obj_size')))]
                if ctx.need(bool(osz), C9, R, 'a new block is not set up for objects of this pool', t, e):
                    ru = [x.idx for x in t.find('store', m(e.val, 'cur_entry')) if not is_c(x.val) or x.val.a != 0]
                    fresh[e.val] = new_block(t, R, e.val, osz[0], min(ru + [end]) if not ru else ru[0] - 1)
                ctx.need(t.stored(m(e.val, 'back'), end) is last, C9, R, 'a new block does not know its predecessor', t, e)
                ctx.need(t.stored(m(last, 'next'), end) is e.val, C9, R, 'a new block is not linked behind its predecessor, '
                         'so it is never released', t, e)
                if last not in fresh or True:
                    ctx.need(const_is(t.stored(m(e.val, 'next'), end), True) or any(
                        x.addr is m(e.val, 'next') and x.val.kind == 'obj' for x in t.find('store')), C9, R,
                        'the last block has a successor', t, e)
            else:
                nx = [y.res for y in t.find('load', m(last, 'next'))]
                ctx.need(e.val in nx and t.nz(e.val), C9, R, 'the pool goes on with something else than its next block', t, e)
            last = e.val
        cu = t.find('store', m(last, 'cur_entry'))
        # what the block last said before the final update
        cus = [e for e in cu]
        if not ctx.need(bool(cus), C9, R, 'the entry that is handed out stays free', t, t.ev[-1]):
            continue
        fs = cus[-1]
        c_old = last_value(t, m(last, 'cur_entry'), fs.idx)
        ctx.need(c_old is not None and fs.val is add(c_old, const(1, 32)), C9, R, 'the next free entry does not move '
                 'forward by one', t, fs)
        fss = t.find('store', m(last, 'free_entries'))
        if ctx.need(bool(fss), C9, R, 'the number of free entries is not reduced', t, t.ev[-1]):
            f_old = last_value(t, m(last, 'free_entries'), fss[-1].idx)
            ctx.need(f_old is not None and fss[-1].val is add(f_old, const(-1, 32)), C9, R, 'the number of free entries is '
                     'not reduced by one', t, fss[-1])
            ctx.need(f_old is not None and t.nz(f_old), C9, R, 'an entry is handed out without having seen that one is free',
                     t, fss[-1])
        osz = [y.res for y in t.find('load', addc(pl, off(P, 'obj_size')))]
        okr = False
        if c_old is not None:
            d = sub(t.ret, addc(last, heap))
            for x in sum(((VV.zext(VV.mul(c_old, o, 32), 64), VV.sext(VV.mul(c_old, o, 32), 64),
                      VV.mul(VV.zext(c_old, 64), VV.zext(o, 64), 64)) for o in
                     osz + [y.res for y in t.find('load', m(last, 'object_size'))]), ()):
                okr = okr or d is x
        ctx.need(okr, C9, R, 'the address that is handed out is not the one of the first free entry of the current block', t,
                 t.ev[-1])
        for e in t.writes():
            b = base_off(e.addr)[0]
            ctx.need(e.addr is cbf or e.addr in (m(last, 'cur_entry'), m(last, 'free_entries')) or b is not None and
                     b.kind == 'obj' or e.val.kind == 'obj', C9, R, 'an allocation changes something else', t, e)
    # recycling
    off_rec = 'norecycle' in ctx.cfg
    for t in ctx.paths('synchRecycleObj', 'pool', **kw):
        R, pl, ob = 'pool.recycle', t.args[0], t.args[1]
        rl = addc(pl, off(P, 'recycle_list'))
        w = t.writes()
        if not w:
            ctx.need(t.is0(ob) is True or off_rec, C9, R, 'an object that is given back is lost', t, t.ev[-1])
            continue
        l0 = [e.res for e in t.find('load', rl)]
        a, b = t.last_store(ob, len(t.ev)), t.last_store(rl, len(t.ev))
        ctx.need(len(w) == 2 and a is not None and b is not None and b.val is ob and l0 and a.val is l0[0], C9, R,
                 'an object that is given back does not become the head of the list of recycled objects', t, t.ev[-1])
        ctx.need(t.is0(ob) is False, C9, R, 'NULL can be put into the list of recycled objects', t, t.ev[-1])
    # rollback
    for t in ctx.paths('synchRollback', 'pool', ends=('ret',), **kw):
        R, pl, n, end = 'pool.rollback', t.args[0], t.args[1], len(t.ev)
        cbf = addc(pl, off(P, 'cur_block'))
        c0 = t.find('load', cbf)
        if not c0:
            ctx.need(t.is0(n), C9, R, 'objects are not taken back', t, t.ev[-1])
            for e in t.writes():
                ctx.need(False, C9, R, 'taking back nothing changes the pool', t, e)
            continue
        blocks, cur, out = [], c0[0].res, False
        moves = t.find('store', cbf)
        for e in moves:
            blocks.append(cur)
            bk = [y.res for y in t.find('load', m(cur, 'back'))]
            ctx.need(e.val in bk and t.nz(e.val), C9, R, 'the pool goes back to something else than the previous block', t, e)
            cur = e.val
        blocks.append(cur)
        total = const(0, 32)
        for i, b in enumerate(blocks):
            lc = t.find('load', m(b, 'cur_entry'))
            sc = t.last_store(m(b, 'cur_entry'), end)
            sf = t.last_store(m(b, 'free_entries'), end)
            if sc is None and sf is None:
                continue
            if not ctx.need(bool(lc) and sc is not None and sf is not None, C9, R, 'used and free entries of a block do not '
                            'change together', t, sc or sf):
                continue
            d = sub(lc[0].res, sc.val)
            total = add(total, d)
            lf = [y.res for y in t.find('load', m(b, 'free_entries'))]
            le = [y.res for y in t.find('load', m(b, 'entries')) + t.find('load', addc(pl, off(P, 'entries_per_block')))]
            okf = lf and sub(sf.val, lf[0]) is d or le and const_is(sc.val, True) and sf.val is le[0] or \
                le and sub(le[0], sc.val) is sf.val
            ctx.need(bool(okf), C9, R, 'used and free entries of a block do not add up after taking objects back', t, sf)
            ctx.need(const_is(sc.val, True) or t.known(icmp('ult', lc[0].res, d)) is False, C9, R, 'more objects are taken '
                     'back from a block than were handed out', t, sc)
            if i < len(blocks) - 1:
                ctx.need(const_is(sc.val, True), C9, R, 'a block is left in which objects are still handed out', t, sc)
        rest = sub(n, total)
        ex = [y for y in t.find('load', m(blocks[-1], 'back')) if t.is0(y.res)]
        ctx.need(const_is(rest, True) or t.is0(rest) is True or
                 t.known(icmp('ugt', rest, const(0, 32))) is False or bool(ex), C9, R, 'not exactly the given number of objects is '
                 'taken back', t, t.ev[-1])
        for e in t.writes():
            ctx.need(e.addr is cbf or any(e.addr in (m(b, 'cur_entry'), m(b, 'free_entries')) for b in blocks), C9, R,
                     'taking objects back changes something else', t, e)
    # release
    for t in ctx.paths('synchDestroyPool', 'pool', **dict(kw, pure=('synchFreeMemory',))):
        R, pl = 'pool.destroy', t.args[0]
        h0 = t.find('load', addc(pl, off(P, 'head_block')))
        fr = t.calls('synchFreeMemory')
        if not ctx.need(bool(h0), C9, R, 'the blocks of the pool are not released', t, t.ev[-1]):
            continue
        cur, i = h0[0].res, 0
        while not t.is0(cur) and i <= len(fr):
            f = [c for c in fr if c.x['args'][0] is cur]
            if not ctx.need(len(f) == 1, C9, R, 'a block is not released exactly once', t, t.ev[-1]):
                break
            f = f[0]
            s = f.x['args'][1]
            ctx.need(is_c(s) and (not sizes or cval(s) in sizes), C9 | {'C18'}, R, 'a block is released with another size than it '
                     'was allocated with', t, f)
            for e in t.ev[f.idx + 1:]:
                if e.kind in ('load', 'store') and base_off(e.addr)[0] is cur:
                    ctx.need(False, C9 | {'C08'}, R, 'a block is accessed after it was released', t, e)
            nx = t.find('load', m(cur, 'next'))
            if not ctx.need(bool(nx), C9, R, 'the blocks after the first one are not released', t, t.ev[-1]):
                break
            cur = nx[0].res
            i += 1
        for f in ('head_block', 'cur_block', 'recycle_list'):
            v = t.stored(addc(pl, off(P, f)), len(t.ev))
            ctx.need(const_is(v, True) or v is not None and t.is0(v) is True or f == 'head_block' and
                     t.is0(h0[0].res) is True, C9, R, 'a destroyed pool still leads to its former memory (%s)' % f, t, t.ev[-1])
    ctx.need(len(sizes) == 1, C9, 'pool.blocks', 'blocks have different sizes', where='pool')


def same_size(a, b):
    return a is b or a.kind == b.kind == 'ld' and a.a[1] is b.a[1] or is_c(a) and is_c(b) and cval(a) == cval(b)


def last_value(t, addr, idx):
    """what addr contained before event idx as far as the path knows (stores and loads)"""
    for e in reversed(t.ev[:idx]):
        if e.addr is addr and e.kind in ('load', 'store') and e.size in (4, 8):
            return e.res if e.kind == 'load' else e.val
    return None
