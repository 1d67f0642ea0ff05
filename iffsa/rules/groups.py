"""C06: group and list bodies.

The loops of the group readers and writers are summarised by one generic iteration; the summary (position of the element
visited in round i, guard, carried byte count) is evaluated for array lengths 0..3, i.e. every ordering class of round
number and length, and for sub chunk sizes of both parities.
"""
from ..lib import *
from .transfer import show_trace

WRITERS = ['IFF_writeGroup', 'IFF_writeForm', 'IFF_writeCAT', 'IFF_writeProp', 'IFF_writeList']
READERS = ['IFF_readGroup', 'IFF_readForm', 'IFF_readCAT', 'IFF_readProp', 'IFF_readList']
SIZES = {'prop': (6, 9, 0, 5), 'chunk': (5, 4, 0, 7)}


def args_of(ctx, n):
    f = ctx.m.fns[n]
    return P(('argp', 0)), P(('argp', 1)), P(('argp', len(f.args) - 1))


def c06_write(ctx, rep, n):
    ps = ctx.walk(n)
    file, chunk, bp = args_of(ctx, n)
    g = Grp(ctx, chunk)
    gt = ctx.fld(chunk, 'IFF_Group', 'groupType')
    head = be_bytes(ctx.m.be, gt)
    islist = n.endswith('List')
    bp0 = ('ld', bp, 4, 0)
    sp = specials(ctx, ps)
    cases = [(np, nc, None, None, {}) for np, nc in ((0, 0), (1, 1), (0, 2), (3, 2), (2, 3))]
    own = [{f: v} for f in ('groupType', 'chunkId', 'chunkSize') for v in sorted(sp.get(f, ()))[:6] if f != 'chunkSize' or 60 <= v < 1 << 31]
    cases += [(np, nc, None, None, o) for np, nc in ((0, 0), (3, 2)) for o in own]
    ids = sorted(sp.get('chunkId', ()))[:8]
    sizes = sorted(x for x in sp.get('chunkSize', ()) if x < 100000)[:6]
    cases += [(3, 2, i, z, {}) for i in ids + [None] for z in sizes + [None] if i is not None or z is not None]
    cases = [c + (None,) for c in cases]
    # what the members themselves hold: nothing, a little, and whatever the code singles out
    held = sorted({0, 1} | {v + d for v in sp.get('chunkLength', ()) for d in (0, 1) if v < 1 << 16})[:6]
    cases += [(np, nc, None, z, {}, (l, t)) for np, nc in ((1, 1), (3, 2)) for l in held for t in [0x41414141, 0x4a4a4a4a] + sorted(sp.get('groupType', ()))[:4] for z in (None, 4)]
    for np, nc, mid, msz, own, inner in cases:
        inst = '%s: %d sub chunks%s' % (n, nc, ', %d properties' % np if islist else '')
        if mid is not None:
            inst += ', ID %#x' % mid
        if msz is not None:
            inst += ', size %d' % msz
        if inner is not None:
            inst += ', members of type %#x holding %d chunks' % inner[::-1]
        for f, v in own.items():
            inst += ', own %s %#x' % (f, v)
        size = (lambda a, i: SIZES[a][i]) if msz is None else lambda a, i: msz
        if not islist and np:
            np = 0
        if ps is None:
            rep.und('write-order', inst, 'not enumerable')
            continue
        want = [('prop', i) for i in range(np)] * islist + [('chunk', i) for i in range(nc)]
        total = 4 + sum(padded(size(a, i)) for a, i in want)
        found = 0
        for p in ps:
            if p.status != 'ret':
                continue
            pt = Pt(ctx, p, {bp0: 0})
            pt.V.fn = heapfn(g.get(dict(dict(chunkSize=total, chunkLength=nc, propLength=np), **own),
                                   lambda a, i, f: None if i >= 4 else size(a, i) if f == 'chunkSize' else held_by(inner, a, i, f, mid)))
            if not pt.settle(p.events, p.facts):
                continue
            tr = trace(ctx, pt, p.events, file)
            q = [x for x in tr if x[0] == '?']
            if not q and not feasible(p.facts, pt.V):
                continue
            ok = ret_ok(ctx, 'bool', p.ret, pt.V)
            if ok is False:
                continue
            if q or ok is None:
                rep.und('write-order', inst, q[0][1] if q else 'result')
                continue
            found += 1
            where = '%s:%s' % (p.file, p.line)
            msg = None
            got = []
            for x in tr[4:]:
                if x[0] == 'c' and x[1].name == 'IFF_writeChunk':
                    V = Val(dict(pt.V.l), ptr=dict(pt.V.ptr)); V.fn = pt.V.fn
                    for lid, k in x[2]:
                        iter_fix(V, lid, k)
                    e = g.at(x[1].args[1], V)
                    got.append(e or ('?', show(x[1].args[1])))
                    where = x[1].where()
                else:
                    got.append((x[0], x[1] if not hasattr(x[1], 'name') else x[1].name))
            if [x[0] for x in tr[:4]] != ['b'] * 4 or [x[1] for x in tr[:4]] != head:
                msg = 'the body does not start with the type ID: %s' % show_trace(tr[:4])
                where = '%s:%s' % (p.file, p.line)
            elif got != want:
                if any(x[0] == '?' for x in got):
                    rep.und('write-order', inst, 'element %s' % got)
                    continue
                msg = 'elements written: %s; required: %s' % (fmt(got), fmt(want))
            rep.check('write-order', inst, msg is None, msg or '', where, p)
            if msg is None:
                v = ev(pt.w.load(p.mem, bp, 4), pt.V)
                rep.check('write-count', inst, None if v is None else v == total,
                          'bytes processed advance to %s, the contents occupy %d' % (v, total), '%s:%s' % (p.file, p.line), p)
        if not found:
            rep.und('write-order', inst, 'no success path recognised')


def held_by(inner, a, i, f, mid):
    if f == 'chunkId' and mid is not None:
        return mid
    if inner is None:
        return None
    return {'chunkId': PROP if a == 'prop' else (OTHER, 0x43415420)[i % 2], 'chunkLength': inner[0], 'groupType': inner[1]}.get(f)


def fmt(es):
    return '[' + ' '.join('%s[%s]' % e for e in es) + ']'


PROP, OTHER = 0x50524f50, 0x464f524d


def c06_read(ctx, rep, n):
    ps = ctx.walk(n)
    file, chunk, bp = args_of(ctx, n)
    g = Grp(ctx, chunk)
    islist = n.endswith('List')
    bp0 = ('ld', bp, 4, 0)
    seqs = [[], [(OTHER, 5)], [(PROP, 9), (OTHER, 4), (PROP, 0)], [(OTHER, 0), (0x54455354, 7), (OTHER, 6), (PROP, 5)]]
    sp = specials(ctx, ps)
    plain = len(seqs)
    # what the code singles out, in the middle and at the end
    ids = [i for i in sorted(sp.get('chunkId', ())) if i not in (PROP, OTHER)][:6]
    sizes = sorted(x for x in sp.get('chunkSize', ()) if x < 1 << 24)[:6]
    seqs += [[(OTHER, 4), (i, z)] + tail for i, z in [(i, 5) for i in ids] + [(i, z) for z in sizes for i in [OTHER] + ids] for tail in ([], [(OTHER, 6)])]
    for si, seq in enumerate(seqs):
        total = 4 + sum(padded(c) for _, c in seq)
        for short in sorted({0, 1, 2, padded(seq[-1][1]) - 1}) if seq and si < plain else (0,):
            inst = '%s: %d sub chunks in the stream%s' % (n, len(seq), ', last one cut by %d bytes' % short if short else '')
            if si >= plain:
                inst += ', ID %#x, size %d' % seq[1]
            if ps is None:
                rep.und('read-order', inst, 'not enumerable')
                continue
            found = 0
            for p in ps:
                if p.status != 'ret':
                    continue
                pt = Pt(ctx, p, {bp0: 0})
                cur = {'k': 0}
                vals = dict(chunkSize=total - short, chunkLength=0, propLength=0)
                base = g.get(vals)

                def get(path, off, size, cur=cur, base=base, seq=seq):
                    if path[0] == 'R' and evname(path[1]) == 'IFF_readChunk':
                        nm = g.mem.get(off, (None,))[0]
                        # what follows in the stream, in case it is read
                        cid, size = seq[cur['k']] if cur['k'] < len(seq) else (OTHER, 4)
                        return cid if nm == 'chunkId' else size if nm == 'chunkSize' else None
                    return base(path, off, size)
                pt.V.fn = heapfn(get)

                def hook(LI, k, V, cur=cur):
                    cur['k'] = k
                    if k > len(seq) and 'over' not in cur and all([e.name for e in b.events].count('IFF_readChunk') == 1 for b in LI.backs):
                        cur['over'] = LI
                pt.hook = hook
                if not pt.settle(p.events, p.facts):
                    continue
                tr = trace(ctx, pt, p.events, file)
                q = [x for x in tr if x[0] == '?']
                LI = cur.get('over')
                if LI is not None and (pt.p.facts[:LI.pre[1]] == [] or holds(p.facts[:LI.pre[1]], pt.V) is True):
                    found += 1
                    rep.bad('read-order', inst, 'another sub chunk is read although the declared size is used up', LI.where(), p)
                    continue
                cur['k'] = len(seq)
                pt.V.memo.clear()
                if not q and not feasible(p.facts, pt.V):
                    continue
                ok = ret_ok(ctx, 'bool', p.ret, pt.V)
                if ok is False:
                    continue
                if q or ok is None:
                    rep.und('read-order', inst, q[0][1] if q else 'result')
                    continue
                found += 1
                where = '%s:%s' % (p.file, p.line)
                msg = None
                got = [x[0] if x[0] != 'c' else x[1].name for x in tr]
                if got[:4] != ['i'] * 4:
                    msg = 'the type ID is not read first: %s' % show_trace(tr)
                elif got[4:] != ['IFF_readChunk'] * len(seq):
                    msg = 'sub chunks read: %s; the declared size holds %d' % (got[4:], len(seq))
                else:
                    gtv = pt.w.load(p.mem, g_ptr(ctx, chunk, 'groupType'), 4)
                    d = denotes(ctx, gtv, [x[1] for x in tr[:4]])
                    if d is None:
                        rep.und('read-order', inst, 'type ID')
                        continue
                    if not d:
                        msg = 'the type ID stored is %s, not the value read' % show(gtv)
                rep.check('read-order', inst, msg is None, msg or '', where, p)
                if msg is None:
                    want = dict(chunkLength=len([1 for i, _ in seq if not (islist and i == PROP)]))
                    if islist:
                        want['propLength'] = len([1 for i, _ in seq if i == PROP])
                    for f, wv in want.items():
                        v = ev(pt.w.load(p.mem, padd(chunk, g.off[f], ()), 4), pt.V)
                        rep.check('read-count', '%s %s' % (inst, f), None if v is None else v == wv,
                                  '%s ends as %s after reading %d sub chunks, required %d' % (f, v, len(seq), wv), where, p)
                    v = ev(pt.w.load(p.mem, bp, 4), pt.V)
                    rep.check('read-count', inst, None if v is None else v == total,
                              'bytes processed advance to %s, the contents occupy %d' % (v, total), where, p)
            if not found:
                rep.und('read-order', inst, 'no success path recognised')
    # where a sub chunk goes, per way round the loop
    for p in ps or []:
        for LI in loops_of(p):
            for b in LI.backs:
                rs = [e for e in b.events if e.name == 'IFF_readChunk']
                if len(rs) != 1:
                    continue
                placed(ctx, rep, n, g, chunk, LI, b, rs[0], islist, p, ids)


def g_ptr(ctx, obj, f):
    return ctx.fptr(obj, 'IFF_Group', f)


def placed(ctx, rep, n, g, chunk, LI, b, r, islist, p, ids=()):
    w = ctx.walker()
    res = []
    for arr, ln in (('chunk', 'chunkLength'), ('prop', 'propLength')):
        if arr == 'prop' and not islist:
            continue
        lp = padd(chunk, g.off[ln], ())
        key = ('m', lp, 4)
        if key not in LI.sym:
            old = new = w.load(b.mem, lp, 4)
        else:
            old, new = LI.sym[key], b.next[key]
        if new == old:
            continue
        if add(32, old, C(32, 1)) != new:
            res.append((arr, None))
            continue
        a = w.load(b.mem, padd(chunk, g.off[arr], ()), 8, True)
        x = w.load(b.mem, padd(a, 0, [(cast('zext', 64, old), 8)]), 8, True) if a[0] == 'p' else None
        res.append((arr, x))
    isprop = None
    for cid in (PROP, OTHER, 0x54455354) + tuple(ids):
        V = Val()
        V.fn = heapfn(lambda path, off, size: cid if path == ('R', r.id) and g.mem.get(off, (None,))[0] == 'chunkId' else None)
        q = Pt(ctx, b, V.l, 'lib', {})
        q.V.fn = V.fn
        if not q.settle(b.events, b.facts):
            continue
        inst = '%s: sub chunk %s' % (n, 'PROP' if cid == PROP else 'FORM' if cid == OTHER else '%#x' % cid if cid in ids else 'other')
        want = 'prop' if islist and cid == PROP else 'chunk'
        if len(res) != 1:
            if any(x is None for _, x in res):
                rep.und('read-place', inst, 'arrays')
            else:
                rep.bad('read-place', inst, 'a sub chunk read is stored in %d arrays' % len(res), r.where(), p)
            continue
        arr, x = res[0]
        others(ctx, rep, n, g, chunk, LI, b, r, arr, cid, p)
        if x is None:
            rep.und('read-place', inst, 'position in the array')
        elif arr != want:
            rep.bad('read-place', inst, 'the sub chunk goes to the %s array instead of the %s array' % (arr, want), r.where(), p)
        else:
            good = True if x == r.ret else False if x[0] == 'p' and x[1][0] in ('ret', 'argp') else None
            rep.check('read-place', inst, good, 'the last array element is %s instead of the sub chunk read' % show(x), r.where(), p)


def others(ctx, rep, n, g, chunk, LI, b, r, arr, cid, p):
    """no round of the loop touches the elements read before"""
    w = ctx.walker()
    lp = padd(chunk, g.off[arr + 'Length'], ())
    old = LI.sym.get(('m', lp, 4)) or w.load(b.mem, lp, 4)
    xs = leaves(old)
    if len(xs) != 1:
        return
    x = xs.pop()
    a = w.load(b.mem, padd(chunk, g.off[arr], ()), 8, True)
    bp = P(('argp', len(ctx.m.fns[n].args) - 1))
    for L, z in itertools.product(sorted({0, 1, 2, 3, 4, 7, 8, 15, 16} | {v for v in specials(ctx, [p]).get('', ()) if v < 1 << 16}), (4, 5)):
        V = Val({('ld', bp, 4, 0): 4})
        if LI.sym.get(('m', bp, 4)) is not None:
            V.l[LI.sym['m', bp, 4]] = 4
        if x[0] == 'iter':
            iter_fix(V, x[1], L)
        else:
            V.l[x] = L
        own = g.get(dict(chunkSize=1 << 20))
        V.fn = heapfn(lambda path, off, size: {'chunkId': cid, 'chunkSize': z}.get(g.mem.get(off, (None,))[0]) if path == ('R', r.id)
                      else own(path, off, size))
        q = Pt(ctx, b, V.l, 'lib', {})
        q.V.fn = V.fn
        n0 = ev(old, q.V)
        if n0 is None or not q.settle(b.events, b.facts):
            continue
        inst = '%s: sub chunk after %d others in the %s array' % (n, n0, arr)
        cells, vague = {}, False
        for e in b.events:
            if e.kind == 'st' and e.args[0][0] == 'p' and a[0] == 'p' and e.args[0][1] == a[1] and e.args[1] == C(64, 8):
                o = ptrdiff(e.args[0], a)
                o = None if o is None else ev(o, q.V)
                if o is None or o % 8:
                    vague = True
                else:
                    cells[(o if o < 1 << 63 else o - (1 << 64)) // 8] = (e.args[2], e)
        h = holds(b.facts, q.V)
        hit = [k for k in cells if k != n0]
        rep.check('read-keeps', inst, None if vague or hit and not h else not hit,
                  'element %s of the array is overwritten while element %d is added' % (hit[:1], n0), cells[hit[0]][1].where() if hit else r.where(), p)


def c06(ctx, rep):
    rep.need('write-order', 20)
    rep.need('read-order', 20)
    for n in WRITERS:
        c06_write(ctx, rep, n)
    for n in READERS:
        c06_read(ctx, rep, n)


RULES = {'C06': c06}
