"""C18, C19: creating chunks, adding them to groups, declared sizes.

Final memory of every path of the create/add/update functions, from the dataflow summary; size arithmetic is evaluated for
both parities, contents-type updates for every equality relation of the types involved.
"""
from ..lib import *

ADD = ['IFF_addToGroup', 'IFF_addToForm', 'IFF_addToCAT', 'IFF_addToProp', 'IFF_addToList', 'IFF_addToCATAndUpdateContentsType',
       'IFF_addToListAndUpdateContentsType']
UPDATE = ['IFF_updateGroupChunkSizes', 'IFF_updateFormChunkSizes', 'IFF_updateCATChunkSizes', 'IFF_updatePropChunkSizes',
          'IFF_updateListChunkSizes']


def ident(s):
    return int.from_bytes(s.encode(), 'big')


KINDS = {'Form': ident('FORM'), 'CAT': ident('CAT '), 'List': ident('LIST'), 'Prop': ident('PROP')}
JJJJ = ident('JJJJ')


def ret_paths(ctx, n, **kw):
    ps = ctx.walk(n, **kw)
    return None if ps is None else [p for p in ps if p.status == 'ret']


# ---------------------------------------------------------------- C18
def addcases(ctx, ps):
    """(size of the chunk added, members of the group before): lengths of both arrays vary on their own, sizes take both parities,
    and every value the code singles out is among them"""
    sp = specials(ctx, ps)
    out = [(c, dict(chunkSize=100, chunkLength=2, propLength=1)) for c in (0, 1, 4, 7)]
    out += [(5, dict(chunkSize=s, chunkLength=a, propLength=b)) for a, b, s in ((0, 0, 4), (0, 3, 53), (3, 0, 53), (1, 1, 30))]
    for f in ('chunkSize', 'chunkLength', 'propLength'):
        for v in sorted(x for x in sp.get(f, ()) if x < 1 << 20)[:8]:
            out.append((5, dict(dict(chunkSize=1000, chunkLength=2, propLength=2), **{f: v})))
    out += [(v, dict(chunkSize=100, chunkLength=2, propLength=1)) for v in sorted(x for x in sp.get('chunkSize', ()) if x < 1 << 20)[:8]]
    # the largest sums that are chunk sizes, and the smallest ones that are not
    out += [(c, dict(chunkSize=mask(31) - padded(c) + d, chunkLength=2, propLength=1)) for c in (0, 5, 1000001) for d in (-1, 0, 1, 2)]
    out += [(mask(31) - 109 + d, dict(chunkSize=101, chunkLength=2, propLength=1)) for d in (-1, 0, 1)]
    out += [(mask(31), dict(chunkSize=s, chunkLength=0, propLength=0)) for s in (4, 100, mask(31))]
    return out


def refused(ctx, p, pt):
    """the add operation reports failure at this point although nothing it calls failed: True, False, or None when unknown"""
    s = ret_ok(ctx, 'bool', p.ret, pt.V)
    return None if s is None else not s and (holds(p.facts, pt.V) or None)


def c18(ctx, rep):
    rep.need('padded-size', 18)
    rep.need('size-after-add', 8 * 4)
    rep.need('size-recomputed', 20)
    rep.need('ancestors', 5)
    n = 'IFF_incrementChunkSize'
    chunk = P(('argp', 1))
    cs = ctx.fld(chunk, 'IFF_Chunk', 'chunkSize')
    for c in (0, 1, 2, 3, 4, 5, 12, 13, 1000001):
        for s0 in (0, 4, 101):
            inst = '%s size %d sub chunk %d' % (n, s0, c)
            got = set()
            for p in ret_paths(ctx, n) or []:
                r = follow(ctx, p, Val({cs: c, ('arg', 0, 32): s0}))
                if r is None:
                    continue
                v = ev(p.ret, r[0].V)
                rep.check('padded-size', inst, None if v is None or r[2] else v == s0 + padded(c),
                          'yields %s, required %d + 8 + %d%s' % (v, s0, c, ' + 1 pad byte' if c & 1 else ''), '%s:%s' % (p.file, p.line), p)
                got.add(v)
            if not got:
                rep.und('padded-size', inst, 'no path')
    for n in ADD + ['IFF_addPropToList']:
        ps = ret_paths(ctx, n)
        g, c1 = P(('argp', 0)), P(('argp', 1))
        G, S = Grp(ctx, g), Grp(ctx, c1)
        gp = padd(g, G.off['chunkSize'], ())
        for c, own in addcases(ctx, ps):
            s0 = own['chunkSize']
            inst = '%s sub chunk size %d, %s' % (n, c, ' '.join('%s %s' % x for x in sorted(own.items())))
            ok = 0
            no = None
            big = s0 + padded(c) > mask(31)
            for p in ps or []:
                V = Val()
                V.fn = heapfn(joinget(G.get(own), S.get(dict(chunkSize=c))))
                r = follow(ctx, p, V)
                if r is None:
                    continue
                if not ret_ok(ctx, 'bool', p.ret, r[0].V):
                    if refused(ctx, p, r[0]):
                        no = p
                    continue
                ok += 1
                if big:
                    h = None if r[2] else holds(p.facts, r[0].V)
                    rep.check('size-limit', inst, None if h is None else not h, 'the addition succeeds although the declared size would become '
                              '%d, which is not a chunk size' % (s0 + padded(c)), '%s:%s' % (p.file, p.line), p)
                    continue
                v = ev(r[0].w.load(p.mem, gp, 4), r[0].V)
                rep.check('size-after-add', inst, None if v is None or r[2] else v == s0 + padded(c),
                          'declared size goes from %d to %s, required %d' % (s0, v, s0 + padded(c)), '%s:%s' % (p.file, p.line), p)
            if not ok and big and no is not None:
                rep.ok('size-limit', inst)
            elif not ok and no is not None:
                rep.bad('size-after-add', inst, 'a chunk that fits is refused', '%s:%s' % (no.file, no.line), no)
            elif not ok:
                rep.und('size-after-add', inst, 'no success path')
    rep.need('size-limit', 8)
    SZ = {'chunk': (5, 4, 0, 7), 'prop': (6, 9, 0, 1)}
    for n in UPDATE:
        g = P(('argp', 0))
        for nc, np in ((0, 0), (1, 0), (3, 2), (0, 1), (2, 3)):
            recomputed(ctx, rep, n, ret_paths(ctx, n), g, nc, np, n == 'IFF_updateListChunkSizes', None, SZ)
    n = 'IFF_updateChunkSizes'
    ps = ret_paths(ctx, n)
    g = P(('argp', 0))
    for nm, cid in sorted(KINDS.items()) + [('raw', ident('BODY'))]:
        for nc, np in ((0, 0), (3, 2)):
            recomputed(ctx, rep, '%s on %s' % (n, nm), ps, g, nc, np, nm == 'List', cid, SZ)
        # ancestors
        G = Grp(ctx, g)
        inst = '%s on %s' % (n, nm)
        seen = False
        for p in ps or []:
            V = Val(ptr={})
            V.fn = heapfn(G.get(dict(chunkId=cid, chunkLength=1, propLength=1, chunkSize=50), lambda a, i, f: 3 if f == 'chunkSize' else None))
            par = P(('ldp', padd(g, G.off['parent'], ()), 0))
            V.ptr[par[1]] = 0x7000
            r = follow(ctx, p, V)
            if r is None:
                continue
            seen = True
            recs = [e for e in p.events if e.kind in ('rec', 'call') and e.name in (n,)]
            lp = [LI for LI in loops_of(p) if any(s[0] == 'p' and s[1][0] == 'lphi' and LI.init[k] in (g, par) for k, s in LI.sym.items())]
            good = any(opath(e.args[0], r[0].V) == (('*', G.path, G.off['parent']), 0) for e in recs)
            if not good and lp:
                rep.und('ancestors', inst, 'walks the parents in a loop')
                continue
            rep.check('ancestors', inst, good, 'a chunk with a parent is updated without updating the parent', '%s:%s' % (p.file, p.line), p)
        if not seen:
            rep.und('ancestors', inst, 'no path')
    # empty groups
    for n in sorted(x for x in ctx.m.fns if x.startswith('IFF_createEmpty') and ctx.m.body(x)):
        for p in ret_paths(ctx, n) or []:
            r = follow(ctx, p, Val())
            if r is None or p.ret == NULL or p.ret[0] != 'p':
                continue
            v = ev(r[0].w.load(p.mem, padd(p.ret, ctx.m.off('IFF_Chunk', 'chunkSize'), ()), 4), r[0].V)
            rep.check('empty-size', n, None if v is None else v == 4, 'an empty group is created with size %s instead of 4' % v,
                      '%s:%s' % (p.file, p.line), p)
    rep.need('empty-size', 6)


def recomputed(ctx, rep, name, ps, g, nc, np, islist, cid, SZ):
    G = Grp(ctx, g)
    inst = '%s: %d sub chunks, %d properties' % (name, nc, np)
    isgroup = cid is None or cid in KINDS.values()
    want = 4 + sum(padded(SZ['chunk'][i]) for i in range(nc)) + (sum(padded(SZ['prop'][i]) for i in range(np)) if islist else 0) if isgroup else 999
    sp = specials(ctx, ps) if (nc, np) == (3, 2) else {}
    for mid in sorted(sp.get('chunkId', ()))[:10]:
        one_recomputed(ctx, rep, inst + ', members of ID %#x' % mid, ps, g, G, nc, np, cid, SZ, want, {'chunkId': mid})
    for z in sorted(x for x in sp.get('chunkSize', ()) if x < 1 << 20)[:6]:
        one_recomputed(ctx, rep, inst + ', members of size %d' % z, ps, g, G, nc, np, cid, SZ,
                       4 + (nc + (np if islist else 0)) * padded(z) if isgroup else 999, {'chunkSize': z})
    for t in sorted(sp.get('groupType', ()))[:6]:
        one_recomputed(ctx, rep, inst + ', type %#x' % t, ps, g, G, nc, np, cid, SZ, want, {}, t)
    one_recomputed(ctx, rep, inst, ps, g, G, nc, np, cid, SZ, want, {})


def one_recomputed(ctx, rep, inst, ps, g, G, nc, np, cid, SZ, want, mem, gtype=None):
    seen = False
    for p in ps or []:
        V = Val(ptr={})
        vals = dict(chunkLength=nc, propLength=np, chunkSize=999)
        if gtype is not None:
            vals['groupType'] = gtype
        if cid is not None:
            vals['chunkId'] = cid
            V.ptr[('ldp', padd(g, G.off['parent'], ()), 0)] = 0
        V.fn = heapfn(G.get(vals, lambda a, i, f: mem.get(f, SZ[a][i] if f == 'chunkSize' and i < 4 else None)))
        r = follow(ctx, p, V)
        if r is None:
            continue
        seen = True
        v = ev(r[0].w.load(p.mem, padd(g, G.off['chunkSize'], ()), 4), r[0].V)
        rep.check('size-recomputed', inst, None if v is None or r[2] else v == want, 'declared size becomes %s, required %d' % (v, want),
                  '%s:%s' % (p.file, p.line), p)
    if not seen:
        rep.und('size-recomputed', inst, 'no path')


# ---------------------------------------------------------------- C19
def c19(ctx, rep):
    rep.need('append', 9 * 3)
    rep.need('created', 20)
    rep.need('contents-type', 20)
    w = ctx.walker()
    for n in ADD + ['IFF_attachToGroup', 'IFF_addPropToList']:
        g, c1 = P(('argp', 0)), P(('argp', 1))
        arr, ln = ('prop', 'propLength') if n == 'IFF_addPropToList' else ('chunk', 'chunkLength')
        oarr, oln = ('chunk', 'chunkLength') if arr == 'prop' else ('prop', 'propLength')
        G, S = Grp(ctx, g), Grp(ctx, c1)
        ps = ret_paths(ctx, n)
        sp = specials(ctx, ps)
        for L, LO, own, new in appendcases(sp, ln, oln):
            inst = '%s to %d members (%d others)' % (n, L, LO) + ''.join(', %s %#x' % x for x in sorted(own.items())) + \
                ''.join(', new %s %#x' % x for x in sorted(new.items()))
            ok = 0
            no = None
            s0, c = own.get('chunkSize', 100), new.get('chunkSize', 6)
            fits = s0 + padded(c) <= mask(31) and c <= mask(31)
            for p in ps or []:
                V = Val()
                V.fn = heapfn(joinget(G.get(dict(dict({'chunkSize': 100, ln: L, oln: LO}), **own)), S.get(dict(dict(chunkSize=6), **new))))
                r = follow(ctx, p, V)
                if r is None:
                    continue
                if not ret_ok(ctx, 'bool', p.ret, r[0].V):
                    if refused(ctx, p, r[0]):
                        no = p
                    continue
                ok += 1
                where = '%s:%s' % (p.file, p.line)
                appended(ctx, rep, inst, G, g, c1, arr, ln, L, p, r[0], where)
                nl = ev(w.load(p.mem, padd(g, G.off[oln], ()), 4), r[0].V) if n == 'IFF_addPropToList' else LO
                if n == 'IFF_addPropToList':
                    rep.check('append', inst + ' (sub chunks)', None if nl is None else nl == LO, 'adding a property changes the number of sub chunks to %s' % nl, where, p)
            if not ok and no is not None and (fits or n == 'IFF_attachToGroup'):
                rep.bad('append', inst, 'the chunk is refused although nothing failed', '%s:%s' % (no.file, no.line), no)
            elif not ok and no is not None:
                rep.ok('append', inst + ': refused')
            elif not ok:
                rep.und('append', inst, 'no success path')
    created(ctx, rep, w)
    contents(ctx, rep, w)
    # while reading
    from . import groups
    rep.need('append-read', 5)
    for n in groups.READERS:
        for p in ret_paths(ctx, n) or []:
            for LI in loops_of(p):
                for b in LI.backs:
                    rs = [e for e in b.events if e.name == 'IFF_readChunk']
                    if len(rs) != 1:
                        continue
                    par = w.load(b.mem, padd(rs[0].ret, ctx.m.off('IFF_Chunk', 'parent'), ()), 8, True)
                    groups.placed(ctx, rep, n, Grp(ctx, P(('argp', 1))), P(('argp', 1)), LI, b, rs[0], n.endswith('List'), p)
                    rep.check('append-read', n, par == P(('argp', 1)) or (None if par[0] != 'p' or par[1][0] not in ('argp', 'ldp') else False),
                              'the parent of a sub chunk read becomes %s instead of the group' % show(par), rs[0].where(), p)


def appendcases(sp, ln, oln):
    """(length, length of the other array, other members of the group, members of the chunk added)"""
    for L in (0, 1, 3):
        yield L, L, {}, {}
    for L, LO in ((0, 2), (2, 0), (4, 1)):
        yield L, LO, {}, {}
    for v in sorted(x for x in sp.get(ln, ()) if x < 1 << 20)[:8]:
        yield v, 1, {}, {}
    for v in sorted(x for x in sp.get(oln, ()) if x < 1 << 20)[:8]:
        yield 2, v, {}, {}
    for f in ('chunkSize', 'chunkId', 'groupType'):
        for v in sorted(set(sp.get(f, ())) | ({mask(32), 1 << 31, mask(31), 0, 7} if f == 'chunkSize' else set()))[:16]:
            yield 2, 2, {f: v}, {}
            yield 2, 2, {}, {f: v}


def appended(ctx, rep, inst, G, g, c1, arr, ln, L, p, pt, where):
    w = ctx.walker()
    V = pt.V
    nl = ev(w.load(p.mem, padd(g, G.off[ln], ()), 4), V)
    msg = None
    und = None
    if nl is None:
        und = 'count'
    elif nl != L + 1:
        msg = 'the number of members goes from %d to %d' % (L, nl)
    a = w.load(p.mem, padd(g, G.off[arr], ()), 8, True)
    old = P(('ldp', padd(g, G.off[arr], ()), 0))
    if a[0] == 'p' and not msg:
        # walk the stores to the array, newest first
        cells = {}
        mem = p.mem
        while mem is not None:
            ent, mem = mem
            if ent[0] == 'st' and ent[1][0] == 'p' and ent[1][1] == a[1]:
                o = ptrdiff(ent[1], a)
                o = ev(o, V)
                if o is None:
                    und = 'position of a store'
                elif o % 8 == 0:
                    cells.setdefault(o // 8, ent[3])
            elif ent[0] in ('data', 'fill', 'lclob', 'clob') and ent[0] != 'clob' and len(ent) > 1:
                if ent[0] == 'lclob' and any(x == ('base', a[1]) or x[0] == 'all' for x in ent[3]) or \
                        ent[0] != 'lclob' and ent[1][0] == 'p' and ent[1][1] == a[1]:
                    und = 'members copied in a loop'
        x = cells.get(L)
        if x is None and und is None:
            msg = 'no member is stored at position %d' % L
        elif x is not None and x != c1:
            msg = 'position %d receives %s instead of the chunk added' % (L, show(x))
        for k in cells:
            if 0 <= k < L and msg is None:
                msg = 'the existing member %d is overwritten' % k
        if msg is None and und is None:
            src = [e for e in calls(p) if e.ret == P(a[1]) or e.ret == a]
            if a[1] == old[1]:
                pass
            elif src and src[0].name in ('realloc', 'reallocarray'):
                if opath(src[0].args[0], V) != opath(old, V):
                    msg = 'the array is not grown from the existing one (%s)' % show(src[0].args[0])
            elif L > 0:
                e0 = w.load(p.mem, a, 8, True)
                if e0 != P(('ldp', old, 0)):
                    if src and src[0].name in ('malloc', 'calloc') and e0[0] == 'p' and e0[1] == ('ldp', a, 0):
                        msg = 'the new array does not receive the existing members'
                    else:
                        und = 'source of the existing members'
    elif not msg:
        und = 'array'
    if not msg:
        par = w.load(p.mem, padd(c1, G.off['parent'], ()), 8, True)
        if par != g:
            msg = 'the parent of the chunk added is %s, not the group' % show(par)
    rep.check('append', inst, None if und and not msg else msg is None, msg or und or '', where, p)


def created(ctx, rep, w):
    A = lambda i: ('arg', i, 32)
    table = {'IFF_createChunk': dict(chunkId=A(0), chunkSize=A(1)),
             'IFF_createRawChunk': dict(chunkId=A(0), chunkSize=A(1)),
             'IFF_createGroup': dict(chunkId=A(0), chunkSize=A(1), groupType=A(2)),
             'IFF_createEmptyGroup': dict(chunkId=A(0), groupType=A(1), chunkSize=C(32, 4))}
    for k, cid in KINDS.items():
        c = C(32, cid)
        table['IFF_create' + k] = dict(chunkId=c, chunkSize=A(0), groupType=A(1))
        if k in ('CAT', 'List'):
            table['IFF_createEmpty' + k] = dict(chunkId=c, groupType=C(32, JJJJ), chunkSize=C(32, 4))
            table['IFF_createEmpty%sWithContentsType' % k] = dict(chunkId=c, groupType=A(0), chunkSize=C(32, 4))
        else:
            table['IFF_createEmpty' + k] = dict(chunkId=c, groupType=A(0), chunkSize=C(32, 4))
        table['IFF_createUnparsed' + k] = dict(chunkId=c, chunkSize=A(1))
    G = Grp(ctx, P(('argp', 0)))
    size = {n: s for n, s in G.mem.values()}
    for n, want in sorted(table.items()):
        if not ctx.has(n):
            rep.und('created', n, 'not present')
            continue
        want = dict(want)
        want['parent'] = NULL
        if n not in ('IFF_createChunk', 'IFF_createRawChunk'):
            want.update(chunkLength=C(32, 0), chunk=NULL)
            if 'List' in n:
                want.update(propLength=C(32, 0), prop=NULL)
        ps = ret_paths(ctx, n)
        extra = sorted(set().union(*specials(ctx, ps, 1).values()) if ps else ())[:24]
        ok = 0
        for a0, a1, a2 in [(0x41424344, 0x31, 0x51525354)] + [(0x41424344, v, 0x51525354) for v in (0, 1, 3, 5, mask(32), 1 << 31)] + \
                [x for v in extra for x in ((v, 0x31, 0x51525354), (0x41424344, v, 0x51525354), (0x41424344, 0x31, v))]:
            lv = {('arg', 0, 32): a0, ('arg', 1, 32): a1, ('arg', 2, 32): a2}
            if 'Unparsed' in n:
                lv[A(0)] = want['chunkId'][2]
            for p in ps or []:
                r = follow(ctx, p, Val(lv))
                if r is None or p.ret[0] != 'p':
                    continue
                ok += 1
                inst = '%s' % n if (a0, a1, a2) == (0x41424344, 0x31, 0x51525354) else '%s(%#x, %#x, %#x)' % (n, a0, a1, a2)
                for f, t in sorted(want.items()):
                    got = w.load(p.mem, padd(p.ret, G.off[f], ()), size[f], size[f] == 8)
                    a, b = ev(got, r[0].V), ev(t, r[0].V)
                    if a is None and got[0] in ('undef', 'ld') and leaves(got) and not any(x[0] == 'arg' for x in leaves(got)):
                        rep.bad('created', '%s %s' % (inst, f), 'the %s of the new chunk is left undefined' % f, '%s:%s' % (p.file, p.line), p)
                        continue
                    if a is None and got[0] == 'p' and got[1][0] == 'ldp':
                        rep.bad('created', '%s %s' % (inst, f), 'the %s of the new chunk is left undefined' % f, '%s:%s' % (p.file, p.line), p)
                        continue
                    rep.check('created', '%s %s' % (inst, f), None if a is None else a == b,
                              'the %s of the new chunk is %s instead of %s' % (f, show(got), show(t)), '%s:%s' % (p.file, p.line), p)
        if not ok:
            rep.und('created', n, 'no success path')


def contents(ctx, rep, w):
    TA, TB = ident('AAAA'), ident('BBBB')
    for n in ('IFF_addToCATAndUpdateContentsType', 'IFF_addToListAndUpdateContentsType'):
        g, c1 = P(('argp', 0)), P(('argp', 1))
        G, S = Grp(ctx, g), Grp(ctx, c1)
        ps = ret_paths(ctx, n)
        sp = specials(ctx, ps)
        more = sorted(set(sp.get('groupType', ())) - {JJJJ, TA, TB})[:4]
        for L in sorted({0, 1, 2, 3} | {x for x in sp.get('chunkLength', ()) if x < 1 << 16}):
            for cur in [JJJJ, TA, TB] + more:
                for cid in (KINDS['Form'], KINDS['CAT'], KINDS['List']):
                    for ty in [TA, JJJJ] + more:
                        want = ty if L == 0 else cur if cur in (JJJJ, ty) else JJJJ
                        inst = '%s: %d members of type %s, new %s of type %s' % (n, L, nm(cur), nm(cid), nm(ty))
                        ok = 0
                        for p in ps or []:
                            V = Val()
                            V.fn = heapfn(joinget(G.get(dict(chunkSize=100, chunkLength=L, propLength=0, groupType=cur)),
                                                  S.get(dict(chunkSize=6, chunkId=cid, groupType=ty))))
                            r = follow(ctx, p, V)
                            if r is None or not ret_ok(ctx, 'bool', p.ret, r[0].V):
                                continue
                            ok += 1
                            v = ev(w.load(p.mem, padd(g, G.off['groupType'], ()), 4), r[0].V)
                            rep.check('contents-type', inst, None if v is None else v == want,
                                      'contents type becomes %s instead of %s' % (nm(v or 0), nm(want)), '%s:%s' % (p.file, p.line), p)
                        if not ok:
                            rep.und('contents-type', inst, 'no success path')


def nm(v):
    return v.to_bytes(4, 'big').decode('latin1')


RULES = {'C18': c18, 'C19': c19}
