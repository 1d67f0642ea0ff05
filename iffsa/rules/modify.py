"""C18, C19, C38: what an operation leaves behind, object by object.

The add, attach and update operations are evaluated on concrete hierarchies (group with its members, the arrays that hold them, the chunk
added, with and without memory, the enlarged array moved or in place), and the heap they leave is compared with the one required: nothing but
the array, the count, the declared size, the contents type and the parent may differ, and nothing at all when the operation fails.
"""
import itertools
from ..lib import *
from ..heap import LiveHeap, LiveEvaluator, Stuck, Wrong
from .growth import capacity

A4 = lambda s: int.from_bytes(s.encode(), 'big')
FORM, CAT, LIST, PROP, JJJJ, BODY = map(A4, ('FORM', 'CAT ', 'LIST', 'PROP', 'JJJJ', 'BODY'))
KIND = {'IFF_addToForm': (FORM,), 'IFF_addToCAT': (CAT, LIST), 'IFF_addToProp': (PROP,), 'IFF_addToList': (LIST,), 'IFF_addPropToList': (LIST,),
        'IFF_addToCATAndUpdateContentsType': (CAT, LIST), 'IFF_addToListAndUpdateContentsType': (LIST,)}
ADDS = ['IFF_addToGroup', 'IFF_attachToGroup'] + sorted(KIND)
GROUPS = (FORM, CAT, LIST, PROP)
TA, TB = A4('AAAA'), A4('BBBB')


class Hier:
    """one group with members, in a live heap"""

    def __init__(self, ctx, kind, gtype, sizes, psizes, size=None, types=(), parent=False):
        h = self.h = LiveHeap(ctx)
        self.ctx, self.kind = ctx, kind
        self.g = h.struct('the group', 'IFF_List' if kind == LIST else 'IFF_Group')
        self.parent = h.struct('its parent', 'IFF_Group', chunkId=CAT, chunkSize=400, parent=0, groupType=JJJJ, chunkLength=1) if parent else 0
        if parent:
            arr = h.obj('its parent.chunk', 8)
            h.set(arr, 8, self.g)
            h.field(self.parent, 'IFF_Group', chunk=arr)
        total = 4 + sum(map(padded, sizes)) + sum(map(padded, psizes))
        h.field(self.g, 'IFF_Group', chunkId=kind, chunkSize=total if size is None else size, parent=self.parent, groupType=gtype)
        self.members = self.array('chunk', 'IFF_Group', sizes, FORM if kind in (CAT, LIST) else BODY, types)
        self.props = []
        if kind == LIST:
            self.props = self.array('prop', 'IFF_List', psizes, PROP, ())

    def array(self, name, struct, sizes, cid, types):
        h = self.h
        ms = []
        arr = h.obj('the group.%s' % name, capacity(self.ctx, name, len(sizes))) if sizes else 0
        for i, s in enumerate(sizes):
            x = h.struct('%s %d' % (name, i), 'IFF_Group' if cid != BODY else 'IFF_RawChunk', chunkId=cid, chunkSize=s, parent=self.g)
            if cid != BODY:
                h.field(x, 'IFF_Group', groupType=types[i] if i < len(types) else TA, chunkLength=0, chunk=0)
            else:
                h.field(x, 'IFF_RawChunk', chunkData=0)
            h.set(arr + 8 * i, 8, x)
            ms.append(x)
        h.field(self.g, struct, **{name: arr, name + 'Length': len(sizes)})
        return ms

    def added(self, cid, size, ty=TA, parent=0):
        h = self.h
        st = {LIST: 'IFF_List', FORM: 'IFF_Form', CAT: 'IFF_CAT', PROP: 'IFF_Prop'}.get(cid, 'IFF_RawChunk')
        x = h.struct('the chunk added', st, chunkId=cid, chunkSize=size, parent=parent)
        if cid in GROUPS:
            h.field(x, 'IFF_Group', groupType=ty, chunkLength=0, chunk=0)
            if cid == LIST:
                h.field(x, 'IFF_List', propLength=0, prop=0)
        else:
            h.field(x, 'IFF_RawChunk', chunkData=0)
        return x

    def fields(self, a, struct):
        m = self.ctx.m
        for f in m.structs[struct]['fields']:
            if f['size'] in (1, 2, 4, 8):
                yield f['name'], a + f['off'], f['size']
            else:
                yield from ((k, a + f['off'] + o, z) for k, o, z in self.nested(f))

    def nested(self, f):
        return ()


def names(ctx):
    """(offset, size) -> name of a member, for messages"""
    out = {}
    for st in ('IFF_List', 'IFF_Group', 'IFF_Chunk', 'IFF_RawChunk'):
        for f in (ctx.m.structs.get(st) or {}).get('fields', ()):
            out[(f['off'], f['size'])] = f['name']
    return out


def cases(ctx, f, ps, deep):
    """the hierarchies an add operation is judged on"""
    sp = specials(ctx, ps)
    isprop = f == 'IFF_addPropToList'
    kinds = KIND.get(f, GROUPS)
    S = (3, 6, 0, 9, 1)
    update = 'ContentsType' in f

    def case(kind=kinds[0], gtype=TA, n=2, np=1, c=5, size=None, cid=None, ty=TA, types=(), parent=False, mem='moves', old=0, sizes=None):
        sizes = [S[i % 5] for i in range(n)] if sizes is None else sizes
        cid = (PROP if isprop else FORM if kind in (CAT, LIST) else BODY) if cid is None else cid
        return dict(kind=kind, gtype=gtype, sizes=sizes, psizes=[S[(i + 2) % 5] for i in range(np)] if kind == LIST else [], c=c, size=size, cid=cid,
                    ty=ty, types=types, parent=parent, mem=mem, old=old)
    for kind in kinds:
        for n, np in ((0, 0), (0, 2), (1, 1), (2, 0), (3, 2), (4, 1)):
            for mem in ('moves', 'stays', None):
                yield case(kind, n=n, np=np, mem=mem)
        for c in (0, 1, 4, 7):
            yield case(kind, c=c)
        yield case(kind, parent=True)
        yield case(kind, old=0x7770000, cid=FORM if kind in (CAT, LIST) and not isprop else None)
        if not isprop:
            for cid in (FORM, CAT, LIST, PROP, BODY):
                yield case(kind, cid=cid, c=6)
    # declared sizes the members do not account for, and the largest ones
    for s in (4, 5, 100, 101):
        yield case(size=s)
    for c in (0, 5, 1000001):
        for d in (-1, 0, 1, 2):
            yield case(size=mask(31) - padded(c) + d, c=c)
    for s in (4, 100, mask(31)):
        yield case(n=0, np=0, size=s, c=mask(31))
    # values the code singles out, as the value of every member it could be
    for fl, vs in sorted(sp.items()):
        for v in sorted(vs)[:10]:
            if fl in ('chunkSize', '') and v < 1 << 20:
                yield case(c=v)
                yield case(size=v)
                yield case(sizes=[v, 4, v])
                yield case(n=1, size=v, np=0)
            if fl in ('chunkLength', 'propLength', '') and v < 40:
                yield case(n=v, np=1)
                if LIST in kinds:
                    yield case(LIST, n=1, np=v)
            if fl in ('groupType', ''):
                yield case(gtype=v)
                yield case(ty=v, cid=None if kinds[0] in (CAT, LIST) else FORM)
            if fl in ('chunkId', '') and not isprop:
                yield case(cid=v, c=6)
    if update:
        for n, gt, ty in itertools.product((0, 1, 2, 3), (JJJJ, TA, TB), (TA, JJJJ)):
            for cid in (FORM, CAT, LIST):
                yield case(kinds[-1], n=n, gtype=gt, ty=ty, cid=cid, types=(TA, TB, TA))
    if deep:
        for kind, n, np, c, mem in itertools.product(kinds, range(6), range(4), (0, 3, 8), ('moves', 'stays', None)):
            yield case(kind, n=n, np=np, c=c, mem=mem)


def judge(ctx, rep, prop):
    """rep one obligation per hierarchy, about what the property is about"""
    nm = names(ctx)
    for f in ADDS:
        if not ctx.has(f):
            continue
        ps = ctx.walk(f)
        if ps is None:
            rep.und('heap-after', f, 'not enumerable')
            continue
        seen = set()
        for k in cases(ctx, f, ps, rep.tier == 'thorough'):
            key = repr(sorted(k.items()))
            if key in seen:
                continue
            seen.add(key)
            one(ctx, rep, prop, f, k, nm)


def txt(v):
    b = v.to_bytes(4, 'big')
    return b.decode() if all(32 <= x < 127 for x in b) else '%#x' % v


def one(ctx, rep, prop, f, k, nm):
    isprop = f == 'IFF_addPropToList'
    H = Hier(ctx, k['kind'], k['gtype'], k['sizes'], k['psizes'], k['size'], k['types'], k['parent'])
    h = H.h
    old = h.struct('another group', 'IFF_Group', chunkId=CAT, chunkSize=4, parent=0, groupType=JJJJ, chunk=0, chunkLength=0) if k['old'] else 0
    x = H.added(k['cid'], k['c'], k['ty'], old)
    inst = '%s: %s of type %s and size %s with %d members%s; added: %s of size %d, type %s%s' % (
        f, txt(k['kind']), txt(k['gtype']), k['size'], len(k['sizes']), ', %d properties' % len(k['psizes']) if k['psizes'] else '', txt(k['cid']), k['c'],
        txt(k['ty']), {'moves': '', 'stays': ', array in place', None: ', no memory'}[k['mem']])
    before = dict(h.cells)
    E = LiveEvaluator(ctx, h, k['mem'])
    G = Grp(ctx, P(('argp', 0)))
    off = lambda fl: H.g + G.off[fl]
    arr, ln = ('prop', 'propLength') if isprop else ('chunk', 'chunkLength')
    mine = H.props if isprop else H.members
    s0 = before[(off('chunkSize'), 4)]
    total = s0 + padded(k['c'])
    fits = total <= mask(31) and s0 <= mask(31)
    attach = f == 'IFF_attachToGroup'
    where, path = f, None
    try:
        r = E.run(f, [H.g, x])
        path, where = r.path, '%s:%s' % (r.path.file, r.path.line)
        if r.ret is None:
            raise Stuck('result')
        ok = r.ret != 0
        want = dict(before)
        diffs = []      # (property, message)
        if ok:
            if k['mem'] is None and E.asked(r):
                diffs.append(('C19', 'success is reported although there is no memory for the chunk'))
            if not fits and not attach:
                diffs.append(('C18', 'the addition succeeds although the declared size would become %d' % total))
            want[(off(ln), 4)] = len(mine) + 1
            want[(x + G.off['parent'], 8)] = H.g
            if not attach:
                want[(off('chunkSize'), 4)] = total & mask(32)
            if 'ContentsType' in f:
                cur, ty = k['gtype'], k['ty']
                want[(off('groupType'), 4)] = ty if not mine else cur if cur in (JJJJ, ty) else JJJJ
        elif not E.failed and (fits or attach):
            diffs.append(('C19', 'the chunk is refused although nothing failed'))
        a = h.cells.get((off(arr), 8))
        if a is None:
            raise Stuck('the array')
        n = len(mine) + bool(ok)
        if n:
            for i in range(n):
                v = h.cells.get((a + 8 * i, 8))
                w = (mine + [x])[i]
                if h.block(a + 8 * i) is None or h.block(a) in h.freed:
                    diffs.append(('C19' if ok else 'C38', 'the array of members is not a block that holds member %d' % i))
                    break
                if v is None:
                    raise Stuck('member %d' % i)
                if v != w:
                    diffs.append(('C19' if ok else 'C38', 'member %d is %s instead of %s' % (i, h.name(v), h.name(w))))
                    break
        # everything else
        a0 = before[(off(arr), 8)]
        for (p, z), w in sorted(want.items()):
            if (p, z) == (off(arr), 8) or a0 and a0 <= p < a0 + max(8, 8 * len(mine)):
                continue
            v = h.cells.get((p, z))
            if h.block(p) in h.freed:
                diffs.append(('C19' if ok else 'C38', '%s is released' % h.name(p)))
                continue
            if v is None:
                raise Stuck('contents of %s' % h.name(p))
            if v != w:
                b = h.block(p)
                fl = nm.get((p - b, z), '+%d' % (p - b)) if b is not None else ''
                pr = 'C38' if not ok else 'C18' if fl == 'chunkSize' else 'C19'
                s = lambda v: h.name(v) if z == 8 else txt(v) if fl in ('groupType', 'chunkId') else str(v)
                diffs.append((pr, '%s of %s is %s instead of %s%s' % (fl, h.name(b), s(v), s(w), '' if ok else ' after a failure')))
        mineonly = [d for d in diffs if d[0] == prop]
        if prop == 'C38' and ok:
            return
        rep.check('heap-after', inst, not mineonly, mineonly[0][1] if mineonly else '', where, path)
    except Wrong as e:
        if prop == 'C19':
            rep.bad('heap-after', inst, str(e), e.where)
        else:
            rep.und('heap-after', inst, str(e))
    except Stuck as e:
        rep.und('heap-after', inst, str(e))


# ---------------------------------------------------------------- sizes recomputed up to the root
UPD = {'IFF_updateGroupChunkSizes': GROUPS[:2] + (PROP,), 'IFF_updateFormChunkSizes': (FORM,), 'IFF_updateCATChunkSizes': (CAT,),
       'IFF_updatePropChunkSizes': (PROP,), 'IFF_updateListChunkSizes': (LIST,)}


class Chain:
    """groups inside one another, the innermost holding a chunk, each with siblings before and after; no declared size is right"""

    def __init__(self, ctx, kinds, size, sib, top=None):
        h = self.h = LiveHeap(ctx)
        self.ctx = ctx
        self.leaf = h.struct('the chunk', 'IFF_RawChunk', chunkId=BODY, chunkSize=size, parent=0, chunkData=0)
        self.groups = []
        self.members = {}
        below, bk = self.leaf, BODY
        for i, k in enumerate(kinds):
            a = h.struct('%s %d' % (txt(k).strip(), i), 'IFF_List' if k == LIST else 'IFF_Group')
            h.field(a, 'IFF_Chunk', chunkId=k, chunkSize=999 + i, parent=0)
            h.field(a, 'IFF_Group', groupType=TA)
            h.field(below, 'IFF_Chunk', parent=a)
            inprop = k == LIST and bk == PROP
            ch = [self.sibling(a, i, j, s) for j, s in enumerate(sib[0])] + ([] if inprop else [below]) + \
                [self.sibling(a, i, j + 9, s) for j, s in enumerate(sib[1])]
            pr = ([self.sibling(a, i, 20, 7, PROP)] if sib[2] else []) + ([below] if inprop else [])
            self.array(a, 'IFF_Group', 'chunk', ch)
            if k == LIST:
                self.array(a, 'IFF_List', 'prop', pr)
            self.members[a] = ch + (pr if k == LIST else [])
            self.groups.append(a)
            below, bk = a, k
        if top:
            h.field(below, 'IFF_Chunk', parent=0)

    def sibling(self, a, i, j, s, cid=BODY):
        return self.h.struct('sibling %d.%d' % (i, j), 'IFF_Group', chunkId=cid, chunkSize=s, parent=a, groupType=TA, chunkLength=0, chunk=0)

    def array(self, a, st, f, ms):
        h = self.h
        arr = h.obj('%s.%s' % (h.name(a), f), capacity(self.ctx, f, len(ms))) if ms else 0
        for i, x in enumerate(ms):
            h.set(arr + 8 * i, 8, x)
        h.field(a, st, **{f: arr, f + 'Length': len(ms)})


def trees(ctx, rep):
    f = 'IFF_updateChunkSizes'
    if not ctx.has(f):
        return
    m = ctx.m
    cs = m.off('IFF_Chunk', 'chunkSize')
    chains = [()] + [(k,) for k in GROUPS] + [(a, b) for a in GROUPS for b in (FORM, CAT, LIST)] + [(FORM, CAT, LIST), (PROP, LIST, CAT), (CAT, LIST, FORM, LIST)]
    if rep.tier == 'thorough':
        chains += [x for n in (3, 4) for x in itertools.product(GROUPS, repeat=n)]
    sp = specials(ctx, ctx.walk(f))
    sizes = [6, 5, 0] + sorted(v for n in ('chunkSize', '') for v in sp.get(n, ()) if v < 1 << 20)[:5]
    for chain in chains:
        for size in sizes if len(chain) < 2 else sizes[:2]:
            for sib in (((), (), 0), ((4,), (3,), 1), ((), (1, 2), 1)):
                for start in range(-1, len(chain)) if len(chain) < 3 else (-1, 0, 1):
                    H = Chain(ctx, chain, size, sib)
                    h = H.h
                    x = H.leaf if start < 0 else H.groups[start]
                    want = dict(h.cells)
                    for g in H.groups[max(0, start):]:
                        want[(g + cs, 4)] = 4 + sum(padded(want[(y + cs, 4)]) for y in H.members[g])
                    inst = '%s on %s in %s, siblings of sizes %s and %s, chunk of size %d' % (
                        f, h.name(x), ' in '.join(txt(k) for k in chain) or 'nothing', list(sib[0]), list(sib[1]), size)
                    compare(ctx, rep, f, inst, h, [x], want)
    for f, kinds in sorted(UPD.items()):
        if not ctx.has(f):
            continue
        sp = specials(ctx, ctx.walk(f))
        sizes = [6, 5, 0] + sorted(v for n in ('chunkSize', '') for v in sp.get(n, ()) if v < 1 << 20)[:5]
        for kind in kinds:
            for size in sizes:
                for sib in (((), (), 0), ((4,), (3,), 1), ((1, 1), (), 1)):
                    H = Chain(ctx, (kind, CAT), size, sib)
                    h = H.h
                    g = H.groups[0]
                    want = dict(h.cells)
                    want[(g + cs, 4)] = 4 + sum(padded(want[(y + cs, 4)]) for y in H.members[g])
                    compare(ctx, rep, f, '%s on %s in CAT, siblings of sizes %s and %s, chunk of size %d' % (f, txt(kind), list(sib[0]), list(sib[1]), size),
                            h, [g], want)


def compare(ctx, rep, f, inst, h, args, want):
    """the heap after an operation is the one required"""
    nm = names(ctx)
    E = LiveEvaluator(ctx, h, None)
    try:
        r = E.run(f, args)
        msg = None
        for (p, z), w in sorted(want.items()):
            v = h.cells.get((p, z))
            if v is None:
                raise Stuck('contents of %s' % h.name(p))
            if v != w:
                b = h.block(p)
                msg = '%s of %s becomes %s instead of %s' % (nm.get((p - b, z), '+%d' % (p - b)), h.name(b), v, w)
                break
        rep.check('tree-after', inst, msg is None, msg or '', '%s:%s' % (r.path.file, r.path.line), r.path)
    except Wrong as e:
        rep.bad('tree-after', inst, str(e), e.where)
    except Stuck as e:
        rep.und('tree-after', inst, str(e))


def rule(prop):
    def go(ctx, rep):
        rep.need('heap-after', 20)
        judge(ctx, rep, prop)
        if prop == 'C18':
            rep.need('tree-after', 20)
            trees(ctx, rep)
    return go


RULES = {p: rule(p) for p in ('C18', 'C19', 'C38')}
