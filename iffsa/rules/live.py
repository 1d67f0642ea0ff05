"""Operations evaluated on a live heap, block by block: what they access is inside the blocks that exist (C10) and not released (C08), and
what they hand out is what is required (C20, C21)."""
import itertools
from ..lib import *
from ..heap import LiveHeap, LiveEvaluator, Stuck, Wrong, Outside, Released
from .growth import capacity
from . import modify

FORM, CAT, LIST, PROP, BODY, X, Y = (int.from_bytes(s.encode(), 'big') for s in ('FORM', 'CAT ', 'LIST', 'PROP', 'BODY', 'CMAP', 'TINY'))
TA, TB = (int.from_bytes(s.encode(), 'big') for s in ('AAAA', 'BBBB'))
ALL = {'C08', 'C10', 'C20', 'C21'}


class Obs:
    """obligations of one property"""

    def __init__(self, ctx, rep, prop):
        self.ctx, self.rep, self.prop = ctx, rep, prop

    def run(self, inst, f, args, h, mem, judge=None, owner=None, boundary=frozenset(), step=None):
        """judge(result address, heap, evaluator) says what is wrong with what the operation leaves; it counts for the owner"""
        rep = self.rep
        E = LiveEvaluator(self.ctx, h, mem, boundary=boundary, step=step)
        before = set(h.size)
        try:
            r = E.run(f, args)
            if self.prop == 'C08':
                lost = self.lost(h, before, r.ret)
                msg = 'the block asked for is neither released, nor handed out, nor linked to anything' if lost else judge(r.ret, h, E) if owner == 'C08' else None
                rep.check('live', inst, not msg, msg or '', '%s:%s' % (r.path.file, r.path.line), r.path)
                return r
            if owner != self.prop:
                rep.ok('live', inst)
                return r
            if r.ret is None:
                raise Stuck('result')
            msg = judge(r.ret, h, E)
            rep.check('live', inst, not msg, msg or '', '%s:%s' % (r.path.file, r.path.line), r.path)
            return r
        except (Outside, Released) as e:
            p = 'C10' if isinstance(e, Outside) else 'C08'
            if self.prop in (p, owner):
                rep.bad('live', inst, str(e), e.where)
            else:
                rep.ok('live', inst)
        except Wrong as e:
            if self.prop == owner:
                rep.bad('live', inst, str(e), e.where)
            else:
                rep.ok('live', inst)
        except Stuck as e:
            rep.und('live', inst, str(e))


    def lost(self, h, before, ret):
        """blocks acquired that nobody can reach afterwards"""
        new = {a for a in h.size if a not in before and a not in h.freed and h.names.get(a) == 'block'}
        if not new:
            return new
        if ret is None:
            raise Stuck('result')
        seen, todo = set(), [ret] + [v for (a, z), v in h.cells.items() if z == 8 and h.block(a) in before and h.block(a) not in h.freed]
        while todo:
            a = todo.pop()
            if a in seen or a not in new:
                continue
            seen.add(a)
            todo += [v for (x, z), v in h.cells.items() if z == 8 and h.block(x) == a]
        return new - seen


def said(mem):
    return {'moves': '', 'stays': ', array in place', None: ', no memory'}.get(mem, ', memory for %s blocks' % mem)


def array_at(h, a, n):
    """the n addresses a block holds"""
    if n == 0:
        return []
    if a == 0:
        raise Wrong('%d elements are reported without an array' % n)
    h.usable(a, 8 * n, 'the result', '')
    vs = [h.cells.get((a + 8 * i, 8)) for i in range(n)]
    if None in vs:
        raise Stuck('element %d of the result' % vs.index(None))
    return vs


def length(h, lp):
    n = h.cells.get((lp, 4))
    if n is None:
        raise Stuck('length of the result')
    return n


def group(ctx, h, name, kind, ty, members, props=()):
    a = h.struct(name, 'IFF_List' if kind == LIST else 'IFF_Group', chunkId=kind, chunkSize=4 + 12 * len(members), parent=0)
    h.field(a, 'IFF_Group', groupType=ty)
    for st, arr, ms in (('IFF_Group', 'chunk', members),) + ((('IFF_List', 'prop', props),) if kind == LIST else ()):
        b = h.obj('%s.%s' % (name, arr), capacity(ctx, arr, len(ms))) if ms else 0
        for i, x in enumerate(ms):
            h.set(b + 8 * i, 8, x)
            h.field(x, 'IFF_Chunk', parent=a)
        h.field(a, st, **{arr: b, arr + 'Length': len(ms)})
    return a


def leaf(h, name, cid, size=4):
    return h.struct(name, 'IFF_RawChunk', chunkId=cid, chunkSize=size, parent=0, chunkData=0)


def counts(ctx, fs, most):
    sp = set()
    for f in fs:
        if ctx.has(f):
            sp |= {v for vs in specials(ctx, ctx.walk(f), 1).values() for v in vs if 0 < v < most}
    return sp


def retrieval(ctx, O, deep):
    f = 'IFF_getChunksFromForm'
    if not ctx.has(f):
        return
    ns = sorted({0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33} | counts(ctx, (f,), 70) | (set(range(36)) if deep else set()))
    for n in ns:
        for pat in ('X', 'XY', 'YX', 'XXY'):
            ids = [X if pat[i % len(pat)] == 'X' else Y for i in range(n)]
            for mem in ('moves', 'stays', None) + ((1, 2, 3, 7) if O.prop == 'C08' and pat == 'X' else ()):
                h = LiveHeap(ctx)
                ms = [leaf(h, 'chunk %d' % i, c) for i, c in enumerate(ids)]
                g = group(ctx, h, 'the form', FORM, TA, ms)
                lp = h.obj('length', 4)
                want = [x for x, c in zip(ms, ids) if c == X]

                def judge(r, h, E, lp=lp, want=want, mem=mem):
                    k = length(h, lp)
                    if mem is None and want:
                        return None if (k, r) == (0, 0) else '%d chunks are reported without memory for them' % k
                    if k != len(want):
                        return '%d chunks are reported, required %d' % (k, len(want))
                    got = array_at(h, r, k)
                    return None if got == want else 'the chunks are %s, required %s' % ([h.name(x) for x in got], [h.name(x) for x in want])
                O.run('%s: %d of %d chunks%s' % (f, len(want), n, said(mem)) + (' ' + pat if n else ''),
                      f, [g, X, lp], h, mem, judge, 'C21')


def merging(ctx, O, deep):
    f = 'IFF_mergeFormArray'
    if not ctx.has(f):
        return
    ns = sorted({0, 1, 2, 3, 7, 8, 9} | counts(ctx, (f,), 40))
    for a, b, mem in itertools.product(ns, ns, ('moves', 'stays', None)):
        h = LiveHeap(ctx)
        arr = []
        for nm, n in (('target', a), ('source', b)):
            p = h.obj(nm, 8 * n) if n else 0
            fs = [h.obj('%s form %d' % (nm, i), 1) for i in range(n)]
            for i, x in enumerate(fs):
                h.set(p + 8 * i, 8, x)
            arr.append((p, fs))
        lp = h.obj('length', 4)
        h.set(lp, 4, a)

        def judge(r, h, E, arr=arr, lp=lp, mem=mem):
            k = length(h, lp)
            want = arr[0][1] + ([] if mem is None and E.failed else arr[1][1])
            if k != len(want):
                return 'the length is %d, required %d' % (k, len(want))
            got = array_at(h, r, k)
            return None if got == want else 'the forms are %s, required %s' % ([h.name(x) for x in got], [h.name(x) for x in want])
        O.run('%s: %d and %d forms%s' % (f, a, b, said(mem)), f, [arr[0][0], lp, arr[1][0], b], h, mem, judge, 'C20')


def shapes_of(n):
    """hierarchies with n forms of the type looked for: (description, builder)"""
    def flat(ctx, h, kind):
        fs = [group(ctx, h, 'form %d' % i, FORM, TA, []) for i in range(n)]
        return group(ctx, h, 'the top', kind, TA, fs), fs

    def mixed(ctx, h, kind):
        fs, ms = [], []
        for i in range(n):
            x = group(ctx, h, 'form %d' % i, FORM, TA, [leaf(h, 'chunk %d' % i, BODY)] if i % 3 == 0 else [group(ctx, h, 'inner form %d' % i, FORM, TA, [])] if i % 3 == 1 else [])
            fs.append(x)
            ms += [x] if i % 4 == 0 else [group(ctx, h, 'cat %d' % i, CAT, TB, [leaf(h, 'other %d' % i, BODY), x])] if i % 4 == 1 else \
                [group(ctx, h, 'other form %d' % i, FORM, TB, [x])] if i % 4 == 2 else \
                [group(ctx, h, 'list %d' % i, LIST, TB, [x], [group(ctx, h, 'prop %d' % i, PROP, TA, [])]), group(ctx, h, 'empty %d' % i, CAT, TA, [])]
        return group(ctx, h, 'the top', kind, TB, ms), fs

    def paired(ctx, h, kind):
        fs = [group(ctx, h, 'form %d' % i, FORM, TA, []) for i in range(n)]
        ms = [group(ctx, h, 'cat %d' % i, CAT, TA, fs[i:i + 2]) for i in range(0, n, 2)]
        return group(ctx, h, 'the top', kind, TB, ms), fs
    return (('side by side', flat), ('at different places', mixed), ('in pairs', paired))


def searching(ctx, O, deep):
    f = 'IFF_searchFormsFromArray'
    if not ctx.has(f):
        return
    more = counts(ctx, ('IFF_searchFormsFromArray', 'IFF_mergeFormArray', 'IFF_searchFormsInForm', 'IFF_searchFormsInCAT', 'IFF_searchFormsInList', 'IFF_searchFormsInGroup'), 20)
    ns = sorted({0, 1, 2, 3, 4, 5, 9} | more | ({8, 12, 17, 33} if deep else set()))
    for n, kind, mem in itertools.product(ns, (CAT, LIST, FORM), ('moves', 'stays') + ((None, 1, 2, 3, 4) if O.prop == 'C08' else ())):
        for desc, build in shapes_of(n):
            h = LiveHeap(ctx)
            g, want = build(ctx, h, kind)
            lp = h.obj('length', 4)
            ft = h.obj('form types', 8)
            h.set(ft, 4, TA ^ 1)
            h.set(ft + 4, 4, TA)
            if kind == FORM and desc == 'side by side':
                want = [g]

            def judge(r, h, E, lp=lp, want=want):
                k = length(h, lp)
                if k != len(want):
                    return '%d forms are found, required %d' % (k, len(want))
                got = array_at(h, r, k)
                return None if got == want else 'the forms found are %s, required %s' % ([h.name(x) for x in got], [h.name(x) for x in want])
            O.run('%s: %d forms %s in a %s%s' % (f, n, desc, modify.txt(kind).strip(), said(mem)), f, [g, ft, 2, lp], h, mem, judge, 'C20')


def modifying(ctx, O, deep):
    for f in modify.ADDS:
        if not ctx.has(f):
            continue
        ps = ctx.walk(f)
        if ps is None:
            continue
        seen = set()
        for k in modify.cases(ctx, f, ps, False):
            key = (k['kind'], len(k['sizes']), len(k['psizes']), k['mem'], k['cid'], bool(k['parent']))
            if key in seen:
                continue
            seen.add(key)
            H = modify.Hier(ctx, k['kind'], k['gtype'], k['sizes'], k['psizes'], k['size'], k['types'], k['parent'])
            x = H.added(k['cid'], k['c'], k['ty'], 0)
            O.run('%s: %s with %d members and %d properties; added: %s%s%s' % (f, modify.txt(k['kind']), len(k['sizes']), len(k['psizes']), modify.txt(k['cid']),
                  ', which is nested' if k['parent'] else '', said(k['mem'])), f, [H.g, x], H.h, k['mem'])


def reading(ctx, O, deep):
    """a group that cannot be read to its end is released by whoever made it: what it lists is still there"""
    for f in ('IFF_readForm', 'IFF_readCAT', 'IFF_readList', 'IFF_readProp', 'IFF_readGroup'):
        if not ctx.has(f):
            continue
        kinds = (BODY,) if f != 'IFF_readList' else (BODY, PROP)
        for n in (0, 1, 2, 3) + ((4, 5, 9, 17) if deep else (5,)):
            for pat in sorted(set(itertools.product(kinds, repeat=min(n, 3)))):
                for mem in ('moves', 'stays') + tuple(range(n)):
                    h = LiveHeap(ctx)
                    g = h.struct('the group', 'IFF_List', chunkId=LIST if f == 'IFF_readList' else FORM, chunkSize=4 + 12 * (n + 1), parent=0)
                    h.field(g, 'IFF_Group', groupType=0, chunk=0, chunkLength=0)
                    h.field(g, 'IFF_List', prop=0, propLength=0)
                    bp = h.obj('bytes processed', 4)
                    h.set(bp, 4, 0)
                    text = h.obj('text', 8)
                    h.text(text, 'name')
                    ids = [pat[i % len(pat)] for i in range(n)]

                    def step(E, e, args, V, depth, h=h, ids=ids):
                        if e.name == 'fread' and args[2] is not None:
                            return args[2]
                        if e.name == 'IFF_readChunk':
                            k = sum(1 for a in h.size if h.names.get(a, '').startswith('sub chunk'))
                            if k >= len(ids):
                                return 0
                            return h.struct('sub chunk %d' % (k + 1), 'IFF_Group', chunkId=ids[k], chunkSize=4, parent=0)
                        if e.name == 'IFF_freeChunk':
                            E.release(args[0], e)
                            return 'skip'

                    def judge(r, h, E, g=g):
                        if r:
                            return None
                        for st, arr in (('IFF_Group', 'chunk'), ('IFF_List', 'prop')):
                            o = ctx.m.off(st, arr)
                            a, k = h.cells.get((g + o, 8)), h.cells.get((g + ctx.m.off(st, arr + 'Length'), 4))
                            if a is None or k is None:
                                raise Stuck('the %s array' % arr)
                            if a in h.freed:
                                return 'the %s array is released, but the group still has it' % arr
                            for i in range(k):
                                x = h.cells.get((a + 8 * i, 8))
                                if x is None:
                                    raise Stuck('the %s array' % arr)
                                if x in h.freed:
                                    return '%s is released, but the group still lists it' % h.name(x)
                    args = {'IFF_readGroup': [1, g, text, 1, bp]}.get(f, [1, g, 1, bp])
                    O.run('%s: the stream fails after %s%s' % (f, ', '.join(modify.txt(c).strip() for c in ids) or 'no sub chunk', said(mem)), f, args, h, mem, judge, 'C08',
                          boundary=CORE, step=step)


def growing(ctx, rep, prop):
    """the arrays of a group from the empty one on"""
    from .growth import growth
    for arr in ('chunk', 'prop'):
        G = growth(ctx, arr)
        G.cap(70 if rep.tier != 'thorough' else 300)
        inst = '%s, called over and over' % G.op
        if G.op is None:
            continue
        if G.state == 'wrong' and prop == ('C08' if isinstance(G.why, Released) else 'C10'):
            rep.bad('live', inst, str(G.why), G.why.where)
        elif G.state == 'stuck':
            rep.und('live', inst, str(G.why))
        else:
            rep.ok('live', inst)


def live(ctx, rep, prop):
    deep = rep.tier == 'thorough'
    O = Obs(ctx, rep, prop)
    if prop in ('C08', 'C10'):
        growing(ctx, rep, prop)
        modifying(ctx, O, deep)
    if prop in ('C08', 'C10'):
        reading(ctx, O, deep)
    if prop in ('C08', 'C10', 'C21'):
        retrieval(ctx, O, deep)
    if prop in ('C08', 'C10', 'C20'):
        merging(ctx, O, deep)
        searching(ctx, O, deep)
