"""C20, C21: form search and property lookup.

C20 is decided modularly: the search of one chunk, with the searches of its members and the merge of two results as oracles
that obey their contract, must give the concatenation in order (or the form itself); the merge and the entry point are
decided against the same contracts.  By induction over the hierarchy this is the property.
C21 evaluates the lookup summaries over a finite family of abstract hierarchies.
"""
import itertools
from ..lib import *
from ..heap import Heap, Evaluator, Stuck, Wrong
from .ids import fourcc
from .live import live
from .conform import FORM, CAT, LIST, PROP, JJJJ, BMHD, ILBM, ANIM, build, Sub

SEARCHB = SEARCH | {'IFF_mergeFormArray'}
THIRD = fourcc('SMUS')
FAR = 0x4000000


class World:
    """result arrays as values: an address stands for the sequence of forms the array holds"""

    def __init__(self, h):
        self.h = h
        self.key = {}
        self.lists = {}
        self.n = 0

    def token(self, key, forms):
        if key not in self.key:
            self.n += 1
            a = FAR + self.n * 0x10000
            self.key[key] = a
            self.lists[a] = list(forms)
            self.h.names[a] = 'result %d' % self.n
        return self.key[key]

    def content(self, a, n):
        """the first n forms of the array at a"""
        if n == 0:
            return []
        if a == 0:
            raise Wrong('%d forms are taken from no array' % n, '')
        if a not in self.lists:
            raise Stuck('array at %s' % self.h.name(a))
        L = self.lists[a]
        if n > len(L):
            raise Wrong('%d forms are taken from a result of %d' % (n, len(L)), '')
        return L[:n]


def c20(ctx, rep):
    rep.need('search-chunk', 100)
    rep.need('entry', 8)
    for n in ('IFF_searchFormsFromArray', 'IFF_searchForms'):
        if not ctx.has(n):
            raise Broken('anchor vanished: %s' % n)
    chunk_search(ctx, rep)
    if ctx.has('IFF_mergeFormArray'):
        merge(ctx, rep)
    entry(ctx, rep)
    live(ctx, rep, 'C20')


def chunk_search(ctx, rep):
    fns = {'IFF_searchFormsFromArray': None, 'IFF_searchFormsInForm': FORM, 'IFF_searchFormsInCAT': CAT, 'IFF_searchFormsInList': LIST, 'IFF_searchFormsInGroup': 'group'}
    T = [ILBM, ANIM, THIRD]
    near = [ILBM | 0x80000000, ILBM ^ 1, ILBM ^ 0x100, ILBM ^ 0x20000000, 0]
    jobs = []
    for f, k in fns.items():
        if not ctx.has(f):
            continue
        for kind in ([FORM, CAT, LIST] if k is None else [CAT, FORM] if k == 'group' else [k]):
            pats = [p for n in range(4) for p in itertools.product((0, 1, 2), repeat=n)]
            for pat in pats:
                if len(pat) == 3 and sum(pat) not in (0, 1, 3, 6):
                    continue
                jobs.append((f, kind, near[len(pat)], T[:1 + len(pat) % 3], pat, k))
            for n in (0, 1, 2, 3):
                for ty in T + near:
                    jobs.append((f, kind, ty, T[:n], (1, 1), k))
    for f in ('IFF_searchFormsFromArray',):
        for kind in (BMHD, PROP, 0, fourcc('FORN'), fourcc('TEXT'), 0xffffffff, fourcc('FOR1'), fourcc('LISU'), 0x464f5200):
            for ty in (ILBM, THIRD):
                jobs.append((f, kind, ty, T[:2], (1,), None))
    jobs = [j + ({},) for j in jobs]
    MANY = [fourcc(x) for x in ('AAAA', 'ILBM', 'SMUS', 'FTXT', '8SVX', 'ANIM', 'ZZZZ')]
    for f, k in fns.items():
        if not ctx.has(f):
            continue
        sp = specials(ctx, ctx.walk(f, boundary=SEARCHB - {f}))
        kinds = [FORM, CAT, LIST] if k is None else [CAT, FORM] if k == 'group' else [k]
        for kind in kinds:
            # many form types, the matching one at every position; counts and values the code singles out
            for n in (4, 5, 7):
                for ty in MANY[:n] + [THIRD ^ 1]:
                    jobs.append((f, kind, ty, MANY[:n], (1, 2), k, {}))
            for n in (4, 5, 8, 9):
                jobs.append((f, kind, near[0], T[:2], (1,) * n, k, {}))
            for fld in ('chunkSize', 'chunkLength', 'propLength', 'groupType'):
                for v in sorted(set(sp.get(fld, ())) | (set(sp.get('', ())) | {0, 0x20202020, 0xffffffff} if fld == 'groupType' else set()))[:12]:
                    ty = v if fld == 'groupType' else ILBM
                    for want_types in ([ty], T[1:] if ty not in T[1:] else [BMHD]):
                        if fld == 'chunkLength' and (ty not in want_types or kind != FORM or k == 'group'):
                            if v < 30:
                                jobs.append((f, kind, ty, want_types, (1,) * v, k, {}))
                            continue
                        jobs.append((f, kind, ty, want_types, (1, 1), k, {} if fld == 'groupType' else {fld: v}))
            # deep inside other groups
            for d in sorted({1, 2, 17, 33} | {v + 2 for v in sp.get('', ()) if v < 70})[:12]:
                for ty in (ILBM, near[0]):
                    jobs.append((f, kind, ty, T[:2], (1, 1), k, {'ancestors': d}))
        if k is None:
            for v in sorted(set(sp.get('chunkId', ())) | set(sp.get('', ())))[:12]:
                jobs.append((f, v, ILBM, T[:2], (1,), None, {}))
    for f, kind, ty, want_types, pat, k, own in jobs:
        for mem in (1, 0):
            h = Heap(ctx)
            W = World(h)
            subs = [Sub(FORM if i % 2 else CAT, 4, THIRD) for i in range(len(pat))]
            a, els = build(ctx, h, 'chunk', kind, ty, 40, subs, [Sub(PROP)] if kind == LIST else None)
            up = a
            for i in range(own.get('ancestors', 0)):
                o = h.obj('ancestor %d' % i)
                h.field(o, 'IFF_Group', parent=0, chunkId=(FORM, CAT, LIST)[i % 3], chunkSize=40, groupType=(THIRD, JJJJ, ANIM)[i % 3], chunkLength=1, chunk=0)
                h.field(up, 'IFF_Chunk', parent=o)
                up = o
            for fld, v in own.items():
                d = [ctx.m.field(st, fld) for st in ('IFF_Chunk', 'IFF_Group', 'IFF_List') if ctx.m.field(st, fld)]
                if d and not (fld == 'propLength' and kind != LIST):
                    h.set(a + d[0]['off'], d[0]['size'], v)
            ft = h.obj('form types')
            for i, t in enumerate(want_types):
                h.set(ft + 4 * i, 4, t)
            lenp = h.obj('length')
            h.set(lenp, 4, 77)
            res = {}
            for i, (o, s) in enumerate(els):
                if s.cid != PROP:
                    res[o] = [h.obj('form %d.%d' % (i, j)) for j in range(pat[i])]
            nt = len(want_types)

            def step(E, e, args, V, depth):
                if e.name == 'IFF_searchFormsFromArray' or e.name in fns:
                    c, fts, n, lp = args[:4]
                    if c not in res:
                        raise Wrong('%s is searched as a member' % h.name(c), e.where()) if c is not None else Stuck('member searched')
                    if fts is None or n is None:
                        raise Stuck('form types searched for')
                    if (fts, n) != (ft, nt):
                        raise Wrong('a member is searched for other form types', e.where())
                    if e.args[3][0] == 'p':
                        V.l[E.w.out(e.id, e.args[3], 4, False)] = len(res[c])
                    return W.token(('search', c), res[c]) if res[c] else 0
                if e.name == 'IFF_mergeFormArray':
                    t, lp, s_, n = args[:4]
                    if t is None or s_ is None or n is None:
                        raise Stuck('arguments of the merge')
                    cur = ev(E.w.load(e.mem, e.args[1], 4), V)
                    if cur is None:
                        raise Stuck('length before the merge')
                    if cur == 77 and t == 0:
                        raise Wrong('the first merge starts from an uninitialised length', e.where())
                    try:
                        L = W.content(t, cur) + W.content(s_, n)
                    except Wrong as x:
                        raise Wrong(str(x), e.where())
                    V.l[E.w.out(e.id, e.args[1], 4, False)] = len(L)
                    if n == 0:
                        return t
                    return W.token(('merge', t, tuple(L)), L)
                if e.name in ('malloc', 'calloc', 'realloc'):
                    size = args[0] if e.name == 'malloc' else args[1] if e.name == 'realloc' else None if None in args[:2] else args[0] * args[1]
                    if e.name == 'realloc' and args[0] != 0:
                        return None
                    if size is not None and size < 8:
                        raise Wrong('an array of %d bytes is allocated for a form' % size, e.where())
                    return (W.token(('alloc', e.id), []) if mem else 0)
                if e.name == 'free':
                    return 'skip'
                return None
            match = kind == FORM and k != 'group' and ty in want_types
            group = kind in (FORM, CAT, LIST)
            if match:
                want = [a] if mem else []
            elif group:
                want = [x for o, s in els if s.cid != PROP for x in res[o]]
            else:
                want = []
            if not mem and not match:
                continue
            inst = '%s(%s of type %08x with members giving %s, %d types%s%s)' % (f, kind.to_bytes(4, 'big').decode('latin1'), ty, list(pat), nt, '' if mem else ', no memory',
                                                                                          ''.join(', %s %#x' % x for x in own.items()))
            E = Evaluator(ctx, h, boundary=SEARCHB - {f}, step=step, maxiter=90, maxdepth=90)
            try:
                r = E.run(f, [a, ft, nt, lenp])
                fn = ctx.m.fns[f]
                n = ev(E.w.load(r.path.mem, P(('argp', 3)), 4), r.V)
                if r.ret is None or n is None:
                    raise Stuck('result')
                where = '%s:%s' % (r.path.file, r.path.line)
                freed = [args[0] for e, nm, args in r.log if nm == 'free']
                if n == len(want) and want and r.ret in W.lists and W.key.get(('alloc',) + tuple()) is None and r.ret in \
                        [v for kk, v in W.key.items() if kk[0] == 'alloc']:
                    got = [ev(E.w.load(r.path.mem, padd(r.path.ret, 8 * i, ()), 8, True), r.V) for i in range(n)]
                    if None in got:
                        raise Stuck('contents of the result')
                else:
                    got = W.content(r.ret, n)
                if n and r.ret in freed:
                    raise Wrong('the array returned was released', where)
                if not mem and (n, r.ret) != (0, 0):
                    raise Wrong('without memory %d forms are reported' % n, where)
                rep.check('search-chunk', inst, got == want, 'the search gives %s, required %s' % ([h.name(x) for x in got], [h.name(x) for x in want]), where, r.path)
            except Wrong as e:
                rep.bad('search-chunk', inst, str(e), e.where)
            except Stuck as e:
                rep.und('search-chunk', inst, str(e))


def merge(ctx, rep):
    f = 'IFF_mergeFormArray'
    mc = [x for x in specials(ctx, ctx.walk(f, boundary=CORE)).get('', ()) if x < 30]
    for tl, n, mem in itertools.product(sorted({0, 1, 2, 3, 5} | set(mc)), sorted({0, 1, 2, 3} | set(mc)), (1, 0)):
        h = Heap(ctx)
        tgt = h.obj('target') if tl else 0
        src = h.obj('source') if n else 0
        src_forms = [h.obj('source form %d' % i) for i in range(n)]
        tgt_forms = [h.obj('target form %d' % i) for i in range(tl)]
        for i, x in enumerate(src_forms):
            h.set(src + 8 * i, 8, x)
        for i, x in enumerate(tgt_forms):
            h.set(tgt + 8 * i, 8, x)
        lp = h.obj('length')
        h.set(lp, 4, tl)
        new = h.obj('enlarged')

        def step(E, e, args, V, depth):
            if e.name in ('realloc', 'reallocarray', 'malloc', 'calloc'):
                return new if mem else 0
            return None
        inst = '%s: %d + %d forms%s' % (f, tl, n, '' if mem else ', no memory')
        E = Evaluator(ctx, h, boundary=CORE, step=step)
        E.record = True
        try:
            r = E.run(f, [tgt, lp, src, n])
            where = '%s:%s' % (r.path.file, r.path.line)
            ln = ev(E.w.load(r.path.mem, P(('argp', 1)), 4), r.V)
            if r.ret is None or ln is None:
                raise Stuck('result')
            arr = {}
            size = None
            for e, nm, args in r.log:
                if nm in ('realloc', 'reallocarray', 'malloc', 'calloc'):
                    size = args[1] if nm == 'realloc' else args[0] if nm == 'malloc' else None if None in args else args[-1] * args[-2]
                    if nm in ('realloc', 'reallocarray') and args[0] == tgt and size is not None and mem:
                        arr = {i: x for i, x in enumerate(tgt_forms) if 8 * i < size}
                elif nm == 'st':
                    if args[0] is None:
                        raise Stuck('store')
                    if args[1] == 8 and new <= args[0] < new + 0x400:
                        arr[(args[0] - new) // 8] = args[2]
                    elif args[0] != lp:
                        raise Wrong('the merge stores to %s' % h.name(args[0]), e.where())
                elif nm in ('bulk', 'memcpy', 'memmove'):
                    if None in args[:3]:
                        # source, length and destination in either argument order
                        raise Stuck('copy')
                    d, s_, cnt = args[:3]
                    if new <= d < new + 0x400:
                        for i in range(0, cnt, 8):
                            v = h.cell(s_ + i, 8)
                            if v is None:
                                raise Wrong('the merge copies beyond the source', e.where())
                            arr[(d - new + i) // 8] = v
            if mem == 0 and n:
                rep.check('merge', inst, ln == tl and r.ret == tgt, 'without memory the target is reported with %d forms' % ln, where, r.path)
                continue
            if r.ret == tgt and n == 0:
                rep.check('merge', inst, ln == tl, 'merging nothing changes the length to %d' % ln, where, r.path)
                continue
            if r.ret != new:
                if tl + n == 0 or mem == 0:
                    rep.check('merge', inst, ln in (0, tl), 'length %d' % ln, where, r.path)
                else:
                    raise Wrong('the merge returns %s' % h.name(r.ret), where)
                continue
            got = [arr.get(i) for i in range(tl + n)]
            if ln == tl + n and None in got and size is None:
                raise Stuck('contents')
            rep.check('merge', inst, ln == tl + n and got == tgt_forms + src_forms, 'length %d, contents %s' % (ln, [h.name(x) for x in got]), where, r.path)
            if size is not None:
                rep.check('merge-room', inst, size >= 8 * (tl + n), '%d bytes are allocated for %d forms' % (size, tl + n), where, r.path)
        except Wrong as e:
            rep.bad('merge', inst, str(e), e.where)
        except Stuck as e:
            rep.und('merge', inst, str(e))


def entry(ctx, rep):
    f = 'IFF_searchForms'
    sp = specials(ctx, ctx.walk(f, boundary=SEARCHB))
    for ty in sorted({ILBM, ANIM, THIRD, 0, 0xffffffff, 0x80000000, FORM, 1} | set().union(*sp.values())):
        h = Heap(ctx)
        a, _ = build(ctx, h, 'chunk', CAT, ILBM, 4, [])
        lenp, out = h.obj('length'), h.obj('result')
        seen = []

        def step(E, e, args, V, depth):
            if e.name == 'IFF_searchFormsFromArray':
                if args[0] is None or args[2] is None:
                    raise Stuck('arguments')
                if args[0] != a or args[3] != lenp:
                    raise Wrong('the search is started at %s, length to %s' % (h.name(args[0]), h.name(args[3])), e.where())
                if args[2] != 1:
                    raise Wrong('the search is started with %d form types' % args[2], e.where())
                v = ev(E.w.load(e.mem, e.args[1], 4), V)
                if v is None:
                    raise Stuck('form type searched for')
                if v != ty:
                    raise Wrong('form type %08x is searched for instead of %08x' % (v, ty), e.where())
                seen.append(1)
                return out
            return None
        inst = '%s: type %08x' % (f, ty)
        E = Evaluator(ctx, h, boundary=SEARCHB, step=step)
        try:
            r = E.run(f, [a, ty, lenp])
            rep.check('entry', inst, None if r.ret is None else r.ret == out and sum(1 for x in r.log if x[1] == 'IFF_searchFormsFromArray') == 1,
                      'the result of the search is not handed out', '%s:%s' % (r.path.file, r.path.line), r.path)
        except Wrong as e:
            rep.bad('entry', inst, str(e), e.where)
        except Stuck as e:
            rep.und('entry', inst, str(e))


# ---------------------------------------------------------------- C21
X, Y = fourcc('CMAP'), fourcc('BODY')
NEAR = [X | 0x80000000, X ^ 1, X ^ 0x2000]
T, U = ILBM, ANIM


def prop_options():
    """shared properties of a list: [(form type, chunk IDs)]"""
    return [[], [(T, [X])], [(T, [Y])], [(U, [X])], [(T, [])], [(U, [X]), (T, [Y, X, X])], [(T, [Y, X]), (U, [X])], [(U, [X]), (T, [NEAR[0], NEAR[2]])],
            [(T ^ 1, [X]), (T | 0x80000000, [X])], [(U, [Y]), (THIRD, [X]), (T, [X, Y])]]


def chains():
    """kinds of the enclosing chunks, innermost first: 'C', 'F' or the properties of a list"""
    P = prop_options()
    yield ()
    for k in ('C', 'F'):
        yield (k,)
    for p in P:
        yield (p,)
        yield ('C', p)
        yield ('F', p)
        yield (p, 'C')
        yield ('C', 'F', 'C', p)
        yield ('F', 'F', 'F', p)
    for p, q in itertools.product(P[:7], P[:7]):
        yield (p, q)
    for p, q in itertools.product((P[0], P[2], P[1], P[3], P[7]), (P[0], P[1], P[2], P[5])):
        yield ('C', p, 'C', q)
        yield (p, 'F', q)
        yield (p, 'C', 'C', 'C', q)
    for p in (P[0], P[2], P[3], P[4], P[7], P[8]):
        yield (p, p, P[1])
        yield (p, p, p)
        yield (p, p, p, p, P[5])
        yield ('C', p, 'F', p, 'C', P[1], P[5])
    for p in (P[0], P[3]):
        yield (p, P[1], P[5])
        yield (p, 'C', P[5], P[1])


class Tree:
    def __init__(self, ctx, h, own, ftype, chain, ltype=None, later=False, sub=None):
        self.h = h
        self.sub = sub or {}
        ftype = self.sub.get(ftype, ftype)
        self.ctx = ctx
        self.form = h.obj('form')
        self.own = self.members('form', self.form, FORM, ftype, own)
        self.lists = []
        below = self.form
        for i, k in enumerate(chain):
            kind = {'C': CAT, 'F': FORM}.get(k, LIST) if isinstance(k, str) else LIST
            nm = {CAT: 'cat', FORM: 'form', LIST: 'list'}[kind] + ' %d' % (i + 1)
            a = h.obj(nm)
            h.field(below, 'IFF_Chunk', parent=a)
            arr = h.obj(nm + '.chunk')
            # neither the type of an enclosing chunk nor the place in it must matter
            if later:
                o = h.obj(nm + '.chunk[0]')
                h.field(o, 'IFF_Group', chunkId=FORM, chunkSize=4, parent=a, groupType=ftype, chunk=0, chunkLength=0)
                h.set(arr, 8, o)
            h.set(arr + 8 * later, 8, below)
            h.field(a, 'IFF_Group', chunkId=kind, chunkSize=40, parent=0, groupType=THIRD if kind == FORM else ftype if ltype is None else ltype[i % len(ltype)] if isinstance(ltype, tuple) else ltype,
                    chunk=arr, chunkLength=1 + later)
            if kind == LIST:
                ps = []
                parr = h.obj(nm + '.prop')
                for j, (ty, ids) in enumerate(k):
                    ty = self.sub.get(ty, ty)
                    o = h.obj('%s.prop %d' % (nm, j))
                    ps.append((ty, self.members('%s.prop %d' % (nm, j), o, PROP, ty, ids)))
                    h.field(o, 'IFF_Chunk', parent=a)
                    h.set(parr + 8 * j, 8, o)
                h.field(a, 'IFF_List', prop=parr if k else 0, propLength=len(k))
                self.lists.append(ps)
            below = a

    def members(self, nm, a, kind, ty, ids):
        h = self.h
        h.field(a, 'IFF_Group', chunkId=kind, chunkSize=40, parent=0, groupType=ty, chunkLength=len(ids))
        arr = h.obj(nm + '.chunk')
        h.field(a, 'IFF_Group', chunk=arr if ids else 0)
        out = []
        for i, c in enumerate(ids):
            c = self.sub.get(c, c)
            o = h.obj('%s chunk %d' % (nm, i))
            h.field(o, 'IFF_Chunk', parent=a, chunkId=c, chunkSize=self.sub.get('size', 2))
            h.set(arr + 8 * i, 8, o)
            out.append((c, o))
        return out

    def want(self, ftype, cid):
        ftype, cid = self.sub.get(ftype, ftype), self.sub.get(cid, cid)
        for c, o in self.own:
            if c == cid:
                return o
        for ps in self.lists:
            for ty, ms in ps:
                if ty == ftype:
                    for c, o in ms:
                        if c == cid:
                            return o
                    break
        return 0


def c21(ctx, rep):
    rep.need('lookup', 150)
    rep.need('retrieve', 20)
    f = 'IFF_getChunkFromForm'
    if not ctx.has(f):
        raise Broken('anchor vanished: %s' % f)
    owns = [[], [X], [Y], [Y, X, X], NEAR, [X, Y]]
    for chain in chains():
        for own in owns if len(chain) < 2 else owns[:1] + owns[2:3] if len(chain) < 3 else owns[:1]:
            h = Heap(ctx)
            t = Tree(ctx, h, own, T, chain)
            evaluate(ctx, rep, 'lookup', '%s: form with %s in %s' % (f, ids(own), [c if isinstance(c, str) else 'L' + str([(tag(a), ids(b)) for a, b in c]) for c in chain]),
                     f, [t.form, X], h, t.want(T, X))
    sp = {}
    for fn in (f, 'IFF_getDataChunkFromForm', 'IFF_getChunkFromProp', 'IFF_getPropFromList', 'IFF_getChunksFromForm'):
        for k, v in (specials(ctx, ctx.walk(fn)) if ctx.has(fn) else {}).items():
            sp.setdefault(k, set()).update(v)
    odd = sorted(set(sp.get('chunkId', ())) | set(sp.get('groupType', ())) | set(sp.get('', ())) | {0, 0xffffffff, PROP, FORM, LIST, fourcc('JJJJ')})[:16]
    P = prop_options()
    some = [(), ('C',), ('F',)] + [(p,) for p in P] + [('C', P[1]), ('C', 'C', P[5]), ('F', 'C', P[0], P[1]), ('C', P[0], 'C', P[5]), (P[2], 'F', P[1]), (P[0], P[0], P[1]), (P[3], P[9])]
    for chain in some:
        nm = [c if isinstance(c, str) else 'L' + str([(tag(a), ids(b)) for a, b in c]) for c in chain]
        J = fourcc('JJJJ')
        for lt, later in ((J, 0), (U, 0), (THIRD, 1), (0, 1), (None, 1)) + (((U, J), 0), ((J, T), 1), ((T, U, J), 0), ((U, T, THIRD), 0)) * (len(chain) > 1):
            h = Heap(ctx)
            t = Tree(ctx, h, [Y], T, chain, lt, later)
            evaluate(ctx, rep, 'lookup', '%s: form with [BODY] in %s of type %s%s' % (f, nm, 'equal' if lt is None else '/'.join(map(tag, lt)) if isinstance(lt, tuple) else tag(lt), ', second member' if later else ''),
                     f, [t.form, X], h, t.want(T, X))
        for z in [0, 1] + sorted(x for x in sp.get('chunkSize', ()) if x < 1 << 31)[:6]:
            for own in ([], [X], [Y, X]):
                h = Heap(ctx)
                t = Tree(ctx, h, own, T, chain, None, 0, {'size': z})
                evaluate(ctx, rep, 'lookup', '%s: form with %s in %s, chunks of size %d' % (f, ids(own), nm, z), f, [t.form, X], h, t.want(T, X))
        for v in odd:
            for sub in ({X: v}, {T: v}, {Y: v}, {X: v, T: v}):
                for own in ([], [X]) if X in sub else ([],):
                    h = Heap(ctx)
                    t = Tree(ctx, h, own, T, chain, None, 0, sub)
                    evaluate(ctx, rep, 'lookup', '%s: form with %s in %s, %s' % (f, ids(own), nm, ', '.join('%s for %s' % (tag(b), tag(a)) for a, b in sub.items())),
                             f, [t.form, sub.get(X, X)], h, t.want(T, X))
    # the direct lookups
    for n in sorted({x for k in ('chunkLength', 'propLength', '') for x in sp.get(k, ()) if x < 36} | {9, 17}):
        for fn in ('IFF_getDataChunkFromForm', 'IFF_getChunkFromProp'):
            if ctx.has(fn):
                h = Heap(ctx)
                t = Tree(ctx, h, [Y] * n + [X, X], T, ())
                evaluate(ctx, rep, 'member', '%s: after %d others' % (fn, n), fn, [t.form, X], h, t.own[n][1])
        if ctx.has('IFF_getPropFromList'):
            h = Heap(ctx)
            t = Tree(ctx, h, [], T, ([(U, [X])] * n + [(T, [X])],))
            lst = h.cell(t.form + ctx.m.off('IFF_Chunk', 'parent'), 8)
            evaluate(ctx, rep, 'member', 'IFF_getPropFromList: after %d others' % n, 'IFF_getPropFromList', [lst, T], h,
                     h.cell(h.cell(lst + ctx.m.off('IFF_List', 'prop'), 8) + 8 * n, 8))
    for ms in ([], [X], [Y], [Y, X], [X, X], [Y, Y, Y, X], NEAR, [X ^ 0x01000000, X]):
        for fn in ('IFF_getDataChunkFromForm', 'IFF_getChunkFromProp'):
            if not ctx.has(fn):
                continue
            h = Heap(ctx)
            t = Tree(ctx, h, ms, T, ([(T, [X])],))
            evaluate(ctx, rep, 'member', '%s: %s' % (fn, ids(ms)), fn, [t.form, X], h, next((o for c, o in t.own if c == X), 0))
    if ctx.has('IFF_getPropFromList'):
        for props in ([], [T], [U], [U, T], [U, THIRD, T], [T ^ 1, T | 0x80000000], [T ^ 0x100, T]):
            h = Heap(ctx)
            t = Tree(ctx, h, [], T, ([(p, [X]) for p in props],))
            lst = h.cell(t.form + ctx.m.off('IFF_Chunk', 'parent'), 8)
            parr = h.cell(lst + ctx.m.off('IFF_List', 'prop'), 8)
            evaluate(ctx, rep, 'member', 'IFF_getPropFromList: %s' % [tag(p) for p in props], 'IFF_getPropFromList', [lst, T], h,
                     h.cell(parr + 8 * props.index(T), 8) if T in props else 0)
    retrieve(ctx, rep)
    live(ctx, rep, 'C21')


def tag(x):
    b = x.to_bytes(4, 'big')
    return b.decode() if all(32 <= c < 127 for c in b) else '%08x' % x


def ids(l):
    return '[%s]' % ' '.join(tag(x) for x in l)


def evaluate(ctx, rep, rule, inst, f, args, h, want):
    E = Evaluator(ctx, h, boundary=CORE)
    try:
        r = E.run(f, args)
        rep.check(rule, inst, None if r.ret is None else r.ret == want, 'returns %s, required %s' % (h.name(r.ret), h.name(want)),
                  '%s:%s' % (r.path.file, r.path.line), r.path)
    except Wrong as e:
        rep.bad(rule, inst, str(e), e.where)
    except Stuck as e:
        rep.und(rule, inst, str(e))


def retrieve(ctx, rep):
    f = 'IFF_getChunksFromForm'
    if not ctx.has(f):
        raise Broken('anchor vanished: %s' % f)
    words = [list(w) for n in range(4) for w in itertools.product((X, Y), repeat=n)] + [NEAR, [X] * 5, [Y, X, Y, X, Y], [X, Y, Y, Y, X]]
    sp = specials(ctx, ctx.walk(f))
    words = [(w, X) for w in words] + [([Y, X] * (n // 2) + [X] * (n % 2), X) for n in sorted({x for v in sp.values() for x in v if 0 < x < 36} | {8, 9, 16, 17})]
    words += [(w, v) for v in sorted({x for k in ('chunkId', 'groupType', '') for x in sp.get(k, ())} | {0, PROP, 0xffffffff})[:12] for w in ([], [v], [Y, v, X, v])]
    for ms, X_ in words:
        for fails in (None, 0, 1):
            if fails is not None and ms.count(X_) <= fails:
                continue
            h = Heap(ctx)
            t = Tree(ctx, h, ms, T, ([(T, [X])],))
            lp = h.obj('length')
            h.set(lp, 4, 77)
            toks = {}

            def key(e, args):
                return (e.name, tuple(args))

            def step(E, e, args, V, depth):
                if e.name in ('realloc', 'malloc', 'calloc', 'reallocarray'):
                    if None in args:
                        raise Stuck('arguments of %s' % e.name)
                    k = key(e, args)
                    if k not in toks:
                        toks[k] = h.obj('array %d' % len(toks))
                        if fails is not None and len(toks) > fails:
                            toks[k] = 0
                    return toks[k]
                if e.name == 'free':
                    return 'skip'
                return None
            inst = '%s: form with %s%s' % (f, ids(ms) + ('' if X_ == X else ' looked up for %s' % tag(X_)), '' if fails is None else ', memory exhausted after %d allocations' % fails)
            E = Evaluator(ctx, h, boundary=CORE, step=step)
            E.record = True
            try:
                r = E.run(f, [t.form, X_, lp])
                where = '%s:%s' % (r.path.file, r.path.line)
                n = ev(E.w.load(r.path.mem, P(('argp', 2)), 4), r.V)
                if n is None or r.ret is None:
                    raise Stuck('result')
                arrs, freed = {}, set()
                for e, nm, args in r.log:
                    if nm in ('realloc', 'reallocarray'):
                        new = toks[key(e, args)]
                        if args[0] in freed:
                            raise Wrong('a released array is enlarged', e.where())
                        if new:
                            arrs[new] = dict(arrs.get(args[0], {}))
                            if args[0] and args[0] != new:
                                freed.add(args[0])
                    elif nm in ('malloc', 'calloc'):
                        arrs[toks[key(e, args)]] = {}
                    elif nm == 'free' and args[0]:
                        freed.add(args[0])
                    elif nm == 'st':
                        if args[0] is None:
                            raise Stuck('store')
                        b = next((x for x in arrs if x and x <= args[0] < x + 0x400), None)
                        if b is not None:
                            arrs[b][(args[0] - b) // 8] = args[2]
                    elif nm in ('bulk', 'memcpy', 'memmove'):
                        raise Stuck('copy')
                want = [o for c, o in t.own if c == X_]
                if fails is not None:
                    ok = n == 0 or r.ret != 0 and r.ret not in freed and [arrs.get(r.ret, {}).get(i) for i in range(n)] == want[:n]
                    rep.check('retrieve', inst, ok, '%d chunks are reported' % n, where, r.path)
                    continue
                got = [arrs.get(r.ret, {}).get(i) for i in range(n)] if n < 100 else '%d chunks' % n
                if n and r.ret in freed:
                    raise Wrong('the array returned was released', where)
                rep.check('retrieve', inst, got == want, 'returns %s, required %s' % ([h.name(x) for x in got] if isinstance(got, list) else got, [h.name(x) for x in want]), where, r.path)
            except Wrong as e:
                rep.bad('retrieve', inst, str(e), e.where)
            except Stuck as e:
                rep.und('retrieve', inst, str(e))


RULES = {'C20': c20, 'C21': c21}
