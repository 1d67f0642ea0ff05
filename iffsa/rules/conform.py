"""C15, C16: conformance check and comparison.

The path summary of each check and compare function is evaluated over a finite family of abstract groups: every kind of
chunk, contents relation, array length class, declared size relation, and outcome of the checks and comparisons of nested
chunks (which are oracles, so nothing below one level is assumed).  The result must be the one the property prescribes.
"""
import itertools
from ..lib import *
from ..heap import Heap, Evaluator, Stuck, Wrong
from .ids import fourcc

FORM, CAT, LIST, PROP, JJJJ = (fourcc(x) for x in ('FORM', 'CAT ', 'LIST', 'PROP', 'JJJJ'))
BMHD = fourcc('BMHD')
ILBM, ANIM = fourcc('ILBM'), fourcc('8SVX')
GROUPS = {FORM, CAT, LIST, PROP}
B15 = CORE | {'IFF_checkId', 'IFF_checkFormType'}
KINDS = {'IFF_checkForm': FORM, 'IFF_checkCAT': CAT, 'IFF_checkList': LIST, 'IFF_checkProp': PROP}


def txt(x):
    b = x.to_bytes(4, 'big')
    return b.decode() if all(32 <= c < 127 for c in b) else b.hex()


class Sub:
    def __init__(self, cid, size=6, gtype=ILBM, ok=True, inner=0):
        self.cid = cid; self.size = size; self.gtype = gtype; self.ok = ok
        self.inner = inner      # members of the member, which only its own check looks at

    def __repr__(self):
        return '%s%s/%d%s%s' % (txt(self.cid), '' if self.cid not in GROUPS else ':' + txt(self.gtype),
                                self.size, '' if self.ok else ' failing', ' of %d' % self.inner if self.inner else '')


def above(ctx, h, a, kinds):
    """the group is nested in groups of these kinds, the nearest first"""
    for i, k in enumerate(kinds):
        up = h.obj('ancestor %d' % (i + 1))
        h.field(up, 'IFF_Chunk', parent=0, chunkId=k, chunkSize=1000)
        arr = h.obj('ancestor %d.chunk' % (i + 1))
        h.set(arr, 8, a)
        h.field(up, 'IFF_Group', groupType=ILBM, chunkLength=1, chunk=arr)
        h.field(up, 'IFF_List', prop=0, propLength=0) if k == LIST else None
        h.field(a, 'IFF_Chunk', parent=up)
        a = up


ABOVE = ((CAT,), (LIST,), (FORM,), (CAT, CAT), (FORM, LIST, CAT), (LIST, FORM, FORM, LIST, CAT))


def build(ctx, h, name, cid, gtype, size, subs, props=None, addr=None):
    a = h.obj(name) if addr is None else addr
    h.field(a, 'IFF_Chunk', parent=0, chunkId=cid, chunkSize=size)
    h.field(a, 'IFF_Group', groupType=gtype, chunkLength=len(subs))
    res = []
    for f, st, es, ln in (('chunk', 'IFF_Group', subs, 'chunkLength'),) + ((('prop', 'IFF_List', props, 'propLength'),) if props is not None else ()):
        arr = h.obj('%s.%s' % (name, f))
        h.field(a, st, **{f: arr if es else 0, ln: len(es)})
        for i, s in enumerate(es):
            o = h.obj('%s.%s[%d]' % (name, f, i))
            h.field(o, 'IFF_Chunk', parent=a, chunkId=s.cid, chunkSize=s.size)
            if s.cid in GROUPS:
                x = h.obj('%s.%s[%d].chunk' % (name, f, i)) if s.inner else 0
                h.field(o, 'IFF_Group', groupType=s.gtype, chunkLength=s.inner, chunk=x)
                for j in range(s.inner):
                    y = h.obj('%s.%s[%d].chunk[%d]' % (name, f, i, j), 0x40)
                    h.field(y, 'IFF_RawChunk', parent=o, chunkId=BMHD, chunkSize=4)
                    h.set(x + 8 * j, 8, y)
            h.set(arr + 8 * i, 8, o)
            res.append((o, s))
    return a, res


def natural(subs, props=()):
    return 4 + sum(padded(s.size) for s in list(subs) + list(props or ()))


def verdict(kind, gt, subs, props, size, okform, okid):
    """what the property prescribes"""
    if not (okform if kind in (FORM, PROP) else okid):
        return False
    for s in subs:
        if not s.ok:
            return False
        if kind == FORM and s.cid == PROP or kind == PROP and s.cid in GROUPS:
            return False
        if kind in (CAT, LIST):
            if s.cid not in (FORM, CAT, LIST):
                return False
            if gt != JJJJ and s.gtype != gt:
                return False
    if any(not s.ok for s in props or ()):
        return False
    return size == natural(subs, props)


def groups_for(kind):
    """(group type, sub chunks, properties, size deviation, outcome of the form type check, outcome of the ID check)"""
    islist = kind == LIST
    subkinds = [FORM, CAT, LIST, PROP, BMHD]
    P0 = [[]] if not islist else [[], [Sub(PROP, 7)], [Sub(PROP, 4), Sub(PROP, 5, ANIM)]]
    good = {FORM: BMHD, PROP: BMHD, CAT: FORM, LIST: FORM}[kind]
    for gt in (ILBM, JJJJ):
        for props in P0:
            # lengths and parities, all well formed otherwise
            for n in range(0, 4):
                for par in range(2 ** n):
                    subs = [Sub(good, 6 + i * 2 + (par >> i & 1), gt if gt != JJJJ else (ILBM, ANIM)[i % 2]) for i in range(n)]
                    if n == 3 and par not in (0, 5, 7):
                        continue
                    yield gt, subs, props, 0, True, True
                    for dev in (-1, 1, -4, 8) if n in (0, 1) or par in (0, 3) else (1,):
                        yield gt, subs, props, dev, True, True
            # kinds and types of members
            for n in (1, 2):
                for cs in itertools.product(subkinds, repeat=n):
                    for ts in itertools.product((ILBM, ANIM, JJJJ), repeat=n):
                        if n == 2 and (any(c not in GROUPS and t != ILBM for c, t in zip(cs, ts)) or sum(t != ILBM for t in ts) > 1):
                            continue
                        yield gt, [Sub(c, 4 + i, t) for i, (c, t) in enumerate(zip(cs, ts))], props, 0, True, True
            # failing members
            for n in (1, 2, 3):
                for bad in range(n):
                    subs = [Sub(good, 6, gt if gt != JJJJ else ILBM, i != bad) for i in range(n)]
                    # declared sizes that a sum cut short or continued after the failure could still match
                    nat = natural(subs, props)
                    part = natural(subs[:bad], props)
                    for dev in {0, 3 - nat, 4 - nat, part - nat, part - nat - 1, natural([], props) - nat - 1, natural([], props) - nat, padded(6) * -1, -1}:
                        yield gt, subs, props, dev, True, True
            for cs in ((PROP,), (BMHD,), (FORM,), (good, PROP), (good, FORM)):
                subs = [Sub(c, 6, ILBM if gt == JJJJ else ANIM) for c in cs]
                nat = natural(subs, props)
                for dev in {3 - nat, 4 - nat, natural([], props) - nat - 1, natural([], props) - nat, natural(subs[:-1], props) - nat}:
                    yield gt, subs, props, dev, True, True
            # the group type itself
            for okform, okid in ((False, True), (False, False)):
                yield gt, [Sub(good, 6, gt if gt != JJJJ else ILBM)], props, 0, okform, okid
                yield gt, [], props, 0, okform, okid
    if islist:
        for n in (1, 2, 3):
            for bad in range(n):
                for subs in ([Sub(FORM, 6)], []):
                    props = [Sub(PROP, 6, ILBM, i != bad) for i in range(n)]
                    nat = natural(subs, props)
                    for dev in {0, 3 - nat, 4 - nat, natural(subs) - nat, natural(subs) - nat - 1, natural(subs, props[:bad]) - nat, -1}:
                        yield ILBM, subs, props, dev, True, True
        yield ILBM, [Sub(FORM, 5)], [Sub(PROP, 5), Sub(PROP, 5)], -1, True, True
        yield JJJJ, [Sub(FORM, 6)], [Sub(PROP, 6, ANIM)], 0, True, True


def singled(kind, sp):
    """groups that carry the values the code singles out, and quantities beyond every narrower integer"""
    good = {FORM: BMHD, PROP: BMHD, CAT: FORM, LIST: FORM}[kind]
    P1 = [[], [Sub(PROP, 7)]] if kind == LIST else [[]]
    small = lambda f: sorted(x for x in sp.get(f, ()) if x < 1 << 20)[:8]
    for props in P1:
        for t in sorted(set(sp.get('groupType', ())) | set(sp.get('', ())) | {0, JJJJ, 0x20202020, FORM, LIST, 0xffffffff})[:16]:
            for okform, okid in ((True, True), (False, True), (False, False)):
                yield t, [Sub(good, 6, t)], props, 0, okform, okid
                yield t, [], props, 0, okform, okid
            yield t, [Sub(good, 6, ILBM)], props, 0, True, True
            yield ILBM, [Sub(good, 6, t)], props, 0, True, True
            yield JJJJ, [Sub(good, 6, t), Sub(good, 6, ILBM)], props, 0, True, True
        for i in sorted(set(sp.get('chunkId', ())) | set(sp.get('', ())) | {0, 0x20202020, 0x54455854, JJJJ})[:16]:
            for ok in (True, False):
                yield ILBM, [Sub(i, 6, ILBM, ok)], props, 0, True, True
                yield ILBM, [Sub(good, 4), Sub(i, 6, ILBM, ok)], props, 0, True, True
        for z in sorted(set(small('chunkSize')) | {0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001}):
            for dev in (0, 1, -1, -0x100, 0x100, -0x10000, 0x10000, 1 << 24):
                yield ILBM, [Sub(good, z)], props, dev, True, True
                yield ILBM, [Sub(good, z), Sub(good, 5)], props, dev, True, True
            for ok in (True, False):
                yield ILBM, [Sub(good, 5), Sub(good, z, ILBM, ok)], props, 0, True, True
        for n in sorted({5, 9, 17} | {x for x in small('chunkLength') if x < 300}):
            for dev in (0, 2):
                yield ILBM, [Sub(good, 4)] * n, props, dev, True, True
            yield ILBM, [Sub(good, 4)] * (n - 1) + [Sub(good, 4, ILBM, False)], props, 0, True, True
    if kind == LIST:
        for n in sorted({4, 9, 17} | {x for x in small('propLength') if x < 300}):
            for dev in (0, 2):
                yield ILBM, [Sub(good, 4)], [Sub(PROP, 4)] * n, dev, True, True
            yield ILBM, [Sub(good, 4)], [Sub(PROP, 4)] * (n - 1) + [Sub(PROP, 4, ILBM, False)], 0, True, True


def nested(kind, sp):
    """(group as above, kinds of the groups it is nested in)"""
    good = {FORM: BMHD, PROP: BMHD, CAT: FORM, LIST: FORM}[kind]
    P1 = [[], [Sub(PROP, 7)]] if kind == LIST else [[]]
    # the types of members say nothing about whether they are checked
    for gt in (ILBM, JJJJ, ANIM):
        for t, u in ((ILBM, ANIM), (ANIM, ILBM), (ANIM, ANIM), (JJJJ, ILBM)):
            for i in (0, 1, 2):
                if kind == LIST:
                    yield (gt, [], [Sub(PROP, 6, t, i != 0), Sub(PROP, 5, u, i != 1)], 0, True, True), ()
                    yield (gt, [Sub(FORM, 6, gt)], [Sub(PROP, 6, t, i != 0), Sub(PROP, 5, u, i != 1)], 0, True, True), ()
                if kind in (FORM, CAT, LIST):
                    yield (gt, [Sub(CAT, 6, t, i != 0), Sub(FORM, 5, u, i != 1), Sub(LIST, 4, t)], [], 0, True, True), ()
    for up in ABOVE:
        for props in P1:
            for subs in ([], [Sub(good, 5)], [Sub(good, 6), Sub(good, 4, ok=False)], [Sub(good, 6, ok=False), Sub(good, 4)]):
                yield (ILBM, subs, props, 0, True, True), up
                yield (ILBM, subs, props, 2, True, True), up
            yield (ILBM, [Sub(good, 6)], props, 0, False, False), up
        if kind == LIST:
            yield (ILBM, [Sub(good, 5)], [Sub(PROP, 6), Sub(PROP, 6, ok=False)], 0, True, True), up
        if kind in (CAT, LIST):
            yield (ILBM, [Sub(good, 6, ANIM)], [], 0, True, True), up
            yield (ILBM, [Sub(BMHD, 6)], [], 0, True, True), up
    ns = sorted({1, 2, 9} | {x + d for f in ('chunkLength', 'propLength') for x in sp.get(f, ()) if x < 300 for d in (0, 1)})
    for n in ns:
        for c in {FORM: (FORM, CAT, LIST), PROP: (BMHD,)}.get(kind, (FORM, CAT, LIST)):
            if c in GROUPS:
                for ok in (True, False):
                    yield (ILBM, [Sub(c, 6), Sub(c, 6, ok=ok, inner=n)], [], 0, True, True), ()
                    yield (ILBM, [Sub(c, 6, ok=ok, inner=n)], [], -2, True, True), ()
        if kind == LIST:
            for ok in (True, False):
                yield (ILBM, [], [Sub(PROP, 6, ok=ok, inner=n), Sub(PROP, 5)], 0, True, True), ()


def of(*fs):
    def get(ctx):
        sp = {}
        for f in fs:
            if ctx.has(f):
                for k, v in specials(ctx, ctx.walk(f, boundary=B15 - {f})).items():
                    sp.setdefault(k, set()).update(v)
        return sp
    return get


def c15_groups(ctx, rep):
    for f, kind in sorted(KINDS.items()):
        if not ctx.has(f):
            raise Broken('anchor vanished: %s' % f)
        sp = of(f)(ctx)
        for (gt, subs, props, dev, okform, okid), up in itertools.chain(((x, ()) for x in itertools.chain(groups_for(kind), singled(kind, sp))), nested(kind, sp)):
            h = Heap(ctx)
            size = natural(subs, props) + dev
            a, els = build(ctx, h, 'group', kind, gt, size, subs, props if kind == LIST else None)
            above(ctx, h, a, up)
            reg = h.obj('registry')
            outcome = dict(els)

            def step(E, e, args, V, depth):
                if e.name == 'IFF_checkChunk':
                    s = outcome.get(args[0])
                    if s is None:
                        raise Wrong('%s is checked as a member' % h.name(args[0]) if args[0] is not None else 'unknown member', e.where()) if args[0] is not None \
                            else Stuck('member')
                    return int(s.ok)
                if e.name in ('IFF_checkFormType', 'IFF_checkId'):
                    if args[0] is None:
                        raise Stuck('argument of %s' % e.name)
                    if args[0] == gt:
                        return int(okform if e.name == 'IFF_checkFormType' else okid)
                    return 1
                return None
            want = verdict(kind, gt, subs, props, size, okform, okid)
            inst = '%s: type %s%s subs %s%s size %+d' % (f, txt(gt), '' if okform else ' illegal as form type' if okid else ' illegal ID', subs,
                                                          ' props %s' % props if kind == LIST else '', dev)
            if up:
                inst += ', in ' + ' in '.join(txt(k).strip() for k in up)
            decide(ctx, rep, 'check-group', inst, f, [a, reg], h, step, want, B15)


def decide(ctx, rep, rule, inst, f, args, h, step, want, boundary, maxiter=40):
    E = Evaluator(ctx, h, boundary=boundary, step=step, maxiter=maxiter)
    try:
        r = E.run(f, args)
    except Wrong as e:
        rep.bad(rule, inst, str(e), e.where)
        return
    except Stuck as e:
        rep.und(rule, inst, str(e))
        return
    got = None if r.ret is None else r.ret != 0
    rep.check(rule, inst, None if got is None else got == want, 'reports %s, required %s' % (got, want), '%s:%s' % (r.path.file, r.path.line), r.path)


def c15_chunk(ctx, rep):
    more = of('IFF_checkChunk')(ctx)
    for cid, size in [(FORM, 4), (BMHD, 4), (BMHD, 0), (BMHD, 1), (LIST, 0), (BMHD, 0x7fffffff)] + \
            [(x, 4) for f in ('chunkId', '') for x in sorted(more.get(f, ()))[:8]] + \
            [(BMHD, x) for x in sorted(more.get('chunkSize', ())) if x < 1 << 31][:8]:
        for okid in (1, 0):
            for ok in (1, 0):
                h = Heap(ctx)
                a, _ = build(ctx, h, 'chunk', cid, ILBM, size, [])
                reg, ty = h.obj('registry'), h.obj('type')

                def step(E, e, args, V, depth):
                    if e.name == 'IFF_checkId':
                        return okid if args[0] == cid else 1
                    if e.name == 'IFF_checkFormType':
                        return okid
                    if e.name == 'IFF_findChunkType':
                        return ty
                    if e.kind == 'slot' and e.name.startswith('check'):
                        return ok
                    return None
                decide(ctx, rep, 'check-chunk', 'IFF_checkChunk: ID %s, own check %s' % ('legal' if okid else 'illegal', 'passes' if ok else 'fails'), 'IFF_checkChunk',
                       [a, ILBM, reg], h, step, bool(okid and ok), {'IFF_checkId', 'IFF_findChunkType', 'IFF_checkFormType'})
    main = of('IFF_check')(ctx)
    for cid in sorted({FORM, CAT, LIST, PROP, BMHD, 0, fourcc('TEXT'), fourcc('FORN'), fourcc('CAT1'), 0xffffffff, fourcc('LISU')} |
                      set(main.get('chunkId', ())) | set(main.get('', ()))):
        for ok in (1, 0):
            for reg in (0, 1):
                h = Heap(ctx)
                h.gl = {('g', 'IFF_defaultChunkRegistry'): 0x50000}
                a, _ = build(ctx, h, 'chunk', cid, ILBM, 4, [])

                def step(E, e, args, V, depth):
                    return ok if e.name == 'IFF_checkChunk' else None
                decide(ctx, rep, 'check-main', 'IFF_check: %08x, its check %s%s' % (cid, 'passes' if ok else 'fails', '' if reg else ', no registry'), 'IFF_check',
                       [a, h.obj('registry') if reg else 0], h, step, bool(ok and cid in (FORM, CAT, LIST)), CORE)
    if ctx.has('IFF_checkRawChunk'):
        for size in (0, 1, 5):
            h = Heap(ctx)
            a = h.obj('raw')
            h.field(a, 'IFF_RawChunk', chunkId=BMHD, chunkSize=size, chunkData=h.obj('data'), parent=0)
            decide(ctx, rep, 'check-raw', 'IFF_checkRawChunk: size %d' % size, 'IFF_checkRawChunk', [a, h.obj('registry')], h, None, True, CORE)


def c15(ctx, rep):
    rep.need('check-group', 400)
    rep.need('check-chunk', 8)
    rep.need('check-main', 40)
    c15_groups(ctx, rep)
    c15_chunk(ctx, rep)


# ---------------------------------------------------------------- C16
TEXT = fourcc('TEXT')
COMPARE = {'IFF_compareForm': FORM, 'IFF_compareCAT': CAT, 'IFF_compareList': LIST, 'IFF_compareProp': PROP}


def c16_groups(ctx, rep):
    rep.need('compare-group', 300)
    label = {}
    for f, kind in sorted(COMPARE.items()):
        if not ctx.has(f):
            raise Broken('anchor vanished: %s' % f)
        sp = of(f)(ctx)
        words = [''.join(x) for n in range(3) for x in itertools.product('ab', repeat=n)] + ['aaa', 'aba', 'baa', 'aab']
        for w1, w2 in itertools.product(words, repeat=2):
            if len(w1) == len(w2) == 3 and w1 != 'aaa':
                continue
            odd = sorted(set(sp.get('groupType', ())) | set(sp.get('', ())) | {0, JJJJ})[:8] if w1 == w2 and len(w1) < 3 or w1 + w2 == 'ab' else []
            for t1, t2 in [(ILBM, ILBM), (ILBM, ANIM), (ILBM, ILBM | 0x80000000)] + [x for t in odd for x in ((t, t), (t, ILBM), (ILBM, t))]:
                ps = [('', '')]
                if kind == LIST:
                    ps = [('', ''), ('a', 'a'), ('a', 'b'), ('a', ''), ('', 'a'), ('ab', 'ab'), ('ab', 'aa'), ('ab', 'bb'), ('ab', 'ba'), ('ab', 'a'), ('aab', 'aaa')]
                    if w1 != w2:
                        ps = ps[:1] + ps[6:7]
                if t1 != t2 and w1 != w2:
                    continue
                for p1, p2 in ps:
                    c16_pair(ctx, rep, f, kind, w1, w2, t1, t2, p1, p2)
        more = sorted({FORM, CAT, LIST, PROP, BMHD, fourcc('TEXT')} | (set(sp.get('chunkId', ())) | set(sp.get('', ()))))[:14]
        ns = sorted({0, 3} | {x + d for k in ('chunkLength', 'propLength') for x in sp.get(k, ()) if x < 300 for d in (0, 1)})
        pw = (('', ''), ('ab', 'aa'), ('ab', 'bb'), ('ab', 'ab')) if kind == LIST else (('', ''),)
        for (w1, w2), (p1, p2) in itertools.product((('a', 'b'), ('ab', 'aa'), ('ab', 'bb'), ('ab', 'ab'), ('aab', 'aaa'), ('aba', 'aaa'), ('ab', 'a')), pw):
            for m in more:
                c16_pair(ctx, rep, f, kind, w1, w2, ILBM, ILBM, p1, p2, m, inner=ns[-1] if m in GROUPS else 0)
            for m, n in itertools.product((FORM, LIST, PROP), ns):
                c16_pair(ctx, rep, f, kind, w1, w2, ILBM, ILBM, p1, p2, m, inner=n)
            for up1, up2 in [((), u) for u in ABOVE] + [(u, u) for u in ABOVE]:
                c16_pair(ctx, rep, f, kind, w1, w2, ILBM, ILBM, p1, p2, up=(up1, up2))
            c16_pair(ctx, rep, f, kind, w1, w2, ILBM, ANIM, p1, p2, up=(ABOVE[1], ABOVE[1]))


def c16_pair(ctx, rep, f, kind, w1, w2, t1, t2, p1, p2, member=FORM, inner=0, up=((), ())):
    """two groups whose members are equal where the letters are"""
    h = Heap(ctx)
    lab = {}
    objs = []
    for nm, w_, t, pw, u in (('first', w1, t1, p1, up[0]), ('second', w2, t2, p2, up[1])):
        a, els = build(ctx, h, nm, kind, t, 100, [Sub(member, inner=inner) for _ in w_], [Sub(PROP, inner=inner) for _ in pw] if kind == LIST else None)
        above(ctx, h, a, u)
        for (o, s), l in zip(els, w_ + pw):
            lab[o] = l
        objs.append(a)

    def step(E, e, args, V, depth):
        if e.name == 'IFF_compareChunk':
            if args[0] is None or args[1] is None:
                raise Stuck('members compared')
            if args[0] not in lab or args[1] not in lab:
                raise Wrong('%s is compared with %s' % (h.name(args[0]), h.name(args[1])), e.where())
            return int(lab[args[0]] == lab[args[1]])
        return None
    want = t1 == t2 and w1 == w2 and p1 == p2
    inst = '%s: [%s]%s against [%s]%s%s' % (f, w1, '+[%s]' % p1 if kind == LIST else '', w2, '+[%s]' % p2 if kind == LIST else '',
                                            '' if t1 == t2 else ', types differ')
    if member != FORM or inner:
        inst += ', members %s of %d' % (txt(member), inner)
    if up[0] or up[1]:
        inst += ', nested in %s and %s' % tuple(' in '.join(txt(k).strip() for k in u) or 'nothing' for u in up)
    decide(ctx, rep, 'compare-group', inst, f, objs + [h.obj('registry')], h, step, want, CORE)


def c16_chunk(ctx, rep):
    rep.need('compare-chunk', 8)
    vals = [(BMHD, BMHD, 6, 6), (BMHD, FORM, 6, 6), (BMHD, BMHD, 6, 7), (BMHD, BMHD | 0x80000000, 6, 6), (BMHD, BMHD, 6, 6 + 65536), (BMHD, BMHD, 0, 0),
            (BMHD, BMHD, 0, 1), (BMHD, BMHD ^ 1, 1, 0), (BMHD, BMHD ^ 0x100, 3, 3)]
    sp = of('IFF_compareChunk')(ctx)
    for v in sorted(set(sp.get('chunkId', ())) | {0, FORM, JJJJ})[:8]:
        vals += [(v, v, 6, 6), (v, BMHD, 6, 6), (BMHD, v, 6, 6), (v, v, 6, 8)]
    for v in sorted(set(sp.get('chunkSize', ())) | {4, mask(31), mask(32)})[:8]:
        vals += [(BMHD, BMHD, v, v), (BMHD, BMHD, v, 6), (BMHD, BMHD, 6, v), (BMHD, FORM, v, v)]
    for (i1, i2, s1, s2), eq in itertools.product(vals, (1, 0)):
        h = Heap(ctx)
        a, b = h.obj('first'), h.obj('second')
        h.field(a, 'IFF_Chunk', parent=0, chunkId=i1, chunkSize=s1)
        h.field(b, 'IFF_Chunk', parent=h.obj('parent'), chunkId=i2, chunkSize=s2)
        ty = h.obj('type')

        def step(E, e, args, V, depth):
            if e.name == 'IFF_findChunkType':
                return ty
            if e.kind == 'slot' and e.name.startswith('compare'):
                return eq
            return None
        decide(ctx, rep, 'compare-chunk', 'IFF_compareChunk: IDs %s, sizes %s, contents %s' % ('equal' if i1 == i2 else '%08x %08x' % (i1, i2), (s1, s2),
                                                                                              'equal' if eq else 'differ'),
               'IFF_compareChunk', [a, b, ILBM, h.obj('registry')], h, step, bool(eq and i1 == i2 and s1 == s2), {'IFF_findChunkType'})
    for eq in (1, 0):
        for reg in (0, 1):
            h = Heap(ctx)
            h.gl = {('g', 'IFF_defaultChunkRegistry'): 0x50000}
            a, b = (build(ctx, h, n, FORM, ILBM, 4, [])[0] for n in ('first', 'second'))

            def step(E, e, args, V, depth):
                return eq if e.name == 'IFF_compareChunk' else None
            decide(ctx, rep, 'compare-main', 'IFF_compare: main chunks %s%s' % ('equal' if eq else 'differ', '' if reg else ', no registry'), 'IFF_compare',
                   [a, b, h.obj('registry') if reg else 0], h, step, bool(eq), CORE)


def sgn(a, b):
    return (a > b) - (a < b)


def c16_raw(ctx, rep):
    rep.need('compare-raw', 20)
    f = 'IFF_compareRawChunk'
    if not ctx.has(f):
        raise Broken('anchor vanished: %s' % f)
    words = [[], [5], [0], [1, 2], [0, 7], [0, 0, 9], [200, 0, 3], [1, 0, 0, 0], list(range(1, 12))]
    cases = [(w, w) for w in words]
    for w in words:
        for i in range(len(w)):
            for d in (1, 0x80):
                cases.append((w, w[:i] + [w[i] ^ d] + w[i + 1:]))
    # what sums, parities and the usual hashes of the payloads confuse
    for w in ([65, 97, 7, 0, 12, 90, 33, 128], [200, 100, 50, 25, 12, 6, 3, 1, 0, 0]):
        for i, j in ((0, 1), (2, 4), (0, len(w) - 1), (len(w) - 2, len(w) - 1)):
            sw = list(w)
            sw[i], sw[j] = sw[j], sw[i]
            fl = list(w)
            fl[i] ^= 0x11
            fl[j] ^= 0x11
            cases += [(w, sw), (w, fl)]
        for m in (31, 33, 37, 65):
            for up in (1, -1):
                c = [100, 90, 80, 120]
                c[1] += up
                c[2] -= up * m
                cases.append(([100, 90, 80, 120], c))
    for n in (255, 256, 257):
        w = [(i * 7 + 1) & 255 for i in range(n)]
        cases += [(w, w)] + [(w, w[:i] + [w[i] ^ 4] + w[i + 1:]) for i in (0, 128, n - 2, n - 1)]
    cases = [(a, b) for i, (a, b) in enumerate(cases) if (a, b) not in cases[:i]]
    big = [65535, 65536, 0x10001, 0x7ffffffe, 0x7fffffff]
    sp = of(f)(ctx)
    named = sorted({TEXT} | {x for k in ('chunkId', '') for x in sp.get(k, ()) if x >> 24})[:6]
    short = [(a, b) for a, b in cases if len(a) < 13]
    for w1, w2, cid in [c + (BMHD,) for c in cases] + [(n, n, BMHD) for n in big] + [c + (i,) for i in named for c in short]:
        h = Heap(ctx)
        objs = []
        n = len(w1) if isinstance(w1, list) else w1
        seen = []
        for nm, w in (('first', w1), ('second', w2)):
            a, d = h.obj(nm), h.obj(nm + ' payload')
            h.field(a, 'IFF_RawChunk', parent=0, chunkId=cid, chunkSize=n, chunkData=d)
            for i, b in enumerate(w if isinstance(w, list) else ()):
                h.set(d + i, 1, b)
            objs.append((a, d))
        d1, d2 = objs[0][1], objs[1][1]

        def step(E, e, args, V, depth):
            if e.name in ('memcmp', 'bcmp', 'strncmp', 'strcmp', '__memcmp_eq'):
                if None in args:
                    raise Stuck('arguments of %s' % e.name)
                if {args[0], args[1]} != {d1, d2}:
                    raise Wrong('%s is compared with %s' % (h.name(args[0]), h.name(args[1])), e.where())
                if isinstance(w1, int):
                    if e.name == 'strcmp' or args[2] != n:
                        raise Wrong('%s bytes are compared, the payload has %d' % (args[2] if len(args) > 2 else 'not all', n), e.where())
                    return 0
                ln = args[2] if len(args) > 2 else 10 ** 6
                for i in range(ln):
                    x, y = h.cell(args[0] + i, 1), h.cell(args[1] + i, 1)
                    if x is None or y is None:
                        raise Wrong('more than the %d bytes of the payload are compared' % n, e.where())
                    if x != y:
                        return sgn(x, y)
                    if x == 0 and e.name.startswith('str'):
                        return 0
                return 0
            return None
        inst = '%s: %s' % (f, '%d bytes' % n if isinstance(w1, int) else '%s against %s' % (bytes(w1).hex(), bytes(w2).hex()) if n < 40 else
                                '%d bytes, %s' % (n, 'equal' if w1 == w2 else 'different at %d' % [x == y for x, y in zip(w1, w2)].index(False)))
        if cid != BMHD:
            inst += ', chunk %s' % txt(cid)
        if isinstance(w1, int):
            # only the extent passed to the library function matters here
            E = Evaluator(ctx, h, boundary=CORE, step=step)
            try:
                r = E.run(f, [objs[0][0], objs[1][0], h.obj('registry')])
                rep.check('compare-raw', inst, None if r.ret is None else r.ret != 0, 'equal payloads are reported different', '%s:%s' % (r.path.file, r.path.line), r.path)
            except Wrong as e:
                rep.bad('compare-raw', inst, str(e), e.where)
            except Stuck as e:
                rep.und('compare-raw', inst, str(e))
            continue
        decide(ctx, rep, 'compare-raw', inst, f, [objs[0][0], objs[1][0], h.obj('registry')], h, step, w1 == w2, CORE, maxiter=n + 40)


def c16(ctx, rep):
    c16_groups(ctx, rep)
    c16_chunk(ctx, rep)
    c16_raw(ctx, rep)


RULES = {'C15': c15, 'C16': c16}
