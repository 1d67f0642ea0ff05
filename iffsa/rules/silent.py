"""C34: failures are explained, accepted hierarchies draw no complaint.

For every path of every check, read and write operation: a path that reports failure although everything it delegated to - nested
chunk operations, handlers, allocations - succeeded must have passed a diagnostic to the error callback; a path of a check that
reports acceptance must not have.  A path is reported only if its facts have a model.
"""
import itertools
from ..lib import *
from .errors import Judge
from .own import model, characters, constants

FAMILIES = {'IFF_check': 'check', 'IFF_read': 'read', 'IFF_skip': 'read', 'IFF_write': 'write'}


def result(ctx, f, kind, ret, ok):
    """facts under which the returned term reports success (or failure)"""
    w = width(ret) if ret[0] != 'p' else 64
    if kind == 'bool':
        return [(cmp('eq', ret, C(w, 0)), not ok)]
    if kind == 'ptr':
        return [(cmp('eq', ret, NULL), not ok)]
    if kind == 'field':
        return [(cmp('eq', ret, C(w, ctx.enum('IFF_FIELD_FAILURE'))), not ok)]
    if kind == 'size':
        return [(cmp('eq', ret, C(w, mask(w))), not ok)]


def convention(ctx, f):
    k = conv(ctx.m, f)
    if k is None and (ctx.m.fns[f].dty or [''])[0] == 'IFF_Long' and f.startswith('IFF_check'):
        return 'size'
    return k


def says(events):
    """is a diagnostic certainly (True), possibly (None) or not (False) passed on?"""
    r = False
    for e in events:
        if e.kind == 'diag':
            return True
        if e.kind == 'loop' and any(says(b.events) is not False for b in e.loop.backs):
            r = None
    return r


class Quiet:
    """a loop without its rounds that report something"""

    def __init__(self, LI):
        self.LI = LI
        self.backs = [b for b in LI.backs if says(b.events) is False]

    def __getattr__(self, n):
        return getattr(self.LI, n)


class Teller(Judge):
    def steps(self, events):
        out = []
        for e in events:
            if e.kind == 'icall' and e.ret is not None and e.ret[0] != 'p':
                out.append((e, 'bool'))
            elif e.kind in ('slot', 'rec') or e.kind == 'call' and (e.name in ALLOC or self.ctx.m.body(e.name) is not None):
                k = fallible(self.ctx, e, self.unit)
                if k:
                    out.append((e, k))
                elif e.ret is not None and e.ret[0] != 'p' and convention(self.ctx, e.name) == 'size':
                    out.append((e, 'size'))
        return out


def good(ctx, e, k, V):
    return [0, 12, 40] if k == 'size' else ok_reps(ctx, e, k, V)


def settle(ctx, j, p, V, steps, i=0):
    """give every step a successful outcome the path allows"""
    if i == len(steps):
        return feasible(p.facts, V)
    e, k = steps[i]
    for r in good(ctx, e, k, V) or []:
        set_ret(V, e, r)
        if feasible(p.facts, V) and settle(ctx, j, p, V, steps, i + 1):
            return True
    (V.ptr if e.ret[0] == 'p' else V.l).pop(e.ret[1] if e.ret[0] == 'p' else e.ret, None)
    V.memo.clear()
    return False


def carried(t, loops):
    """loop-carried values a term depends on, other than counters"""
    syms = {}
    for LI in loops:
        for k, s in LI.sym.items():
            if k not in LI.step:
                syms[s if s[0] != 'p' else P(s[1])] = LI
    return [x for x in leaves(t) if x in syms or x[0] == 'p' and P(x[1]) in syms]


def plausible(ctx, facts, loops):
    """declared sizes are not negative, and sums of them stay so"""
    off = ctx.m.field('IFF_Chunk', 'chunkSize')
    out = set()
    sums = {s for LI in loops for k, s in LI.sym.items() if k not in LI.step and s[0] != 'p' and width(s) == 32}
    for x in {x for c, tv in facts for x in leaves(c)}:
        q, n = (x[1], x[2]) if x[0] == 'ld' else (x[2], x[3]) if x[0] == 'out' else (None, 0)
        if x in sums or q is not None and q[0] == 'p' and n == off['size'] and q[2] == off['off'] and not q[3]:
            out.add(x)
    return sorted(out, key=repr)


BYTES = (0x20, 0x41, 0x5a, 0x39, 0x30, 0x61, 0x7e, 0x2e, 0x21, 0x1f, 0x7f, 0x80, 0xff, 0x00, 0x40, 0x5b, 0x2f, 0x3a)
IDS = sorted({bytes(x) for a in (b'ABCD', b'AB  ', b'    ', b'ABC ') for i in range(4) for v in BYTES for j in range(4) for u in (None, 0x20, 0x41)
              for x in [bytearray(a)] if not x.__setitem__(i, v) and (u is None or not x.__setitem__(j, u))})


ALLID = {}


def allowed(facts, x):
    """IDs (of a family with every kind of character in every position) that meet what the facts say about x alone"""
    cs = set()
    for c, tv in facts:
        constants(c, cs)
    ids = ALLID.setdefault(None, [int.from_bytes(b, 'big') for b in IDS])
    named = sorted(v for v in cs if v >> 24)
    own = [f for f in facts if leaves(f[0]) == {x}]
    bits = (1 << len(ids)) - 1
    for f in own:
        k = (f, x)
        if k not in ALLID:
            b = 0
            for i, v in enumerate(ids):
                if holds([f], Val({x: v})) is not False:
                    b |= 1 << i
            ALLID[k] = b
        bits &= ALLID[k]
    out = [v for v in named if holds(own, Val({x: v})) is not False]
    return out[:6] + [ids[i] for i in range(len(ids)) if bits >> i & 1][:6]


def plausible_model(ctx, facts, loops, V, mode='read'):
    """a model in which sizes are ordinary and the stream's indicators agree with a failing transfer"""
    xs = [x for x in plausible(ctx, facts, loops) if x not in V.l]
    cs, chars, ends, errs = set(), set(), set(), set()
    for c, tv in facts:
        constants(c, cs)
        characters(c, chars)
        for x in leaves(c):
            if x[0] == 'ret' and 'feof' in x[1]:
                ends.add(x)
            if x[0] == 'ret' and 'ferror' in x[1]:
                errs.add(x)
    sizes = (4, 5, 12, 30) + tuple(sorted({v + d for v in cs for d in (-1, 0, 1) if 0 <= v + d < 1 << 20} - {4, 5, 12, 30}))[:12]
    fams = [[{}]]
    if xs:
        fams.append([dict(zip(xs, c)) for c in list(itertools.product(sizes, repeat=len(xs)) if len(xs) < 3 else zip(*[sizes] * len(xs)))[:200]])
    chars = sorted((x for x in chars if x not in V.l), key=repr)
    if chars:
        for x in chars:
            fams.append([{x: v} for v in allowed(facts, x)])
    if ends or errs:
        fams.append([dict([(x, a) for x in ends] + [(x, b) for x in errs]) for a, b in (((1, 0), (0, 1)) if mode == 'read' else ((0, 1),))])
    res = False
    for combo in itertools.product(*fams):
        W = Val(dict(V.l), ptr=dict(V.ptr))
        for d in combo:
            W.l.update(d)
        if any(holds([f], W) is False for f in facts):
            continue
        r = model(facts, W, limit=1500)
        if r is True:
            return True
        if r is None:
            res = None
    return res


def paths(ctx, rep, f, kind, fam):
    ps = ctx.walk(f)
    if ps is None:
        rep.und('explained', f, 'not enumerable')
        return
    j = Teller(ctx, rep, 'explained', fam[0], f, kind)
    for p in ps:
        if p.status != 'ret' or p.ret is None:
            continue
        where = '%s:%s' % (p.file, p.line)
        told = says(p.events)
        loops = loops_of(p)
        if told is not True:
            steps = j.steps(p.events)
            V = Val()
            verdict = False
            if settle(ctx, j, p, V, steps):
                qs = [Quiet(LI) for LI in loops]
                for W in j.with_flags(V, qs):
                    if not feasible(p.facts, W):
                        continue
                    facts = list(p.facts) + result(ctx, f, kind, p.ret, False)
                    loose = [x for c, tv in facts for x in carried(c, loops) if x not in W.l and not (x[0] == 'p' and x[1] in W.ptr)]
                    r = plausible_model(ctx, facts, loops, W, fam)
                    if r is True and told is None and loose:
                        r = None
                    verdict = True if r is True or verdict is True else None if r is None or verdict is None else False
            rep.check('explained', f, None if verdict is None else not verdict,
                      '%s reports failure without a diagnostic although everything it delegates to succeeded' % f, where, p)
        else:
            rep.ok('explained', f)
        if fam == 'check':
            if told is False:
                rep.ok('silent-success', f)
                continue
            facts = list(p.facts) + result(ctx, f, kind, p.ret, True)
            V = Val()
            r = plausible_model(ctx, facts, loops, V, fam)
            if r is True and any(carried(c, loops) for c, tv in facts):
                # a flag set together with the diagnostic may decide the result
                r = None
            rep.check('silent-success', f, None if r is None else r is not True, '%s accepts after passing a diagnostic to the error callback' % f, where, p)


def c34(ctx, rep):
    rep.need('explained', 60)
    rep.need('silent-success', 20)
    n = 0
    for f, fn in sorted(ctx.m.fns.items()):
        if fn.decl or fn.local:
            continue
        fam = next((v for k, v in FAMILIES.items() if f.startswith(k)), None)
        k = fam and convention(ctx, f)
        if k:
            paths(ctx, rep, f, k, fam)
            n += 1
    rep.counts['operations'] = n
    passed_on(ctx, rep)


def passed_on(ctx, rep):
    """a diagnostic reaches the error callback, whatever it says"""
    null = cmp('eq', P(('ldp', P(('g', 'IFF_errorCallback')), 0)), NULL)
    for f in ('IFF_error', 'IFF_readError', 'IFF_writeError'):
        if not ctx.has(f):
            raise Broken('anchor vanished: %s' % f)
        ps = ctx.walk(f)
        if ps is None:
            rep.und('passed-on', f, 'not enumerable')
            continue
        for p in ps:
            if p.status != 'ret':
                continue
            s = says(p.events)
            if s is not False or (null, True) in p.facts:
                rep.check('passed-on', f, True if s is not None else None)
                continue
            if not p.facts:
                ok = False
            else:
                ok = False if model(p.facts, Val()) is True else None
            rep.check('passed-on', f, ok, '%s() can drop the diagnostic it was given: the error callback is not called' % f, '%s:%s' % (p.file, p.line), p)


RULES = {'C34': c34}
