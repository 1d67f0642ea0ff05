"""C28: loops and recursions make progress.

Loops: every way round every loop is a summary of one generic round (facts, events, next state).  A way round is shown to repeat itself
forever if, from a model of its facts, the abstract rounds come back to a state they were in before while nothing is consumed, or if its
facts do not depend on anything a round changes.  Recursions: the arguments of every recursive call (direct, through another operation or
through a handler table) are compared with those of the running activation.
"""
from ..lib import *
from ..prov import paramkind, SEARCHES
from .own import model, public, pairs, KNOWN, B
from .module import tables

CONSUME = {'fread', 'fgetc', 'getc', '_IO_getc', 'getchar', 'fgets', 'getline', 'IFF_readChunk', 'IFF_read', 'IFF_readFd', 'IFF_readFile', 'strtok', 'readdir',
           'getopt', 'getopt_long', 'getopt_long_only'}
OPTS = {'getopt', 'getopt_long', 'getopt_long_only'}
BIGC = (300, 0x7fff, 0x8000, 0x10000, 70000, 0x7fffffff)


def rounds(events, facts, pre=0, outer=()):
    """(loop, facts before it) of every loop, nested ones included"""
    for e in events:
        if e.kind == 'loop':
            LI = e.loop
            before = list(outer) + list(facts[:max(0, LI.pre[1] - pre)])
            yield LI, before
            for b in LI.backs:
                yield from rounds(b.events, b.facts, LI.pre[1], before)


def consuming(events):
    out = []
    for e in events:
        if e.kind == 'call' and e.name in CONSUME or e.kind == 'rec' and e.name in CONSUME or e.kind == 'slot' and e.name.startswith('read'):
            out.append(e)
    return out


def unknown_calls(ctx, unit, events):
    return [e for e in events if e.kind == 'call' and e.name not in CONSUME and e.name not in KNOWN and e.name not in CHUNK_OPS
            and e.name not in SEARCHES and not e.name.startswith('IFF_') and ctx.mods[unit].body(e.name) is None and e.name not in
            ('free', 'fopen', 'fdopen', 'fclose', 'llvm', 'ferror', 'feof', 'fflush', 'ungetc', 'toupper', 'tolower', 'isalpha', 'isdigit', 'isprint', 'isalnum',
             'isupper', 'islower', 'isspace', 'strncasecmp', 'strcasecmp')]


def deep_leaves(t, out=None):
    """leaves, including those inside the addresses of loads"""
    out = set() if out is None else out
    for l in leaves(t):
        if l in out:
            continue
        out.add(l)
        if l[0] == 'ld':
            deep_leaves(l[1], out)
        elif l[0] == 'p' and l[1][0] == 'ldp':
            deep_leaves(l[1][1], out)
    return out


def varying(l, LI, consumed_ids):
    """does the value of a leaf depend on the round?"""
    if l[0] == 'iter':
        return l[1] == LI.id
    if l[0] == 'lphi':
        return l[1] == LI.id
    if l[0] == 'p':
        b = l[1]
        if b[0] == 'lphi':
            return b[1] == LI.id
        if b[0] == 'ret':
            return variant(b, LI.id)
        if b[0] == 'ldp':
            return b[2] != 0 or any(varying(x, LI, consumed_ids) for x in leaves(b[1]))
        return b[0] not in ('argp', 'alloca', 'g', 'f')
    if l[0] == 'arg':
        return False
    if l[0] == 'ld':
        return l[3] != 0 or any(varying(x, LI, consumed_ids) for x in leaves(l[1]))
    return True


def loose(l, LI):
    """a value every round finds afresh: what a call of the round answers, what a member selected by the counter holds"""
    if l[0] == 'ret' or l[0] == 'p' and l[1][0] == 'ret':
        b = l[1] if l[0] == 'p' else l
        return variant(b, LI.id)
    if l[0] == 'ld' or l[0] == 'p' and l[1][0] == 'ldp':
        a = l[1] if l[0] == 'ld' else l[1][1]
        return any(x[0] == 'iter' and x[1] == LI.id for x in deep_leaves(a))
    if l[0] in ('iter', 'lphi') or l[0] == 'p' and l[1][0] == 'lphi':
        return (l[1][1] if l[0] == 'p' else l[1]) != LI.id
    return l[0] in ('out', 'sv') or l[0] == 'p' and l[1][0] == 'out'


def relevant(LI, ways, fixed):
    """loop-carried keys the facts of the rounds depend on, transitively; whether something untracked matters"""
    bysym = {}
    for k, s in LI.sym.items():
        if k not in LI.step:
            bysym[s if s[0] != 'p' else P(s[1])] = k
    R, its, work, hidden = set(), set(), [], False

    def scan(t):
        nonlocal hidden
        for l in leaves(t):
            if l in fixed:
                continue
            if l[0] == 'iter' and l[1] == LI.id:
                its.add(l[2])
            elif l in bysym and bysym[l] not in R:
                R.add(bysym[l])
                work.append(bysym[l])
            elif (l[0] == 'ld' or l[0] == 'p' and l[1][0] == 'ldp'):
                a = l[1] if l[0] == 'ld' else l[1][1]
                ver = l[3] if l[0] == 'ld' else l[1][2]
                if ver != 0 and not settled(ver, ways):
                    hidden = True
                for x in deep_leaves(a):
                    if x in bysym and any(bk.next.get(bysym[x]) != LI.sym[bysym[x]] for bk in ways):
                        hidden = True
    for bk in ways:
        for c, tv in bk.facts:
            scan(c)
    while work:
        k = work.pop()
        for bk in ways:
            if bk.next.get(k) is None:
                hidden = True
            else:
                scan(bk.next[k])
    return R, its, hidden


def settled(ver, ways):
    """nothing is stored in a round, so that a version of memory other than the first one is still the same in every round"""
    return not any(e.kind in ('st', 'bulk', 'call', 'rec', 'slot', 'icall') for bk in ways for e in bk.events)


def fail(ctx, e, V):
    """the stream is at its end: what a consuming call returns from then on"""
    if e.ret is None:
        return
    if e.name in OPTS:
        set_ret(V, e, -1)
    elif e.name in ('fgetc', 'getc', '_IO_getc', 'getchar'):
        set_ret(V, e, -1)
    else:
        set_ret(V, e, 0)


def state0(LI, keys, V):
    cur = {}
    for k in keys:
        cur[k] = ev(LI.init[k], V)
    return cur


def put(LI, cur, k, V):
    iter_fix(V, LI.id, k)
    for c, v in cur.items():
        s = LI.sym[c]
        if s[0] == 'p':
            V.ptr[s[1]] = v
        else:
            V.l[s] = v & mask(width(s))
    V.memo.clear()


def mixed(c, LI, fixed):
    """a fact about something a round finds afresh: True if about nothing else, None if about both"""
    ls = [l for l in leaves(c) if l not in fixed]
    fresh = [l for l in ls if loose(l, LI)]
    if not fresh:
        return False
    rest = [l for l in ls if l not in fresh and (l[0] in ('iter', 'lphi') and l[1] == LI.id or l[0] == 'p' and l[1][0] == 'lphi' and l[1][1] == LI.id)]
    return None if rest else True


class Way:
    """a way round with the values no round changes put in"""
    def __init__(self, bk, m):
        self.events = bk.events
        self.facts = [(subst(c, m), tv) for c, tv in bk.facts] if m else list(bk.facts)
        self.next = {k: subst(v, m) if m and v is not None else v for k, v in bk.next.items()}


def still(LI, ways):
    """substitution of the carried values that no round changes"""
    m = {}
    for k, s in LI.sym.items():
        if k not in LI.step and LI.init.get(k) is not None and all(bk.next.get(k) == s for bk in ways):
            m[s if s[0] != 'p' else P(s[1])] = LI.init[k]
    return m


def boosts(facts, V, fixed):
    """the model, then the model with one value made large"""
    yield None
    ls = []
    for c, tv in facts:
        for l in leaves(c):
            if l not in fixed and l not in ls and l in V.l and width(l) in (32, 64) and l[0] in ('arg', 'ld'):
                ls.append(l)
    for l in ls[:6]:
        for v in (300, 70000):
            old = V.l[l]
            V.l[l] = v
            V.memo.clear()
            if holds(facts, V) is True:
                yield l
            V.l[l] = old
            V.memo.clear()


def spin(ctx, LI, ways, bk, pre, pr):
    """(verdict, message) of a run that starts with the way bk and goes on with any of the ways: 'endless' with evidence, 'ends', or 'open'"""
    cons = consuming(bk.events)
    F = Val()
    for w in ways:
        for e in consuming(w.events):
            fail(ctx, e, F)
    fixed = set(F.l) | {P(b) for b in F.ptr}
    best = ('infeasible', '')
    for group in ([bk], [bk] + [w for w in ways if w is not bk]):
        if len(group) == 1 and len(ways) > 1:
            mm = still(LI, group)
            if not mm and consuming(bk.events):
                continue
        else:
            mm = still(LI, group)
        ws = [Way(w, mm) for w in group]
        R, its, hidden = relevant(LI, ws, fixed)
        V = Val()
        for w in ways:
            for e in consuming(w.events):
                fail(ctx, e, V)
        m = {}
        for k in R:
            s = LI.sym[k]
            m[s if s[0] != 'p' else P(s[1])] = LI.init[k]
        for w in (1, 8, 16, 32, 64):
            m[('iter', LI.id, w)] = C(w, 0)
        iter_fix(V, LI.id, 0)
        facts = [(subst(c, m), tv) for c, tv in list(pre) + ws[0].facts]
        r = model(facts, V, pr)
        if r is False:
            return ('consumes', '') if cons else ('infeasible', '')
        if r is None:
            best = 'open', 'no model'
            continue
        if hidden:
            best = 'open', 'depends on memory the round reaches'
            continue
        hard = []
        for i, w in enumerate(ws):
            fs, odd, free = [], False, []
            for c, tv in w.facts:
                x = mixed(c, LI, fixed)
                if x is None:
                    odd = True
                elif x is False:
                    fs.append((c, tv))
                else:
                    free.append((c, tv))
            if i and (odd or model(free, Val(), pr) is not True):
                continue
            if odd:
                hard = None
                break
            hard.append((w, fs))
        if hard is None:
            best = 'open', 'what a round finds is compared with what it carries'
            continue
        # values nothing has been said about yet
        for w, fs in hard:
            for c, tv in fs:
                for l in leaves(c):
                    if l[0] in ('arg', 'ld') and l not in V.l and not loose(l, LI):
                        V.l[l] = 0
        V.memo.clear()
        for bst in boosts(facts, V, fixed):
            best = run(ctx, LI, hard, R, its, V)
            if best[0] == 'endless':
                return best
            iter_fix(V, LI.id, 0)
            V.memo.clear()
    return best


def run(ctx, LI, hard, R, its, V):
    keep = dict(V.l), dict(V.ptr)
    try:
        cur = state0(LI, R, V)
        if any(v is None for v in cur.values()):
            return 'open', 'initial state'
        seen = {}
        wide = [w for w in its if w > 16]
        N = 66000 if its and not wide and 16 in its else 700
        for k in range(N):
            put(LI, cur, k, V)
            for w, fs in hard:
                h = holds(fs, V)
                if h is None:
                    return 'open', 'round %d' % k
                if h is True:
                    break
            else:
                return 'ends', 'after %d rounds' % k
            st = (tuple(sorted(((repr(c), v) for c, v in cur.items()))), tuple(k & mask(x) for x in sorted(its)))
            if st in seen:
                return 'endless', 'after %d rounds it is in the state of round %d' % (k, seen[st])
            seen[st] = k
            nxt = {}
            for c in cur:
                v = ev(w.next[c], V)
                if v is None:
                    return 'open', 'next state'
                nxt[c] = v & (mask(64) if LI.sym[c][0] == 'p' else mask(width(LI.sym[c])))
            cur = nxt
        # a wide counter whose condition always holds, whatever the bound (short of the largest number there is)
        fs = hard[0][1]
        if wide and not R and all(one_sided(c, LI) for c, tv in fs if any(l[0] == 'iter' and l[1] == LI.id for l in leaves(c))) \
                and not any(V.l.get(l) in (mask(width(l)), mask(width(l)) >> 1) for c, tv in fs for l in leaves(c)):
            w = max(wide)
            for k in (0, 1, mask(w) >> 1, (mask(w) >> 1) + 1, mask(w) - 1, mask(w)):
                put(LI, cur, k, V)
                if holds(fs, V) is not True:
                    return 'ends', 'beyond round %d' % N
            return 'endless', 'its condition holds for every value of the counter'
        return 'long', 'still going after %d rounds' % N
    finally:
        V.l.clear()
        V.l.update(keep[0])
        V.ptr.clear()
        V.ptr.update(keep[1])
        V.memo.clear()


def one_sided(c, LI):
    c = c[1] if c[0] == 'not' else c
    if c[0] != 'cmp' or c[1] == 'eq':
        return False
    a, b = c[2], c[3]
    va, vb = (any(l[0] == 'iter' and l[1] == LI.id for l in leaves(x)) for x in (a, b))
    x = a if va else b
    if va and vb:
        return False
    while x[0] in ('zext', 'sext'):
        x = x[2]
    if x[0] == 'lin':
        return len(x[3]) == 1 and x[3][0][1] in (1, mask(width(x)))
    return x[0] == 'iter'


def kind(LI, bk):
    """how a round advances, for the evidence"""
    ks = []
    if any(any(l[0] == 'iter' and l[1] == LI.id for l in leaves(c)) for c, tv in bk.facts):
        ks.append('counter')
    if consuming(bk.events):
        ks.append('consumes')
    for k, v in bk.next.items():
        s = LI.sym.get(k)
        if s is not None and s[0] == 'p' and s[1][0] == 'lphi' and v[0] == 'p' and v[1][0] == 'ldp' and s in deep_leaves(v[1][1]):
            ks.append('member to member')
        elif s is not None and s[0] == 'lphi' and v != s and any(s in leaves(c) for c, tv in bk.facts):
            ks.append('carried value')
    return ', '.join(dict.fromkeys(ks)) or 'none'


def loops(ctx, rep):
    done = set()
    n = 0
    for unit, name, fn, ps in public(ctx):
        key = (unit, name, frozenset((B if unit == 'lib' else B | {f for f in ctx.m.fns if ctx.m.body(f)})))
        for LI, pre in ctx.endless.get(key, []):
            inst = '%s: loop at %s' % (name, LI.where())
            r = model(list(pre), Val())
            opts = any(e.name in OPTS for b in LI.backs for e in b.events)
            rep.check('way-out', inst, False if r is True and not opts else None, '%s: the loop at %s has no way out' % (name, LI.where()), LI.where())
        for f, where, facts in ctx.stuck.get(key, []):
            r = model(list(facts), Val())
            rep.check('round-advances', '%s: loop at %s' % (name, where), False if r is True else None,
                      '%s: a round of the loop in %s changes nothing, so it never ends' % (name, f), where)
        if ps is None:
            rep.und('round-advances', name, 'not enumerable')
            continue
        if not any(p.status in ('ret', 'exit') for p in ps):
            rep.check('way-out', name, False if not fn.noreturn else None, '%s never returns' % name, '%s:%s' % (fn.file, fn.line))
        for p in ps:
            pr = pairs(p)
            for LI, pre in rounds(p.events, p.facts):
                for i, bk in enumerate(LI.backs):
                    inst = '%s: loop at %s, way %d' % (name, LI.where(), i)
                    sig = (inst, tuple(pre), tuple(bk.facts))
                    if sig in done:
                        continue
                    done.add(sig)
                    n += 1
                    judge(ctx, rep, unit, name, LI, LI.backs, bk, pre, pr, inst)
    rep.need('round-advances', 30)
    rep.counts['ways round loops'] = n


def judge(ctx, rep, unit, name, LI, ways, bk, pre, pr, inst):
    where = '%s:%s' % (bk.file, bk.line) if bk.line else LI.where()
    k = kind(LI, bk)
    if unknown_calls(ctx, unit, bk.events):
        rep.und('round-advances', inst, 'calls %s' % ', '.join(sorted({e.name for e in unknown_calls(ctx, unit, bk.events)})))
        return
    if any(e.name in OPTS for e in bk.events):
        rep.ok('round-advances', inst, 'takes one option per round')
        return
    v, msg = spin(ctx, LI, ways, bk, pre, pr)
    if v == 'endless':
        rep.bad('round-advances', inst, '%s: the loop at %s can go round for ever: %s' % (name, LI.where(), msg), where, bk)
        return
    verdicts = [v]
    if 'ends' in verdicts or 'consumes' in verdicts or all(v == 'infeasible' for v in verdicts):
        rep.ok('round-advances', inst, '%s (%s)' % (k, '/'.join(verdicts)))
    elif 'member to member' in k or 'counter' in k or 'consumes' in k:
        rep.ok('round-advances', inst, '%s (%s)' % (k, '/'.join(verdicts)))
    else:
        rep.und('round-advances', inst, '%s (%s)' % (k, '/'.join(verdicts)))


# ---------------------------------------------------------------- recursion
def activation(events, e):
    """arguments of the innermost running activation of the function a recursive call goes to; None for the analysed function itself"""
    stack = []
    for x in events:
        if x is e:
            break
        if x.kind == 'enter':
            stack.append(x)
        elif x.kind == 'leave' and stack:
            stack.pop()
    for x in reversed(stack):
        if x.name == e.name:
            return x.args
    return None


def direction(ctx, a, own):
    """'same', 'up', 'down', 'other' of a chunk argument relative to the running chunk"""
    if a == own:
        return 'same'
    if a[0] != 'p' or own[0] != 'p':
        return 'other'
    par = ctx.m.field('IFF_Chunk', 'parent')
    t, seen, d = a, 0, None
    while t[0] == 'p' and t[1][0] == 'ldp' and seen < 6:
        q = t[1][1]
        seen += 1
        if q == padd(own, par['off'], ()) and t[2] == 0:
            return 'up'
        for s, f in (('IFF_Group', 'chunk'), ('IFF_List', 'prop')):
            x = ctx.m.field(s, f)
            if q[0] == 'p' and q[1][0] == 'ldp' and q[1][1] == padd(own, x['off'], ()):
                return 'down'
        t = q
        if t[0] == 'p' and P(t[1], 0) == own:
            return 'other'
    return 'other'


def recursion(ctx, rep):
    rows = tables(ctx)
    handlers = {}
    for r in [x[1] for x in rows['rows']] + ([rows['default'][1]] if rows['default'] else []):
        for s, f in r.items():
            if isinstance(f, str) and f != '?':
                handlers.setdefault(f, set()).add(s)
    OPOF = {'read': 'IFF_readChunk', 'write': 'IFF_writeChunk', 'check': 'IFF_checkChunk', 'free': 'IFF_freeChunk', 'print': 'IFF_printChunk', 'compare': 'IFF_compareChunk'}
    ARG = {'IFF_writeChunk': (1, 1), 'IFF_checkChunk': (0, 0), 'IFF_freeChunk': (0, 0), 'IFF_printChunk': (0, 0), 'IFF_compareChunk': (0, 0)}
    nrec = 0
    for unit, name, fn, ps in public(ctx):
        if unit != 'lib' or ps is None:
            continue
        for p in ps:
            pr = pairs(p)
            dirs = {}
            for evs, facts in bodies(p.events, p.facts):
                for e in evs:
                    if e.kind == 'rec' or e.kind == 'call' and e.name == name:
                        nrec += 1
                        own = activation(p.events, e) if e.kind == 'rec' and e.name != name else None
                        if own is None and e.name == name:
                            own = [ctx.arg(name, i) for i in range(len(fn.args))]
                        if own is None:
                            own = activation([x for x, _ in flat(p.events)], e)
                        inst = '%s: %s at %s' % (name, e.name, e.where())
                        if own is None:
                            rep.und('recursion-advances', inst, 'activation not found')
                            continue
                        f = ctx.m.fns.get(e.name)
                        objs = [i for i, d in enumerate(f.dty[1:]) if paramkind(d) == 'obj' and 'Registry' not in d and i < len(e.args)]
                        ds = [direction(ctx, e.args[i], own[i]) for i in objs]
                        changed = {l for i in range(len(e.args)) if i not in objs and e.args[i] != own[i] for l in leaves(own[i])}
                        same = all(e.args[i] == own[i] for i in objs) and not any(l in deep_leaves(c) for c, tv in facts for l in changed)
                        if objs and same and ds:
                            r = model(list(facts[:e.nf]) if e.nf is not None and e.nf <= len(facts) else list(facts), Val(), pr)
                            rep.check('recursion-advances', inst, False if r is True else None, '%s calls itself for the same object, so it never ends' % e.name, e.where(), p)
                        elif not objs and list(e.args) == list(own):
                            rep.check('recursion-advances', inst, None, 'same arguments', e.where(), p)
                        else:
                            rep.ok('recursion-advances', inst, '/'.join(ds))
                        for d in ds[:1]:
                            dirs.setdefault(e.name, {}).setdefault(d, e)
                    # an operation that comes back through the handler table
                    if e.kind == 'call' and e.name in ARG and name in handlers and any(OPOF.get(next((k for k in OPOF if s.startswith(k)), ''), '') == e.name for s in handlers[name]):
                        ai, hi = ARG[e.name]
                        nrec += 1
                        own = ctx.arg(name, 1 if e.name == 'IFF_writeChunk' else 0)
                        inst = '%s: %s at %s' % (name, e.name, e.where())
                        d = direction(ctx, e.args[ai], own)
                        if d == 'same':
                            r = model(list(facts), Val(), pr)
                            rep.check('recursion-advances', inst, False if r is True else None,
                                      '%s hands its own chunk back to %s, which calls it again' % (name, e.name), e.where(), p)
                        elif d == 'up':
                            r = model(list(facts), Val(), pr)
                            rep.check('recursion-advances', inst, False if r is True else None,
                                      '%s goes to the enclosing group, which comes back' % name, e.where(), p)
                        else:
                            rep.ok('recursion-advances', inst, d)
            for g, d in dirs.items():
                if 'up' in d and 'down' in d:
                    r = model(list(p.facts), Val(), pr)
                    rep.check('recursion-direction', '%s: %s' % (name, g), False if r is True else None,
                              '%s calls itself for the enclosing group at %s and for a member at %s, so it goes back and forth' % (g, d['up'].where(), d['down'].where()),
                              d['up'].where(), p)
                else:
                    rep.ok('recursion-direction', '%s: %s' % (name, g), ', '.join(d))
    # reading a nested chunk consumes its header first
    for p in ctx.walk('IFF_readChunk') or []:
        got = False
        for e in p.events:
            if e.kind == 'call' and e.name in ('fread', 'fgetc', 'getc'):
                got = True
            if e.kind == 'slot' and e.name.startswith('read'):
                rep.check('header-first', 'IFF_readChunk: %s' % e.where(), got, 'IFF_readChunk dispatches to the read handler before anything was consumed', e.where(), p)
    # parent tables end
    for label in sorted({x[0] for x in rows['nodes']}):
        chain = [x[1] for x in rows['nodes'] if x[0] == label]
        rep.check('tables-end', label, len(chain) == len(set(chain)), 'the parent tables of %s of the default registry form a cycle' % label, chain[0] if chain else '')
    rep.need('recursion-advances', 8)
    rep.need('header-first', 1)
    rep.need('tables-end', 1)
    rep.counts['recursive calls'] = nrec


def flat(events):
    for e in events:
        yield e, None
        if e.kind == 'loop':
            for b in e.loop.backs:
                yield from flat(b.events)


def bodies(events, facts):
    """(events, facts) of the straight parts of a path and of every loop round"""
    yield [e for e in events], list(facts)
    for e in events:
        if e.kind == 'loop':
            before = list(facts[:e.loop.pre[1]])
            for b in e.loop.backs:
                yield from bodies(b.events, before + list(b.facts))


def c28(ctx, rep):
    loops(ctx, rep)
    recursion(ctx, rep)


RULES = {'C28': c28}
