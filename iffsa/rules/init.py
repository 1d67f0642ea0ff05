"""C37: nothing depends on memory nobody wrote.

Definite initialisation along every path of every operation (helpers inlined, loops as one generic round and once more as no round): a
branch, result, argument or stored value that depends on a local variable or on a freshly allocated block no earlier step of the path
wrote is reported, if the facts of the path have a model.
"""
import itertools
from ..lib import *
from .own import model
from ..prov import SEARCHES as SEARCH

FRESH = {'malloc', 'reallocarray', 'realloc'}


def mentions(t, fresh, out=None):
    """never written memory a term depends on: 'a local variable' or the address in a fresh block"""
    if out is None:
        out = []
    if not isinstance(t, tuple) or not t:
        return out
    k = t[0]
    if k == 'undef' or k == 'lphi' and len(t) > 1 and isinstance(t[1], tuple) and t[1] and t[1][0] == 'undef':
        out.append('a variable that is not set')
    elif k == 'ld':
        p = t[1]
        if p[0] == 'p' and p[1] in fresh and t[3] == 0:
            out.append('offset %d of the block allocated at %s' % (p[2], fresh[p[1]]))
    elif k == 'p':
        b = t[1]
        if b[0] == 'ldp' and b[2] == 0 and b[1][0] == 'p' and b[1][1] in fresh:
            out.append('offset %d of the block allocated at %s' % (b[1][2], fresh[b[1][1]]))
        elif b[0] == 'ldp':
            mentions(b[1], fresh, out)
        for x, _ in t[3]:
            mentions(x, fresh, out)
    elif k == 'lin':
        for x, _ in t[3]:
            mentions(x, fresh, out)
    elif k in ('zext', 'sext', 'trunc', 'bswap'):
        mentions(t[2], fresh, out)
    elif k == 'op':
        mentions(t[3], fresh, out)
        mentions(t[4], fresh, out)
    elif k == 'cmp':
        mentions(t[2], fresh, out)
        mentions(t[3], fresh, out)
    elif k in ('not', 'sel'):
        for x in t[1:]:
            mentions(x, fresh, out)
    return out




def uses(w, p, fresh, events, f0=0, S=lambda t: t):
    """(what is used, for what, where, number of facts known then) along one path"""
    for n, (c, tv) in enumerate(p.facts):
        m = mentions(S(c), fresh)
        if m:
            yield m[0], 'a branch', None, n
    for e in events:
        if e.kind in ('call', 'slot', 'rec', 'icall', 'diag'):
            for k, a in enumerate(e.args or []):
                m = mentions(S(a), fresh)
                if m:
                    yield m[0], 'argument %d of %s()' % (k + 1, e.name), e, None
            if e.kind == 'slot' and e.name.startswith(('read', 'write')) and len(e.args) > 3 and e.args[3][0] == 'p':
                # these functions add to the count they are given
                m = mentions(S(w.load(e.mem, e.args[3], 4)), fresh)
                if m:
                    yield m[0], 'the count %s() adds to' % e.name, e, None
        elif e.kind in ('st', 'ld'):
            if mentions(S(e.args[0]), fresh):
                yield mentions(S(e.args[0]), fresh)[0], 'an address', e, None
            elif e.kind == 'st' and e.args[0][0] == 'p' and e.args[0][1][0] != 'alloca' and mentions(S(e.args[2]), fresh):
                yield mentions(S(e.args[2]), fresh)[0], 'a value stored in an object', e, None
    if p.status == 'ret' and p.ret is not None and f0 == 0:
        m = mentions(S(p.ret), fresh)
        if m:
            yield m[0], 'the result', None, None


def lent(ctx, p, unit):
    """does the path hand a local variable to a nested operation whose effect on it is not known?"""
    m = ctx.mods[unit]
    for e, st in deep_calls(p):
        if e.kind in ('call', 'rec', 'slot', 'icall') and e.mem is e.mem2 and m.body(e.name) is not None:
            if any(a[0] == 'p' and a[1][0] == 'alloca' for a in e.args or []):
                return True
    return False


def outcomes(ctx, p, V, unit, facts):
    """the results of nested operations take the values of their kind"""
    evs = []
    for e in p.events:
        if e.kind in ('call', 'slot', 'rec') and e.ret is not None and e.ret[0] != 'p':
            k = fallible(ctx, e, unit)
            if k in ('bool', 'field') and any(e.ret in leaves(c) for c, tv in facts):
                evs.append((e, [0, 1] if k == 'bool' else [ctx.enum('IFF_FIELD_MORE'), ctx.enum('IFF_FIELD_FAILURE'), ctx.enum('IFF_FIELD_LAST')]))
    for combo in itertools.islice(itertools.product(*[v for e, v in evs]), 300):
        W = Val(dict(V.l), ptr=dict(V.ptr))
        for (e, _), v in zip(evs, combo):
            set_ret(W, e, v)
        if feasible(facts, W):
            yield W


def possible(ctx, p, facts, unit):
    """True: the facts have a model; False: they have none; None: not known"""
    facts = [(c, tv) for c, tv in facts if not mentions(c, {})]
    res = False
    for W in outcomes(ctx, p, Val(), unit, facts):
        r = model(facts, W, limit=1500)
        if r is False:
            r = model(facts, W, limit=1500, big=True)
        if r is True:
            return True
        if r is None:
            res = None
    return res


def start_of(loops):
    """terms of the state in which none of the loops has run a round"""
    sub = {}
    for LI in loops:
        for k, s in LI.sym.items():
            i = LI.init[k]
            if s[0] == 'lphi' or s[0] == 'p' and s[1][0] == 'lphi' and not s[2] and not s[3]:
                sub[s] = i
        for w in (8, 16, 32, 64):
            sub[('iter', LI.id, w)] = C(w, 0)
    return sub


def paths(ctx, rep, unit, f):
    ps = ctx.walk(f, unit=unit)
    if ps is None:
        rep.und('written', f, 'not enumerable')
        return
    w = ctx.walker(unit)
    for p in ps:
        fresh = {}
        for e in p.events:
            if e.kind == 'call' and e.name == 'malloc' and e.ret is not None:
                fresh[e.ret[1]] = e.where()
        loops = loops_of(p)
        found, open_ = None, lent(ctx, p, unit)

        def note(what, role, e, facts, q):
            nonlocal found
            r = possible(ctx, p, facts, unit)
            if r is False:
                return
            if r is None or open_:
                found = found or (None, '', '')
                return
            where = e.where() if e is not None else '%s:%s' % (q.file, q.line)
            found = (False, '%s depends on %s' % (role, what), where)
        for what, role, e, n in uses(w, p, fresh, p.events):
            note(what, role, e, p.facts[:n] if n is not None else p.facts, p)
        for LI in loops:
            carried = [k for k in LI.sym if mentions(LI.init[k], fresh)]
            for b in LI.backs:
                pre = p.facts[:LI.pre[1]] if LI.pre else []
                for what, role, e, n in uses(w, b, fresh, b.events, 1):
                    note(what, role, e, pre + (b.facts[:n] if n is not None else b.facts), b)
                if carried:
                    sub = start_of([LI])
                    S = lambda t: subst(t, sub)
                    for what, role, e, n in uses(w, b, fresh, b.events, 1, S):
                        fs = pre + [(S(c), tv) for c, tv in (b.facts[:n] if n is not None else b.facts)]
                        note(what, role, e, fs, b)
        if any(mentions(LI.init[k], fresh) for LI in loops for k in LI.sym):
            sub = start_of(loops)
            S = lambda t: subst(t, sub)
            for what, role, e, n in uses(w, p, fresh, p.events, 0, S):
                fs = [(S(c), tv) for c, tv in (p.facts[:n] if n is not None else p.facts)]
                note(what, role, e, fs, p)
        if found is None:
            rep.ok('written', '%s:%s' % (unit, f))
        else:
            rep.check('written', '%s:%s' % (unit, f), found[0], '%s: %s, which no step before wrote' % (f, found[1]), found[2], p)


def members(ctx, rep, f):
    """a chunk handed to the caller has every member of its structure set"""
    ps = ctx.walk(f)
    if ps is None:
        return rep.und('members', f, 'not enumerable')
    w = ctx.walker()
    for p in ps:
        if p.status != 'ret' or p.ret is None or p.ret[0] != 'p' or p.ret[1][0] != 'ret' or p.ret[2] or p.ret[3]:
            continue
        e = next((e for e in p.events if e.kind == 'call' and e.name in ('malloc', 'calloc') and e.ret is not None and e.ret[1] == p.ret[1]), None)
        if e is None:
            continue
        if e.name == 'calloc':
            rep.ok('members', f)
            continue
        size = e.args[0][2] if isc(e.args[0]) else None
        kinds = [k for k in KINDS if ctx.m.sizeof(k) == size] or ['IFF_Chunk']
        unset = []
        for fl in ctx.m.structs[kinds[0]]['fields']:
            v = w.load(p.mem, padd(p.ret, fl['off'], ()), fl['size'], fl['ty'].endswith('*'))
            if mentions(v, {p.ret[1]: 'x'}):
                unset.append(fl['name'])
        if unset:
            r = possible(ctx, p, p.facts + [(cmp('eq', p.ret, NULL), False)], 'lib')
            if r is False:
                continue
            rep.check('members', f, None if r is not True else False, '%s returns a new %s without setting %s' % (f, kinds[0], ', '.join(unset)),
                      '%s:%s' % (p.file, p.line), p)
        else:
            rep.ok('members', f)


KINDS = ['IFF_Chunk', 'IFF_RawChunk', 'IFF_List', 'IFF_Group', 'IFF_Form', 'IFF_CAT', 'IFF_Prop']
INT = {'IFF_UByte*', 'IFF_UWord*', 'IFF_Word*', 'IFF_ULong*', 'IFF_Long*', 'IFF_ID*', 'unsigned int*', 'int*', 'size_t*', 'unsigned long*'}


def outputs(ctx, rep, f, fn):
    """an output parameter is set whenever the operation succeeds"""
    for n, (ty, a) in enumerate(zip(fn.dty[1:], fn.args)):
        if ty not in INT:
            continue
        ps = ctx.walk(f, boundary=CORE | SEARCH)
        if ps is None:
            rep.und('output', f, 'not enumerable')
            continue
        w = ctx.walker()
        size = {'IFF_UByte*': 1, 'IFF_UWord*': 2, 'IFF_Word*': 2, 'size_t*': 8, 'unsigned long*': 8}.get(ty, 4)
        base = P(('argp', n))
        if any(asks(p.events, base, size) for p in ps):
            continue    # the caller has to set it
        kind = conv(ctx.m, f)
        same = lambda v: v[0] == 'ld' and v[1] == base and v[3] == 0
        if all(same(w.load(p.mem, base, size)) for p in ps):
            continue    # not an output
        for p in ps:
            if p.status != 'ret':
                continue
            v = w.load(p.mem, base, size)
            if not same(v):
                rep.ok('output', '%s argument %d' % (f, n + 1))
                continue
            facts = list(p.facts)
            if kind == 'bool':
                facts.append((cmp('eq', p.ret, C(width(p.ret), 0)), False))
            elif kind == 'field':
                facts.append((cmp('eq', p.ret, C(width(p.ret), ctx.enum('IFF_FIELD_MORE'))), True))
            r = possible(ctx, p, facts, 'lib')
            rep.check('output', '%s argument %d' % (f, n + 1), {True: False, False: True, None: None}[r],
                      '%s succeeds without setting what argument %d points to' % (f, n + 1), '%s:%s' % (p.file, p.line), p)


def asks(events, base, size):
    """is the place read, handed on or added to before it is written?"""
    for e in events:
        if e.kind == 'loop':
            if any(asks(b.events, base, size) for b in e.loop.backs):
                return True
        elif e.kind == 'ld' and e.args[0] == base:
            v = e.args[2]
            if v[0] == 'ld' and v[1] == base and v[3] == 0 or v[0] == 'lphi':
                return True
        elif e.kind == 'slot' and base in (e.args or []):
            return True
    return False


def c37(ctx, rep):
    if ctx.cfg == 'le':
        rep.need('written', 150)
        rep.need('members', 10)
        rep.need('output', 30)
        for f, fn in sorted(ctx.m.fns.items()):
            if not fn.decl and not fn.local and ctx.m.body(f) is not None:
                if fn.ret == 'ptr' and fn.dty[0].rstrip('*').strip() in KINDS and fn.dty[0].count('*') == 1:
                    members(ctx, rep, f)
                outputs(ctx, rep, f, fn)
        # once more with marked locals: the values of variables nobody set are then not folded away
        c37(Ctx('init'), rep)
    n = 0
    for unit, m in sorted(ctx.mods.items()):
        for f, fn in sorted(m.fns.items()):
            if fn.decl or m.body(f) is None or fn.local:
                continue
            paths(ctx, rep, unit, f)
            n += 1
    rep.counts['operations'] = rep.counts.get('operations', 0) + n


RULES = {'C37': c37}
