"""C10: every access stays inside the recorded extent.

For every load, store and bulk transfer on every enumerated path (helpers inlined; loops unrolled for the first rounds, and taken at later
rounds where the index is the round counter) the extent recorded for the accessed object is looked up in the abstract memory at that
point, and the facts of the path are joined with the statement that the access leaves it.  A violation is reported only with a model.
"""
from ..lib import *
from ..prov import paramkind, SEARCHES
from .own import model, public, pairs, LIBC, LENARG, BLOCK, B
from .module import tables
from .growth import ahead
from .live import live

FAMILY = (('IFF_Group', 'chunk', 'chunkLength', 8), ('IFF_List', 'prop', 'propLength', 8), ('IFF_RawChunk', 'chunkData', 'chunkSize', 1),
          ('IFF_ChunkTypesNode', 'chunkTypes', 'chunkTypesLength', None), ('IFF_ChunkRegistry', 'formChunkTypes', 'formChunkTypesLength', None))
CHUNKS = ('IFF_Chunk', 'IFF_Group', 'IFF_Form', 'IFF_CAT', 'IFF_List', 'IFF_Prop', 'IFF_RawChunk')
SCALARS = {'IFF_Long': 4, 'IFF_ULong': 4, 'IFF_ID': 4, 'unsigned int': 4, 'int': 4, 'IFF_Word': 2, 'IFF_UWord': 2, 'IFF_UByte': 1, 'IFF_Byte': 1, 'IFF_Bool': 4}
MANY = 0x10000000       # more members than fit in memory


def plain(d):
    d = d.replace('const ', '').replace(' const', '').strip()
    return d


def pointee(d):
    d = plain(d)
    return d[:-1].strip() if d.endswith('*') else None


def sizeof(ctx, d):
    d = plain(d)
    if d.endswith('*'):
        return 8
    return SCALARS.get(d) or {'char': 1, 'unsigned char': 1, 'signed char': 1}.get(d) or ctx.m.sizeof(d)


def u64(t, signed=False):
    if t[0] == 'p':
        return None
    w = width(t)
    return t if w == 64 else cast('sext' if signed else 'zext', 64, t)


class Where:
    """types and extents of what the paths of one function touch"""

    def __init__(self, ctx, unit, name, fn):
        self.ctx, self.unit, self.name, self.fn = ctx, unit, name, fn
        self.w = ctx.walker(unit)
        self.m = ctx.mods[unit]
        self.tabs = None

    def typeof(self, b):
        """declared type of what a pointer base points to"""
        if b[0] == 'argp':
            i = b[1]
            return pointee(self.fn.dty[i + 1]) if i + 1 < len(self.fn.dty) else None
        if b[0] == 'ldp' and b[1][0] == 'p':
            a = b[1]
            t = self.typeof(a[1])
            if t is None:
                return None
            if a[3]:
                return pointee(t) if t.endswith('*') and a[2] % 8 == 0 else None
            s = self.m.structs.get(t)
            if s:
                for f in s['fields']:
                    if f['off'] == a[2] and f['ty'].endswith('*'):
                        return pointee(f['ty'])
                return None
            return pointee(t) if t.endswith('*') else None
        return None

    def counts(self, l):
        """is it a number of members?"""
        if l[0] == 'arg':
            return (self.fn.args[l[1]].get('name') or '').endswith('Length') and l[2] == 32
        a = l[1] if l[0] == 'ld' and l[2] == 4 else l[2][1] if l[0] == 'lphi' and l[2][0] == 'm' and l[2][2] == 4 else None
        if a is None or a[0] != 'p' or a[3]:
            return False
        if a[1][0] == 'argp' and a[2] == 0 and (self.fn.args[a[1][1]].get('name') or '').endswith('Length'):
            return True
        t = self.typeof(a[1])
        return any(self.m.off(s, n) == a[2] and (t == s or t in CHUNKS and s in CHUNKS or t is None and s in CHUNKS) for s, _, n, z in FAMILY if s != 'IFF_RawChunk')

    def family(self, addr):
        """(array member, length member, element size) of the member an array is loaded from"""
        if addr[0] != 'p' or addr[3]:
            return None
        t = self.typeof(addr[1])
        for s, a, n, sz in FAMILY:
            if t is not None and not (t == s or t in CHUNKS and s in CHUNKS):
                continue
            if t is None and s not in CHUNKS:
                continue
            f, g = self.m.field(s, a), self.m.field(s, n)
            if f is None or g is None or f['off'] != addr[2]:
                continue
            if t in ('IFF_Group', 'IFF_Form', 'IFF_CAT', 'IFF_Prop', 'IFF_List') and s == 'IFF_RawChunk':
                continue
            return a, g['off'], sz or sizeof(self.ctx, pointee(f['ty'])), s
        return None

    def param(self, i):
        """length of the array a parameter points to, from the parameter that goes with it"""
        n = self.fn.args[i].get('name') or ''
        for j, a in enumerate(self.fn.args):
            if a.get('name') in (n + 'Length', n + 'Count'):
                d = pointee(self.fn.dty[i + 1])
                if d is None or d == 'void':
                    return None
                if a['ty'] == 'ptr':
                    return ('ld', P(('argp', j), 0), 4, 0), sizeof(self.ctx, d)
                return self.ctx.arg(self.name, j) if self.unit == 'lib' else ('arg', j, int(a['ty'][1:])), sizeof(self.ctx, d)
        return None

    def extent(self, b, mem, allocs):
        """(bytes as a 64 bit term, assumptions, what it is) or None"""
        k = b[0]
        if k == 'alloca':
            n = b[1][3]
            if isinstance(n, int) and n > 0:
                return C(64, n), [], 'the local variable %s' % (b[1][2] or '')
            v = self.ctx.vla.get(b)
            if v is not None:
                return mulc(64, u64(v[1]), v[0]), [], 'a local array'
            return None
        if k == 'g':
            g = self.m.globals.get(b[1])
            n = g.get('size') if g else None
            return (C(64, n), [], 'the table %s' % b[1]) if n else None
        if k == 'ret':
            e = allocs.get(b)
            if e is None:
                return None
            a = e.args
            if e.name == 'malloc' and a[0][0] == 'arg':
                return None     # as large as the caller wants it
            if e.name == 'malloc':
                return a[0], [], 'the block from %s at %s' % (e.name, e.where())
            if e.name == 'calloc':
                t = mulc(64, a[0], a[1][2]) if isc(a[1]) else mulc(64, a[1], a[0][2]) if isc(a[0]) else None
                if t is not None and t[0] == 'arg':
                    return None
                return (t, [], 'the block from calloc at %s' % e.where()) if t is not None else None
            if e.name == 'realloc':
                return a[1], [], 'the block from realloc at %s' % e.where()
            if e.name in SEARCHES and e.name != 'IFF_mergeFormArray' and a[-1][0] == 'p':
                n = ('out', e.id, a[-1], 4)
                return mulc(64, u64(n), 8), [small(n)], 'the result of %s at %s' % (e.name, e.where())
            return None
        if k == 'argp':
            i = b[1]
            if i >= len(self.fn.args):
                return None
            if self.unit != 'lib' and self.name == 'main' and i == 1:
                n = ('arg', 0, 32)
                return mulc(64, u64(add(32, n, C(32, 1))), 8), [(cmp('slt', n, C(32, 0)), False), small(n)], 'argv'
            p = self.param(i)
            if p is not None:
                return mulc(64, u64(p[0]), p[1]), [small(p[0])], 'the array %s' % self.fn.args[i].get('name')
            d = pointee(self.fn.dty[i + 1]) if i + 1 < len(self.fn.dty) else None
            if d in SCALARS and d not in ('IFF_UByte', 'IFF_Byte'):
                return C(64, SCALARS[d]), [], 'the variable %s points to' % self.fn.args[i].get('name')
            return None
        if k == 'ldp':
            f = self.family(b[1])
            if f is None:
                return None
            name, off, sz, s = f
            n = self.w.load(mem, P(b[1][1], off), 4)
            if n[0] == 'undef':
                return None
            if s == 'IFF_RawChunk':
                return u64(n, True), [(cmp('slt', n, C(32, 0)), False)], 'the payload (%s bytes)' % show(n)
            return mulc(64, u64(n), sz), [small(n)], 'the array %s (%s entries)' % (name, show(n))
        return None


def small(n):
    """a count of members that fit in memory"""
    return (cmp('ult', n, C(width(n), MANY)), True)


def textlen(ctx, m, x, e, lens):
    """length of the text at x with its terminator"""
    if x[0] == 'p' and x[1][0] == 'g' and not x[3]:
        t = m.gstring(x[1][1], x[2])
        return C(64, len(t.encode('latin-1', 'replace')) + 1) if t is not None else None
    if x[0] == 'p' and x[1][0] == 'alloca':
        return None
    n = next((l.ret for l in lens if l.args and l.args[0] == x and l.ret is not None), None)
    return add(64, n if n is not None else ('ret', ('length', repr(x), e.id, 'strlen'), 64), C(64, 1))


def accesses(ctx, e, m=None, lens=()):
    """(pointer, length as 64 bit term, what) of every access of an event"""
    if e.kind == 'call' and e.name in ('strcpy', 'stpcpy', '__strcpy_chk') and m is not None:
        n = textlen(ctx, m, e.args[1], e, lens)
        if n is not None:
            yield e.args[0], n, 'written'
            yield e.args[1], n, 'read'
        return
    if e.kind == 'call' and e.name == 'sprintf' and m is not None:
        f = e.args[1]
        t = m.gstring(f[1][1], f[2]) if f[0] == 'p' and f[1][0] == 'g' and not f[3] else None
        if t is not None:
            n, j, plain = C(64, 1), 2, t
            for d in directives(t):
                plain = plain.replace(d, '', 1)
                j += d.count('*')
                if d == '%s' and j < len(e.args):
                    x = textlen(ctx, m, e.args[j], e, lens)
                    if x is not None:
                        n = add(64, n, add(64, x, C(64, mask(64))))
                elif d[-1] in 'dicxXuop':
                    n = add(64, n, C(64, 1))
                j += 1
            yield e.args[0], add(64, n, C(64, len(plain.replace('%%', '%')))), 'written'
        return
    if e.kind in ('ld', 'st'):
        yield e.args[0], e.args[1], 'read' if e.kind == 'ld' else 'written'
    elif e.kind == 'bulk':
        yield e.args[0], e.args[2], 'written'
        if e.name == 'copy':
            yield e.args[1], e.args[2], 'read'
    elif e.kind in ('call', 'rec'):
        n, a = e.name, e.args
        if n in ('fread', 'fwrite', 'fread_unlocked', 'fwrite_unlocked'):
            t = mulc(64, a[2], a[1][2]) if isc(a[1]) else mulc(64, a[1], a[2][2]) if isc(a[2]) else None
            if t is not None:
                yield a[0], t, 'read into' if n.startswith('fread') else 'written out'
        elif n in LENARG and n not in ('strncmp', 'strncpy', 'memchr'):
            for i in LIBC[n]:
                yield a[i], u64(a[LENARG[n]]), 'written' if i == 0 and n != 'memcmp' else 'read'
        elif n == 'bsearch':
            t = mulc(64, a[2], a[3][2]) if isc(a[3]) else mulc(64, a[3], a[2][2]) if isc(a[2]) else None
            if t is not None:
                yield a[1], t, 'searched'
        elif n == 'fgets':
            yield a[0], u64(a[1], True), 'written'
        elif n in ('snprintf', 'vsnprintf'):
            yield a[0], a[1], 'written'
        else:
            f = ctx.m.fns.get(n)
            if f is None or f.local:
                return
            names = [x.get('name') for x in f.args]
            for i, x in enumerate(f.args):
                if x['ty'] != 'ptr' or i >= len(a) or i + 1 >= len(f.dty):
                    continue
                d = pointee(f.dty[i + 1])
                for j, y in enumerate(f.args):
                    if y.get('name') in ((x.get('name') or '?') + 'Length', (x.get('name') or '?') + 'Count') and y['ty'] != 'ptr' and j < len(a) and d not in (None, 'void'):
                        yield a[i], mulc(64, u64(a[j]), sizeof(ctx, d)), 'handed to %s as %s' % (n, y['name'])


def sites(events, facts, pre=0, outer=(), chain=(), past=()):
    """(event, facts before it by level, loops around it, finished loops by level)"""
    mypast = []
    for e in events:
        n = e.nf if e.nf is not None else len(facts) + pre
        mine = list(facts[:max(0, n - pre)])
        yield Site(e, list(outer) + [mine], list(chain), list(past) + [list(mypast)])
        if e.kind == 'loop':
            LI = e.loop
            before = list(facts[:max(0, LI.pre[1] - pre)])
            for bk in LI.backs:
                yield from sites(bk.events, bk.facts, LI.pre[1], list(outer) + [before], list(chain) + [(LI, bk)], list(past) + [list(mypast)])
            mypast.append(LI)


class Site:
    def __init__(self, e, levels, chain, past):
        self.e, self.levels, self.chain, self.past = e, levels, chain, past

    def __iter__(self):
        return iter((self.e, self.levels, self.chain))

    def flat(self):
        return [x for l in self.levels for x in l]


def depends(t, LI):
    return any(l[0] in ('lphi', 'iter') and l[1] == LI.id or l[0] == 'p' and l[1][0] == 'lphi' and l[1][1] == LI.id for l in dl(t))


def dl(t, out=None):
    out = set() if out is None else out
    for l in leaves(t):
        if l in out:
            continue
        out.add(l)
        if l[0] == 'ld':
            dl(l[1], out)
        elif l[0] == 'p' and l[1][0] == 'ldp':
            dl(l[1][1], out)
    return out


def carried(LI):
    return {k: (s if s[0] != 'p' else P(s[1])) for k, s in LI.sym.items() if k not in LI.step}


def iters(LI, k):
    return {('iter', LI.id, w): C(w, k) for w in (1, 8, 16, 32, 64)}


def unrolled(LI, here, conds):
    """[(facts, conditions, label)] of the first rounds, and of later ones where only the counter matters"""
    car = carried(LI)
    tied = [k for k, s in car.items() if any(s in dl(c) for c in [x for x, _ in here] + conds)]
    out = []
    for w in LI.backs:
        m = {car[k]: LI.init[k] for k in car if LI.init.get(k) is not None}
        fs = []
        for r in range(4):
            mm = dict(m)
            mm.update(iters(LI, r))
            out.append((fs + [(subst(c, mm), tv) for c, tv in here], [subst(c, mm) for c in conds], 'in round %d' % r, None, mm))
            if r == 3:
                break
            fs = fs + [(subst(c, mm), tv) for c, tv in w.facts]
            nm = {}
            for k in car:
                v = w.next.get(k)
                if v is not None:
                    nm[car[k]] = subst(v, mm)
                elif k in tied:
                    break
            else:
                m = nm
                continue
            break
        if not tied:
            break
    if not tied:
        for k in later(conds, LI):
            mm = iters(LI, k)
            fs = (LI.id, k, [[(c, tv) for c, tv in w.facts if not any(car[x] in dl(c) for x in car)] for w in LI.backs])
            out.append(([(subst(c, mm), tv) for c, tv in here], [subst(c, mm) for c in conds], 'in round %d' % k, fs, mm))
    return out


def later(conds, LI):
    ks = {9, 299, 70001}
    cs = set()

    def consts(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == 'c':
                cs.add(t[2])
            elif t and t[0] == 'lin':
                cs.add(t[2])
                cs.add((-t[2]) & mask(t[1]))
            for x in t:
                consts(x)
    for c in conds:
        consts(c)
    for c in cs:
        for sc in (1, 2, 4, 8, 16, 24, 64):
            for d in (-1, 0, 1):
                k = c // sc + d
                if 4 <= k <= 100000:
                    ks.add(k)
    return sorted(ks)[:14]


def connected(conds, facts, LI):
    """do the conditions depend on a finished loop, directly or through facts about the same quantities?"""
    seen = set()
    for c in conds:
        seen |= {l for l in dl(c) if l[0] not in ('p',)}
    if any(depends(c, LI) for c in conds):
        return True
    for c, tv in facts:
        ls = dl(c)
        if depends(c, LI) and any(l in seen for l in ls):
            return True
    return False


def bare(t):
    """a quantity without the widening around it"""
    while t[0] in ('zext', 'sext') and width(t[2]) >= 32:
        t = t[2]
    return ('iter', t[1], 64) if t[0] == 'iter' and t[2] >= 32 else t


def guarded(ptr, ln, ext, site, W):
    """the path has compared the index with the very length recorded"""
    if len(ptr[3]) != 1 or not isc(ln):
        return False
    t, sc = ptr[3][0]
    if ptr[2] < 0 or ptr[2] + ln[2] > sc:
        return False
    i = bare(t)
    if i[0] != 'iter' and width(i) == 32 and W.counts(i) and mulc(64, u64(add(32, i, C(32, 1))), sc) == ext:
        return True     # the array was made one larger than what was recorded (which fits in memory)
    flat = site.flat()
    same = [c[2:] for c, tv in flat if tv and c[0] == 'cmp' and c[1] == 'eq']
    for c, tv in flat:
        if tv and c[0] == 'cmp' and c[1] == 'ult' and bare(c[2]) == i and width(c[3]) >= 32:
            for b in [c[3]] + [y for x, y in same if x == c[3]] + [x for x, y in same if y == c[3]]:
                if mulc(64, u64(b), sc) == ext:
                    return True
    return False


def decide(site, conds, assume0, pr, W=None):
    """(True, label) if some condition can hold where the event happens, (False, '') if none can, (None, why)"""
    sits = [([], conds, '', [], ())]
    for i, lv in enumerate(site.levels):
        own = [site.chain[i - 1][0]] if i else []
        nxt = []
        for fs, cs, lab, reach, subs in sits:
            cur = [(list(lv), cs, lab, reach, ())]
            for LI in own + site.past[i]:
                more = []
                for f, c, l, r, x in cur:
                    if LI in own or connected(c, f, LI):
                        for u in unrolled(LI, f, c):
                            for m in reversed(x):
                                u = ([(subst(a, m), tv) for a, tv in u[0]], [subst(a, m) for a in u[1]], u[2],
                                     u[3] and (u[3][0], u[3][1], [[(subst(a, m), tv) for a, tv in way] for way in u[3][2]]), {k: subst(v, m) for k, v in u[4].items()})
                            more.append((u[0], u[1], (l + ' ' + u[2]).strip() if LI in own else l, r + ([u[3]] if u[3] else []), x + (u[4],)))
                    else:
                        more.append((f, c, l, r, x))
                cur = more[:48]
            for f, c, l, r, x in cur:
                for m in reversed(subs):
                    f = [(subst(a, m), tv) for a, tv in f]
                    c = [subst(a, m) for a in c]
                    r = [(i, k, [[(subst(a, m), tv) for a, tv in way] for way in ways]) for i, k, ways in r]
                nxt.append((fs + f, c, l, r, subs + x))
        sits = nxt[:48]
    und = None
    for fs, cs, lab, reach, _ in sits:
        if any(c[0] == 'c' and bool(c[2]) != tv for c, tv in fs):
            continue
        for c in cs:
            if c[0] == 'c' and not c[2]:
                continue
            assume = list(assume0)
            if W is not None:
                ls = set()
                for x in [c] + [x for x, tv in fs]:
                    ls |= dl(x)
                assume += unreached(sorted(ls, key=repr), W) + empty(fs, W)
            if any(l[0] in ('iter', 'lphi') or l[0] == 'p' and l[1][0] == 'lphi' for l in dl(c)):
                und = und or 'depends on a loop'
                continue
            fs2 = relevant(fs, c, assume)
            for big in (False, True):
                V = Val()
                r = model(fs2 + [(c, True)], V, pr, big=big, limit=1500)
                if r is True:
                    if all(reached(i, k, ways, V) for i, k, ways in reach):
                        full = fs2 if len(fs2) == len(fs) + len(assume) else None
                        if full is None and model(list(fs) + list(assume) + [(c, True)], V, pr, big=big, limit=3000) is not True:
                            und = und or 'no model of all facts'
                            continue
                        return True, lab, V
                    und = und or 'the round may not be reached'
                if r is None:
                    und = und or 'no model'
                if r is False:
                    break
    return (None, und, None) if und else (False, '', None)


def reached(lid, k, ways, V):
    """do the rounds before the k-th one go on, with these values?"""
    vs = sorted(set(V.l.values()))[:12]
    js = set(range(min(k, 64))) | {k // 2, k - 1}
    for a in vs:
        for b in [0] + vs:
            for x in (a - b, a + b, (a - b) // 2, (a - b) // 8):
                js |= {x - 1, x, x + 1}
    for j in sorted(j for j in js if 0 <= j < k):
        mj = {('iter', lid, w): C(w, j) for w in (1, 8, 16, 32, 64)}
        V.memo.clear()
        if not any(holds([(subst(c, mj), tv) for c, tv in w], V) is not False for w in ways):
            return False
    V.memo.clear()
    return True


def relevant(fs, c, assume):
    """the facts that share a quantity with the condition, transitively"""
    seen = dl(c)
    rest = list(fs) + list(assume)
    out = []
    for _ in range(3):
        keep = []
        for f in rest:
            ls = dl(f[0])
            if not ls or ls & seen:
                out.append(f)
                seen |= {l for l in ls}
            else:
                keep.append(f)
        rest = keep
    return out


def conditions(ptr, ln, ext):
    start = C(64, ptr[2])
    for t, sc in ptr[3]:
        start = add(64, start, mulc(64, u64(t, True), sc))
    end = add(64, start, ln)
    cs = [cmp('ult', ext, end), cmp('ult', ext, start)]
    if not isc(ln):
        cs.append(cmp('ult', ext, ln))
    out = []
    for c in cs:
        if c not in out and c != C(1, 0):
            out.append(c)
    return out


def assumptions(ctx, unit, name, fn, comparers):
    """the contract under which an operation is called"""
    out = []
    if unit == 'lib' and name in comparers:
        o = ctx.m.off('IFF_Chunk', 'chunkSize')
        out.append((cmp('eq', ('ld', P(('argp', 0), o), 4, 0), ('ld', P(('argp', 1), o), 4, 0)), True))
    return out


def unreached(ls, W):
    """facts about the results the library and the environment give"""
    out = []
    for l in ls:
        if W.counts(l):
            out.append(small(l))
        if l[0] == 'out' and l[3] == 4 and len(l[1]) > 3 and l[1][3] in SEARCHES:
            out.append(small(l))
        if l[0] == 'ret' and l[1][3] == 'strlen':
            out.append((cmp('ult', l, C(width(l), MANY)), True))
        elif l[0] in ('ld', 'out') and any(x[0] == 'p' and x[1] == ('g', 'optind') for x in l[1:3] if isinstance(x, tuple)):
            out.append((cmp('slt', l, C(32, 1)), False))
            out.append((cmp('slt', ('arg', 0, 32), l), False))
    return out


def empty(facts, W):
    """a group without an array has no members: an array is never recorded smaller than it is"""
    out = []
    for x, tv in facts:
        if not (tv and x[0] == 'cmp' and x[1] == 'eq'):
            continue
        for a, z in ((x[2], x[3]), (x[3], x[2])):
            if a[0] == 'p' and a[1][0] == 'ldp' and a[1][2] == 0 and not a[2] and not a[3] and z == C(64, 0):
                f = W.family(a[1][1])
                if f is not None and f[3] in ('IFF_Group', 'IFF_List'):
                    out.append((cmp('eq', ('ld', P(a[1][1][1], f[1]), 4, 0), C(32, 0)), True))
    return out


def exact(ptr):
    return not ptr[3]


def c10(ctx, rep):
    rows = tables(ctx)
    allrows = [x[1] for x in rows['rows']] + ([rows['default'][1]] if rows['default'] else [])
    comparers = {f for r in allrows for s, f in r.items() if s.startswith('compare') and isinstance(f, str) and f != '?'}
    nacc = nun = 0
    for unit, name, fn, ps in public(ctx):
        if ps is None:
            rep.und('inside-extent', name, 'not enumerable')
            continue
        W = Where(ctx, unit, name, fn)
        base = assumptions(ctx, unit, name, fn, comparers)
        done = set()
        for p in ps:
            pr = pairs(p)
            here = base + empty(p.facts, W)
            allocs, lens = {}, []
            for e, lv, ch in sites(p.events, p.facts):
                if e.kind == 'call' and e.name == 'strlen':
                    lens.append(e)
                if e.ret is not None and e.ret[0] == 'p' and e.kind in ('call', 'rec'):
                    allocs[e.ret[1]] = e
            for site in sites(p.events, p.facts):
                e, lv, ch = site
                if e.ret is not None and e.ret[0] == 'p' and e.kind in ('call', 'rec'):
                    allocs[e.ret[1]] = e    # of several ways round a loop, the one the access is on
                for ptr, ln, what in accesses(ctx, e, W.m, lens):
                    if ptr is None or ptr[0] != 'p' or ln is None:
                        continue
                    x = W.extent(ptr[1], e.mem, allocs)
                    if x is None:
                        nun += 1
                        continue
                    ext, assume, desc = x
                    inst = '%s (%s): %s %s at %s' % (name, unit, desc.split(' (')[0], what, e.where())
                    conds = conditions(ptr, ln, ext)
                    if not conds:
                        key = (inst, 'const')
                        if key not in done:
                            done.add(key)
                            rep.ok('inside-extent', inst)
                            nacc += 1
                        continue
                    assume = list(assume) + here
                    key = (inst, tuple(conds), tuple(tuple(l) for l in lv))
                    if key in done:
                        continue
                    done.add(key)
                    nacc += 1
                    if guarded(ptr, ln, ext, site, W):
                        rep.ok('inside-extent', inst)
                        continue
                    r, lab, V = decide(site, conds, assume, pr, W)
                    if r is True and ptr[1][0] == 'ldp':
                        # an array is as long as it was on entry, however far the number recorded has been lowered since
                        f = W.family(ptr[1][1])
                        n0 = None if f is None or f[3] == 'IFF_RawChunk' else ('ld', P(ptr[1][1][1], f[1]), 4, 0)
                        if n0 is not None and mulc(64, u64(n0), f[2]) != ext and entry(W, e, ptr[1]):
                            r, lab, V = decide(site, conditions(ptr, ln, mulc(64, u64(n0), f[2])), assume + [small(n0)], pr, W)
                    msg = ''
                    if r is True and what.startswith('writ') and ptr[1][0] == 'ldp' and roomy(ctx, W.family(ptr[1][1])):
                        r, lab = None, 'the array has more room than it has members'
                    if r is True:
                        msg = '%s: bytes %s to %s of %s are %s%s, beyond its %s bytes' % (
                            name, num(ev(start_of(ptr), V)), num(ev(add(64, start_of(ptr), ln), V)), desc, what, ' ' + lab if lab else '', num(ev(ext, V)))
                        if ev(ext, V) is None or lab:
                            msg = '%s: an access to %s leaves it%s' % (name, desc, ' ' + lab if lab else '')
                    rep.check('inside-extent', inst, {True: False, False: True, None: None}[r], msg if r is True else lab, e.where(), p)
            if p.status == 'ret':
                recorded(ctx, rep, W, p, pr, allocs, here, unit, name)
            terminated(ctx, rep, W, p, pr, unit, name)
    compare_contract(ctx, rep)
    table_lengths(ctx, rep, rows)
    row_sizes(ctx, rep, rows)
    struct_extent(ctx, rep, allrows)
    live(ctx, rep, 'C10')
    rep.need('inside-extent', 60)
    rep.need('recorded-extent', 8)
    rep.need('compared-alike', 1)
    rep.need('handlers-fit', 5)
    rep.counts['accesses with a recorded extent'] = nacc
    rep.counts['accesses without one (objects of the caller, members at fixed places)'] = nun


def roomy(ctx, f):
    """do the arrays of this family have more room than members by design?"""
    if f is None:
        return False
    for st, arr in (('IFF_Group', 'chunk'), ('IFF_List', 'prop')):
        if f[3] == st:
            return ahead(ctx, arr)
    return False


def entry(W, e, b):
    """is it the array the object had when the operation was called?"""
    return b[2] == 0


def start_of(ptr):
    start = C(64, ptr[2])
    for t, sc in ptr[3]:
        start = add(64, start, mulc(64, u64(t, True), sc))
    return start


def num(v):
    return '?' if v is None else str(v - (1 << 64) if v >> 63 else v)


# ---------------------------------------------------------------- the recorded length covers the array
def recorded(ctx, rep, W, p, pr, allocs, base, unit, name):
    """what an operation records at its end is not more than what it allocated"""
    objs = {}
    for e, lv, ch in sites(p.events, p.facts):
        if e.kind != 'st' or e.args[0][0] != 'p' or e.args[0][3]:
            continue
        a = e.args[0]
        for s, af, nf, sz in FAMILY[:3]:
            f, g = ctx.m.field(s, af), ctx.m.field(s, nf)
            if f is None or g is None:
                continue
            hit = a[2] == f['off'] and e.args[1] == C(64, 8) or a[2] == g['off'] and e.args[1] == C(64, 4)
            if hit and (s != 'IFF_RawChunk' or raw(ctx, W, p, a[1])) and (W.typeof(a[1]) is None or W.typeof(a[1]) in CHUNKS):
                if s == 'IFF_List' and W.typeof(a[1]) not in (None, 'IFF_List', 'IFF_Chunk', 'IFF_Group', 'IFF_CAT'):
                    continue
                objs[(a[1], s)] = (f['off'], g['off'], sz, e)
    for (b, s), (fo, go, sz, e) in sorted(objs.items(), key=repr):
        arr = W.w.load(p.mem, P(b, fo), 8, True)
        n = W.w.load(p.mem, P(b, go), 4)
        inst = '%s (%s): %s of %s' % (name, unit, s, show(P(b)))
        if arr == NULL:
            ext, assume, desc = C(64, 0), [], 'no array'
        elif arr[0] == 'p' and arr[1] == ('ldp', P(b, fo), 0) and exact(arr):
            n0 = ('ld', P(b, go), 4, 0)
            ext, assume, desc = (u64(n0, True), [(cmp('slt', n0, C(32, 0)), False)], 'the old payload') if s == 'IFF_RawChunk' else \
                (mulc(64, u64(n0), sz), [small(n0)], 'the old array')
        elif arr[0] == 'p' and arr[1][0] == 'ret' and not arr[3]:
            x = W.extent(arr[1], p.mem, allocs)
            if x is None:
                rep.ok('recorded-extent', inst, 'supplied by the caller')
                continue
            ext, assume, desc = x
            if arr[2]:
                ext = add(64, ext, C(64, -arr[2] & mask(64)))
        else:
            rep.ok('recorded-extent', inst, 'supplied by the caller' if arr[0] == 'p' and arr[1][0] == 'argp' else 'carried by a loop')
            continue
        if n[0] == 'undef':
            rep.ok('recorded-extent', inst, 'not recorded yet')
            continue
        if any(l[0] == 'lphi' for l in dl(n) | dl(ext)):
            rep.und('recorded-extent', inst, 'carried by a loop')
            continue
        if s == 'IFF_RawChunk':
            assume = assume + [(cmp('slt', n, C(32, 0)), False)]
        want = u64(n, True) if s == 'IFF_RawChunk' else mulc(64, u64(n), sz)
        c = cmp('ult', ext, want)
        if c == C(1, 0):
            rep.ok('recorded-extent', inst)
            continue
        ls = set()
        for x in [c] + [x for x, tv in p.facts]:
            ls |= dl(x)
        extra = unreached(sorted(ls, key=repr), W)
        r = None
        for big in (False, True):
            r = model(list(p.facts) + [(c, True)] + list(assume) + base + extra, Val(), pr, big=big)
            if r is not False and r is not None:
                break
        if r is True and desc == 'the old array' and ahead(ctx, 'prop' if s == 'IFF_List' else 'chunk'):
            r = None
        rep.check('recorded-extent', inst, {True: False, False: True, None: None}[r],
                  '%s: %s entries are recorded for %s, which is smaller' % (name, show(n), desc), e.where(), p)


def raw(ctx, W, p, b):
    """is the object handled as a raw chunk on this path?"""
    if W.typeof(b) == 'IFF_RawChunk':
        return True
    o = ctx.m.off('IFF_RawChunk', 'chunkData')
    return any(e.kind in ('ld', 'st') and e.args[0][0] == 'p' and e.args[0][1] == b and e.args[0][2] == o and not e.args[0][3] and e.args[1] == C(64, 8)
               for e, lv, ch in sites(p.events, p.facts))


# ---------------------------------------------------------------- text taken from local buffers ends
def terminated(ctx, rep, W, p, pr, unit, name):
    for e, lv, ch in sites(p.events, p.facts):
        texts = []
        if e.kind == 'diag' or e.kind == 'call' and e.name in ('printf', 'fprintf', 'sprintf', 'snprintf', 'IFF_printIndent', 'IFF_error'):
            k = next((i for i, a in enumerate(e.args) if a[0] == 'p' and a[1][0] == 'g' and not a[3]), None)
            if k is None:
                continue
            fmt = W.m.gstring(e.args[k][1][1], e.args[k][2])
            if not fmt:
                continue
            j = k + 1
            for part in directives(fmt):
                if part.endswith('s') and '.' not in part and j < len(e.args):
                    texts.append(e.args[j])
                j += 1 + part.count('*')
        elif e.kind == 'call' and e.name in ('puts', 'fputs', 'strlen', 'strcmp', 'strdup'):
            texts = [a for a in e.args[:2]]
        for a in texts:
            if a[0] != 'p' or a[1][0] != 'alloca' or a[3]:
                continue
            n = a[1][1][3]
            if not isinstance(n, int) or n <= 0 or n > 4096:
                continue
            bs = [W.w.load(e.mem, P(a[1], o), 1) for o in range(a[2], n)]
            inst = '%s (%s): %s at %s' % (name, unit, a[1][1][2], e.where())
            if any(b == C(8, 0) for b in bs):
                rep.ok('terminated', inst)
                continue
            if not all(b[0] in ('undef', 'c') or len(dl(b)) for b in bs) or ch:
                rep.und('terminated', inst, 'contents')
                continue
            fs = [x for l in lv for x in l] + [(cmp('eq', b, C(8, 0)), False) for b in bs if b[0] not in ('undef', 'c')]
            r = model(fs, Val(), pr)
            rep.check('terminated', inst, {True: False, False: True, None: None}[r],
                      '%s: the text in %s is not terminated within its %d bytes' % (name, a[1][1][2], n), e.where(), p)


def directives(fmt):
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == '%':
            j = i + 1
            if j < len(fmt) and fmt[j] == '%':
                i = j + 1
                continue
            while j < len(fmt) and fmt[j] not in 'diouxXeEfgGcsp':
                j += 1
            out.append(fmt[i:j + 1])
            i = j
        i += 1
    return out


# ---------------------------------------------------------------- handlers
def compare_contract(ctx, rep):
    """a comparison handler gets two chunks of the same kind and size"""
    o, d = ctx.m.off('IFF_Chunk', 'chunkSize'), ctx.m.off('IFF_Chunk', 'chunkId')
    for unit, name, fn, ps in public(ctx):
        if unit != 'lib' or ps is None:
            continue
        for p in ps:
            for e, lv, ch in sites(p.events, p.facts):
                if e.kind != 'slot' or not e.name.startswith('compare') or len(e.args) < 2 or e.args[0][0] != 'p' or e.args[1][0] != 'p':
                    continue
                W = ctx.walker(unit)
                inst = '%s at %s' % (name, e.where())
                for off, what in ((o, 'sizes'), (d, 'IDs')):
                    x, y = (W.load(e.mem, padd(a, off, ()), 4) for a in e.args[:2])
                    fs = [f for l in lv for f in l]
                    r = model(fs + [(cmp('eq', x, y), False)], Val())
                    rep.check('compared-alike', inst + ': ' + what, {True: False, False: True, None: None}[r],
                              '%s hands chunks of different %s to a comparison that relies on one of them' % (name, what), e.where(), p)


def table_lengths(ctx, rep, t):
    """the tables that come with the library are as long as recorded"""
    m = ctx.m
    for label, g, n, arr in t['nodes']:
        if n is not None and isinstance(arr, tuple):
            cap = (m.globals[arr[1]]['size'] - arr[2]) // m.sizeof('IFF_ChunkType')
            rep.check('table-length', g, n <= cap, 'the recorded length is %d, the table has %d entries' % (n, cap), '%s:%s' % (m.globals[g].get('file'), m.globals[g].get('line')))
        elif n and arr == 0:
            rep.bad('table-length', g, 'the recorded length is %d, there is no table' % n, g)
    if t['nforms'] and isinstance(t['farr'], tuple):
        cap = (m.globals[t['farr'][1]]['size'] - t['farr'][2]) // m.sizeof('IFF_FormChunkTypes')
        rep.check('table-length', 'form types', t['nforms'] <= cap, 'the recorded length is %d, the table has %d entries' % (t['nforms'], cap), 'IFF_defaultChunkRegistry')


INDEX = {'read': (1,), 'write': (1,), 'check': (0,), 'free': (0,), 'print': (0,), 'compare': (0, 1)}


def reach(ctx, f, i, cache):
    """largest end of a fixed place of a parameter's object that a function may touch, with the event"""
    key = (f, i)
    if key in cache:
        return cache[key]
    cache[key] = (0, None)
    best = (0, None)
    if ctx.m.body(f) is not None:
        for p in ctx.walk(f, boundary=B) or []:
            pr = pairs(p)
            for e, lv, ch in sites(p.events, p.facts):
                if e.kind not in ('ld', 'st') or e.args[0][0] != 'p' or e.args[0][1] != ('argp', i) or e.args[0][3]:
                    continue
                end = e.args[0][2] + e.args[1][2]
                if end > best[0] and model([x for l in lv for x in l], Val(), pr) is True:
                    best = (end, e)
    cache[key] = best
    return best


def row_sizes(ctx, rep, rows):
    """the object a chunk type creates is as large as its handlers need"""
    cache = {}
    rs = [(x[2], x[1]) for x in rows['rows']] + ([('default', rows['default'][1])] if rows['default'] else [])
    for label, r in rs:
        cr = next((f for s, f in r.items() if s.startswith('create')), None)
        if not isinstance(cr, str) or ctx.m.body(cr) is None:
            continue
        sizes = set()
        for p in ctx.walk(cr, boundary=B) or []:
            if p.status == 'ret' and p.ret is not None and p.ret[0] == 'p' and p.ret[1][0] == 'ret':
                a = next((e for e in p.events if e.ret is not None and e.ret == P(p.ret[1])), None)
                if a is not None and a.name == 'malloc' and isc(a.args[0]):
                    sizes.add(a.args[0][2])
                elif a is not None and a.name == 'calloc' and isc(a.args[0]) and isc(a.args[1]):
                    sizes.add(a.args[0][2] * a.args[1][2])
                else:
                    sizes.add(None)
        for s, f in r.items():
            k = next((k for k in INDEX if s.startswith(k)), None)
            if k is None or not isinstance(f, str) or ctx.m.body(f) is None:
                continue
            inst = '%s: %s/%s' % (label, cr, f)
            if not sizes or None in sizes:
                rep.und('handlers-fit', inst, 'size of the object')
                continue
            end, e = max((reach(ctx, f, i, cache) for i in INDEX[k]), key=lambda x: x[0])
            rep.check('handlers-fit', inst, end <= min(sizes), '%s creates objects of %d bytes, of which %s touches %d' % (cr, min(sizes), f, end),
                      e.where() if e is not None else '')


def struct_extent(ctx, rep, allrows):
    """an object is only handled as a larger structure where its ID says that it is one"""
    handlers = {f for r in allrows for f in r.values() if isinstance(f, str)}
    sizes = {s: ctx.m.sizeof(s) for s in CHUNKS if ctx.m.sizeof(s)}
    ido = ctx.m.off('IFF_Chunk', 'chunkId')
    for unit, name, fn, ps in public(ctx):
        if unit != 'lib' or ps is None or name in handlers:
            continue
        W = Where(ctx, unit, name, fn)
        seen = set()
        for p in ps:
            pr = pairs(p)
            for e, lv, ch in sites(p.events, p.facts):
                if e.kind not in ('ld', 'st') or e.args[0][0] != 'p' or e.args[0][3]:
                    continue
                b, end = e.args[0][1], e.args[0][2] + e.args[1][2]
                t = W.typeof(b)
                if t not in sizes or b[0] not in ('argp', 'ldp'):
                    continue
                inst = '%s: %s at %s' % (name, show(P(b)), e.where())
                if end <= sizes[t]:
                    if inst not in seen:
                        seen.add(inst)
                        rep.ok('kind-known', inst)
                    continue
                # creating functions fill what they made themselves; here the object is somebody else's
                fs = [x for l in lv for x in l]
                key = (inst, tuple(fs))
                if key in seen:
                    continue
                seen.add(key)
                idl = ('ld', P(b, ido), 4, 0)
                if t == 'IFF_Chunk' and not any(idl in dl(c) for c, tv in fs) and b[0] == 'argp':
                    # an operation declared for chunks in general that belongs to one kind by its contract
                    rep.ok('kind-known', inst, 'by contract')
                    continue
                V = Val()
                V.l[idl] = 0x51515151
                r = model(fs, V, pr)
                rep.check('kind-known', inst, False if r is True else True if r is False else None,
                          '%s handles %s as a larger structure although its ID does not say so' % (name, show(P(b))), e.where(), p)


RULES = {'C10': c10}
