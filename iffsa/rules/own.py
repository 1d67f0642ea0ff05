"""C08, C11: typestate of what an operation acquires.

Every enumerated path of every public operation (helpers inlined, loops as one generic round) is read as a sequence of acquisitions,
releases, hand-overs and uses of memory blocks, chunks and files.  An obligation that fails is reported only if the facts of its path
have a model, found by a search over representatives of the compared quantities.
"""
from ..lib import *
from ..prov import events_all, paramkind, SEARCHES

BLOCK = {'malloc', 'calloc', 'realloc', 'reallocarray', 'strdup', 'strndup'}
OPEN = {'fopen', 'fdopen', 'tmpfile', 'freopen'}
READS = {'IFF_readChunk', 'IFF_read', 'IFF_readFd', 'IFF_readFile'}
CHUNKFREE = {'IFF_freeChunk', 'IFF_free'}
LIBC = {'memcpy': (0, 1), 'memmove': (0, 1), 'memset': (0,), 'memcmp': (0, 1), 'fread': (0,), 'fwrite': (0,), 'strlen': (0,), 'strcpy': (0, 1),
        'strncpy': (0, 1), 'strcmp': (0, 1), 'strncmp': (0, 1), 'bcopy': (0, 1), 'bzero': (0,), '__memcpy_chk': (0, 1), '__memset_chk': (0,),
        'fputs': (0,), 'puts': (0,), 'strcat': (0, 1), 'memchr': (0,), 'strchr': (0,)}
LENARG = {'memcpy': 2, 'memmove': 2, 'memset': 2, 'memcmp': 2, '__memcpy_chk': 2, '__memset_chk': 2, 'bzero': 1, 'strncmp': 2, 'strncpy': 2,
          'memchr': 2, 'bcopy': 2}
B = CORE | SEARCH


# ---------------------------------------------------------------- models of path facts
def cands(t, consts, big=False):
    w = width(t)
    vs = [mask(w), mask(w) >> 1, 70000, 300] + [0, 1, 2, 3] if big else [0, 1, 2, 3, mask(w)]
    for c in consts:
        for d in (0, 1, -1):
            vs.append((c + d) & mask(w))
    if w == 8:
        vs += [0x20, 0x41, 0x7f, 0x80]
    out = []
    for v in vs:
        v &= mask(w)
        if v not in out:
            out.append(v)
    return out[:24]


CHARS = [int.from_bytes(bytes(0x20 if k >> i & 1 else 0x41 for i in range(4)), 'big') for k in range(16)]


def characters(t, out):
    """quantities of which single characters are taken"""
    if isinstance(t, tuple) and t:
        if t[0] == 'op' and t[1] in ('and', 'lshr') and len(t) == 5 and t[3][0] not in ('c', 'op', 'p') and width(t) == 32:
            out.add(t[3])
        for x in t:
            if isinstance(x, tuple):
                characters(x, out)


def constants(t, out):
    if isinstance(t, tuple):
        if t and t[0] == 'c' and len(t) == 3:
            out.add(t[2])
        elif t and t[0] == 'lin':
            out.add(t[2])
        for x in t:
            if isinstance(x, tuple):
                constants(x, out)


def model(facts, V, pair=None, limit=4000, big=False):
    """an assignment of the leaves under which every fact holds, extending V; True if found, False if a fact is contradicted without choices,
    None if none was found.  pair: {pointer base: length leaf} of results that are missing exactly if their length is 0"""
    pair = pair or {}
    inv = {l: b for b, l in pair.items()}
    cs = set()
    for c, tv in facts:
        constants(c, cs)
    cs = sorted(x for x in cs)[:12]
    facts = list(facts)
    chars = set()
    for c, tv in facts:
        characters(c, chars)
    left = [limit]

    V.memo.clear()
    if holds(facts, V) is False:
        return False

    def unknown(t):
        for l in sorted(leaves(t), key=repr):
            if l[0] == 'p':
                if l[1][0] not in ('alloca', 'g', 'f') and l[1] not in V.ptr:
                    return l
            elif l not in V.l:
                return l
        return None

    def ok_pair(l):
        if l[0] == 'p':
            b = l[1]
            n = V.l.get(pair.get(b))
            return n is None or (n == 0) == (V.ptr[b] == 0)
        b = inv.get(l)
        return b is None or b not in V.ptr or (V.l[l] == 0) == (V.ptr[b] == 0)

    def go(i):
        left[0] -= 1
        if left[0] < 0:
            return None
        while i < len(facts):
            c, tv = facts[i]
            V.memo.clear()
            v = ev(c, V)
            if v is not None:
                if bool(v) != tv:
                    return False
                i += 1
                continue
            l = unknown(c)
            if l is None:
                return None
            und = False
            if l[0] == 'p':
                d, k, vs = V.ptr, l[1], [0x700000 + 0x1000 * (len(V.ptr) + 1), 0]
            else:
                d, k, vs = V.l, l, cands(l, cs, big)
                if l in chars:
                    vs = vs + CHARS
            for v in vs:
                d[k] = v
                if ok_pair(l):
                    r = go(i)
                    if r is True:
                        return True
                    und = und or r is None
                d.pop(k, None)
                V.memo.clear()
            return None if und else False
        return True
    return go(0)


def pairs(p):
    """out-length leaves of search results"""
    out = {}
    for e, _ in events_all(p):
        if e.kind in ('call', 'rec') and e.name in SEARCHES and e.name != 'IFF_mergeFormArray' and e.ret is not None and e.ret[0] == 'p' and e.args[-1][0] == 'p':
            out[e.ret[1]] = ('out', e.id, e.args[-1], 4)
    return out


def possible(facts, base, null, pr, extra=()):
    """can the pointer be null / non-null under the facts?  True, False or None"""
    V = Val(ptr={base: 0 if null else 0x600000})
    for b, v in extra:
        V.ptr[b] = v
    return model(facts, V, pr)


# ---------------------------------------------------------------- acquisitions
def kind_of(e, unit):
    """'block', 'chunk', 'file' or None: what a successful call hands to its caller"""
    if e.ret is None or e.ret[0] != 'p':
        return None
    if e.kind == 'slot':
        return 'chunk' if e.name.startswith('create') else None
    if e.kind not in ('call', 'rec'):
        return None
    n = e.name
    if n in BLOCK:
        return 'block'
    if n in OPEN:
        return 'file'
    if n in READS or n.startswith('IFF_create'):
        return 'chunk'
    if n in SEARCHES and n != 'IFF_mergeFormArray':
        return 'block'
    return None


def public(ctx):
    """(unit, name, fn, paths) of every operation callable from outside"""
    lib = {f for f in ctx.m.fns if ctx.m.body(f)}
    for unit in ctx.mods:
        m = ctx.mods[unit]
        for n, f in sorted(m.fns.items()):
            if f.decl or f.local or (unit != 'lib' and n in lib):
                continue
            b = B if unit == 'lib' else B | lib
            yield unit, n, f, ctx.walk(n, boundary=b, unit=unit)


class Owner:
    """typestate of one path (or of one round of a loop)"""

    def __init__(self, ctx, unit, name, fn, p, pr):
        self.ctx, self.unit, self.name, self.fn, self.p, self.pr = ctx, unit, name, fn, p, pr
        self.w = ctx.walker(unit)
        self.st = {}        # base -> 'held' | 'rel' | 'esc' | 'maybe' | 'owned'
        self.kind = {}
        self.at = {}        # base -> event
        self.rel = {}       # base -> releasing event
        self.kept = {}      # base -> (address, owner base or None)
        self.null = {}      # assumed outcomes of this scenario
        self.probs = []     # (kind, base, event, message)
        self.re = []        # realloc events: (old term, new base, event)
        self.loops, self.unsettled, self.freed_body = [], [], frozenset()
        self.members = {}   # base of a group -> (element released through its array, event)

    def clone(self):
        o = Owner(self.ctx, self.unit, self.name, self.fn, self.p, self.pr)
        for k in ('st', 'kind', 'at', 'rel', 'kept', 'null', 'members'):
            setattr(o, k, dict(getattr(self, k)))
        o.freed_body = self.freed_body
        return o

    def base(self, t):
        if t is not None and t[0] == 'p':
            return t[1]
        return None

    def prob(self, k, b, e, msg):
        self.probs.append((k, b, e, msg))

    # -------------------------------------------------------- events
    def run(self, events, facts):
        for e in events:
            self.event(e, facts)

    def use(self, b, e, what):
        if self.st.get(b) == 'rel' and not self.isnull(b, None):
            self.prob('use', b, e, '%s %s after it was released at %s' % (self.describe(b), what, self.rel[b].where()))

    def isnull(self, b, facts):
        return self.null.get(b) is True

    def describe(self, b):
        k = {'block': 'the block', 'chunk': 'the chunk', 'file': 'the file'}.get(self.kind.get(b), 'the object')
        e = self.at.get(b)
        return '%s from %s at %s' % (k, e.name, e.where()) if e is not None else k + ' ' + show(P(b))

    def release(self, b, e, how, facts):
        if self.isnull(b, facts):
            return
        s = self.st.get(b)
        if s == 'rel':
            self.prob('double', b, e, '%s is released again after %s' % (self.describe(b), self.rel[b].where()))
            return
        k = self.kind.get(b)
        if k == 'file' and how != 'file' and s == 'held':
            self.prob('kind', b, e, '%s is not closed but released as memory' % self.describe(b))
        if k == 'chunk' and how == 'block' and s == 'held' and b not in self.freed_body:
            self.prob('kind', b, e, '%s is released without the free function of its type' % self.describe(b))
        if s == 'maybe':
            return
        self.st[b] = 'rel'
        self.rel[b] = e
        if how == 'block':
            for r, (addr, o) in list(self.kept.items()):
                if o == b and self.st.get(r) == 'owned':
                    self.st[r] = 'held'

    def event(self, e, facts):
        if e.kind == 'loop':
            return self.loop(e.loop, facts)
        if e.kind in ('enter', 'leave'):
            return
        if e.kind in ('ld', 'st'):
            b = self.base(e.args[0])
            if b is not None:
                self.use(b, e, 'is accessed')
            if e.kind == 'st':
                v = e.args[2]
                r = self.base(v)
                self.members.pop(b, None)
                for g in [g for g, (x, _) in self.members.items() if b is not None and b[0] == 'ldp' and b[1][0] == 'p' and b[1][1] == g]:
                    del self.members[g]
                if r in self.st and self.st[r] in ('held', 'owned') and b is not None:
                    self.keep(r, e.args[0], b)
            return
        if e.kind == 'bulk':
            for a in e.args[:2]:
                b = self.base(a)
                if b is not None:
                    self.use(b, e, 'is accessed')
            return
        if e.kind == 'diag':
            return
        n, a = e.name, e.args
        if e.kind == 'icall':
            for x in a:
                if self.st.get(self.base(x)) in ('held', 'owned'):
                    self.st[self.base(x)] = 'maybe'
            return
        if n == 'free' and e.kind == 'call':
            b = self.base(a[0])
            if b is not None:
                self.release(b, e, 'block', facts)
            return
        if n in CHUNKFREE and e.kind in ('call', 'rec'):
            b = self.base(a[0])
            if b is not None:
                if b in self.members and self.st.get(b) != 'rel':
                    r, x = self.members[b]
                    self.rel.setdefault(r, x)
                    self.prob('double', r, e, 'a member of the group released here was released at %s already' % x.where())
                g = holder(self.ctx, b)
                if g is not None:
                    self.members[g] = (b, e)
                self.release(b, e, 'chunk', facts)
                for r, (addr, o) in list(self.kept.items()):
                    if o == b and self.st.get(r) == 'owned':
                        self.st[r] = 'rel'
                        self.rel[r] = e
                    elif o == b and addr is None and self.st.get(r) == 'rel':
                        self.prob('double', r, e, '%s is released again with the group that holds it, after %s' % (self.describe(r), self.rel[r].where()))
            return
        if n == 'fclose':
            b = self.base(a[0])
            if b is not None:
                if self.isnull(b, facts):
                    return
                if b[0] == 'argp' or stdglobal(a[0], 'stdout') or stdglobal(a[0], 'stdin') or stdglobal(a[0], 'stderr'):
                    self.prob('stream', b, e, 'a stream that was supplied by the caller is closed')
                self.release(b, e, 'file', facts)
            return
        if n in ('realloc', 'reallocarray') and e.kind == 'call':
            b = self.base(a[0])
            if b is not None:
                self.use(b, e, 'is reallocated')
                self.re.append((a[0], e.ret[1], e))
                if not self.isnull(e.ret[1], facts):
                    if self.st.get(b) != 'rel':
                        self.release(b, e, 'block', facts)
            self.take(e, 'block')
            return
        for x in a:
            b = self.base(x)
            if b is not None:
                self.use(b, e, 'is used')
        if e.kind == 'slot' and n.startswith('free'):
            b = self.base(a[0])
            if b is not None:
                self.freed_body = self.freed_body | {b}
        if n.startswith(('IFF_addTo', 'IFF_addPropTo', 'IFF_attachTo')) and len(a) > 1:
            b = self.base(a[1])
            if self.st.get(b) in ('held', 'owned'):
                if e.ret is None:
                    self.keepin(b, self.base(a[0]))
                else:
                    V = Val()
                    set_ret(V, e, 0)
                    no = holds(facts, V)
                    V = Val()
                    set_ret(V, e, 1)
                    yes = holds(facts, V)
                    if no is False and yes is not False:
                        self.keepin(b, self.base(a[0]))
                    elif yes is False and no is not False:
                        pass
                    else:
                        self.unsettled.append((e, b))
                        self.st[b] = 'maybe'
        elif n.startswith('IFF_setRawChunkData') and len(a) > 1:
            b = self.base(a[1])
            if self.st.get(b) in ('held', 'owned'):
                self.keepin(b, self.base(a[0]))
        elif e.kind == 'call' and self.ctx.m.fns.get(n) is None and n not in KNOWN and self.unitbody(n) is None:
            for x in a:
                if self.st.get(self.base(x)) in ('held', 'owned'):
                    self.st[self.base(x)] = 'maybe'
        k = kind_of(e, self.unit)
        if k:
            self.take(e, k)

    def unitbody(self, n):
        return self.ctx.mods[self.unit].body(n)

    def take(self, e, k):
        b = e.ret[1]
        if self.isnull(b, None):
            return
        self.st[b] = 'held'
        self.kind[b] = k
        self.at[b] = e

    def keepin(self, r, o):
        if o in self.st and self.st[o] in ('held', 'owned', 'maybe'):
            self.st[r] = 'owned'
            self.kept[r] = (None, o)
        else:
            self.st[r] = 'esc'
            self.kept[r] = (None, None)

    def keep(self, r, addr, b):
        if b[0] == 'alloca':
            self.st[r] = 'maybe'
        elif b in self.st and self.st[b] in ('held', 'owned', 'maybe') and b != r:
            self.st[r] = 'owned'
            self.kept[r] = (addr, b)
        else:
            self.st[r] = 'esc'
            self.kept[r] = (addr, None)

    # -------------------------------------------------------- loops
    def loop(self, LI, facts):
        """carried resources are owned by the loop variable if every round hands on what it holds"""
        pre = facts[:LI.pre[1]]
        cand = {}
        for k, s in LI.sym.items():
            if k[0] == 'phi' and s[0] == 'p' and s[1][0] == 'lphi':
                i = LI.init[k]
                if i == NULL:
                    cand[k] = (s[1], None)
                elif i[0] == 'p' and self.st.get(i[1]) == 'held':
                    cand[k] = (s[1], i[1])
        # a loop variable owns something only if some round puts a fresh resource or itself there
        start = self.clone()
        for k, (b, i) in cand.items():
            start.st[b] = 'held'
            start.kind[b] = self.kind.get(i, 'block')
            start.at[b] = self.at.get(i)
            if i is not None:
                start.st.pop(i)
        ends = []
        for bk in LI.backs:
            o = start.clone()
            mine = {e.ret[1] for e in bk.events if e.ret is not None and e.ret[0] == 'p'}
            o.null = {b: v for b, v in o.null.items() if b not in mine}
            o.run(bk.events, pre + bk.facts)
            ends.append((bk, o))
        owned = {}
        for k, (b, i) in cand.items():
            good = True
            fresh = False
            for bk, o in ends:
                v = bk.next.get(k)
                if v is None:
                    good = False
                elif v == NULL or v == P(b):
                    pass
                elif v[0] == 'p' and v[1] in o.st:
                    fresh = True
                else:
                    good = False
            if good and (fresh or i is not None):
                owned[k] = (b, i)
        self.loops.append((LI, pre, owned, start))
        for k, (b, i) in owned.items():
            self.st[b] = 'held'
            self.kind[b] = self.kind.get(i, 'block')
            self.at[b] = self.at.get(i)
            if i is not None:
                self.st.pop(i)
            else:
                for bk, o in ends:
                    v = bk.next.get(k)
                    if v is not None and v[0] == 'p' and v[1] in o.at:
                        self.at[b] = o.at[v[1]]
                        self.kind[b] = o.kind[v[1]]
        for bk, o in ends:
            for b in o.st:
                if b in self.st and o.st[b] != self.st[b] and b not in [x[0] for x in owned.values()]:
                    self.st[b] = 'maybe'


KNOWN = set(LIBC) | set(FILEARG) | BLOCK | OPEN | {'printf', 'puts', 'putchar', 'vprintf', 'exit', 'abort', 'getopt', 'getopt_long', 'strerror', 'perror',
                                                   'bsearch', 'sprintf', 'snprintf', 'vsnprintf', 'memcmp', '__ctype_b_loc', 'qsort', 'errno'}


def scenarios(p, facts, pr):
    """outcomes of the reallocations on a path that its facts leave open"""
    out = [{}]
    for e in p.events:
        if e.kind == 'call' and e.name in ('realloc', 'reallocarray'):
            b = e.ret[1]
            nxt = []
            for s in out:
                for null in (False, True):
                    if holds(facts, Val(ptr={b: 0 if null else 0x600000})) is not False:
                        nxt.append({**s, b: null})
            out = nxt[:16]
    return out


def judge(ctx, rep, unit, name, fn, p, facts, events, o, pr, inst, ending, nxt=None, owned=()):
    """end of a path or of a round"""
    w = ctx.walker(unit)
    extra = [(b, 0 if v else 0x610000) for b, v in o.null.items()]

    def report(rule, b, msg, where, null=False):
        V = dict(extra)
        if b is not None and b not in V:
            V[b] = 0 if null else 0x600000
        r = model(facts, Val(ptr=V), pr)
        rep.check(rule, inst, False if r is True else None, msg, where, p)
        return r
    for b, e in o.at.items():
        if e is not None and b[0] == 'ret':
            rep.ok('accounted-for', '%s: %s at %s' % (inst, e.name, e.where()), '%s at the end of this path' % o.st.get(b))
    for b, e in o.rel.items():
        rep.ok('released', '%s: %s' % (inst, e.where()))
    for k, b, e, msg in o.probs:
        rule = {'use': 'no-use-after-release', 'double': 'released-once', 'kind': 'released-properly', 'stream': 'caller-streams-stay-open'}[k]
        report(rule, b, '%s: %s' % (name, msg), e.where())
    for b, s in sorted(o.st.items(), key=repr):
        if s != 'held':
            continue
        if b in owned:
            continue
        if ending == 'ret' and p.ret is not None and p.ret[0] == 'p' and p.ret[1] == b:
            continue
        if ending == 'back' and nxt and any(v is not None and v[0] == 'p' and v[1] == b for v in nxt.values()):
            continue
        if b[0] == 'ret' and o.at.get(b) is None:
            continue
        if possible(facts, b, False, pr, extra) is False:
            continue
        kept = o.kept.get(b)
        report('nothing-lost', b, '%s: %s is neither released nor handed over when the %s at %s:%s' %
               (name, o.describe(b), 'operation ends' if ending == 'ret' else 'round of the loop ends', p.file, p.line), o.at[b].where() if o.at.get(b) is not None else
               '%s:%s' % (p.file, p.line))
    if ending == 'ret' and p.ret is not None and p.ret[0] == 'p' and o.st.get(p.ret[1]) == 'rel':
        report('no-use-after-release', p.ret[1], '%s: %s is returned although it was released at %s' % (name, o.describe(p.ret[1]), o.rel[p.ret[1]].where()),
               '%s:%s' % (p.file, p.line))
    # what outlives the operation must not refer to released memory, and a failed reallocation must not lose the old block
    last = {}
    for e in events:
        if e.kind == 'st' and e.args[0][0] == 'p' and e.args[0][1][0] in ('argp', 'ldp') and e.args[1] == C(64, 8):
            last[e.args[0]] = e
    for addr, e in last.items():
        v = w.load(p.mem, addr, 8, True)
        if v[0] == 'p' and o.st.get(v[1]) == 'rel' and o.st.get(addr[1]) != 'rel':
            report('no-dangling-member', v[1], '%s: a member still refers to %s, which was released at %s' % (name, o.describe(v[1]), o.rel[v[1]].where()), e.where())
    # a member that was attached and then released
    if not detached(ctx, w, p, events):
        for r, (addr, own) in sorted(o.kept.items(), key=repr):
            if o.st.get(r) != 'rel' or own is not None and o.st.get(own) == 'rel':
                continue
            if addr is not None and w.load(p.mem, addr, 8, True) != P(r):
                continue
            if own is not None and own[0] == 'ret' and o.st.get(own) in ('maybe', None):
                continue
            report('no-dangling-member', r, '%s: %s was handed over and is released at %s all the same' % (name, o.describe(r), o.rel[r].where()), o.rel[r].where())
    # an array that was released although its owner keeps it
    if not releasing(ctx, name):
        for b, s in sorted(o.st.items(), key=repr):
            if s == 'rel' and b[0] == 'ldp' and b[2] == 0 and b[1][0] == 'p' and not b[1][3] and b[1][1][0] in ('argp', 'ldp') and o.st.get(b[1][1]) != 'rel':
                if w.load(p.mem, b[1], 8, True) == P(b) and any(member(ctx, b[1], x) for x in OWNING):
                    report('no-dangling-member', b, '%s: a member still refers to %s, which was released at %s' % (name, o.describe(b), o.rel[b].where()), o.rel[b].where())
    for old, nb, e in o.re:
        ob = old[1]
        loc = ob[1] if ob[0] == 'ldp' else ob[2][1] if ob[0] == 'lphi' and isinstance(ob[2], tuple) and ob[2][0] == 'm' else None
        if loc is None or loc[0] != 'p' or loc[1][0] not in ('argp', 'ldp', 'lphi'):
            continue
        v = w.load(p.mem, loc, 8, True)
        if o.null.get(nb) is True:
            if v == P(nb) or v == NULL:
                report('nothing-lost', nb, '%s: when the reallocation fails the only reference to the old block is overwritten' % name, e.where(), null=True)
        elif o.null.get(nb) is False:
            if v == old and o.st.get(ob) == 'rel':
                report('no-dangling-member', nb, '%s: after the reallocation a member still refers to the old block' % name, e.where())
    # a fresh array over an array that is still owned there
    for addr, e in last.items():
        v = e.args[2]
        if v[0] != 'p' or v[1][0] != 'ret' or o.kind.get(v[1]) != 'block':
            continue
        f = array_field(ctx, addr)
        if f is None:
            continue
        old = P(('ldp', addr, 0))
        if any(x[0] == old for x in o.re):
            continue
        if o.st.get(old[1]) == 'rel':
            continue
        if w.load(e.mem, addr, 8, True) != old:
            continue
        if any(x.kind == 'st' and x.args[2] == old for x in events):
            continue
        report('nothing-lost', old[1], '%s: the array in %s is replaced without releasing the old one' % (name, f), e.where())


OWNING = (('IFF_Group', 'chunk'), ('IFF_List', 'prop'), ('IFF_RawChunk', 'chunkData'))


def member(ctx, addr, x):
    f = ctx.m.field(*x)
    return f is not None and addr[2] == f['off']


def releasing(ctx, name):
    return name.startswith('IFF_free') or name in freehandlers(ctx)


def freehandlers(ctx):
    if not hasattr(ctx, 'freeh'):
        from .module import tables
        ctx.freeh = {f for x in tables(ctx)['rows'] for s, f in x[1].items() if s.startswith('free') and isinstance(f, str)}
    return ctx.freeh


def detached(ctx, w, p, events):
    """does the path take a member out of an array again (the count ends as it was)?"""
    offs = {ctx.m.field(*x)['off'] for x in (('IFF_Group', 'chunkLength'), ('IFF_List', 'propLength')) if ctx.m.field(*x)}
    for e in events:
        if e.kind == 'st' and e.args[1] == C(64, 4) and e.args[0][0] == 'p' and not e.args[0][3] and e.args[0][2] in offs:
            if w.load(p.mem, e.args[0], 4) == ('ld', e.args[0], 4, 0):
                return True
    return False


def holder(ctx, b):
    """the group an element was taken from, if it was loaded through the group's array"""
    if b[0] == 'ldp' and b[1][0] == 'p' and b[1][1][0] == 'ldp' and b[1][1][1][0] == 'p':
        a = b[1][1][1]
        if not a[3] and any(a[2] == ctx.m.off(s, n) for s, n in OWNING[:2]):
            return a[1]
    return None


def array_field(ctx, addr):
    for s, n in (('IFF_Group', 'chunk'), ('IFF_List', 'prop')):
        f = ctx.m.field(s, n)
        if f is not None and addr[1][0] == 'argp' and not addr[3] and addr[2] == f['off']:
            return n
    return None


def c08(ctx, rep):
    nres = 0
    for unit, name, fn, ps in public(ctx):
        if ps is None:
            rep.und('nothing-lost', name, 'not enumerable')
            continue
        inst = '%s (%s)' % (name, unit)
        done = set()
        for p in ps:
            if p.status != 'ret':
                continue
            pr = pairs(p)
            for sc in scenarios(p, p.facts, pr):
                o = Owner(ctx, unit, name, fn, p, pr)
                o.null = sc
                o.run(p.events, p.facts)
                nres += len(o.at)
                judge(ctx, rep, unit, name, fn, p, p.facts, p.events, o, pr, inst, 'ret')
                for LI, pre, owned, start in list(o.loops):
                    if LI.id in done:
                        continue
                    done.add(LI.id)
                    rounds(ctx, rep, unit, name, fn, p, LI, pre, owned, start, pr, inst)
        rep.ok('operation-analysed', inst)
    from .live import live
    live(ctx, rep, 'C08')
    rep.need('operation-analysed', 60)
    rep.need('accounted-for', 40)
    rep.need('released', 20)
    rep.counts['acquisitions followed'] = nres


def rounds(ctx, rep, unit, name, fn, p, LI, pre, owned, start, pr, inst):
    for bk in LI.backs:
        facts = pre + bk.facts
        for sc in scenarios(bk, facts, pr):
            o = start.clone()
            o.null = {**start.null, **sc}
            for k in list(o.st):
                if k[0] == 'lphi' and k[1] == LI.id and k not in [x[0] for x in owned.values()]:
                    o.st.pop(k)
            outer = {b for b in start.st if not (b[0] == 'lphi' and b[1] == LI.id)}
            o.run(bk.events, facts)
            for b in outer:
                if o.st.get(b) == 'rel' and start.st.get(b) == 'held':
                    o.st[b] = 'maybe'
            judge(ctx, rep, unit, name, fn, bk, facts, bk.events, o, pr, inst, 'back', bk.next, outer)
            for LI2, pre2, ow2, st2 in list(o.loops):
                rounds(ctx, rep, unit, name, fn, p, LI2, facts[:LI2.pre[1]] if False else pre2, ow2, st2, pr, inst)


# ---------------------------------------------------------------- C11
def may_fail(e):
    """a call whose result is missing when memory ran out"""
    if e.ret is None or e.ret[0] != 'p' or e.kind not in ('call', 'slot', 'rec'):
        return False
    if e.kind == 'slot':
        return e.name.startswith('create')
    return e.name in BLOCK or e.name in READS or e.name.startswith('IFF_create') or e.name in SEARCHES and e.name != 'IFF_mergeFormArray'


def walk_events(events, facts, pre=0, outer=()):
    """(event, facts that hold when it happens) including every round of every loop"""
    for e in events:
        n = e.nf if e.nf is not None else len(facts) + pre
        yield e, list(outer) + list(facts[:max(0, n - pre)])
        if e.kind == 'loop':
            LI = e.loop
            before = list(outer) + list(facts[:max(0, LI.pre[1] - pre)])
            for bk in LI.backs:
                yield from walk_events(bk.events, bk.facts, LI.pre[1], before)


def derefs(ctx, fname):
    """indices of the parameters a library function dereferences on every path although they are missing"""
    key = ('derefs', fname)
    if key in ctx.cache:
        return ctx.cache[key]
    ctx.cache[key] = frozenset()
    f = ctx.m.fns.get(fname)
    out = set()
    if f is not None and ctx.m.body(fname) is not None:
        ps = ctx.walk(fname, boundary=B)
        for i, a in enumerate(f.args):
            if a['ty'] != 'ptr' or ps is None:
                continue
            every = bool(ps)
            for p in ps:
                if holds(p.facts, Val(ptr={('argp', i): 0})) is False:
                    continue
                if not any(('argp', i) in touched(ctx, 'lib', e) for e in p.events):
                    every = False
            if every:
                out.add(i)
    ctx.cache[key] = frozenset(out)
    return ctx.cache[key]


CHUNKARG = {'IFF_writeChunk': (1,), 'IFF_checkChunk': (0,), 'IFF_freeChunk': (0,), 'IFF_printChunk': (0,), 'IFF_compareChunk': (0, 1),
            'IFF_searchFormsFromArray': (0,)}


def touched(ctx, unit, e):
    """bases an event reads or writes through: {base: length term or None}"""
    out = {}

    def put(t, n=None):
        if t is not None and t[0] == 'p':
            out[t[1]] = n
    if e.kind in ('ld', 'st'):
        put(e.args[0])
    elif e.kind == 'bulk':
        for a in e.args[:2]:
            put(a)
    elif e.kind == 'slot':
        if not e.name.startswith('create'):
            for i, a in enumerate(e.args):
                if a[0] == 'p' and (i < 2 and a[1][0] != 'argp' or i == (1 if e.name.startswith(('read', 'write')) else 0)):
                    put(a)
    elif e.kind in ('call', 'rec'):
        n = e.name
        if n in LIBC:
            ln = e.args[LENARG[n]] if n in LENARG else prod_len(e.args[1], e.args[2]) if n in ('fread', 'fwrite') else None
            for i in LIBC[n]:
                put(e.args[i], ln)
        elif n in FILEARG and n not in ('fread', 'fwrite', 'fputs'):
            put(e.args[FILEARG[n]])
        elif n in CHUNKARG:
            for i in CHUNKARG[n]:
                put(e.args[i])
        elif n not in CHUNK_OPS and ctx.m.body(n) is not None and ctx.m.fns[n] and not ctx.m.fns[n].local:
            if e.kind == 'rec':
                return out
            for i in derefs(ctx, n):
                if i < len(e.args):
                    put(e.args[i])
    return out


def c11(ctx, rep):
    nal = 0
    rows = module_rows(ctx)
    creators = {f for r in rows for s, f in r.items() if s.startswith('create') and isinstance(f, str)}
    for unit, name, fn, ps in public(ctx):
        if ps is None:
            rep.und('checked-before-use', name, 'not enumerable')
            continue
        inst0 = '%s (%s)' % (name, unit)
        done = set()
        for p in ps:
            allocs = {}
            for e, _ in events_all(p):
                if may_fail(e):
                    allocs[e.ret[1]] = e
            if not allocs:
                continue
            pr = pairs(p)
            for e, facts in walk_events(p.events, p.facts):
                for b, n in touched(ctx, unit, e).items():
                    if b not in allocs:
                        continue
                    a = allocs[b]
                    inst = '%s: %s at %s used at %s' % (inst0, a.name, a.where(), e.where())
                    key = (inst, tuple(facts))
                    if key in done:
                        continue
                    done.add(key)
                    nal += 1
                    fs = list(facts) + needed(a)
                    if n is not None:
                        fs.append((cmp('eq', n, C(width(n), 0)), False))
                    r = model(fs, Val(ptr={b: 0}), pr)
                    if r is False:
                        rep.ok('checked-before-use', inst)
                    else:
                        rep.check('checked-before-use', inst, False if r is True and clear(ctx, p, b) else None,
                                  '%s: the result of %s at %s may be missing when it is used here' % (name, a.name, a.where()), e.where(), p)
            if p.status != 'ret':
                continue
            # what survives must not hold a missing block
            w = ctx.walker(unit)
            for e in p.events:
                if e.kind != 'st' or e.args[1] != C(64, 8) or e.args[2][0] != 'p' or e.args[2][1] not in allocs or e.args[2][2] or e.args[2][3]:
                    continue
                b = e.args[2][1]
                a = allocs[b]
                hb = e.args[0][1] if e.args[0][0] == 'p' else None
                if hb is None or hb[0] == 'alloca' or a.kind != 'call' or a.name not in BLOCK:
                    continue
                inst = '%s: %s at %s kept at %s' % (inst0, a.name, a.where(), e.where())
                if w.load(p.mem, e.args[0], 8, True) != e.args[2]:
                    continue
                if hb[0] == 'ret' and hb in allocs:
                    if any(x.kind in ('call', 'rec') and x.name in ('free',) + tuple(CHUNKFREE) and x.args[0] == P(hb) for x in p.events):
                        continue
                    hp = {hb: 0x640000}
                else:
                    hp = {}
                r = model(list(p.facts) + needed(a), Val(ptr={b: 0, **hp}), pr)
                rep.check('no-missing-member', inst, True if r is False else False if r is True else None,
                          '%s: a member holds the result of %s at %s although it may be missing' % (name, a.name, a.where()), e.where(), p)
            # creation reports the failure
            if (name.startswith('IFF_create') or name in creators) and p.ret is not None and fn.ret == 'ptr':
                for b, a in allocs.items():
                    inst = '%s: failure of %s at %s' % (inst0, a.name, a.where())
                    V = Val(ptr={b: 0})
                    others = [x for x in allocs if x != b]
                    for x in others:
                        V.ptr[x] = 0x650000
                    if not isret(p, b) and p.ret[0] == 'p' and p.ret[1] in allocs and p.ret[1] != b:
                        r = model(list(p.facts) + needed(a), V, pr)
                        rep.check('creation-reports', inst, True if r is False else False if r is True else None,
                                  '%s: a chunk is returned although %s at %s failed' % (name, a.name, a.where()), a.where(), p)
                    else:
                        rep.ok('creation-reports', inst)
            # an array that is returned is there if its length says so
            if fn.ret == 'ptr' and p.ret is not None and fn.dty and fn.dty[0].replace('const ', '').replace(' ', '').endswith('**'):
                outs = [i for i, d in enumerate(fn.dty[1:]) if paramkind(d) == 'out']
                for i in outs:
                    q = P(('argp', i))
                    v = w.load(p.mem, q, 4)
                    if p.ret[0] == 'p' and p.ret[1] in allocs:
                        a = allocs[p.ret[1]]
                        r = model(list(p.facts) + needed(a) + [(cmp('eq', v, C(32, 0)), False)], Val(ptr={p.ret[1]: 0}), pr)
                        rep.check('length-of-missing-array', '%s: %s at %s' % (inst0, a.name, a.where()), True if r is False else False if r is True and settled(v) else None,
                                  '%s: a missing array is returned with a length that is not 0' % name, '%s:%s' % (p.file, p.line), p)
                    elif p.ret == NULL:
                        r = model(list(p.facts) + [(cmp('eq', v, C(32, 0)), False)], Val(), pr)
                        rep.check('length-of-missing-array', '%s: NULL at %s:%s' % (inst0, p.file, p.line), True if r is False else False if r is True and settled(v) else None,
                                  '%s: no array is returned, but a length that is not 0' % name, '%s:%s' % (p.file, p.line), p)
    rep.need('checked-before-use', 12)
    rep.need('creation-reports', 5)
    rep.counts['uses of allocated blocks'] = nal


def settled(v):
    """is a length a constant or a search's own result (not a loop's or the caller's)?"""
    return all(l[0] not in ('lphi', 'iter', 'ld') for l in leaves(v))


def clear(ctx, p, b):
    return True


def isret(p, b):
    return p.ret is not None and p.ret[0] == 'p' and p.ret[1] == b


def needed(a):
    """facts: the allocation is one of at least one byte"""
    if a.kind == 'call' and a.name == 'malloc':
        n = a.args[0]
    elif a.kind == 'call' and a.name == 'realloc':
        n = a.args[1]
    elif a.kind == 'call' and a.name == 'calloc':
        n = prod_len(a.args[0], a.args[1])
    else:
        return []
    return [] if isc(n) else [(cmp('eq', n, C(width(n), 0)), False)]


def module_rows(ctx):
    from .module import tables
    t = tables(ctx)
    return [x[1] for x in t['rows']] + ([t['default'][1]] if t['default'] else [])


RULES = {'C08': c08, 'C11': c11}
