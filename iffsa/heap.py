"""Abstract heaps: extracted path summaries evaluated over a finite family of object graphs.

A heap names objects and gives their members abstract values (tokens for addresses and IDs).  Nothing of the analysed
program runs: the guards, events and results of the enumerated paths are terms, and this module only evaluates terms.
"""
from .lib import *

# calls that change nothing, so that asking again answers the same
PURE = {'IFF_getPropFromList', 'IFF_getChunkFromProp', 'IFF_getDataChunkFromForm', 'IFF_getChunkFromForm', 'IFF_findChunkType', 'bsearch', 'memcmp', 'strcmp', 'strncmp'}
SKIPVER = ('st', 'may', 'fill', 'data', 'copy')


class Heap:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cells = {}
        self.next = 0x100000
        self.names = {}
        self.tables = {}

    def obj(self, name, size=0x400):
        a = self.next
        self.next += (size + 0xfff) // 0x1000 * 0x1000 + 0x1000
        self.names[a] = name
        return a

    def set(self, addr, size, v):
        self.cells[(addr, size)] = v & mask(8 * size)

    def field(self, addr, struct, **kw):
        for f, v in kw.items():
            d = self.ctx.m.field(struct, f)
            if d is None:
                raise Broken('anchor vanished: %s.%s' % (struct, f))
            self.set(addr + d['off'], d['size'], v)

    def name(self, a):
        if a is None:
            return '?'
        if a == 0:
            return 'NULL'
        b = max((x for x in self.names if x <= a), default=None)
        return '%x' % a if b is None or a - b > 0x1000 else self.names[b] + ('+%d' % (a - b) if a != b else '')

    def cell(self, a, n):
        v = self.cells.get((a, n))
        if v is None and n == 1:
            # part of a wider cell
            for sz in (2, 4, 8):
                for d in range(sz):
                    w = self.cells.get((a - d, sz))
                    if w is not None:
                        return w >> (8 * ((sz - 1 - d) if self.ctx.m.be else d)) & 255
        return v

    def val(self, t, V):
        if t[0] == 'ld' or t[0] == 'out':
            p, n, ver = (t[1], t[2], t[3]) if t[0] == 'ld' else (t[2], t[3], t[1])
            if isinstance(ver, tuple) and ver and ver[0] in SKIPVER:
                return None
            a = ev(p, V)
            return None if a is None else self.cell(a, n)
        return None

    def pval(self, t, V):
        b = t[1]
        if b[0] == 'ldp':
            if isinstance(b[2], tuple) and b[2] and b[2][0] in SKIPVER:
                return None
            a = ev(b[1], V)
            return None if a is None else self.cell(a, 8)
        if b[0] == 'g':
            g = self.globals()
            return g.get(b, g.get(b[1]))
        return None

    def globals(self):
        return getattr(self, 'gl', {})


    def text(self, a, s):
        """put a string at an address"""
        for i, b in enumerate(s.encode('latin1') + b'\0'):
            self.cells[(a + i, 1)] = b
        return a

    # what a way through the code changes is undone when the next one is tried; a heap that does not change needs nothing
    def snap(self):
        return None

    def back(self, s):
        pass

    def string(self, a, limit=4096):
        """the bytes up to the terminator, or None when unknown"""
        out = bytearray()
        while len(out) < limit:
            c = self.cell(a + len(out), 1)
            if c is None:
                return None
            if c == 0:
                return bytes(out)
            out.append(c)
        return None


def strfn(name, args, get, mem):
    """value of a pure string function, or None.  get(address) gives a terminated string, mem(address, n) n bytes"""
    def sg(x, y):
        return (x > y) - (x < y) & mask(32)
    if not args or None in args:
        return None
    if name == 'strlen':
        a = get(args[0])
        return None if a is None else len(a)
    if name in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp'):
        a, b = get(args[0]), get(args[1])
        if a is None or b is None:
            return None
        if 'ncas' in name or name == 'strncmp':
            a, b = a[:args[2]], b[:args[2]]
        if 'case' in name:
            a, b = a.lower(), b.lower()
        return sg(a, b)
    if name in ('strchr', 'strrchr'):
        a = get(args[0])
        if a is None:
            return None
        i = (a + b'\0').find(args[1] & 255) if name == 'strchr' else (a + b'\0').rfind(args[1] & 255)
        return args[0] + i if i >= 0 else 0
    if name in ('strspn', 'strcspn', 'strpbrk', 'strstr'):
        a, b = get(args[0]), get(args[1])
        if a is None or b is None:
            return None
        if name == 'strstr':
            i = a.find(b)
            return args[0] + i if i >= 0 else 0
        n = 0
        while n < len(a) and (a[n] in b) == (name == 'strspn'):
            n += 1
        if name == 'strpbrk':
            return args[0] + n if n < len(a) else 0
        return n
    if name == 'strnlen':
        a = get(args[0])
        return None if a is None else min(len(a), args[1])
    if name == 'memchr':
        a = mem(args[0], args[2])
        if a is None:
            return None
        i = a.find(args[1] & 255)
        return args[0] + i if i >= 0 else 0
    return None


class Stuck(Exception):
    pass


class Wrong(Stuck):
    """the evaluation itself shows a violation"""

    sure = False    # True: every condition passed before holds; None: some are unknown

    def __init__(self, msg, where=''):
        Stuck.__init__(self, msg)
        self.where = where


class Outside(Wrong):
    """memory outside every block is accessed"""


class Released(Wrong):
    """a released block is used"""


class Run:
    """the evaluation of one function summary: .ret (int or None), .log [(event, argument values)], .path, .V"""


class Evaluator:
    def __init__(self, ctx, heap, boundary=CORE, unit='lib', step=None, maxdepth=12, maxiter=40):
        self.ctx = ctx; self.h = heap; self.b = frozenset(boundary); self.unit = unit
        self.stepfn = step
        self.maxdepth = maxdepth; self.maxiter = maxiter
        self.active, self.sure = [], False      # recursive calls being evaluated
        self.w = ctx.walker(unit)
        self.record = False         # log stores and bulk copies too ('all': and loads)

    def note(self, e, V, log):
        if self.record:
            log.append((e, e.kind, tuple(ev(a, V) if a is not None else None for a in e.args)))

    def val(self, args):
        V = Val()
        for i, (isp, v) in enumerate(args):
            if isp:
                V.ptr[('argp', i)] = v
            else:
                V.l[('arg', i, 32)] = v & mask(32)
                V.l[('arg', i, 64)] = v & mask(64)
        V.fn, V.pf = self.h.val, self.h.pval
        V.cnt = {}
        V.init, V.al = None, None
        return V

    def run(self, fname, args, depth=0):
        """args: list of ints, in parameter order.  Raises Stuck when the summary does not determine the outcome"""
        if depth > self.maxdepth:
            raise Stuck('recursion in %s does not end' % fname)
        ps = self.ctx.walk(fname, boundary=self.b, unit=self.unit)
        if ps is None:
            raise Stuck('%s not enumerable' % fname)
        fn = self.ctx.mods[self.unit].fns[fname]
        args = [(a['ty'] == 'ptr', v) for a, v in zip(fn.args, args)]
        out, why = [], None
        for p in ps:
            if p.status not in ('ret', 'exit'):
                continue
            V = self.val(args)
            before = self.h.snap()
            try:
                log = []
                if not self.events(p.events, p.facts, V, log, depth):
                    continue
                h = holds(p.facts, V)
                if h is False:
                    continue
                if h is None:
                    u = []
                    holds(p.facts, V, u)
                    raise Stuck('condition %s' % show(u[0]))
            except Wrong as e:
                if e.sure or not self.strict and holds(p.facts, V) is not False:
                    raise
                if e.sure is None and self.strict:
                    why = str(e)
                continue
            except Stuck as e:
                why = str(e)
                continue
            finally:
                after = self.h.snap()
                self.h.back(before)
            r = Run()
            r.heap = after
            r.path, r.V, r.log = p, V, log
            r.ret = None if p.ret is None else ev(p.ret, V)
            out.append(r)
        if not out:
            raise Stuck(why or 'no path of %s fits' % fname)
        if why and len(out) != 1:
            raise Stuck(why)
        if len(out) > 1:
            # several spellings of the same outcome are fine
            k = {(r.ret, tuple(x[1:] for x in r.log), r.path.status) for r in out}
            if len(k) > 1:
                raise Stuck('%d paths of %s fit' % (len(out), fname))
        self.h.back(out[0].heap)
        return out[0]

    strict = False

    def events(self, evs, facts, V, log, depth):
        for e in evs:
            if e.nf and holds(facts[:min(e.nf, len(facts))], V) is False:
                return False
            try:
                if not self.event(e, facts, V, log, depth):
                    return False
            except Wrong as x:
                x.sure = holds(facts[:min(e.nf, len(facts))], V) if e.nf is not None and (e.kind not in ('loop', 'rec') or x.sure) else x.sure
                raise
        return True

    def event(self, e, facts, V, log, depth):
        if e.kind == 'loop':
            if not self.loop(e.loop, V, log, depth):
                return False
        elif e.kind in ('call', 'slot', 'rec', 'icall'):
            self.sure = e.kind == 'rec' and e.nf is not None and holds(facts[:min(e.nf, len(facts))], V) is True \
                and all(x[0].kind in ('ld', 'rec') or x[0].kind == 'call' and x[1] in PURE for x in log)
            self.call(e, V, log, depth)
        elif e.kind in ('st', 'bulk'):
            self.note(e, V, log)
        elif e.kind == 'ld':
            self.resolve(e, V)
            if self.record == 'all':
                self.note(e, V, log)
        return True

    def resolve(self, e, V):
        """a load of a local array at an index that is known here"""
        ptr, size, t = e.args[0], e.args[1], e.args[2]
        if t[0] != 'ld' or ptr[0] != 'p' or ptr[1][0] != 'alloca' or not ptr[3] or not isc(size) or ev(t, V) is not None:
            return
        off = ptr[2]
        for x, sc in ptr[3]:
            v = ev(x, V)
            if v is None:
                return
            off += (v - (1 << width(x)) if v >> (width(x) - 1) else v) * sc
        v = ev(self.w.load(e.mem, P(ptr[1], off), size[2]), V)
        if v is not None:
            V.l[t] = v
            V.memo.clear()

    def call(self, e, V, log, depth):
        args = [ev(a, V) for a in e.args]
        r = None
        if self.stepfn:
            r = self.stepfn(self, e, args, V, depth)
            if isinstance(r, Run):
                log.extend(r.log)
                r = 'skip' if r.ret is None else r.ret
        if r is None and e.name == 'bsearch':
            r = self.bsearch(e, args, V)
        if r is None and e.kind == 'call' and e.ret is not None and e.name.startswith(('str', 'memchr')):
            r = strfn(e.name, args, lambda a, e=e: self.litstr(a, e, V), self.span)
        if r is None and e.kind in ('rec', 'call') and e.kind == 'rec' and self.ctx.mods[self.unit].body(e.name) is not None:
            if any(a is None for a in args):
                raise Stuck('arguments of %s' % e.name)
            me = (e.name, tuple(args))
            if self.sure and all(s for m, s in self.active[-1:]) and [m for m, s in self.active].count(me) > 1:
                raise Wrong('%s goes on for ever: it is called again with the arguments it is busy with' % e.name, e.where())
            self.active.append((me, self.sure))
            try:
                x = self.run(e.name, args, depth + 1)
            finally:
                self.active.pop()
            r = x.ret
            log.extend(x.log)
        log.append((e, e.name, tuple(args)))
        if r is not None and r != 'skip' and e.ret is not None:
            set_ret(V, e, r)
        V.memo.clear()

    def span(self, a, n):
        if n > 4096:
            return None
        bs = [self.h.cell(a + i, 1) for i in range(n)]
        return None if None in bs else bytes(bs)

    def litstr(self, a, e, V):
        """a terminated string at an address: in the heap, or a literal of the program"""
        for t in e.args:
            if t[0] == 'p' and t[1][0] == 'g' and not t[3] and ev(t, V) == a:
                s = self.ctx.mods[self.unit].gstring(t[1][1], t[2])
                if s is not None:
                    return s.encode('latin1')
        return self.h.string(a)

    def bsearch(self, e, args, V):
        key, base, n, size = args[:4]
        if base is None or n is None or size is None:
            raise Stuck('arguments of bsearch')
        if n == 0:
            return 0
        T = self.h.tables.get(base)
        if T is not None and (size != T[0] or n > T[1]):
            raise Wrong('a table of %d entries of %d bytes is searched as %d entries of %d bytes' % (T[1], T[0], n, size), e.where())
        cmpf = e.args[4]
        # which member is compared is decided by the comparator; the key member at the same offset is read from memory
        off = self.cmpoff(cmpf)
        if off is None:
            raise Stuck('comparator')
        k = self.w.load(e.mem, padd(e.args[0], off, ()), 4)
        kv = ev(k, V)
        if kv is None:
            raise Stuck('key of bsearch')
        for i in range(n):
            c = self.h.cell(base + i * size + off, 4)
            if c is None:
                raise Stuck('entry %d of the table at %s (%d entries of %d bytes searched)' % (i, self.h.name(base), n, size))
            if c == kv:
                return base + i * size
        return 0

    def cmpoff(self, f):
        """offset of the 32 bit member both arguments of a comparator are read at"""
        if f[0] != 'p' or f[1][0] != 'f':
            return None
        ps = self.ctx.walk(f[1][1], boundary=self.b, unit=self.unit)
        offs = set()
        for p in ps or []:
            for e in p.events:
                if e.kind == 'ld' and e.args[0][0] == 'p' and e.args[0][1][0] == 'argp':
                    offs.add(e.args[0][2])
                elif e.kind == 'call' and e.name in ('memcmp', 'bcmp') and all(x[0] == 'p' and x[1][0] == 'argp' and not x[3] for x in e.args[:2]):
                    offs |= {x[2] for x in e.args[:2]} if e.args[2] == C(64, 4) else {None}
        return offs.pop() if len(offs) == 1 else None

    def loop(self, LI, V, log, depth):
        carried = [k for k, s in LI.sym.items() if k not in LI.step and (s[0] == 'lphi' or s[0] == 'p' and s[1][0] == 'lphi')]
        cur = {}
        for k in carried:
            cur[k] = ev(LI.init[k], V)

        def put(V, k):
            iter_fix(V, LI.id, k)
            for c in carried:
                s = LI.sym[c]
                if cur[c] is not None:
                    if s[0] == 'p':
                        V.ptr[s[1]] = cur[c]
                    else:
                        V.l[s] = cur[c] & mask(width(s))
                else:
                    V.ptr.pop(s[1], None) if s[0] == 'p' else V.l.pop(s, None)
            V.memo.clear()
        for k in range(self.maxiter):
            put(V, k)
            good = []
            for b in LI.backs:
                X = Val(dict(V.l), ptr=dict(V.ptr))
                X.fn, X.pf = V.fn, V.pf
                X.cnt = V.cnt
                X.init, X.al = V.init, V.al
                before = self.h.snap()
                lg = []
                pre = LI.pre[1]
                ok = True
                for e in b.events:
                    if holds(b.facts[:max(0, (e.nf or 0) - pre)], X) is False:
                        ok = False
                        break
                    try:
                        if e.kind == 'loop':
                            ok = self.loop(e.loop, X, lg, depth)
                            if not ok:
                                break
                        elif e.kind in ('call', 'slot', 'rec', 'icall'):
                            self.call(e, X, lg, depth)
                        elif e.kind in ('st', 'bulk'):
                            self.note(e, X, lg)
                        elif e.kind == 'ld':
                            self.resolve(e, X)
                            if self.record == 'all':
                                self.note(e, X, lg)
                    except Wrong as x:
                        x.sure = holds(b.facts[:max(0, (e.nf or 0) - pre)], X) if e.kind not in ('loop', 'rec') or x.sure else x.sure
                        raise
                after = self.h.snap()
                self.h.back(before)
                if not ok:
                    continue
                h = holds(b.facts, X)
                if h is False:
                    continue
                if h is None:
                    u = []
                    holds(b.facts, X, u)
                    raise Stuck('condition %s in a loop' % show(u[0]))
                good.append((b, X, lg, after))
            if not good:
                return True
            if len(good) > 1:
                raise Stuck('several ways round the loop at %s' % LI.where())
            b, X, lg, after = good[0]
            self.h.back(after)
            log.extend(lg)
            V.cnt = X.cnt
            cur = {c: ev(b.next[c], X) if c in b.next else None for c in carried}
        raise Stuck('the loop at %s does not end within %d rounds' % (LI.where(), self.maxiter))


# ---------------------------------------------------------------- a heap the code changes
class LiveHeap(Heap):
    """a heap on which stores, copies, allocations and releases take effect, in the order of the events of a path.  Loads are answered
    when they happen; terms over the state an operation began with are answered by the state it began with"""

    def __init__(self, ctx):
        Heap.__init__(self, ctx)
        self.size = {}
        self.freed = set()
        self.stack = 0x70000000

    def obj(self, name, size=0x400):
        a = Heap.obj(self, name, size)
        self.size[a] = size
        return a

    def struct(self, name, struct, **kw):
        n = self.ctx.m.sizeof(struct)
        if n is None:
            raise Broken('anchor vanished: struct %s' % struct)
        a = self.obj(name, n)
        self.field(a, struct, **kw)
        return a

    def snap(self):
        return dict(self.cells), dict(self.size), set(self.freed), self.next

    def back(self, s):
        self.cells, self.size, self.freed, self.next = dict(s[0]), dict(s[1]), set(s[2]), s[3]

    def block(self, a):
        b = max((x for x in self.size if x <= a), default=None)
        return b if b is not None and a < b + max(1, self.size[b]) else None

    def usable(self, a, n, what, where):
        if a is None:
            raise Stuck('an address')
        b = self.block(a)
        if b is None:
            raise Outside('%s at %s, where no object is' % (what, self.name(a)), where)
        if b in self.freed:
            raise Released('%s in %s, which has been released' % (what, self.name(b)), where)
        if a + n > b + self.size[b]:
            raise Outside('%s beyond the end of %s' % (what, self.name(b)), where)

    def put(self, a, n, v):
        # cells that overlap are gone
        for d in range(-7, n):
            for sz in (1, 2, 4, 8):
                if a + d + sz > a and (d, sz) != (0, n):
                    self.cells.pop((a + d, sz), None)
        if v is None:
            self.cells.pop((a, n), None)
        else:
            self.cells[(a, n)] = v & mask(8 * n)

    def val(self, t, V):
        if t[0] == 'ld' and t[3] == 0:
            a = ev(t[1], V)
            return None if a is None else self.begun(V, a, t[2])
        return None

    def begun(self, V, a, n):
        live, self.cells = self.cells, V.init if V.init is not None else self.cells
        try:
            return self.cell(a, n)
        finally:
            self.cells = live

    def pval(self, t, V):
        b = t[1]
        if b[0] == 'ldp' and b[2] == 0:
            a = ev(b[1], V)
            return None if a is None else self.begun(V, a, 8)
        if b[0] == 'alloca' and V.al is not None:
            if b not in V.al:
                # local variables live elsewhere: they stay when what a way through the code did is undone
                n = b[1][3] if isinstance(b[1][3], int) else 64
                V.al[b], self.stack = self.stack, self.stack + n + 0x1000
                self.names[V.al[b]] = 'local %s' % b[1][2]
            self.size.setdefault(V.al[b], b[1][3] if isinstance(b[1][3], int) else 64)
            return V.al[b]
        return Heap.pval(self, t, V) if b[0] == 'g' else None


class LiveEvaluator(Evaluator):
    """memory: 'moves' (an enlarged block is elsewhere), 'stays' (it is where it was), None (there is none) or a number of requests that
    succeed, with the block enlarged elsewhere, before the rest fail"""

    strict = True

    def __init__(self, ctx, heap, memory='moves', **kw):
        Evaluator.__init__(self, ctx, heap, **kw)
        self.memory = memory
        self.failed = False

    def val(self, args):
        V = Evaluator.val(self, args)
        V.init, V.al = dict(self.h.cells), {}
        return V

    def note(self, e, V, log):
        h = self.h
        if e.kind == 'st':
            a, n, v = ev(e.args[0], V), e.args[1][2], ev(e.args[2], V)
            h.usable(a, n, 'a store', e.where())
            h.put(a, n, v)
        elif e.kind == 'bulk':
            self.copy(e, [ev(x, V) for x in e.args])
        V.memo.clear()
        Evaluator.note(self, e, V, log)

    def copy(self, e, args):
        h = self.h
        d, s, n = args[:3]
        if n is None or n > 4096:
            raise Stuck('length of a copy')
        if n == 0:
            return
        h.usable(d, n, 'a copy to', e.where())
        if e.name == 'fill' or e.name == 'memset':
            for i in range(n):
                h.put(d + i, 1, s)
            return
        h.usable(s, n, 'a copy from', e.where())
        self.move(d, s, n)

    def move(self, d, s, n):
        h = self.h
        part = {(a - s + d, z): v for (a, z), v in h.cells.items() if s <= a and a + z <= s + n}
        for i in range(n):
            h.put(d + i, 1, None)
        h.cells.update(part)

    def resolve(self, e, V):
        ptr, size, t = e.args[0], e.args[1][2], e.args[2]
        a = ev(ptr, V)
        if a is None:
            return Evaluator.resolve(self, e, V)
        if ptr[0] == 'p' and ptr[1][0] in ('g', 'f', 'alloca') and self.h.block(a) is None:
            return
        self.h.usable(a, size, 'a load', e.where())
        v = self.h.cell(a, size)
        if v is None:
            return
        if t[0] == 'p' and t[1][0] == 'ldp' and not t[2] and not t[3]:
            V.ptr[t[1]] = v
        elif t[0] == 'ld':
            V.l[t] = v
        V.memo.clear()

    def call(self, e, V, log, depth):
        h, n = self.h, e.name
        if e.kind == 'call' and n in ('malloc', 'calloc', 'realloc', 'reallocarray', 'free', 'memcpy', 'memmove', 'memset', '__memcpy_chk', '__memset_chk'):
            args = [ev(a, V) for a in e.args]
            r = None
            if n == 'free':
                self.release(args[0], e)
            elif n.lstrip('_').startswith('mem'):
                self.copy(Named(e, 'memset' if 'set' in n else 'memcpy'), args)
                r = args[0]
            else:
                size = args[0] if n == 'malloc' else args[1] if n == 'realloc' else None if None in args else args[-1] * args[-2]
                if size is None or size > 1 << 30:
                    raise Stuck('size of a block')
                old = args[0] if n.startswith('realloc') else 0
                if old is None:
                    raise Stuck('the block to enlarge')
                if old:
                    if old in h.freed:
                        raise Released('%s, which has been released, is enlarged' % h.name(old), e.where())
                    if old not in h.size:
                        raise Wrong('%s, which is no block, is enlarged' % h.name(old), e.where())
                if self.memory is None or isinstance(self.memory, int) and self.got(V) >= self.memory:
                    r, self.failed = 0, True
                elif old and self.memory == 'stays':
                    for (a, z) in [k for k in h.cells if old + size < k[0] + k[1] and old <= k[0] < old + h.size[old]]:
                        del h.cells[(a, z)]
                    h.size[old] = size
                    r = old
                else:
                    r = h.obj('block', size)
                    if n == 'calloc':
                        for i in range(size):
                            h.cells[(r + i, 1)] = 0
                    if old:
                        self.move(r, old, min(size, h.size[old]))
                        h.freed.add(old)
            log.append((e, n, tuple(args)))
            if e.ret is not None and r is not None:
                set_ret(V, e, r)
            V.memo.clear()
            return
        here = [a for a in e.args if a[0] == 'p' and a[1][0] == 'alloca' and not a[3]] if e.kind == 'rec' else []
        for a in here:
            self.spill(e, a, V)
        Evaluator.call(self, e, V, log, depth)
        for a in here:
            at = ev(a, V)
            for sz in (4, 8):
                v = h.cells.get((at, sz))
                if v is not None:
                    o = self.w.out(e.id, a, sz, sz == 8)
                    if o[0] == 'p':
                        V.ptr[o[1]] = v
                    else:
                        V.l[o] = v
        V.memo.clear()

    def spill(self, e, a, V):
        """what a local variable holds when its address is handed on"""
        at = ev(a, V)
        if at is None:
            return
        for sz in (4, 8):
            t = self.w.load(e.mem, a, sz, sz == 8)
            v = ev(t, V) if t[0] != 'undef' else None
            if v is not None:
                self.h.put(at, sz, v)
                return

    def got(self, V):
        """how many blocks have been handed out"""
        return sum(1 for a in self.h.size if self.h.names.get(a) == 'block')

    @staticmethod
    def asked(r):
        """did the operation ask for memory?"""
        return any(n in ('malloc', 'calloc', 'realloc', 'reallocarray') for e, n, a in r.log)

    def release(self, a, e):
        h = self.h
        if a is None:
            raise Stuck('the block released')
        if a == 0:
            return
        if a in h.freed:
            raise Released('%s is released twice' % h.name(a), e.where())
        if a not in h.size:
            raise Wrong('%s, which is no block, is released' % h.name(a), e.where())
        h.freed.add(a)


class Named:
    def __init__(self, e, name):
        self.name, self.where = name, e.where
