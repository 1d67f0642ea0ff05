"""Shared vocabulary of the rules: contexts, reports, fallible events, stream effects, points."""
import itertools, json, os, time, zlib
from . import build, ir
from .terms import *
from .evalt import Val, ev, holds
from .walk import Walker, Limit, Ev, Path, overlap, variant

Broken = build.Broken

CHUNK_OPS = {'IFF_readChunk', 'IFF_writeChunk', 'IFF_checkChunk', 'IFF_freeChunk', 'IFF_printChunk', 'IFF_compareChunk'}
CORE = frozenset(CHUNK_OPS | {'IFF_findChunkType'})
SEARCH = frozenset({'IFF_searchFormsFromArray'})


class Ctx:
    def __init__(self, cfg='le'):
        self.cfg = cfg
        mods = build.compile_repo(cfg)
        self.mods = {u: ir.Module(j) for u, j in mods.items()}
        self.m = self.mods['lib']
        for m in self.mods.values():
            m.marker = cfg == 'init'
        self.cache = {}
        self.undecided = []
        self.endless, self.stuck, self.vla = {}, {}, {}
        self.nfn = set()
        self.npaths = 0
        self.nloops = 0

    def walk(self, fname, boundary=CORE, unit='lib', **kw):
        """paths of fname, or None when the walker cannot enumerate them (recorded)"""
        key = (unit, fname, frozenset(boundary), tuple(sorted(kw.items())))
        if key in self.cache:
            return self.cache[key]
        m = self.mods.get(unit)
        if m is None or m.body(fname) is None:
            raise Broken('anchor vanished: %s has no body in %s' % (fname, unit))
        w = Walker(m, set(boundary) - {fname}, **kw)
        try:
            ps = w.walk(fname)
            for p in ps:
                p.state = None
            self.npaths += len(ps)
            self.nfn |= {f for f in w.inlined}
        except Limit as e:
            ps = None
            self.undecided.append('%s: %s' % (fname, e))
        except RecursionError:
            ps = None
            self.undecided.append('%s: term too deep' % fname)
        self.cache[key] = ps
        self.endless[key[:3]] = getattr(w, 'endless', [])
        self.vla.update(getattr(w, 'vla', {}))
        self.stuck[key[:3]] = getattr(w, 'stuck', [])
        self.w = w
        return ps

    def walker(self, unit='lib'):
        return Walker(self.mods[unit], ())

    def has(self, fname, unit='lib'):
        return self.mods[unit].body(fname) is not None

    # entry-state terms -------------------------------------------------
    def fld(self, obj, struct, name):
        f = self.m.field(struct, name)
        if f is None:
            raise Broken('anchor vanished: %s.%s' % (struct, name))
        p = padd(obj, f['off'], ())
        if f['ty'].endswith('*') or f['ty'].startswith('fn'):
            return P(('ldp', p, 0))
        return ('ld', p, f['size'], 0)

    def fptr(self, obj, struct, name):
        f = self.m.field(struct, name)
        if f is None:
            raise Broken('anchor vanished: %s.%s' % (struct, name))
        return padd(obj, f['off'], ())

    def enum(self, n):
        if n not in self.m.enums:
            raise Broken('anchor vanished: enumerator %s' % n)
        return self.m.enums[n]

    def arg(self, fname, i, unit='lib'):
        a = self.mods[unit].fns[fname].args[i]
        return P(('argp', i)) if a['ty'] == 'ptr' else ('arg', i, int(a['ty'][1:]))


class Rep:
    """obligations of one property run"""

    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.obl = []           # (rule, instance, verdict, detail)
        self.bads = {}
        self.counts = {}
        self.minimum = {}
        self.t0 = time.time()
        self.notes = []

    def ok(self, rule, inst, detail=''):
        self.obl.append((rule, inst, 'discharged', detail))

    def und(self, rule, inst, why):
        self.obl.append((rule, inst, 'undecided', why))

    def bad(self, rule, inst, msg, where='', path=None):
        k = (rule, inst, where)
        if k not in self.bads:
            self.bads[k] = dict(rule=rule, instance=inst, where=where, message=msg, path=render(path))
            self.obl.append((rule, inst, 'violated', msg))

    def check(self, rule, inst, cond, msg='', where='', path=None, detail=''):
        """cond True -> discharged, False -> violated, None -> undecided"""
        if cond is True:
            self.ok(rule, inst, detail)
        elif cond is None:
            self.und(rule, inst, msg)
        else:
            self.bad(rule, inst, msg, where, path)
        return cond

    def need(self, rule, n):
        """a rule must have at least n instances, else the analysis is broken"""
        self.minimum[rule] = n


def render(path):
    if path is None:
        return []
    if isinstance(path, (list, tuple)):
        return [str(x) for x in path]
    out = []
    for e in path.events:
        if e.kind in ('ld', 'st'):
            continue
        if e.kind == 'loop':
            out.append('%s loop' % e.where())
        elif e.kind == 'enter':
            out.append('%s enter %s' % (e.where(), e.name))
        elif e.kind == 'leave':
            out.append('%s leave %s' % (e.where(), e.name))
        else:
            out.append('%s %s(%s)' % (e.where(), e.name, ', '.join(show(a) for a in e.args or [])))
    out.append('facts: ' + '; '.join(('' if tv else 'not ') + show(c) for c, tv in path.facts))
    if path.status == 'ret':
        out.append('returns ' + (show(path.ret) if path.ret is not None else 'nothing') + ' at %s:%s' % (path.file, path.line))
    else:
        out.append(path.status)
    return out


# ---------------------------------------------------------------- conventions
def conv(m, fname):
    """how a function reports failure: 'bool' (0), 'ptr' (NULL), 'field' (enumerator), 'exit' (non-zero), None"""
    f = m.fns.get(fname)
    if f is None:
        return None
    t = (f.dty[0] if f.dty else '').replace('const ', '')
    if t == 'IFF_Bool':
        return 'bool'
    if t == 'IFF_FieldStatus':
        return 'field'
    if f.ret == 'ptr':
        return 'ptr'
    return None


ALLOC = {'malloc', 'calloc', 'realloc', 'reallocarray', 'strdup', 'strndup'}
BIG = 0x5000


def fallible(ctx, e, unit='lib'):
    """(ok representatives, failure representatives) as a function of a valuation, or None"""
    n = e.name
    if e.kind not in ('call', 'slot', 'rec') or e.ret is None:
        return None
    m = ctx.mods[unit]
    if e.kind == 'slot':
        if n.startswith('create'):
            return 'ptr'
        if n.startswith(('read', 'write', 'check', 'compare')):
            return 'bool'
        return None
    if n in ('fread', 'fwrite'):
        return 'count'
    if n in ('fgetc', 'getc', '_IO_getc', 'getchar', 'fputc', 'putc', '_IO_putc', 'putchar'):
        return 'byte'
    if n in ('fputs', 'puts', 'fprintf', 'printf', 'vfprintf', 'vprintf'):
        return 'neg'
    if n in ('fclose', 'fflush', 'fseek', 'fseeko', 'remove', 'rename'):
        return 'zero'
    if n in ALLOC or n in ('fopen', 'fdopen', 'freopen', 'tmpfile'):
        return 'ptr'
    if m.body(n) is not None:
        c = conv(m, n)
        if c in ('bool', 'ptr', 'field'):
            return c
    return None


def set_ret(V, e, v):
    if e.ret[0] == 'p':
        V.ptr[e.ret[1]] = v
    else:
        V.l[e.ret] = v & mask(width(e.ret))
    V.memo.clear()


def ok_reps(ctx, e, kind, V):
    if kind == 'ptr':
        return [BIG * (1 + (zlib.crc32(repr(e.id).encode()) & 0xfff))]
    if kind == 'bool':
        return [1]
    if kind == 'field':
        return [ctx.enum('IFF_FIELD_MORE'), ctx.enum('IFF_FIELD_LAST')]
    if kind == 'count':
        n = ev(e.args[2], V)
        return None if n is None else [n]
    if kind == 'byte':
        if e.name in ('fputc', 'putc', '_IO_putc', 'putchar'):
            c = ev(e.args[0], V)
            if c is not None:
                return [c & 255]
        return [0, 1, 0x7f, 0x80, 0xff]
    if kind == 'neg':
        return [0, 1, 5]
    if kind == 'zero':
        return [0]


def fail_reps(ctx, e, kind, V):
    if kind in ('ptr', 'bool'):
        return [0]
    if kind == 'field':
        return [ctx.enum('IFF_FIELD_FAILURE')]
    if kind == 'count':
        n = ev(e.args[2], V)
        if n is None:
            return None
        return sorted({0, 1, n - 1} & set(range(0, n)))
    if kind in ('byte', 'neg', 'zero'):
        return [-1]


def ret_ok(ctx, kind, ret, V):
    """does a returned term mean success?  None if undecided"""
    if ret is None:
        return None
    v = ev(ret, V)
    if v is None:
        if kind == 'ptr' and ret[0] == 'p' and ret[1][0] in ('argp', 'lphi', 'ldp', 'ret', 'alloca', 'g') and not (ret[1] in V.ptr):
            return None
        return None
    if kind == 'bool' or kind == 'ptr':
        return v != 0
    if kind == 'field':
        return v != ctx.enum('IFF_FIELD_FAILURE')
    if kind == 'exit':
        return v == 0
    return None


# ---------------------------------------------------------------- streams
FILEARG = {'fread': 3, 'fwrite': 3, 'fgetc': 0, 'getc': 0, '_IO_getc': 0, 'fputc': 1, 'putc': 1, '_IO_putc': 1, 'fputs': 1, 'fprintf': 0,
           'vfprintf': 0, 'fflush': 0, 'fclose': 0, 'fseek': 0, 'fseeko': 0, 'rewind': 0, 'ungetc': 1, 'ftell': 0, 'feof': 0, 'ferror': 0,
           'clearerr': 0, 'fgets': 2, 'setvbuf': 0, 'setbuf': 0, 'fileno': 0}
NEUTRAL = {'feof', 'ferror', 'ftell', 'clearerr', 'fileno'}


def stdglobal(t, name):
    """is t the value of the global stream variable `name`?"""
    return t[0] == 'p' and t[1][0] == 'ldp' and t[1][1] == P(('g', name)) and t[2] == 0 and not t[3]


def file_of(e):
    if e.kind == 'call':
        if e.name in FILEARG and len(e.args) > FILEARG[e.name]:
            return e.args[FILEARG[e.name]]
        if e.name in ('printf', 'puts', 'putchar', 'vprintf'):
            return 'stdout'
        if e.name == 'getchar':
            return 'stdin'
    return None


def prod_len(a, b):
    if isc(a) and isc(b):
        return C(64, a[2] * b[2])
    if isc(b):
        return mulc(64, a, b[2])
    if isc(a):
        return mulc(64, b, a[2])
    return ('op', 'mul', 64, *sorted((a, b), key=repr))


def mem_bytes(ctx, w, mem, ptr, n):
    return [w.load(mem, padd(ptr, i, ()), 1) for i in range(n)]


def nbit(be, x):
    """normalise a bit source to byte cells"""
    if not isinstance(x, tuple):
        return x
    t, i = x
    k = t[0]
    if k == 'ld' and t[2] > 1:
        o = i // 8 if not be else t[2] - 1 - i // 8
        return (('ld', padd(t[1], o, ()), 1, t[3]), i % 8)
    if k == 'sv' and t[3] > 1:
        o = i // 8 if not be else t[3] - 1 - i // 8
        return (('sv', t[1], t[2] + o, 1), i % 8)
    if k == 'out' and t[3] > 1:
        o = i // 8 if not be else t[3] - 1 - i // 8
        return (('out', t[1], padd(t[2], o, ()), 1), i % 8)
    return x


def nbits(be, t, lo=0, hi=None):
    b = bits(t)
    hi = len(b) if hi is None else hi
    return tuple(nbit(be, x) for x in b[lo:hi])


def be_bytes(be, t):
    """bit tuples of the bytes of integer term t, most significant byte first"""
    w = width(t)
    return [nbits(be, t, w - 8 - 8 * j, w - 8 * j) for j in range(w // 8)]


def denotes(ctx, got, cells, facts=(), V0=None):
    """is got the value of these bytes of the stream, most significant first?"""
    gb = be_bytes(ctx.m.be, got)
    if gb == [tuple((c, i) for i in range(8)) for c in cells]:
        return True
    if len(gb) != len(cells):
        return None
    odd = [b for x in gb for b in x if isinstance(b, tuple)]
    if not any(b is None for x in gb for b in x) and not any(
            t[0] not in ('sv', 'ret', 'undef', 'ld') or t[0] == 'ld' and t[1][1][0] == 'alloca' or t[0] == 'ret' and i > 7 for t, i in odd):
        # nothing but selected bits: they are the wrong ones, unless the path knows something about them
        ids = {c if c[0] == 'ret' else c[1] for c in cells}
        if not any(x in ids or x[0] == 'sv' and x[1] in ids for c, tv in facts for x in leaves(c)):
            return False
    return sample_read(ctx, got, cells, facts, V0)


PAT = [0x00000000, 0x01020304, 0x80ff7f01, 0xffffffff, 0xdeadbeef, 0x7f80ff00]


def sample_read(ctx, got, cells, facts=(), V0=None):
    """the value denoted, on byte patterns covering every bit and every carry class with which the path is possible"""
    size = len(cells)
    cs, n = set(), 0
    for f in [got] + [c for c, tv in facts]:
        consts(f, cs)
    near = sorted({(c + d) & mask(8 * size) for c in cs for d in (-1, 0, 1)})[:200]
    swapped = [int.from_bytes(x.to_bytes(size, 'little'), 'big') for x in near]
    for pat in dict.fromkeys([x & mask(8 * size) for x in PAT] + [1 << i for i in range(8 * size)] + near + swapped):
        bs = pat.to_bytes(size, 'big')
        V = Val(dict(V0.l) if V0 else {}, ptr=dict(V0.ptr) if V0 else {})
        m = {}
        for c, b in zip(cells, bs):
            if c[0] == 'ret':
                V.l[c] = b
            else:
                m[(c[1], c[2])] = b

        def fn(t, V_=None, m=m):
            if t[0] == 'sv':
                b = [m.get((t[1], t[2] + i)) for i in range(t[3])]
                if None not in b:
                    return int.from_bytes(bytes(b), 'big' if ctx.m.be else 'little')
            return V0.fn(t) if V0 is not None and V0.fn is not None else None
        V.fn = fn
        V.memo.clear()
        h = holds(facts, V)
        if h is False:
            continue
        v = ev(got, V)
        if v is None:
            return None
        if v & mask(8 * size) != pat:
            return False if h else None
        n += 1
    return True if n else None


def consts(t, out):
    if isinstance(t, tuple):
        if t and t[0] == 'c' and len(t) == 3 and isinstance(t[2], int):
            out.add(t[2])
        elif t and t[0] == 'lin':
            out.add(t[2])
        for x in t:
            consts(x, out)


# ---------------------------------------------------------------- leaves and points
LEAF = ('ld', 'sv', 'ret', 'out', 'lphi', 'iter', 'arg')


def leaves(t, out=None):
    if out is None:
        out = set()
    if not isinstance(t, tuple):
        return out
    k = t[0]
    if k in LEAF:
        out.add(t)
        return out
    if k == 'p':
        out.add(P(t[1]))
        for x, _ in t[3]:
            leaves(x, out)
        return out
    if k == 'lin':
        for x, _ in t[3]:
            leaves(x, out)
        return out
    if k in ('zext', 'sext', 'trunc', 'bswap'):
        return leaves(t[2], out)
    if k == 'op':
        leaves(t[3], out)
        return leaves(t[4], out)
    if k == 'cmp':
        leaves(t[2], out)
        return leaves(t[3], out)
    if k == 'not':
        return leaves(t[1], out)
    if k == 'sel':
        for x in t[1:]:
            leaves(x, out)
        return out
    return out


def iter_fix(V, lid, k):
    for w in (1, 8, 16, 32, 64):
        V.l[('iter', lid, w)] = k & mask(w)
    V.memo.clear()


def feasible(facts, V):
    """True: every decided fact holds (None facts count as open)"""
    return holds(facts, V) is not False


def calls(path):
    return [e for e in path.events if e.kind in ('call', 'slot', 'rec', 'icall')]


def loops_of(path):
    return [e.loop for e in path.events if e.kind == 'loop']


def deep_calls(path):
    """all call events including those inside loop iterations, with the loop stack"""
    out = []

    def go(evs, stack):
        for e in evs:
            if e.kind == 'loop':
                for b in e.loop.backs:
                    go(b.events, stack + [e.loop])
            elif e.kind in ('call', 'slot', 'rec', 'icall'):
                out.append((e, stack))
    go(path.events, [])
    return out


# ---------------------------------------------------------------- traces at a point
class Pt:
    """a valuation of one path: leaves fixed by the caller, every fallible step given an outcome"""

    def __init__(self, ctx, p, leafvals=None, unit='lib', ptr=None):
        self.ctx = ctx; self.p = p; self.unit = unit
        self.V = Val(dict(leafvals or {}), ptr=dict(ptr or {}))
        self.w = ctx.walker(unit)
        self.hook = None
        self.big = None     # candidate round counts: long runs are then reported as ('n', count, first, last)

    def settle(self, events, facts, fail=None, kinds=None):
        """give every fallible call among events an outcome allowed by facts (success except for `fail`); False if impossible"""
        ctx, V = self.ctx, self.V
        for e in events:
            if e.kind not in ('call', 'slot', 'rec'):
                continue
            k = fallible(ctx, e, self.unit)
            if k is None or (e.ret in V.l):
                continue
            reps = fail_reps(ctx, e, k, V) if e is fail else ok_reps(ctx, e, k, V)
            if reps is None:
                continue
            good = False
            for r in reps:
                set_ret(V, e, r)
                if feasible(facts, V):
                    good = True
                    break
            if not good and k == 'byte' and len(reps) > 1 and e is not fail:
                # a byte the code singles out
                about = [(c, tv) for c, tv in facts if mentions(c, e.ret)]
                for r in range(256) if about else ():
                    set_ret(V, e, r)
                    if feasible(about, V) and feasible(facts, V):
                        good = True
                        break
            if not good:
                return False
        return feasible(facts, V)

    def steps(self):
        return [e for e in self.p.events if e.kind in ('call', 'slot', 'rec') and fallible(self.ctx, e, self.unit)]


def subst_iter(t, lid, k):
    m = {('iter', lid, w): C(w, k) for w in (8, 16, 32, 64)}
    return subst(t, m)


ALL = 'every call'


def trace(ctx, pt, events, file, depth=0, out=None, sub=()):
    """what the events do to the stream `file` at the point pt:
    ('b', bits) byte written, ('i', cell) byte read, ('s', ev) handler, ('c', ev) library call, ('k', ev) repositioning, ('?', why)"""
    if out is None:
        out = []
    be = ctx.m.be
    V, w = pt.V, pt.w

    def S(t):
        for lid, k in sub:
            t = subst_iter(t, lid, k)
        return t
    for e in events:
        if len(out) > 300:
            out.append(('?', 'trace too long'))
            return out
        if e.kind == 'loop':
            LI = e.loop
            if file != ALL and not any(touches(ctx, x, file) for b in LI.backs for x in b.events):
                continue
            simulate(ctx, pt, LI, file, depth, out, sub)
            continue
        if file == ALL:
            if e.kind in ('call', 'slot', 'rec', 'icall'):
                out.append(('s' if e.kind == 'slot' else 'c', e, sub))
            continue
        if e.kind == 'slot':
            if any(a == file for a in e.args):
                out.append(('s', e, sub))
            continue
        if e.kind in ('call', 'rec', 'icall'):
            f = file_of(e)
            if f is None:
                if any(a == file for a in e.args):
                    out.append(('c', e, sub))
                continue
            if f == 'stdout' or f == 'stdin':
                if not (isinstance(file, tuple) and stdglobal(file, f)):
                    continue
            elif f != file:
                continue
            n = e.name
            if n == 'fwrite' or n == 'fread':
                tot = S(prod_len(e.args[1], e.args[2]))
                c = tot[2] if isc(tot) else ev(tot, V)
                if c is not None and c > 200 and pt.big:
                    x = ('i',) if n == 'fread' else ('b', [nbits(be, S(w.load(e.mem, padd(S(e.args[0]), i, ()), 1))) for i in (0, 1, c - 1)])
                    out.append(('n', c, x, e))
                    continue
                if c is None or c > 200:
                    out.append(('?', 'length of %s at %s' % (n, e.where())))
                    continue
                for i in range(c):
                    if n == 'fwrite':
                        b = S(w.load(e.mem, padd(S(e.args[0]), i, ()), 1))
                        out.append(('b', nbits(be, b), e, b))
                    else:
                        out.append(('i', ('sv', e.id, i, 1), e, sub))
            elif n in ('fputc', 'putc', '_IO_putc', 'putchar'):
                out.append(('b', nbits(be, S(e.args[0]), 0, 8), e, cast('trunc', 8, S(e.args[0]))))
            elif n in ('fgetc', 'getc', '_IO_getc', 'getchar'):
                out.append(('i', e.ret, e, sub))
            elif n in ('fputs', 'puts'):
                s = e.args[0]
                g = ctx.mods[pt.unit].gstring(s[1][1], s[2]) if s[0] == 'p' and s[1][0] == 'g' and not s[3] else None
                if g is None:
                    out.append(('?', 'text written at %s' % e.where()))
                else:
                    for ch in g + ('\n' if n == 'puts' else ''):
                        out.append(('b', nbits(be, C(8, ord(ch))), e, C(8, ord(ch))))
            elif n in NEUTRAL or n in ('fflush', 'setvbuf', 'setbuf'):
                pass
            elif n == 'ungetc' and out and out[-1][0] == 'i':
                out.pop()
            elif n in ('fseek', 'fseeko', 'rewind', 'ungetc'):
                out.append(('k', e))
            elif n == 'fclose':
                out.append(('c', e))
            else:
                out.append(('?', '%s at %s' % (n, e.where())))
    return out


def touches(ctx, e, file):
    if e.kind == 'loop':
        return any(touches(ctx, x, file) for b in e.loop.backs for x in b.events)
    if e.kind in ('call', 'slot', 'rec', 'icall'):
        f = file_of(e)
        if f in ('stdout', 'stdin'):
            return isinstance(file, tuple) and stdglobal(file, f)
        return f == file or any(a == file for a in e.args)
    return False


def simulate(ctx, pt, LI, file, depth, out, sub):
    """the iterations of a loop at a point: counters by their closed form, other carried values through their next terms"""
    V = pt.V
    carried = [k for k, s in LI.sym.items() if k not in LI.step and (s[0] == 'lphi' or s[0] == 'p' and s[1][0] == 'lphi')]
    cur = {k: ev(LI.init[k], V) for k in carried}
    if pt.big:
        r = simulate_big(ctx, pt, LI, file, depth, out, sub, carried)
        if r is not None:
            return r
    for k in range(0, 70):
        X = Pt(ctx, pt.p, pt.V.l, pt.unit, pt.V.ptr)
        X.V.fn = V.fn
        X.V.pf = V.pf
        iter_fix(X.V, LI.id, k)
        X.hook = pt.hook
        if pt.hook:
            pt.hook(LI, k, X.V)
        for c in carried:
            s = LI.sym[c]
            if cur[c] is not None:
                if s[0] == 'p':
                    X.V.ptr[s[1]] = cur[c]
                else:
                    X.V.l[s] = cur[c] & mask(width(s))
        X.V.memo.clear()
        cand = []
        for b in LI.backs:
            Y = Pt(ctx, pt.p, X.V.l, pt.unit, X.V.ptr)
            Y.V.fn = V.fn
            Y.V.pf = V.pf
            Y.hook = pt.hook
            if not Y.settle(b.events, b.facts):
                continue
            h = holds(b.facts, Y.V)
            cand.append((b, Y, h))
        if not cand:
            # the exit state of the loop
            iter_fix(V, LI.id, k)
            for c in carried:
                s = LI.sym[c]
                if cur[c] is not None:
                    if s[0] == 'p':
                        V.ptr[s[1]] = cur[c]
                    else:
                        V.l[s] = cur[c] & mask(width(s))
            V.memo.clear()
            return True
        sure = [x for x in cand if x[2] is True]
        if len(sure) == 1:
            cand = sure
        if any(x[2] is None for x in cand):
            out.append(('?', 'number of iterations of the loop at %s' % LI.where()))
            return False
        traces = [trace(ctx, Y, b.events, file, depth + 1, [], sub + ((LI.id, k),)) for b, Y, h in cand]
        if any(shape(t) != shape(traces[0]) for t in traces):
            out.append(('?', 'iterations of the loop at %s differ' % LI.where()))
            return False
        out.extend(traces[0])
        b, Y, _ = cand[0]
        cur = {c: ev(b.next[c], Y.V) if c in b.next else None for c in carried}
    out.append(('?', 'loop at %s does not end' % LI.where()))
    return False


def simulate_big(ctx, pt, LI, file, depth, out, sub, carried=()):
    """a loop whose state is a closed form of its round number, or settles in its first round, judged at the candidate round counts: it
    ends at the first candidate where no round is possible, provided that the rounds before (at its neighbours and class borders) all do
    the same; only the last one may do something else"""
    cur0 = {c: ev(LI.init[c], pt.V) for c in carried}
    if None in cur0.values():
        return None
    cur1 = None

    def put(V, k):
        iter_fix(V, LI.id, k)
        for c, v in (cur0 if k == 0 or cur1 is None else cur1).items():
            s = LI.sym[c]
            if s[0] == 'p':
                V.ptr[s[1]] = v
            else:
                V.l[s] = v & mask(width(s))
        V.memo.clear()

    def rounds(k):
        res = []
        for b in LI.backs:
            Y = Pt(ctx, pt.p, pt.V.l, pt.unit, pt.V.ptr)
            Y.V.fn, Y.V.pf, Y.hook, Y.big = pt.V.fn, pt.V.pf, pt.hook, pt.big
            put(Y.V, k)
            if Y.settle(b.events, b.facts):
                res.append((b, Y, holds(b.facts, Y.V)))
        sure = [x for x in res if x[2] is True]
        return sure if len(sure) == 1 else res

    def after(r):
        vs = [{c: ev(b.next[c], Y.V) if c in b.next else None for c in carried} for b, Y, _ in r]
        return vs[0] if vs and all(v == vs[0] for v in vs) and None not in vs[0].values() else None

    if carried:
        r = rounds(0)
        if r:
            cur1 = after(r)
            if cur1 is None:
                return None
    for N in sorted(set(pt.big)):
        if not rounds(N):
            break
    else:
        return None
    same = lambda t: [('n', x[1], x[2][0]) if x[0] == 'n' else x[:2] if x[0] == 'b' else x[0] for x in t]
    shp, last = None, None
    for k in sorted({0, 1, N // 2, N - 3, N - 2, N - 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536}):
        if not 0 <= k < N:
            continue
        r = rounds(k)
        if not r or any(x[2] is None for x in r) or carried and k < N - 1 and after(r) != cur1:
            return None
        ts = [trace(ctx, Y, b.events, file, depth + 1, [], sub + ((LI.id, k),)) for b, Y, _ in r]
        for t in ts:
            if shp is None:
                shp = t
            if any(x[0] not in 'bin' for x in t) or same(t) != same(ts[0]):
                return None
        if same(ts[0]) != same(shp):
            if k < N - 1:
                return None
            last = ts[0]
    put(pt.V, N)
    n = N - (last is not None)
    if n and shp:
        kinds = {x[2][0] if x[0] == 'n' else x[0] for x in shp}
        if len(kinds) > 1:
            return None
        x = shp[0]
        out.append(('n', n * sum(x[1] if x[0] == 'n' else 1 for x in shp), x[2] if x[0] == 'n' else ('b', [x[1]]) if x[0] == 'b' else ('i',), LI))
    out.extend(last or [])
    return True


def shape(t):
    return [x[:2] if x[0] in 'bi' else (x[0], x[1].name if isinstance(x[1], Ev) else x[1]) for x in t]


# ---------------------------------------------------------------- members of objects
def opath(t, V):
    """which object does a pointer denote: ('A', i) parameter, ('R', event) result of a call, ('*', path, offset) what is
    stored at an offset of another object; indices are evaluated under V; None if unknown.  Returns (path, offset)"""
    if t[0] != 'p':
        return None
    b = t[1]
    off = t[2]
    for x, s in t[3]:
        v = ev(x, V)
        if v is None:
            return None
        off += (v - (1 << width(x)) if v >> (width(x) - 1) else v) * s
    if b[0] == 'argp':
        return ('A', b[1]), off
    if b[0] == 'ret':
        return ('R', b[1]), off
    if b[0] == 'g':
        return ('G', b[1]), off
    if b[0] == 'lphi':
        return ('L',) + b[1:], off
    if b[0] == 'ldp':
        q = opath(b[1], V)
        return None if q is None else (('*',) + q, off)
    return None


def heapfn(get):
    """leaves that denote members of objects get their value from get(path, offset, size)"""
    def fn(t, V):
        if t[0] in ('ld', 'out'):
            if t[0] == 'out' and isinstance(t[1][-1], str) and not t[1][-1].startswith('IFF_') and 'Extension' not in t[1][-1]:
                return None     # left by an operation whose effect is not known
            p, n = (t[1], t[2]) if t[0] == 'ld' else (t[2], t[3])
            o = opath(p, V)
            if o is not None:
                return get(o[0], o[1], n)
        return None
    return fn


def elem(ctx, t, LI=None):
    """t is element `index` of the pointer array stored at field address r: (r, index term, constant) or None"""
    if t[0] != 'p' or t[2] or t[3] or t[1][0] != 'ldp':
        return None
    q = t[1][1]
    if q[0] != 'p' or q[1][0] != 'ldp':
        return None
    return q[1][1], q


def positions(ctx, t, LI, V0=None, n=3):
    """(address of the array member, positions of the element in rounds 0..n-1) of pointer t in loop LI"""
    e = elem(ctx, t)
    if e is None:
        return None
    r, q = e
    out = []
    for k in range(n):
        V = Val(dict(V0.l) if V0 else {}, ptr=dict(V0.ptr) if V0 else {})
        if V0:
            V.fn = V0.fn
        iter_fix(V, LI.id, k)
        off = q[2]
        for x, s in q[3]:
            v = ev(x, V)
            if v is None:
                return r, None
            off += (v - (1 << width(x)) if v >> (width(x) - 1) else v) * s
        out.append(off // 8 if off % 8 == 0 else None)
    return r, out


def flags_of(terms, loops):
    """loop-carried values among the leaves of terms that act as flags (not counters)"""
    fl = set()
    for t in terms:
        for x in leaves(t):
            if x[0] == 'lphi' or x[0] == 'p' and x[1][0] == 'lphi':
                fl.add(x)
    return sorted(fl, key=repr)


def success_at(ctx, p, kind, V0, unit='lib'):
    """valuations near V0 in which path p is possible and reports success (loop-carried flags free)"""
    fl = [x for x in flags_of([c for c, tv in p.facts] + ([p.ret] if p.ret is not None else []), None) if V0.get(x) is None]
    if len(fl) > 4:
        fl = fl[:4]
    out = []
    for combo in itertools.product((1, 0), repeat=len(fl)):
        q = Pt(ctx, p, V0.l, unit, V0.ptr)
        q.V.fn, q.V.pf = V0.fn, V0.pf
        for x, v in zip(fl, combo):
            if x[0] == 'p':
                q.V.ptr[x[1]] = BIG if v else 0
            else:
                q.V.l[x] = v
        if not q.settle(p.events, p.facts):
            continue
        s = True if kind is None else ret_ok(ctx, kind, p.ret, q.V)
        if s is not False:
            out.append((q, s))
    return out


def trips(ctx, p, LI, kind, setlen, V0=None, lens=(0, 1, 2, 3), unit='lib'):
    """the loop makes exactly as many rounds as there are elements, decided on the ordering classes of round number and
    length.  setlen(V, L) fixes the length.  Returns a list of complaints, [] if none, None if undecidable"""
    bad, und = [], False
    for L in lens:
        for k in range(0, L + 1):
            V = Val(dict(V0.l) if V0 else {}, ptr=dict(V0.ptr) if V0 else {})
            if V0:
                V.fn, V.pf = V0.fn, V0.pf
            setlen(V, L)
            iter_fix(V, LI.id, k)
            go = []
            for b in LI.backs:
                q = Pt(ctx, p, V.l, unit, V.ptr)
                q.V.fn, q.V.pf = V.fn, V.pf
                if q.settle(b.events, b.facts):
                    go.append((b, holds(b.facts, q.V)))
            leave = success_at(ctx, p, kind, V, unit)
            if k < L:
                if not go:
                    bad.append('stops after %d of %d elements' % (k, L))
                for q, s in leave:
                    if s and holds(p.facts, q.V):
                        bad.append('stops after %d of %d elements' % (k, L))
                    else:
                        und = True
            else:
                for b, h in go:
                    if h:
                        bad.append('goes on after all %d elements' % L)
                    else:
                        und = True
                if not leave:
                    und = True
    return bad if bad else (None if und else [])


class Grp:
    """an object of one of the group structures seen as an abstract value: scalar members, and elements of its arrays"""

    def __init__(self, ctx, obj):
        self.ctx = ctx
        self.obj = obj
        o = opath(obj, Val())
        self.path, self.base = o
        m = ctx.m
        self.mem = {}
        for st, fs in (('IFF_Chunk', ('parent', 'chunkId', 'chunkSize')), ('IFF_Group', ('groupType', 'chunkLength', 'chunk')),
                       ('IFF_List', ('propLength', 'prop'))):
            for f in fs:
                d = m.field(st, f)
                if d is None:
                    raise Broken('anchor vanished: %s.%s' % (st, f))
                self.mem[d['off']] = (f, d['size'])
        self.off = {n: o for o, (n, s) in self.mem.items()}

    def arr(self, r):
        """name of the member array whose field address is r"""
        o = opath(r, Val())
        if o is None or o[0] != self.path:
            return None
        n = self.mem.get(o[1] - self.base, (None,))[0]
        return n if n in ('chunk', 'prop') else None

    def elem(self, path):
        """(array, index) when the object path denotes an element"""
        if path and path[0] == '*' and path[1] and path[1][0] == '*' and path[1][1] == self.path and path[2] % 8 == 0:
            n = self.mem.get(path[1][2] - self.base, (None,))[0]
            if n in ('chunk', 'prop'):
                return n, path[2] // 8
        return None

    def at(self, t, V):
        """(array, index) of the element a pointer denotes"""
        o = opath(t, V)
        return None if o is None or o[1] != 0 else self.elem(o[0])

    def get(self, vals, elems=None):
        def get(path, off, size):
            if path == self.path:
                n = self.mem.get(off - self.base)
                if n and n[1] == size:
                    return vals.get(n[0])
                return None
            e = self.elem(path)
            if e is not None and elems is not None:
                n = self.mem.get(off)
                if n and n[1] == size:
                    return elems(e[0], e[1], n[0])
            return None
        return get


def joinget(*gs):
    def get(path, off, size):
        for g in gs:
            v = g(path, off, size)
            if v is not None:
                return v
        return None
    return get


def padded(cs):
    return 8 + cs + (cs & 1)


def follow(ctx, p, V0, hook=None, unit='lib', events=None, facts=None):
    """the valuation at the end of path p (every step succeeding, loops brought to their exit) and all calls made, or None
    when the path is impossible there.  Returns (point, calls, complaint)"""
    pt = Pt(ctx, p, V0.l, unit, V0.ptr)
    pt.V.fn, pt.V.pf = V0.fn, V0.pf
    pt.hook = hook
    events = p.events if events is None else events
    facts = p.facts if facts is None else facts
    if not pt.settle(events, facts):
        return None
    tr = trace(ctx, pt, events, ALL)
    q = [x[1] for x in tr if x[0] == '?']
    if q:
        return pt, tr, q[0]
    if not feasible(facts, pt.V):
        return None
    return pt, tr, None


def at_iter(pt, sub):
    V = Val(dict(pt.V.l), ptr=dict(pt.V.ptr))
    V.fn, V.pf = pt.V.fn, pt.V.pf
    for lid, k in sub:
        iter_fix(V, lid, k)
    return V


# ---------------------------------------------------------------- domains read off the code
def specials(ctx, ps, near=0):
    """constants the conditions of paths compare member values with: {member name: set of 32 bit values}.  Families of abstract
    objects include them, so that a path which singles one value out is among those judged"""
    names = {}
    for st in ('IFF_Chunk', 'IFF_Group', 'IFF_List', 'IFF_RawChunk'):
        for f in (ctx.m.structs.get(st) or {}).get('fields', ()):
            names.setdefault((f['off'], f['size']), set()).add(f['name'])
    out = {}
    seen = set()

    def consts(t, acc, lv):
        k = t[0]
        if k == 'c':
            acc.add(t[2]); return
        if k in LEAF:
            lv.add(t); return
        if k == 'lin':
            acc.add(-t[2] & mask(t[1]))
            acc.add(t[2])
            for x, _ in t[3]:
                consts(x, acc, lv)
            return
        if k == 'p':
            return
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                consts(x, acc, lv)

    def term(t):
        if t is None or not isinstance(t, tuple) or t in seen:
            return
        seen.add(t)
        if t[0] == 'cmp':
            acc, lv = set(), set()
            consts(t[2], acc, lv); consts(t[3], acc, lv)
            if len(acc) < 8:
                for x in lv:
                    ns = {''}
                    q = x[1] if x[0] == 'ld' else x[2] if x[0] == 'out' else None
                    n = x[2] if x[0] == 'ld' else x[3] if x[0] == 'out' else None
                    if q is not None and q[0] == 'p' and not q[3]:
                        ns = names.get((q[2], n), {''})
                    for nm in ns:
                        for c in acc:
                            for d in range(-near, near + 1):
                                out.setdefault(nm, set()).add((c + d) & mask(32))
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    term(x)
                else:
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], tuple):
                            term(y[0])

    def go(evs, facts):
        for c, _ in facts:
            term(c)
        for e in evs:
            for a in e.args or []:
                term(a)
            if e.kind == 'loop':
                for b in e.loop.backs:
                    go(b.events, b.facts)
                    for v in (b.next or {}).values():
                        term(v)
    for p in ps or []:
        go(p.events, p.facts)
        term(p.ret)
    return out


def blocks(ctx, ps):
    """sizes of the blocks in which the code handles the bytes of a stream: constants of a plausible magnitude in what is compared and
    transferred"""
    out = set()

    def go(t):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'c' and len(t) == 3 and isinstance(t[2], int):
            out.add(t[2])
            return
        if t[0] == 'lin' and len(t) == 4:
            for x, k in t[3]:
                if isinstance(k, int):
                    out.update((k, -k & mask(t[1])))
            out.add(t[2])
        for x in t:
            if isinstance(x, tuple):
                go(x)

    def evs(events, facts):
        for c, _ in facts:
            go(c)
        for e in events:
            if e.kind == 'call' and e.name in ('fread', 'fwrite'):
                for a in e.args[1:3]:
                    go(a)
            elif e.kind == 'loop':
                for b in e.loop.backs:
                    evs(b.events, b.facts)
    for p in ps or []:
        evs(p.events, p.facts)
    return sorted(k for k in out if 8 <= k <= 65536)[:6]
