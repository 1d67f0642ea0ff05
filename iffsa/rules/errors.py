"""C04 / C05: no failing step is reported as success, no success as failure.

For every path of every exported read (write) function and for every fallible step on it, the representative
outcomes of the step (ok / short / EOF / NULL ...) are compared with the conditions the path has passed:
 - a failure outcome that is compatible with the conditions of a path that reports success is a violation;
 - a path that reports failure although every step on it may have succeeded is a violation.
Loops are judged by one generic iteration; loop-carried flags by constant propagation round the loop.
"""
import itertools
from ..lib import *
from .own import model

OUTPUT = {'fwrite', 'fputc', 'putc', '_IO_putc', 'putchar', 'fputs', 'puts', 'fprintf', 'printf', 'vfprintf', 'vprintf', 'fflush', 'fclose',
          'fseek', 'fseeko', 'fopen', 'fdopen'}
INPUT = {'fread', 'fgetc', 'getc', '_IO_getc', 'getchar', 'fseek', 'fseeko', 'fopen', 'fdopen'}


def constants(t):
    if not isinstance(t, tuple):
        return
    if t and t[0] == 'c' and len(t) == 3 and isinstance(t[2], int):
        yield t[2] & mask(32)
    else:
        for x in t:
            yield from constants(x)


def entries(ctx, pre):
    out = []
    for n, f in sorted(ctx.m.fns.items()):
        if f.decl or f.local or not n.startswith(pre):
            continue
        c = conv(ctx.m, n)
        if c:
            out.append((n, c))
    return out


def is_step(ctx, e, mode, unit):
    k = fallible(ctx, e, unit)
    if k is None:
        return None
    if e.kind == 'slot':
        n = e.name
        if mode == 'w':
            return k if n.startswith('write') else None
        return k if n.startswith(('read', 'create')) else None
    if e.name in ALLOC:
        return k
    if e.name in (OUTPUT if mode == 'w' else INPUT):
        f = file_of(e)
        if f is not None and f != 'stdout' and f != 'stdin' and stdglobal(f, 'stderr'):
            return None
        return k
    if ctx.mods[unit].body(e.name) is not None:
        if mode == 'w' and e.name.startswith('IFF_write'):
            return k
        if mode == 'r' and (e.name.startswith('IFF_read') or e.name.startswith('IFF_skip')):
            return k
        if e.kind == 'rec':
            return k
        if mode == 't' and k:
            return k
    if mode == 't':
        return k
    return None


class Judge:
    def __init__(self, ctx, rep, rule, mode, fname, kind, unit='lib', exempt=None):
        self.ctx = ctx; self.rep = rep; self.rule = rule; self.mode = mode; self.fname = fname; self.kind = kind; self.unit = unit
        self.exempt = exempt or (lambda e, p: False)
        self.nsteps = 0

    def steps(self, events):
        out = []
        for e in events:
            if e.kind in ('call', 'slot', 'rec'):
                k = is_step(self.ctx, e, self.mode, self.unit)
                if k:
                    out.append((e, k))
        return out

    def free_leaves(self, steps):
        fl = set()
        for e, k in steps:
            if k == 'count':
                fl |= leaves(e.args[2])
        return sorted(fl, key=repr)

    def base_points(self, steps, facts):
        fl = self.free_leaves(steps)
        fl = [x for x in fl if x[0] not in ('p',)]
        if len(fl) > 3:
            return [Val()]
        out = []
        for combo in itertools.product(*[(0, 1, 2, 6) if x[0] == 'iter' else (6, 1, 13, 40) for x in fl]):
            V = Val(dict(zip(fl, combo)))
            if feasible(facts, V):
                out.append(V)
            if len(out) >= 6:
                break
        if not out:
            # nothing small will do: some assignment under which the path is taken and something is transferred
            some = [(cmp('eq', prod_len(e.args[1], e.args[2]), C(64, 0)), False) for e, k in steps if k == 'count']
            V = Val()
            for big in (False, True):
                if model(list(facts) + some, V, limit=2000, big=big) is True:
                    return [Val({x: V.l[x] for x in fl if x in V.l})]
        return out or []

    def adm(self, V, e, kind, facts, reps):
        """representatives of e compatible with facts (other steps open)"""
        out = []
        if reps is None:
            return None
        old_l, old_p = dict(V.l), dict(V.ptr)
        for r in reps:
            set_ret(V, e, r)
            if feasible(facts, V):
                out.append(r)
        V.l, V.ptr = old_l, old_p
        V.memo.clear()
        return out

    # -------------------------------------------------- flags round loops
    def flag_values(self, LI, start, ok_only, V0):
        """closure of loop-carried constants over iterations; start: dict key -> set of values"""
        vals = {k: set(v) for k, v in start.items()}
        for _ in range(8):
            changed = False
            for b in LI.backs:
                st = self.steps(b.events)
                for combo in itertools.product(*[[(k, x) for x in sorted(y for y in v if y is not None)] for k, v in vals.items()]):
                    V = Val(dict(V0.l), ptr=dict(V0.ptr))
                    for k, x in combo:
                        self.setkey(V, LI, k, x)
                    feas = True
                    for e, kd in st:
                        a = self.adm(V, e, kd, b.facts, ok_reps(self.ctx, e, kd, V)) or []
                        if not ok_only:
                            a = a + (self.adm(V, e, kd, b.facts, fail_reps(self.ctx, e, kd, V)) or [])
                        if not a:
                            feas = False
                            break
                        set_ret(V, e, a[0])
                    if not feas or not feasible(b.facts, V):
                        continue
                    for k, x in combo:
                        nv = ev(b.next[k], V) if k in b.next else None
                        if nv is None:
                            vals[k].add(None)
                        elif nv not in vals[k]:
                            vals[k].add(nv)
                            changed = True
            for k in [k for k, v in vals.items() if None in v or len(v) > 6]:
                del vals[k]
                changed = True
            if not changed:
                break
        return vals

    def setkey(self, V, LI, k, x):
        s = LI.sym[k]
        if s[0] == 'p':
            V.ptr[s[1]] = x
        else:
            V.l[s] = x
        V.memo.clear()

    def init_flags(self, LI, V):
        st = {}
        for k, s in LI.sym.items():
            if k in LI.step:
                continue
            if (s[0] == 'lphi') or (s[0] == 'p' and s[1][0] == 'lphi'):
                v = ev(LI.init[k], V)
                if v is not None:
                    st[k] = {v}
        return st

    def with_flags(self, V, loops, fixed=None):
        """valuations with the loop flags of all loops set to their values when no iteration failed"""
        Vs = [V]
        for LI in loops:
            if fixed is not None and LI is fixed[0]:
                vals = fixed[1]
            else:
                vals = self.flag_values(LI, self.init_flags(LI, V), True, V)
            keys = list(vals)
            out = []
            for W in Vs:
                for combo in itertools.product(*[sorted(vals[k]) for k in keys]):
                    X = Val(dict(W.l), ptr=dict(W.ptr))
                    for k, x in zip(keys, combo):
                        self.setkey(X, LI, k, x)
                    out.append(X)
            Vs = out[:64]
        return Vs

    def indicated(self, V, e, later, facts):
        """the stream's indicators stay set after a failing transfer: is one of the possible settings compatible with the facts?"""
        f = file_of(e)
        if f is None or e.kind != 'call':
            return True
        ends, errs = [], []
        for x in later:
            if x.kind != 'call' or file_of(x) != f or x.ret is None:
                if x.kind == 'call' and x.name in ('clearerr', 'rewind', 'freopen', 'fseek', 'fseeko') and (file_of(x) or f) == f:
                    break
                continue
            if x.name == 'feof':
                ends.append(x.ret)
            elif x.name == 'ferror':
                errs.append(x.ret)
        if not ends and not errs:
            return True
        for a, b in ((1, 0), (0, 1)) if self.mode == 'r' else ((0, 1),):
            W = Val(dict(V.l), ptr=dict(V.ptr))
            W.l.update([(t, a) for t in ends] + [(t, b) for t in errs])
            if feasible(facts, W):
                V.l.update(W.l)
                V.memo.clear()
                return True
        return False

    # -------------------------------------------------- one path
    def run(self, paths):
        rep, rule = self.rep, self.rule
        for p in paths:
            if p.status == 'abort':
                continue
            if p.status == 'exit':
                continue
            self.path(p)
        # steps inside iterations
        seen = set()
        for p in paths:
            if p.status != 'ret':
                continue
            for LI in loops_of(p):
                self.loop(p, LI, seen)

    def others(self, V, steps, facts, skip=None):
        """give every other step an admissible outcome, preferring success; False if none"""
        for e, k in steps:
            if e is skip:
                continue
            o = ok_reps(self.ctx, e, k, V)
            a = self.adm(V, e, k, facts, o)
            if not a:
                a = self.adm(V, e, k, facts, fail_reps(self.ctx, e, k, V))
            if a is None:
                continue
            if not a:
                return False
            set_ret(V, e, a[0])
        return True

    def path(self, p):
        ctx = self.ctx
        steps = self.steps(p.events)
        self.nsteps += len(steps)
        loops = loops_of(p)
        for V0 in self.base_points(steps, p.facts):
            for V1 in self.with_flags(V0, loops):
                if not feasible(p.facts, V1):
                    continue
                # A: a failing step on a path that reports success
                for e, k in steps:
                    if self.exempt(e, p):
                        continue
                    fr = self.adm(V1, e, k, p.facts, fail_reps(ctx, e, k, V1))
                    if fr is None:
                        self.rep.und(self.rule, '%s: %s' % (self.fname, e.name), 'count not evaluable')
                        continue
                    for r in fr:
                        V = Val(dict(V1.l), ptr=dict(V1.ptr))
                        set_ret(V, e, r)
                        if not self.others(V, steps, p.facts, e) or not feasible(p.facts, V):
                            continue
                        if not self.indicated(V, e, p.events[p.events.index(e) + 1:], p.facts):
                            continue
                        s = ret_ok(ctx, self.kind, p.ret, V)
                        if s is None:
                            s = self.retguess(p.ret, V)
                        if s and e.name in ALLOC and self.replaced(e, p.events):
                            continue
                        if s:
                            self.rep.bad(self.rule, self.fname, '%s reports success although %s at %s failed (outcome %d)' % (
                                self.fname, e.name, e.where(), r), e.where(), p)
                        elif s is None:
                            self.rep.und(self.rule, '%s: %s' % (self.fname, e.where()), 'result not evaluable')
                # B: nothing failed, yet failure is reported
                V = Val(dict(V1.l), ptr=dict(V1.ptr))
                good = True
                for e, k in steps:
                    if self.exempt(e, p):
                        a = (self.adm(V, e, k, p.facts, ok_reps(ctx, e, k, V)) or []) + \
                            (self.adm(V, e, k, p.facts, fail_reps(ctx, e, k, V)) or [])
                    else:
                        a = self.adm(V, e, k, p.facts, ok_reps(ctx, e, k, V))
                    if not a:
                        good = False
                        break
                    set_ret(V, e, a[0])
                if good and feasible(p.facts, V):
                    s = ret_ok(ctx, self.kind, p.ret, V)
                    if s is False:
                        unk = [c for c, tv in p.facts if ev(c, V) is None and any(x[0] == 'lphi' or x[0] == 'p' and x[1][0] == 'lphi'
                                                                                 for x in leaves(c))
                               and not self.data_loop_fact(c, loops)]
                        if unk:
                            self.rep.und(self.rule, self.fname, 'failure depends on loop-carried ' + show(unk[0]))
                        elif self.illegal_size(p, V):
                            pass
                        elif self.no_array(p, V):
                            pass
                        elif self.other_reason(p, V):
                            self.rep.und(self.rule, self.fname, 'failure for another reason: ' + self.other_reason(p, V))
                        else:
                            self.rep.bad(self.rule, self.fname, '%s reports failure although every step on the path may have succeeded' % self.fname,
                                         '%s:%s' % (p.file, p.line), p)
        self.rep.ok(self.rule, '%s path' % self.fname)

    def illegal_size(self, p, V):
        """only a negative declared size (bytes 4 to 7 of a chunk) makes this path possible"""
        if self.fname != 'IFF_readChunk' or self.mode != 'r':
            return False
        at, pos, file = {}, 0, P(('argp', 0))
        for e in p.events:
            if e.kind != 'call' or file_of(e) != file:
                if e.kind == 'slot':
                    break
                continue
            if e.name in ('fgetc', 'getc', '_IO_getc'):
                at[e.ret] = pos
                pos += 1
            elif e.name == 'fread':
                n = prod_len(e.args[1], e.args[2])
                if not isc(n) or n[2] > 64:
                    break
                for i in range(n[2]):
                    at[e.id, i] = pos + i
                pos += n[2]
        consts = {x for c, _ in p.facts for x in constants(c) if x >> 31 == 0}
        if pos < 8:
            return False
        for size in sorted({0, 1, 4, 5, mask(31)} | consts | {x + 1 for x in consts if x < mask(31)})[:24]:
            content = size.to_bytes(4, 'big')
            W = Val(dict(V.l), ptr=dict(V.ptr))
            for k, o in at.items():
                if k[0] == 'ret' and 4 <= o < 8:
                    W.l[k] = content[o - 4]

            def fn(t, V_=None):
                if t[0] != 'sv':
                    return None
                bs = [at.get((t[1], t[2] + i)) for i in range(t[3])]
                if any(o is None or not 4 <= o < 8 for o in bs):
                    return None
                return int.from_bytes(bytes(content[o - 4] for o in bs), 'big' if self.ctx.m.be else 'little')
            W.fn = fn
            if feasible(p.facts, W):
                return False
        return True

    def data_loop_fact(self, c, loops):
        """a condition on a loop-carried byte count is not an outcome flag"""
        for LI in loops:
            for k, s in LI.sym.items():
                if s in leaves(c) or (s[0] == 'p' and P(s[1]) in leaves(c)):
                    # flags take constant values; counts are advanced by non-constant amounts
                    if any(isc(b.next.get(k, s)) or b.next.get(k) == NULL for b in LI.backs):
                        return False
        return True

    def no_array(self, p, V):
        """an object without an array has no members: conditions that say otherwise describe no object"""
        syms = {}
        for LI in loops_of(p):
            syms.update(LI.sym)
        for st, arr in (('IFF_Group', 'chunk'), ('IFF_List', 'prop')):
            oa, on = self.ctx.m.off(st, arr), self.ctx.m.off(st, arr + 'Length')
            for c, tv in p.facts:
                if not tv or c[0] != 'cmp' or c[1] != 'eq' or NULL not in (c[2], c[3]):
                    continue
                x = c[2] if c[3] == NULL else c[3]
                if x[0] != 'p' or x[2] or x[3]:
                    continue
                at = [x[1][1]] if x[1][0] == 'ldp' else [k[1] for k, y in syms.items() if y == x and k[0] == 'm' and k[2] == 8]
                for a in at:
                    if a[0] != 'p' or a[2] < oa or a[3]:
                        continue
                    lp = P(a[1], a[2] - oa + on)
                    n = syms.get(('m', lp, 4), ('ld', lp, 4, 0))
                    W = Val(dict(V.l), ptr=dict(V.ptr))
                    for l in leaves(n):
                        if l[0] == 'iter':
                            iter_fix(W, l[1], 0)
                        else:
                            W.l[l] = 0
                    if not any(leaves(n) & leaves(d) for d, _ in p.facts if d is not c):
                        continue
                    if not feasible(p.facts, W):
                        return True
        return False

    def other_reason(self, p, V):
        """conditions about calls that are not steps"""
        st = {e.id for e, k in self.steps(p.events)}
        for c, tv in p.facts:
            for x in leaves(c):
                t = None
                if x[0] == 'ret':
                    t = x[1]
                elif x[0] == 'p' and x[1][0] == 'ret':
                    t = x[1][1]
                if t is not None and t not in st:
                    return show(c)
        return None

    def retguess(self, ret, V):
        if ret is None:
            return None
        if self.kind == 'ptr' and ret[0] == 'p':
            if ret[1][0] in ('alloca', 'g', 'argp'):
                return True
        return None

    def replaced(self, e, events):
        """after a failed allocation another way was taken: the path still transfers data"""
        i = events.index(e)
        names = (OUTPUT if self.mode == 'w' else INPUT) - {'fclose', 'fflush', 'fopen'}
        for x in events[i + 1:]:
            if x.kind == 'loop' and any(y.name in names for b in x.loop.backs for y in b.events):
                return True
            if x.kind == 'call' and x.name in names:
                return True
        return False

    def loop(self, p, LI, seen):
        ctx = self.ctx
        steps_p = self.steps(p.events)
        for b in LI.backs:
            st = self.steps(b.events)
            for e, k in st:
                if self.exempt(e, p):
                    continue
                for V0 in self.base_points(st + steps_p, b.facts + p.facts)[:2]:
                    fr = self.adm(V0, e, k, b.facts, fail_reps(ctx, e, k, V0))
                    if not fr:
                        continue
                    if e.name in ALLOC and self.replaced(e, b.events):
                        continue
                    V = Val(dict(V0.l), ptr=dict(V0.ptr))
                    set_ret(V, e, fr[0])
                    if not self.others(V, st, b.facts, e) or not feasible(b.facts, V):
                        continue
                    if not self.indicated(V, e, b.events[b.events.index(e) + 1:], b.facts):
                        continue
                    after = [x for i, x in enumerate(p.events) if any(y.kind == 'loop' and y.loop is LI for y in p.events[:i])]
                    # the failing iteration goes on: what does it remember?
                    start = {}
                    for key, s in LI.sym.items():
                        if key in LI.step:
                            continue
                        nv = ev(b.next[key], V) if key in b.next else None
                        if nv is None and b.next.get(key) == s:
                            iv = self.init_flags(LI, V0).get(key)
                            if iv:
                                nv = next(iter(iv))
                        if nv is not None:
                            start[key] = {nv}
                    fixed = (LI, self.flag_values(LI, start, False, V0))
                    for V1 in self.with_flags(V0, loops_of(p), fixed):
                        if not self.others(V1, steps_p, p.facts) or not feasible(p.facts, V1):
                            continue
                        if not self.indicated(V1, e, after, p.facts):
                            continue
                        s = ret_ok(ctx, self.kind, p.ret, V1)
                        if s is None:
                            s = self.retguess(p.ret, V1)
                        if s:
                            self.rep.bad(self.rule, self.fname, '%s can report success although %s at %s failed in an iteration of the loop at %s'
                                         % (self.fname, e.name, e.where(), LI.where()), e.where(), p)
                        elif s is None:
                            self.rep.und(self.rule, '%s: loop %s' % (self.fname, LI.where()), 'result not evaluable')


def exempt_read(fname):
    def f(e, p):
        if fname in ('IFF_readFd', 'IFF_readFile', 'IFF_read', 'IFF_join', 'IFF_prettyPrint'):
            if e.name in ('fgetc', 'getc', '_IO_getc', 'fread'):
                # the probe for trailing contents after the main chunk
                for x in p.events:
                    if x is e:
                        return False
                    if x.name == 'IFF_readChunk':
                        return True
        return e.name == 'fclose'
    return f


def delivered(ctx, rep, rule, fname, paths):
    """success of a file-level write needs a checked flush or close after the last output"""
    n = 0
    for p in paths:
        if p.status != 'ret':
            continue
        V = Val()
        w = [i for i, e in enumerate(p.events) if e.kind == 'call' and (e.name in ('IFF_writeChunk', 'IFF_writeFd') or e.name in OUTPUT - {
            'fflush', 'fclose', 'fopen'} and not stdglobal(file_of(e) if isinstance(file_of(e), tuple) else NULL, 'stderr'))]
        for e in calls(p):
            k = fallible(ctx, e)
            if k and k != 'count':
                o = [r for r in ok_reps(ctx, e, k, V)]
                for r in o:
                    set_ret(V, e, r)
                    if feasible(p.facts, V):
                        break
        if not w or not feasible(p.facts, V) or not ret_ok(ctx, conv(ctx.m, fname), p.ret, V):
            continue
        n += 1
        after = [e for e in p.events[w[-1] + 1:] if e.kind == 'call' and e.name in ('fflush', 'fclose')]
        rep.check(rule, fname + ' delivers', bool(after), '%s reports success without flushing or closing the stream it wrote' % fname,
                  '%s:%s' % (p.file, p.line), p)
    return n


def c04(ctx, rep):
    es = entries(ctx, 'IFF_write')
    rep.need('step-outcome', 20)
    n = 0
    for f, k in es:
        ps = ctx.walk(f)
        if ps is None:
            rep.und('step-outcome', f, 'not enumerable')
            continue
        j = Judge(ctx, rep, 'step-outcome', 'w', f, k)
        j.run(ps)
        n += j.nsteps
    for f in ('IFF_writeFile', 'IFF_write'):
        ps = ctx.walk(f)
        if ps is not None:
            delivered(ctx, rep, 'delivery', f, ps)
    rep.counts['entries'] = len(es); rep.counts['steps'] = n


def c05(ctx, rep):
    es = entries(ctx, 'IFF_read') + entries(ctx, 'IFF_skip')
    rep.need('step-outcome', 20)
    n = 0
    for f, k in es:
        ps = ctx.walk(f)
        if ps is None:
            rep.und('step-outcome', f, 'not enumerable')
            continue
        j = Judge(ctx, rep, 'step-outcome', 'r', f, k, exempt=exempt_read(f))
        j.run(ps)
        n += j.nsteps
        # skipping by seeking does not notice the end of the input
        for p in ps:
            if p.status != 'ret':
                continue
            for e, st in deep_calls(p):
                if e.kind == 'call' and e.name in ('fseek', 'fseeko', 'lseek'):
                    rep.bad('skip-detects-eof', f, 'input is skipped by %s, which succeeds beyond the end of the stream' % e.name, e.where(), p)
    rep.counts['entries'] = len(es); rep.counts['steps'] = n


RULES = {'C04': c04, 'C05': c05}
