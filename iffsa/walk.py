"""Path-sensitive dataflow over value-numbered SSA, with on-the-fly inlining.

For an entry function the walker enumerates the acyclic paths through it and
its callees.  Every loop is summarised once, as a generic iteration: header
phis and loop-modified memory become loop-carried values with their initial and
next terms, counters are expressed through a canonical iteration counter.
Branches that the facts of a path already decide are not followed.  There is no
solver and nothing is executed; conditions stay on the path as facts.
"""
from .terms import *


MARK = 0xaaaaaaaaaaaaaaaa


class Limit(Exception):
    pass


class Ev:
    __slots__ = ('id', 'kind', 'name', 'args', 'ret', 'file', 'line', 'fn', 'mem', 'mem2', 'nf', 'loop', 'x', 'fixed', 'chain')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def where(self):
        return '%s:%s' % (self.file, self.line)

    def __repr__(self):
        if self.kind == 'loop':
            return 'LOOP@%s' % self.where()
        return '%s(%s)@%s' % (self.name, ', '.join(show(a) for a in self.args or []), self.where())


class LoopInst:
    """summary of one loop at one place of a path"""

    def __init__(self, id, fn, file, line):
        self.id = id; self.fn = fn; self.file = file; self.line = line
        self.init = {}      # key -> term before the loop
        self.width = {}
        self.sym = {}       # key -> term inside (lphi, or init + step*iter for counters)
        self.step = {}      # key -> constant step of a counter
        self.backs = []     # Path of each way round (status 'back', .next: key -> term)
        self.pre = None     # prefix state facts count
        self.body_stores = []

    def where(self):
        return '%s:%s' % (self.file, self.line)


class Path:
    __slots__ = ('events', 'facts', 'ret', 'mem', 'status', 'next', 'file', 'line', 'exitloop', 'state')

    def calls(self, *names):
        return [e for e in self.events if e.kind != 'loop' and (not names or e.name in names)]


class Frame:
    __slots__ = ('fn', 'env', 'block', 'prev', 'ip', 'call', 'chain')

    def copy(self):
        f = Frame()
        f.fn = self.fn; f.env = dict(self.env); f.block = self.block; f.prev = self.prev
        f.ip = self.ip; f.call = self.call; f.chain = self.chain
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'fd', 'events', 'visits', 'unroll', 'line', 'file', 'tag', 'pend')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = self.mem; s.facts = list(self.facts); s.fd = dict(self.fd); s.events = list(self.events)
        s.visits = dict(self.visits); s.unroll = dict(self.unroll); s.line = self.line; s.file = self.file
        s.tag = self.tag; s.pend = self.pend
        return s


DIAG = {'IFF_error', 'IFF_errorId', 'IFF_readError', 'IFF_writeError'}
PURE = {'strlen', 'memcmp', 'strcmp', 'strncmp', 'bsearch', 'feof', 'ferror', 'ftell', 'isalpha', 'isupper', 'islower', 'isdigit',
        'ispunct', 'isprint', 'isspace', 'isalnum', 'toupper', 'tolower', 'abs', 'labs', '__ctype_b_loc', 'strchr', 'memchr',
        'strrchr', '__errno_location', 'getenv', 'fileno'}
OUT = {'fputc', 'putc', '_IO_putc', 'putchar', 'fputs', 'puts', 'printf', 'fprintf', 'vprintf', 'vfprintf', 'fwrite', 'fflush',
       'fclose', 'fseek', 'rewind', 'perror', 'fseeko'}
ALLOC = {'malloc', 'calloc', 'realloc', 'reallocarray', 'strdup', 'strndup'}


class Walker:
    def __init__(self, mod, boundary=None, inline=True, maxpaths=6000, opaque_slots=True, diag=DIAG, noinline=()):
        self.m = mod
        self.boundary = set(boundary or ())
        self.maxpaths = maxpaths
        self.slots = mod.slots()
        self.diag = set(diag)
        self.noinline = set(noinline)
        self.be = mod.be
        self.marker = getattr(mod, 'marker', False)
        self.count = 0
        self.inlined = set()
        self.undecided_loops = []
        self.effects = default_effects(mod)

    # ------------------------------------------------------------ entry
    def walk(self, fname, args=None):
        fn = self.m.body(fname)
        if fn is None:
            return None
        st = State()
        fr = Frame(); fr.fn = fn; fr.env = {}; fr.block = fn.entry; fr.prev = None; fr.ip = 0; fr.call = None; fr.chain = ()
        if args is None:
            args = []
            for i, a in enumerate(fn.args):
                args.append(P(('argp', i)) if a['ty'] == 'ptr' else ('arg', i, int(a['ty'][1:]) if a['ty'][0] == 'i' else 64))
        for i, a in enumerate(args):
            fr.env['a%d' % i] = a
        st.frames = [fr]; st.mem = None; st.facts = []; st.fd = {}; st.events = []; st.visits = {}; st.unroll = {}
        st.line = fn.line; st.file = fn.file; st.tag = None; st.pend = None
        self.count = 0
        self.loopstack = []
        self.endless = []       # (loop, facts before it) of loops without a way out
        self.vla = {}           # arrays of variable size: base -> (size of an element, count)
        self.stuck = []         # (function, place, facts) where an unrolled loop comes back to where it was
        _INLOOP.clear()
        self.inlined.add(fname)
        done = []
        self.explore(st, None, None, done)
        return done

    # ------------------------------------------------------------ exploration
    def explore(self, st, stop, backs, done, outs=None):
        """stop = (depth, header, body) while a loop body is summarised"""
        stack = [st]
        while stack:
            s = stack.pop()
            r = self.run(s, stop)
            k = r[0]
            if k == 'fork':
                stack.extend(reversed(r[1]))
                if len(r) > 2:
                    done.extend(r[2])
            elif k == 'back':
                backs.append(r[1])
            elif k == 'out':
                outs.append(r[1])
            elif k == 'done':
                done.append(r[1])
            self.count += 1
            if self.count > 40 * self.maxpaths or len(done) > self.maxpaths or len(stack) > self.maxpaths:
                raise Limit('more than %d paths' % self.maxpaths)

    def mkpath(self, s, status, ret=None):
        p = Path()
        p.events = s.events; p.facts = s.facts; p.ret = ret; p.mem = s.mem; p.status = status; p.next = None
        p.file = s.file; p.line = s.line; p.exitloop = None; p.state = s
        return p

    # ------------------------------------------------------------ facts
    def decide(self, c, s):
        if isc(c):
            return bool(c[2])
        if c in s.fd:
            return s.fd[c]
        if c[0] == 'not':
            v = self.decide(c[1], s)
            return None if v is None else not v
        if c[0] == 'op' and c[2] == 1 and c[1] in ('and', 'or'):
            a, b = self.decide(c[3], s), self.decide(c[4], s)
            if c[1] == 'and':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
            return None
        if c[0] == 'cmp':
            return implied(c, s.facts)
        return None

    def assume(self, s, c, tv):
        """add a fact; returns False if contradictory"""
        while c[0] == 'not':
            c, tv = c[1], not tv
        d = self.decide(c, s)
        if d is not None:
            return d == tv
        if c[0] == 'op' and c[2] == 1 and ((c[1] == 'and' and tv) or (c[1] == 'or' and not tv)):
            return self.assume(s, c[3], tv) and self.assume(s, c[4], tv)
        s.facts.append((c, tv))
        s.fd[c] = tv
        return True

    def split(self, s, c):
        """[(state, truth)] for the feasible outcomes of condition c"""
        d = self.decide(c, s)
        if d is not None:
            return [(s, d)]
        while c[0] == 'not':
            return [(x, not t) for x, t in self.split(s, c[1])]
        if c[0] == 'op' and c[2] == 1 and c[1] in ('and', 'or'):
            out = []
            for x, t in self.split(s, c[3]):
                if (c[1] == 'and') != t:
                    out.append((x, t))
                else:
                    out.extend(self.split(x, c[4]))
            return out
        out = []
        for tv in (True, False):
            x = s.copy()
            if self.assume(x, c, tv):
                out.append((x, tv))
        return out

    # ------------------------------------------------------------ operands
    def val(self, fr, o):
        k = o['k']
        if k == 'a':
            return fr.env['a%d' % o['n']]
        if k == 'i':
            return fr.env.get(o['id'], ('undef', 64))
        if k == 'c':
            if self.marker and o['w'] in (32, 64) and int(o['v']) & mask(o['w']) == MARK & mask(o['w']):
                return ('undef', o['w'])
            return C(o['w'], int(o['v']))
        if k == 'null':
            return NULL
        if k == 'f':
            return P(('f', o['n']))
        if k == 'g':
            return P(('g', o['n']), o['off'])
        if k == 'undef':
            return ('undef', 64)
        if k == 'zeroagg':
            return ('zeroagg',)
        if self.marker and str(MARK - (1 << 64)) in o.get('t', ''):
            return ('undef', 64)
        return ('x', o.get('t', '?'), 64)

    # ------------------------------------------------------------ one straight run
    def run(self, s, stop):
        """advance one path until it forks, leaves the region under analysis or ends"""
        while True:
            if stop and len(s.frames) < stop[0]:
                return ('out', s)
            fr = s.frames[-1]
            if s.pend is not None:
                r = self.edge(s, fr, stop)
                if r is not None:
                    return r
            blk = fr.fn.blocks[fr.block]
            if fr.ip == 0:
                # phis, in parallel
                vals = []
                n = 0
                for i in blk.insts:
                    if i['op'] != 'phi':
                        break
                    n += 1
                    if ('phi', i['id']) in fr.env:
                        vals.append((i['id'], fr.env.pop(('phi', i['id']))))
                        continue
                    v = None
                    for pt, o in i['in']:
                        if pt == fr.prev:
                            v = self.val(fr, o)
                    vals.append((i['id'], self.coerce(v if v is not None else ('undef', 64), i['ty'])))
                for a, b in vals:
                    fr.env[a] = b
                fr.ip = n
            r = None
            while fr.ip < len(blk.insts):
                i = blk.insts[fr.ip]
                if 'line' in i:
                    s.line, s.file = i['line'], i.get('file') or fr.fn.file
                r = self.step(s, fr, i)
                if r is not None:
                    break
                fr.ip += 1
            if r is None:
                return ('done', self.mkpath(s, 'abort'))
            if r == 'next':
                continue
            return r

    def coerce(self, v, ty):
        if v[0] == 'undef' and ty[0] == 'i' and ty[1:].isdigit():
            return ('undef', int(ty[1:]))
        return v

    def edge(self, s, fr, stop):
        """take the pending control flow edge"""
        target, src = s.pend, fr.block
        fr.prev = fr.fn.blocks[src].term
        if stop and len(s.frames) == stop[0]:
            if target == stop[1] and src in stop[2]:
                s.pend = None
                return ('back', (s, self.edge_phis(s, fr, target)))
            if target not in stop[2]:
                return ('out', s)
        s.pend = None
        L = fr.fn.loops.get(target)
        if L is not None:
            key = (fr.chain, target)
            if src in L.body:
                n = s.unroll.get(key)
                if n is not None:
                    here = (tuple(sorted(self.edge_phis(s, fr, target).items(), key=repr)), len([e for e in s.events if e.kind not in ('ld', 'enter', 'leave')]))
                    if s.unroll.get((key, 'at')) == here:
                        self.stuck.append((fr.fn.name, '%s:%s' % (s.file, s.line), list(s.facts)))
                    s.unroll[(key, 'at')] = here
                if n is None or n > 70:
                    raise Limit('loop at %s:%s not unrollable' % (fr.fn.file, s.line))
                s.unroll[key] = n + 1
            elif self.const_trip(s, fr, L):
                s.unroll[key] = 0
            else:
                return self.generic_loop(s, fr, L)
        fr.block = target
        fr.ip = 0
        return None

    def edge_phis(self, s, fr, target):
        d = {}
        for i in fr.fn.blocks[target].insts:
            if i['op'] != 'phi':
                break
            for pt, o in i['in']:
                if pt == fr.prev:
                    d[i['id']] = self.coerce(self.val(fr, o), i['ty'])
        return d

    # ------------------------------------------------------------ loops
    def const_trip(self, s, fr, L):
        fn = fr.fn
        init = self.edge_phis(s, fr, L.header)
        for b in L.body:
            t = fn.blocks[b].insts[-1]
            if t['op'] != 'br' or 'cond' not in t or all(x in L.body for x in t['succ']):
                continue
            c = t['cond']
            if c['k'] != 'i':
                continue
            ci = fn.inst.get(c['id'])
            if not ci or ci['op'] != 'icmp':
                continue
            a, b2 = ci['ops']
            for x, y in ((a, b2), (b2, a)):
                yv = None
                if y['k'] == 'c':
                    yv = int(y['v'])
                elif y['k'] == 'a':
                    t2 = fr.env.get('a%d' % y['n'])
                    yv = t2[2] if t2 and isc(t2) else None
                elif y['k'] == 'i' and fn.inst[y['id']]['op'] != 'phi':
                    t2 = fr.env.get(y['id'])
                    blk_of = [bb for bb in L.body if any(q['id'] == y['id'] for q in fn.blocks[bb].insts)]
                    if t2 and isc(t2) and not blk_of:
                        yv = t2[2]
                if yv is None or yv > 1 << 20 and yv < (1 << 31):
                    continue
                ph, seen = x, 0
                while ph['k'] == 'i' and seen < 6:
                    q = fn.inst[ph['id']]
                    if q['op'] == 'phi' and ph['id'] in init:
                        iv = init[ph['id']]
                        if isc(iv):
                            # constant step?
                            if abs(s64(iv[2], iv[1]) - s64(yv, iv[1])) <= 64:
                                return True
                        break
                    if q['op'] in ('add', 'sub', 'zext', 'sext', 'trunc', 'mul', 'shl'):
                        ph = q['ops'][0]
                        seen += 1
                        continue
                    break
        return False

    def generic_loop(self, s, fr, L):
        n = s.visits.get(('L', fr.chain, L.header), 0)
        s.visits[('L', fr.chain, L.header)] = n + 1
        lid = ('loop', fr.chain, L.header, n)
        depth = len(s.frames)
        init = self.edge_phis(s, fr, L.header)
        phis = [i for i in fr.fn.blocks[L.header].insts if i['op'] == 'phi']
        line = s.line
        for b in (L.header,):
            for i in fr.fn.blocks[b].insts:
                if 'line' in i:
                    line = i['line']
                    break
        sub = (depth, L.header, L.body)

        def start(mem, syms):
            t = s.copy()
            f = t.frames[-1]
            for i in phis:
                f.env[('phi', i['id'])] = syms[i['id']]
            t.mem = mem
            f.block = L.header
            f.ip = 0
            return t

        # pass A: what does an iteration change?
        symsA = {}
        for i in phis:
            symsA[i['id']] = self.lphi(lid, ('phi', i['id']), i['ty'])
        t = start((('havoc', lid), s.mem), symsA)
        backs, outs, done = [], [], []
        self.loopstack.append(lid)
        self.explore(t, sub, backs, done, outs)
        self.loopstack.pop()

        def once():
            # not a loop after all on the feasible paths
            t = start(s.mem, init)
            t.unroll[(fr.chain, L.header)] = 0
            return ('fork', [t])
        if not backs:
            return once()
        steps = {}
        for i in phis:
            k = i['id']
            sy = symsA[k]
            st_ = None
            for bs, nx in backs:
                v = nx.get(k)
                d = None
                if sy[0] == 'p':
                    if v is not None and v[0] == 'p' and v[1] == sy[1] and v[3] == sy[3]:
                        d = v[2] - sy[2]
                elif v is not None:
                    kk, parts = lin_parts(v)
                    if parts == {sy: 1}:
                        d = kk
                        w = width(sy)
                        if d >> (w - 1):
                            d -= 1 << w
                if d is None or (st_ is not None and st_ != d):
                    st_ = 'no'
                    break
                st_ = d
            if st_ not in ('no', None) and st_ != 0:
                steps[k] = st_
            elif st_ == 0:
                steps[k] = 0
        syms = {}
        for i in phis:
            k = i['id']
            if k in steps:
                iv = init[k]
                if steps[k] == 0:
                    syms[k] = iv
                elif symsA[k][0] == 'p':
                    syms[k] = padd(iv, 0, [(('iter', lid, 64), steps[k])])
                else:
                    w = width(symsA[k])
                    syms[k] = add(w, self.coerce_w(iv, w), mulc(w, ('iter', lid, w), steps[k]))
            else:
                syms[k] = symsA[k]
        # locations written by an iteration
        locs = {}
        wild = []
        for bs, nx in backs:
            self.collect(bs.mem, s.mem, locs, wild, lid)
        for _ in range(6):
            lc = ('lclob', lid, tuple(sorted(locs, key=repr)), tuple(sorted(set(wild), key=repr)))
            t = start((lc, s.mem), syms)
            backs2, outs2, done2 = [], [], []
            self.loopstack.append(lid)
            self.explore(t, sub, backs2, done2, outs2)
            self.loopstack.pop()
            if not backs2:
                return once()
            l2, w2 = {}, []
            for bs, nx in backs2:
                self.collect(bs.mem, (lc, s.mem), l2, w2, lid)
            new = [x for x in l2 if x not in locs]
            neww = [x for x in w2 if x not in wild]
            if not new and not neww:
                break
            locs.update(l2)
            wild.extend(neww)
        LI = LoopInst(lid, fr.fn.name, fr.fn.file, line)
        for i in phis:
            k = i['id']
            LI.init[('phi', k)] = init[k]; LI.sym[('phi', k)] = syms[k]
            if k in steps:
                LI.step[('phi', k)] = steps[k]
        for (ptr, size, isptr) in locs:
            key = ('m', ptr, size)
            LI.init[key] = self.load(s.mem, ptr, size, isptr)
            LI.sym[key] = self.mklphi(lid, key, size, isptr)
        base_ev = len(s.events)
        base_f = len(s.facts)
        LI.pre = (base_ev, base_f)
        for bs, nx in backs2:
            p = self.mkpath(bs, 'back')
            p.events = bs.events[base_ev:]
            p.facts = bs.facts[base_f:]
            p.next = {('phi', k): v for k, v in nx.items()}
            for (ptr, size, isptr) in locs:
                p.next[('m', ptr, size)] = self.load(bs.mem, ptr, size, isptr)
            LI.backs.append(p)
        ev = Ev(kind='loop', id=lid, name='loop', args=[], file=fr.fn.file, line=line, fn=fr.fn.name, loop=LI, nf=base_f, mem=s.mem)
        if not outs2 and not done2:
            self.endless.append((LI, list(s.facts)))
        for o in outs2:
            o.events.insert(base_ev, ev)
        for p in done2:
            p.events.insert(base_ev, ev)
        return ('fork', outs2, done2)

    def coerce_w(self, t, w):
        return t if width(t) == w else ('undef', w)

    def lphi(self, lid, key, ty):
        if ty == 'ptr':
            return P(('lphi', lid, key))
        return ('lphi', lid, key, int(ty[1:]) if ty[0] == 'i' and ty[1:].isdigit() else 64)

    def mklphi(self, lid, key, size, isptr):
        if isptr:
            return P(('lphi', lid, key))
        return ('lphi', lid, key, 8 * size)

    def collect(self, mem, base, locs, wild, lid):
        e = mem
        while e is not None and e is not base:
            ent, nx = e
            k = ent[0]
            if k == 'havoc' and ent[1] == lid:
                break
            if k == 'lclob' and ent[1] == lid:
                break
            if k == 'st':
                self.addloc(ent[1], ent[2], ent[4], locs, wild, lid)
            elif k == 'lclob':
                for (p, sz, ip) in ent[2]:
                    self.addloc(p, sz, ip, locs, wild, lid)
                wild.extend(ent[3])
            elif k in ('data', 'fill', 'copy'):
                wild.append(self.wildptr(ent[1], lid))
            elif k == 'clob':
                for (p, sz, ip) in ent[2]:
                    if sz is None:
                        wild.append(self.wildptr(p, lid))
                    else:
                        self.addloc(p, sz, ip, locs, wild, lid)
                if ent[3]:
                    wild.append(('all',))
            e = nx

    def wildptr(self, p, lid):
        return ('base', p[1]) if p[0] == 'p' else ('all',)

    def addloc(self, p, sz, ip, locs, wild, lid):
        if p[0] != 'p':
            wild.append(('all',))
        elif p[1][0] == 'ret' and ev_in_loop(p[1][1], lid):
            pass        # object created inside the iteration
        elif variant(p, lid):
            wild.append(('base', p[1]) if not variant(P(p[1]), lid) else ('var', p[2], sz, bool(p[3])))
        else:
            locs[(p, sz, ip)] = 1

    # ------------------------------------------------------------ memory
    def fresh(self, ptr, size, isptr, ver):
        if isptr:
            return P(('ldp', ptr, ver))
        return ('ld', ptr, size, ver)

    def load(self, mem, ptr, size, isptr=False):
        if ptr[0] != 'p':
            return self.fresh(P(('int', ptr)), size, isptr, 0)
        e = mem
        while e is not None:
            ent, e = e
            k = ent[0]
            if k == 'st':
                rel, d = overlap(ent[1], ent[2], ptr, size)
                if rel == 'no':
                    continue
                if rel == 'same':
                    v = ent[3]
                    if isptr and v[0] != 'p' and v != NULL:
                        return self.fresh(ptr, size, isptr, ('st', v))
                    if not isptr and v[0] == 'p':
                        return v
                    return v
                if rel == 'inside':
                    v = ent[3]
                    if not isptr and v[0] != 'p':
                        w = ent[2] * 8
                        sh = 8 * d if not self.be else 8 * (ent[2] - size - d)
                        return cast('trunc', 8 * size, binop('lshr', w, v, C(w, sh)))
                    return self.fresh(ptr, size, isptr, ('st', ent[3]))
                if rel == 'partial' and not isptr and 1 < size <= 8:
                    bs = [self.load((ent, e), padd(ptr, j, ()), 1) for j in range(size)]
                    if self.be:
                        bs = bs[::-1]
                    w = 8 * size
                    out = C(w, 0)
                    for j, b in enumerate(bs):
                        out = binop('or', w, binop('shl', w, cast('zext', w, b), C(w, 8 * j)), out)
                    return out
                return self.fresh(ptr, size, isptr, ('may', ent[1], ent[3]))
            elif k in ('data', 'fill', 'copy'):
                if ent[1][0] == 'p' and ent[1][1] == ptr[1]:
                    d = ptrdiff(ptr, ent[1])
                    n = ent[2]
                    if isc(d):
                        dv = sval(d)
                        if dv < 0 and not (isc(n) is False):
                            if dv + size <= 0:
                                continue
                        if isc(n) and dv >= n[2]:
                            continue
                        if k == 'fill':
                            if ent[3][0] == 'c':
                                b = ent[3][2] & 255
                                v = 0
                                for _ in range(size):
                                    v = v << 8 | b
                                return C(8 * size, v) if not isptr or v else NULL
                            return self.fresh(ptr, size, isptr, ('fill', ent[4]))
                        if k == 'data':
                            if dv >= 0:
                                return ('sv', ent[3], dv, size) if not isptr else self.fresh(ptr, size, isptr, ent[3])
                        if k == 'copy' and dv >= 0:
                            return self.load(ent[4], padd(ent[3], dv, ()), size, isptr)
                    else:
                        if k == 'copy':
                            return self.load(ent[4], padd(ent[3], d[2] if d[0] == 'lin' else 0,
                                             [(x, s64(c, 64)) for x, c in (d[3] if d[0] == 'lin' else ((d, 1),))]), size, isptr)
                        if k == 'fill' and ent[3][0] == 'c':
                            b = ent[3][2] & 255
                            v = 0
                            for _ in range(size):
                                v = v << 8 | b
                            return C(8 * size, v)
                        if k == 'data':
                            return self.fresh(ptr, size, isptr, ent[3])
                    return self.fresh(ptr, size, isptr, (k, ent[1]))
                continue
            elif k == 'clob':
                hit = False
                for (p, sz, ip) in ent[2]:
                    if sz is None:
                        if p[0] == 'p' and p[1] == ptr[1]:
                            keep = ent[4]
                            if keep and not ptr[3] and any(lo <= ptr[2] - p[2] < hi for lo, hi in keep):
                                continue
                            hit = True
                    elif overlap(p, sz, ptr, size)[0] != 'no':
                        hit = True
                if ent[3] and ptr[1][0] not in ('alloca', 'f') and not self.isconstg(ptr[1]):
                    hit = True
                if hit:
                    return self.out(ent[1], ptr, size, isptr)
                continue
            elif k == 'lclob':
                for (p, sz, ip) in ent[2]:
                    rel, d = overlap(p, sz, ptr, size)
                    if rel == 'same':
                        return self.mklphi(ent[1], ('m', p, sz), sz, isptr)
                    if rel != 'no':
                        return self.fresh(ptr, size, isptr, ent[1])
                for w in ent[3]:
                    if w[0] == 'all' and ptr[1][0] not in ('alloca', 'f') and not self.isconstg(ptr[1]):
                        return self.fresh(ptr, size, isptr, ent[1])
                    if w[0] == 'base' and w[1] == ptr[1]:
                        return self.fresh(ptr, size, isptr, ent[1])
                    if w[0] == 'var' and w[1] == ptr[2] and w[2] == size and w[3] == bool(ptr[3]) and ptr[1][0] in ('ldp', 'lphi'):
                        return self.fresh(ptr, size, isptr, ent[1])
                continue
            elif k == 'havoc':
                if ptr[1][0] == 'g' and self.isconstg(ptr[1]):
                    continue
                return self.fresh(ptr, size, isptr, ent[1])
        # initial contents
        b = ptr[1]
        if b[0] == 'alloca':
            return ('undef', 8 * size)
        if b[0] == 'g' and self.isconstg(b) and not ptr[3]:
            v = self.gload(b[1], ptr[2], size, isptr)
            if v is not None:
                return v
        return self.fresh(ptr, size, isptr, 0)

    def out(self, evid, ptr, size, isptr):
        if isptr:
            return P(('ldp', ptr, evid))
        return ('out', evid, ptr, size)

    def isconstg(self, b):
        if b[0] != 'g':
            return False
        g = self.m.globals.get(b[1])
        return bool(g and g['const'])

    def gload(self, name, off, size, isptr):
        d = self.m.gbytes(name)
        e = d.get(off)
        if e is not None and 'val' in e and e['size'] == size:
            v = e['val']
            if v['k'] == 'c':
                return C(8 * size, int(v['v']))
            if v['k'] == 'null':
                return NULL
            if v['k'] == 'f':
                return P(('f', v['n']))
            if v['k'] == 'g':
                return P(('g', v['n']), v['off'])
            return None
        for o, e in d.items():
            if 'str' in e and o <= off and off + size <= o + e['len']:
                v = [ord(c) & 255 for c in e['str'][off - o:off - o + size]]
                return C(8 * size, int.from_bytes(bytes(v), 'big' if self.be else 'little'))
            if 'zero' in e and o <= off and off + size <= o + e['zero']:
                return C(8 * size, 0)
        return None

    def store(self, s, ptr, size, v, isptr):
        s.mem = (('st', ptr, size, v, isptr), s.mem)

    # ------------------------------------------------------------ instructions
    def step(self, s, fr, i):
        op = i['op']
        env = fr.env
        if op == 'load':
            p = self.val(fr, i['ops'][0])
            isptr = i['ty'] == 'ptr'
            v = self.load(s.mem, p, i['size'], isptr)
            if i['ty'] in ('i1',):
                v = cast('trunc', 1, v) if width(v) > 1 else v
            env[i['id']] = v
            self.access(s, fr, i, 'ld', p, i['size'], v)
            return None
        if op == 'store':
            v, p = self.val(fr, i['ops'][0]), self.val(fr, i['ops'][1])
            v = self.coerce(v, i['sty'])
            self.access(s, fr, i, 'st', p, i['size'], v)
            if p[0] == 'p':
                self.store(s, p, i['size'], v, i['sty'] == 'ptr')
            return None
        if op == 'getelementptr':
            p = self.val(fr, i['ops'][0])
            idx = []
            for v in i['vars']:
                t = self.val(fr, v['v'])
                if v['w'] != 64:
                    t = cast('sext', 64, t)
                idx.append((t, v['s']))
            env[i['id']] = padd(p, i['off'], idx)
            return None
        if op == 'alloca':
            n = s.visits.get((fr.chain, i['id']), 0)
            env[i['id']] = P(('alloca', (fr.chain, i['id'], i.get('name', ''), 0 if 'count' in i else i['size'])))
            if 'count' in i:
                self.vla[env[i['id']][1]] = (i['size'], self.val(fr, i['count']))
            return None
        if op == 'icmp':
            env[i['id']] = cmp(i['pred'], self.coerce(self.val(fr, i['ops'][0]), i['opty'][0]),
                               self.coerce(self.val(fr, i['ops'][1]), i['opty'][1]))
            return None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            w = int(i['ty'][1:])
            env[i['id']] = binop(op, w, self.coerce(self.val(fr, i['ops'][0]), i['ty']), self.coerce(self.val(fr, i['ops'][1]), i['ty']))
            return None
        if op in ('zext', 'sext', 'trunc'):
            env[i['id']] = cast(op, int(i['ty'][1:]), self.coerce(self.val(fr, i['ops'][0]), i['opty'][0]))
            return None
        if op == 'ptrtoint':
            env[i['id']] = self.val(fr, i['ops'][0])
            return None
        if op in ('inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            env[i['id']] = self.val(fr, i['ops'][0])
            return None
        if op == 'select':
            c = self.val(fr, i['ops'][0])
            sp = self.split(s, c)
            if len(sp) == 1:
                env[i['id']] = self.val(fr, i['ops'][1 if sp[0][1] else 2])
                return None
            out = []
            for t, tv in sp:
                f = t.frames[-1]
                f.env[i['id']] = self.val(f, i['ops'][1 if tv else 2])
                f.ip += 1
                out.append(t)
            return ('fork', out)
        if op == 'br':
            if 'cond' not in i:
                return self.jump([(s, i['succ'][0])])
            c = self.val(fr, i['cond'])
            if c[0] == 'undef':
                c = ('lphi', ('undef', fr.chain, i['id']), 'undef', 1)
                c = ('cmp', 'eq', c, C(1, 1))
            sp = self.split(s, c)
            return self.jump([(t, i['succ'][0 if tv else 1]) for t, tv in sp])
        if op == 'switch':
            c = self.val(fr, i['cond'])
            lst = []
            rest = s
            for cv, tgt in zip(i['cases'], i['succ'][1:]):
                sp = self.split(rest, cmp('eq', c, C(i['cw'], int(cv))))
                rest = None
                for t, tv in sp:
                    if tv:
                        lst.append((t, tgt))
                    else:
                        rest = t
                if rest is None:
                    break
            if rest is not None:
                lst.append((rest, i['succ'][0]))
            return self.jump(lst)
        if op == 'ret':
            v = self.coerce(self.val(fr, i['ops'][0]), i['opty'][0]) if i['ops'] else None
            # boolean results: one path per outcome
            if v is not None and v[0] in ('zext', 'sext') and width(v[2]) == 1 and not isc(v[2]):
                sp = self.split(s, v[2])
                if len(sp) > 1:
                    return ('fork', [t for t, tv in sp])
                v = C(v[1], (1 if v[0] == 'zext' else -1) if sp[0][1] else 0)
            elif v is not None and v[0] in ('cmp', 'not') and not isc(v):
                sp = self.split(s, v)
                if len(sp) > 1:
                    return ('fork', [t for t, tv in sp])
                v = C(1, 1 if sp[0][1] else 0)
            return self.do_ret(s, v)
        if op == 'unreachable':
            return ('done', self.mkpath(s, 'abort'))
        if op == 'call':
            return self.call(s, fr, i)
        if op in ('extractvalue', 'insertvalue', 'va_arg', 'fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fneg',
                  'fence', 'atomicrmw', 'cmpxchg'):
            w = int(i['ty'][1:]) if i['ty'][0] == 'i' and i['ty'][1:].isdigit() else 64
            env[i['id']] = ('ret', self.evid(s, fr, i, op), w)
            return None
        raise Limit('unsupported instruction %s' % op)

    def jump(self, lst):
        for t, target in lst:
            t.pend = target
        if len(lst) == 1:
            return 'next' if lst else ('fork', [])
        return ('fork', [t for t, _ in lst])

    def do_ret(self, s, v):
        fr = s.frames.pop()
        if not s.frames:
            return ('done', self.mkpath(s, 'ret', v))
        c = s.frames[-1]
        if fr.call is not None and v is not None:
            c.env[fr.call['id']] = v
        s.events.append(Ev(kind='leave', id=('leave', fr.chain), name=fr.fn.name, args=[v] if v is not None else [], file=s.file, line=s.line,
                           fn=fr.fn.name, nf=len(s.facts), mem=s.mem, chain=fr.chain))
        c.ip += 1
        return 'next'

    def evid(self, s, fr, i, name):
        n = s.visits.get((fr.chain, i['id']), 0)
        s.visits[(fr.chain, i['id'])] = n + 1
        e = (fr.chain, i['id'], n, name)
        for lid in self.loopstack:
            _INLOOP.add((e, lid))
        return e

    def access(self, s, fr, i, kind, p, size, v):
        if p[0] == 'p' and p[1][0] == 'alloca' and not p[3]:
            n = p[1][1][3]
            if not isinstance(n, int) or n <= 0 or 0 <= p[2] and p[2] + size <= n:
                return      # within a local variable
        s.events.append(Ev(kind=kind, id=None, name=kind, args=[p, C(64, size), v], file=s.file, line=s.line, fn=fr.fn.name,
                           nf=len(s.facts), mem=s.mem))

    # ------------------------------------------------------------ calls
    def call(self, s, fr, i):
        o = i['callee']
        args = [self.coerce(self.val(fr, a), t) for a, t in zip(i['args'], i['argty'])]
        cal = self.val(fr, o)
        name = None
        kind = 'call'
        if cal[0] == 'p' and cal[1][0] == 'f' and cal[2] == 0:
            name = cal[1][1]
        elif cal[0] == 'p' and cal[1][0] == 'ldp' and cal[1][1][0] == 'p':
            q = cal[1][1]
            if q[1][0] == 'g' and q[1][1] == 'IFF_errorCallback':
                name, kind = 'IFF_errorCallback', 'diag'
            elif q[2] in self.slots and not q[3] or (q[3] and len(q[3]) == 1 and q[3][0][1] == (self.m.sizeof('IFF_ChunkType') or -1)
                                                     and q[2] % (self.m.sizeof('IFF_ChunkType') or 1) in self.slots):
                name, kind = self.slots.get(q[2]) or self.slots[q[2] % self.m.sizeof('IFF_ChunkType')], 'slot'
            else:
                name, kind = 'indirect', 'icall'
        else:
            name, kind = 'indirect', 'icall'
        if name.startswith('llvm.'):
            return self.intrinsic(s, fr, i, name, args)
        if kind == 'call' and name in self.diag:
            kind = 'diag'
        body = self.m.body(name) if kind == 'call' else None
        if body is not None and name not in self.boundary and name not in self.noinline:
            if any(f.fn.name == name for f in s.frames):
                kind = 'rec'
            elif len(s.frames) > 24:
                raise Limit('call depth')
            else:
                self.inlined.add(name)
                n = s.visits.get((fr.chain, i['id'], 'in'), 0)
                s.visits[(fr.chain, i['id'], 'in')] = n + 1
                nf = Frame(); nf.fn = body; nf.env = {}; nf.block = body.entry; nf.prev = None; nf.ip = 0; nf.call = i
                nf.chain = fr.chain + ((i['id'], n) if n else (i['id'],),)
                for k, a in enumerate(args):
                    nf.env['a%d' % k] = a
                s.events.append(Ev(kind='enter', id=('enter', nf.chain), name=name, args=args, file=s.file, line=s.line, fn=fr.fn.name,
                                   nf=len(s.facts), mem=s.mem, chain=nf.chain))
                s.frames.append(nf)
                return 'next'
        eid = self.evid(s, fr, i, name)
        w = None
        if i['ty'] == 'ptr':
            ret = P(('ret', eid))
        elif i['ty'][0] == 'i' and i['ty'][1:].isdigit():
            ret = ('ret', eid, int(i['ty'][1:]))
        else:
            ret = None
        e = Ev(kind=kind, id=eid, name=name, args=args, ret=ret, file=s.file, line=s.line, fn=fr.fn.name, mem=s.mem, nf=len(s.facts),
               fixed=i.get('fixed'), x={'callee': cal, 'vararg': i.get('vararg')}, chain=fr.chain)
        s.events.append(e)
        if ret is not None:
            fr.env[i['id']] = ret
        self.effect(s, e)
        e.mem2 = s.mem
        f = self.m.fns.get(name)
        if kind == 'call' and (name in ('exit', '_exit', 'abort', '_Exit', 'longjmp', '__assert_fail') or (f is not None and f.noreturn)):
            p = self.mkpath(s, 'exit')
            return ('done', p)
        return None

    def intrinsic(self, s, fr, i, name, args):
        if name.startswith('llvm.bswap'):
            fr.env[i['id']] = bswap(width(args[0]), args[0])
        elif name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.bulk(s, fr, 'copy', args)
            s.mem = (('copy', args[0], args[2], args[1], s.mem), s.mem)
        elif name.startswith('llvm.memset') and self.marker and args[1] == C(8, MARK & 255) and args[0][0] == 'p' and args[0][1][0] == 'alloca':
            pass
        elif name.startswith('llvm.memset'):
            self.bulk(s, fr, 'fill', args)
            s.mem = (('fill', args[0], args[2], args[1], None), s.mem)
        elif name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            pr = 'slt' if name[5] == 's' else 'ult'
            c = cmp(pr, args[0], args[1])
            fr.env[i['id']] = select(c, args[1], args[0]) if 'max' in name else select(c, args[0], args[1])
        elif name.startswith('llvm.va_end'):
            self.va(s, fr, 'va_end', args)
        elif name.startswith(('llvm.va_start', 'llvm.va_copy')):
            self.va(s, fr, name[5:13].rstrip('.'), args)
            if args[0][0] == 'p':
                n = args[0][1][1][3] if args[0][1][0] == 'alloca' else None
                s.mem = (('clob', self.evid(s, fr, i, name), ((args[0], n if isinstance(n, int) and n > 0 else 8, False),), False, None), s.mem)
        elif i['ty'] != 'void':
            w = int(i['ty'][1:]) if i['ty'][0] == 'i' and i['ty'][1:].isdigit() else 64
            fr.env[i['id']] = ('ret', self.evid(s, fr, i, name), w)
        return None

    def va(self, s, fr, name, args):
        s.events.append(Ev(kind='va', id=None, name=name, args=args[:2], file=s.file, line=s.line, fn=fr.fn.name, nf=len(s.facts), mem=s.mem))

    def bulk(self, s, fr, name, args):
        s.events.append(Ev(kind='bulk', id=None, name=name, args=args[:3], file=s.file, line=s.line, fn=fr.fn.name, nf=len(s.facts), mem=s.mem))

    def effect(self, s, e):
        n, a = e.name, e.args
        if e.kind == 'diag':
            return
        if e.kind in ('call', 'slot', 'rec', 'icall') and n in self.effects and (e.kind != 'call' or self.m.body(n) is not None or True):
            self.effects[n](self, s, e)
            return
        if e.kind == 'slot':
            slot_effect(self, s, e)
            return
        if e.kind == 'rec' and nowrite(self.m, n):
            return
        if n in PURE or n in OUT:
            return
        if n in ('fread',):
            sz, cnt = a[1], a[2]
            total = mulc(64, cnt, sz[2]) if isc(sz) else mulc(64, sz, cnt[2]) if isc(cnt) else ('op', 'mul', 64, sz, cnt)
            s.mem = (('data', a[0], total, e.id), s.mem)
            return
        if n in ('fgetc', 'getc', '_IO_getc', 'getchar', 'fopen', 'malloc', 'free', 'fdopen', 'strdup', 'atoi'):
            return
        if n == 'calloc':
            s.mem = (('fill', e.ret, ('op', 'mul', 64, a[0], a[1]) if not (isc(a[0]) or isc(a[1])) else
                      mulc(64, a[0], a[1][2]) if isc(a[1]) else mulc(64, a[1], a[0][2]), C(8, 0), e.id), s.mem)
            return
        if n == 'realloc' or n == 'reallocarray':
            return
        if n in ('memcpy', 'memmove', '__memcpy_chk'):
            s.mem = (('copy', a[0], a[2], a[1], s.mem), s.mem)
            return
        if n in ('memset', '__memset_chk'):
            s.mem = (('fill', a[0], a[2], cast('trunc', 8, a[1]), e.id), s.mem)
            return
        if n in ('bzero', '__bzero'):
            s.mem = (('fill', a[0], a[1], C(8, 0), e.id), s.mem)
            return
        # unknown: everything reachable may change
        if n in ('getopt', 'getopt_long', 'getopt_long_only'):
            a = a[4:]       # the option text and table are read only; only the index is stored
        al = tuple((x, None, False) for x in a if x[0] == 'p' and x[1][0] == 'alloca')
        s.mem = (('clob', e.id, al, True, None), s.mem)


def nowrite(m, name):
    """the function stores nothing but its own local variables, and calls only functions of which the same holds"""
    memo = m.__dict__.setdefault('_nowrite', {})
    if name not in memo:
        seen, todo, ok = {name}, [name], True
        while todo and ok:
            f = m.body(todo.pop())
            if f is None:
                ok = False
                break
            for i in f.inst.values():
                r = writes(m, f, i)
                if r is True:
                    ok = False
                    break
                if r and r not in seen:
                    seen.add(r)
                    todo.append(r)
        memo[name] = ok
    return memo[name]


def writes(m, f, i):
    """whether the instruction stores elsewhere than in local variables; the name of the function it depends on"""
    def local(o):
        for _ in range(20):
            if o.get('k') != 'i':
                return False
            d = f.inst.get(o.get('n', o.get('id')))
            if d is None:
                return False
            if d['op'] == 'alloca':
                return True
            if d['op'] != 'getelementptr':
                return False
            o = d['ops'][0]
        return False
    if i['op'] == 'store':
        return not local(i['ops'][1])
    if i['op'] in ('atomicrmw', 'cmpxchg'):
        return True
    if i['op'] == 'call':
        c = i['callee']
        if c.get('k') != 'f':
            return True
        n = c['n']
        if n.startswith('llvm.'):
            return n.startswith(('llvm.mem', 'llvm.va')) and not local(i['args'][0])
        if n in PURE or n in DIAG:
            return False
        return n if m.body(n) is not None else True
    return False


def s64(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def default_effects(m):
    def none(w, s, e):
        pass
    d = {}
    for n in ('IFF_readChunk', 'IFF_writeChunk', 'IFF_checkChunk', 'IFF_freeChunk', 'IFF_printChunk', 'IFF_compareChunk', 'IFF_findChunkType',
              'IFF_checkId', 'IFF_checkFormType', 'IFF_printIndent', 'IFF_printId', 'IFF_incrementChunkSize', 'IFF_free', 'IFF_check',
              'IFF_print', 'IFF_compare', 'IFF_write', 'IFF_writeFd', 'IFF_writeFile', 'IFF_read', 'IFF_readFd', 'IFF_readFile',
              ):
        d[n] = none

    def outlen(w, s, e):
        # search functions store the result length through their last argument
        p = e.args[-1]
        if p[0] == 'p':
            s.mem = (('clob', e.id, ((p, 4, False),), False, None), s.mem)
    for n in ('IFF_searchFormsFromArray', 'IFF_searchFormsInGroup', 'IFF_searchFormsInForm', 'IFF_searchFormsInCAT', 'IFF_searchFormsInList',
              'IFF_searchForms', 'IFF_getChunksFromForm'):
        d[n] = outlen

    def merged(w, s, e):
        # merging stores the new length through the second argument
        p = e.args[1] if len(e.args) > 1 else NULL
        if p[0] == 'p':
            s.mem = (('clob', e.id, ((p, 4, False),), False, None), s.mem)
    d['IFF_mergeFormArray'] = merged
    return d


def slot_effect(w, s, e):
    """contract of the chunk type functions"""
    n, a = e.name, e.args
    m = w.m
    if n.startswith('create') and len(a) >= 2 and e.ret is not None and e.ret[0] == 'p':
        o1, o2 = m.off('IFF_Chunk', 'chunkId'), m.off('IFF_Chunk', 'chunkSize')
        if o1 is not None:
            s.mem = (('st', padd(e.ret, o1, ()), 4, a[0], False), s.mem)
            s.mem = (('st', padd(e.ret, o2, ()), 4, a[1], False), s.mem)
    elif n.startswith('read') and len(a) >= 4:
        hdr = m.sizeof('IFF_Chunk') or 16
        cl = [(a[1], None, False)]
        s.mem = (('clob', e.id, tuple(cl), False, ((0, hdr),)), s.mem)
        if a[3][0] == 'p':
            s.mem = (('clob', e.id, ((a[3], 4, False),), False, None), s.mem)
    elif n.startswith('write') and len(a) >= 4:
        if a[3][0] == 'p':
            s.mem = (('clob', e.id, ((a[3], 4, False),), False, None), s.mem)


def variant(t, lid):
    """does t depend on the iteration of loop lid?"""
    if not isinstance(t, tuple):
        return False
    if t and t[0] in ('iter', 'lphi') and len(t) > 1 and t[1] == lid:
        return True
    if t and t[0] in ('ret',) and ev_in_loop(t[1], lid):
        return True
    return any(variant(x, lid) for x in t if isinstance(x, tuple))


def ev_in_loop(evid, lid):
    # an event that belongs to the body of loop lid is recorded by chain and instruction; set by Walker
    return (evid, lid) in _INLOOP


_INLOOP = set()


def overlap(p1, s1, p2, s2):
    if p1[0] != 'p' or p2[0] != 'p':
        return 'may', 0
    if p1[1] != p2[1]:
        a, b = p1[1][0], p2[1][0]
        if 'lphi' in (a, b) and {a, b} <= {'lphi', 'ldp', 'argp', 'ret'} and not p1[3] and not p2[3] and p1[2] == p2[2] and s1 == s2 \
                and p1[1][0] == p2[1][0] == 'lphi':
            return 'may', 0
        return 'no', 0
    d = ptrdiff(p2, p1)
    if isc(d):
        d = sval(d)
        if d >= s1 or d + s2 <= 0:
            return 'no', 0
        if d == 0 and s1 == s2:
            return 'same', 0
        if d >= 0 and d + s2 <= s1:
            return 'inside', d
        return 'partial', d
    return 'may', 0


# ---------------------------------------------------------------- implications between atoms
def bounds(t, facts):
    """signed/unsigned intervals and exclusions of t from facts against constants"""
    w = width(t)
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    ulo, uhi = 0, mask(w)
    ne = set()
    for c, tv in facts:
        if c[0] != 'cmp':
            continue
        p, a, b = c[1], c[2], c[3]
        if a == t and isc(b):
            v, sv = b[2], sval(b)
            if p == 'eq':
                if tv:
                    lo = max(lo, sv); hi = min(hi, sv); ulo = max(ulo, v); uhi = min(uhi, v)
                else:
                    ne.add(v)
            elif p == 'slt':
                if tv: hi = min(hi, sv - 1)
                else: lo = max(lo, sv)
            elif p == 'ult':
                if tv: uhi = min(uhi, v - 1)
                else: ulo = max(ulo, v)
        elif b == t and isc(a):
            v, sv = a[2], sval(a)
            if p == 'slt':
                if tv: lo = max(lo, sv + 1)
                else: hi = min(hi, sv)
            elif p == 'ult':
                if tv: ulo = max(ulo, v + 1)
                else: uhi = min(uhi, v)
    if lo >= 0:
        ulo = max(ulo, lo); uhi = min(uhi, hi)
    if uhi <= (1 << (w - 1)) - 1:
        lo = max(lo, ulo); hi = min(hi, uhi)
    while (lo & mask(w)) in ne and lo <= hi:
        lo += 1
    while (hi & mask(w)) in ne and lo <= hi:
        hi -= 1
    return lo, hi, ulo, uhi, ne


def implied(c, facts):
    p, a, b = c[1], c[2], c[3]
    if isc(b) or isc(a):
        t, k, sw = (a, b, False) if isc(b) else (b, a, True)
        if not any(f[0][0] == 'cmp' and (f[0][2] == t or f[0][3] == t) for f in facts):
            return None
        lo, hi, ulo, uhi, ne = bounds(t, facts)
        v, sv = k[2], sval(k)
        if p == 'eq':
            if v in ne or sv < lo or sv > hi or v < ulo or v > uhi:
                return False
            if lo == hi == sv:
                return True
        elif p == 'slt':
            if not sw:
                if hi < sv: return True
                if lo >= sv: return False
            else:
                if sv < lo: return True
                if sv >= hi: return False
        else:
            if not sw:
                if uhi < v: return True
                if ulo >= v: return False
            else:
                if v < ulo: return True
                if v >= uhi: return False
        return None
    # relation between two terms
    srel, urel = {'lt', 'eq', 'gt'}, {'lt', 'eq', 'gt'}
    for f, tv in facts:
        if f[0] != 'cmp':
            continue
        x, y = f[2], f[3]
        if (x, y) == (a, b) or (x, y) == (b, a):
            fl = (x, y) == (b, a)
            if f[1] == 'eq':
                k = {'eq'}
            else:
                k = {'gt'} if fl else {'lt'}
            if not tv:
                k = {'lt', 'eq', 'gt'} - k
            if f[1] in ('eq', 'slt'):
                srel &= k if f[1] == 'slt' or tv else srel - {'eq'}
            if f[1] in ('eq', 'ult'):
                urel &= k if f[1] == 'ult' or tv else urel - {'eq'}
    if 'eq' not in srel or 'eq' not in urel:
        srel -= {'eq'}; urel -= {'eq'}
    if srel == {'eq'} or urel == {'eq'}:
        srel = urel = {'eq'}
    want = {'eq': {'eq'}, 'slt': {'lt'}, 'ult': {'lt'}}[p]
    rel = urel if p == 'ult' else srel
    if rel <= want:
        return True if rel else None
    if not (rel & want):
        return False
    return None
