"""C01, C02, C03, C07: what reaches or leaves the stream, byte by byte.

Bytes are followed by bit provenance (every bit of a written byte is traced to a bit of the value written, every bit of
a stored value to a bit of a stream byte).  Guards on sizes are evaluated on representatives of every ordering of the
quantities they compare (declared size, processed count, field size), loops by their counters' closed form.
"""
import re
from ..lib import *
from .own import constants

SIZES = {'IFF_UByte': 1, 'IFF_UWord': 2, 'IFF_Word': 2, 'IFF_ULong': 4, 'IFF_Long': 4, 'IFF_ID': 4}
INTMAX = (1 << 31) - 1


def strip(t):
    return t.replace('const ', '').replace('*', '').strip()


def scalar_entries(ctx):
    out = []
    for n, f in sorted(ctx.m.fns.items()):
        m = re.match(r'IFF_(read|write)(UByte|UWord|Word|ULong|Long|Id)(Field)?$', n)
        if m and not f.decl and len(f.dty) > 2 and strip(f.dty[2]) in SIZES:
            out.append((n, m.group(1), SIZES[strip(f.dty[2])], bool(m.group(3))))
    return out


def field_leaves(ctx, n):
    f = ctx.m.fns[n]
    ci = [i for i, t in enumerate(f.dty[1:]) if strip(t) == 'IFF_Chunk']
    if not ci:
        raise Broken('anchor vanished: chunk parameter of ' + n)
    cs = ctx.fld(P(('argp', ci[0])), 'IFF_Chunk', 'chunkSize')
    bpp = P(('argp', len(f.args) - 1))
    return cs, bpp, ('ld', bpp, 4, 0)


def show_trace(tr):
    out = []
    for x in tr:
        if x[0] == 'b':
            b = x[1]
            if all(y in (0, 1) for y in b):
                out.append('%02x' % sum(v << i for i, v in enumerate(b)))
            else:
                s = b[0]
                out.append('<%s bits %s..>' % (show(s[0]), s[1]) if isinstance(s, tuple) else '<mixed>')
        elif x[0] == 'i':
            out.append('in')
        elif x[0] in 'sc':
            out.append(x[1].name)
        else:
            out.append('%s(%s)' % (x[0], x[1] if isinstance(x[1], str) else x[1].name))
    return '[' + ' '.join(out) + ']'


def c01(ctx, rep):
    es = scalar_entries(ctx)
    rep.need('byte-order', 20)
    for n, mode, size, field in es:
        ps = ctx.walk(n)
        if ps is None:
            rep.und('byte-order', n, 'not enumerable')
            continue
        file = P(('argp', 0))
        lv = {}
        if field:
            cs, bpp, bp = field_leaves(ctx, n)
            lv = {cs: 1000, bp: 4}
        k = conv(ctx.m, n)
        seen = 0
        inst = '%s (%s)' % (n, ctx.cfg)
        for p in ps:
            if p.status != 'ret':
                continue
            pt = Pt(ctx, p, lv)
            if not pt.settle(p.events, p.facts):
                continue
            if not ret_ok(ctx, k, p.ret, pt.V):
                continue
            seen += 1
            tr = trace(ctx, pt, p.events, file)
            where = '%s:%s' % (p.file, p.line)
            if any(x[0] == '?' for x in tr):
                rep.und('byte-order', inst, [x for x in tr if x[0] == '?'][0][1])
                continue
            if mode == 'write':
                v = ('arg', 1, 8 * size)
                want = be_bytes(ctx.m.be, v)
                got = [x[1] for x in tr if x[0] == 'b']
                good = len(got) == len(tr) == size and got == want
                if not good and len(got) == len(tr) == size:
                    # not the bytes of the value as such: compare on the values with which the path is taken
                    good = sample_write(ctx, [x[3] for x in tr], size, v, pt, p.facts)
                rep.check('byte-order', inst, good, '%s does not emit the %d bytes of its value most significant first: %s'
                          % (n, size, show_trace(tr)), where, p)
            else:
                cells = [x for x in tr]
                if len(tr) != size or any(x[0] != 'i' for x in tr):
                    rep.bad('byte-order', inst, '%s does not take exactly %d bytes from the stream: %s' % (n, size, show_trace(tr)), where, p)
                    continue
                got = pt.w.load(p.mem, P(('argp', 1)), size)
                good = denotes(ctx, got, [c[1] for c in cells], p.facts, pt.V)
                rep.check('byte-order', inst, good, '%s stores %s instead of the value of the bytes read, most significant first' % (n, show(got)),
                          where, p)
        if not seen:
            rep.und('byte-order', inst, 'no success path recognised')
    rep.counts['scalar functions'] = len(es)


def sample_write(ctx, got, size, val, pt, facts):
    """are these the bytes of the value, most significant first, for the sampled values with which the path is possible?"""
    cs = set()
    for f in list(facts) + got:
        constants(f, cs)
    near = {c + d for c in cs if isinstance(c, int) for d in (-1, 0, 1)}
    unk, n = False, 0
    for pat in dict.fromkeys(x & mask(8 * size) for x in PAT + [1 << i for i in range(8 * size)] + sorted(near)[:200]):
        V = at_iter(pt, ())
        V.l[val] = pat
        V.memo.clear()
        h = holds(facts, V)
        if h is False:
            continue
        for t, want in zip(got, pat.to_bytes(size, 'big')):
            v = ev(t, V)
            if v is None:
                unk = True
            elif v != want:
                return False if h else None
            else:
                n += 1
    return None if unk or not n else True


# ---------------------------------------------------------------- C07
def c07(ctx, rep):
    es = [e for e in scalar_entries(ctx) if e[3]]
    rep.need('field-fit', 300)
    MORE, LAST, FAIL = (ctx.enum('IFF_FIELD_' + x) for x in ('MORE', 'LAST', 'FAILURE'))
    for n, mode, s, _ in es:
        ps = ctx.walk(n)
        if ps is None:
            rep.und('field-fit', n, 'not enumerable')
            continue
        cs, bpp, bp = field_leaves(ctx, n)
        file = P(('argp', 0))
        for c in sorted({-INTMAX - 1, -9, -1, 0, 1, s - 1, s, s + 1, 2 * s, 10, INTMAX - 1, INTMAX}):
            for b in sorted({0, 1, c - s - 1, c - s, c - s + 1, c - 1, c, c + 1, s}):
                if b < 0 or b > INTMAX:
                    continue
                fits = c >= 0 and b + s <= c
                inst = '%s size=%d processed=%d' % (n, c, b)
                nok = 0
                for p in ps:
                    if p.status != 'ret':
                        continue
                    lv = {cs: c & mask(32), bp: b}
                    if not feasible(p.facts, Val(lv)):
                        continue
                    pt = Pt(ctx, p, lv)
                    where = '%s:%s' % (p.file, p.line)
                    steps = pt.steps()
                    if pt.settle(p.events, p.facts):
                        if holds([f for f in p.facts], pt.V) is None:
                            rep.und('field-fit', inst, 'guard not evaluable')
                            continue
                        nok += 1
                        r = ev(p.ret, pt.V)
                        nb = ev(pt.w.load(p.mem, bpp, 4), pt.V)
                        tr = trace(ctx, pt, p.events, file)
                        if r is None or nb is None or any(x[0] == '?' for x in tr):
                            rep.und('field-fit', inst, 'outcome not evaluable')
                            continue
                        if fits:
                            good = r == MORE and nb == b + s and len(tr) == s
                            msg = 'the field fits but %s transfers %d bytes, counts %d and reports status %d' % (n, len(tr), nb - b, r)
                        else:
                            good = r == LAST and nb == b and not tr
                            msg = 'the field does not fit but %s transfers %d bytes, counts %d and reports status %d' % (n, len(tr), nb - b, r)
                        rep.check('field-fit', inst, good, msg, where, p)
                    else:
                        # a failing transfer
                        for e in steps:
                            q = Pt(ctx, p, lv)
                            if not q.settle(p.events, p.facts, fail=e):
                                continue
                            r = ev(p.ret, q.V)
                            nb = ev(q.w.load(p.mem, bpp, 4), q.V)
                            if r is None or nb is None:
                                rep.und('field-fit', inst, 'outcome not evaluable')
                                continue
                            rep.check('field-failure', inst, r == FAIL and nb == b and fits,
                                      'a failing transfer makes %s report status %d and count %d bytes' % (n, r, nb - b), where, p)
                if not nok:
                    rep.und('field-fit', inst, 'no path recognised')
    ps = ctx.walk('IFF_deriveSuccess')
    for v in (MORE, LAST, FAIL):
        for p in ps or []:
            V = Val({('arg', 0, 32): v})
            if holds(p.facts, V):
                r = ev(p.ret, V)
                rep.check('derive-success', 'status %d' % v, None if r is None else bool(r) == (v != FAIL),
                          'IFF_deriveSuccess maps status %d to %s' % (v, r), '%s:%s' % (p.file, p.line), p)
    rep.counts['field functions'] = len(es)


# ---------------------------------------------------------------- C02
FAR = (300, 33001, 65536, 70001, 1 << 24, INTMAX)   # declared sizes on the far side of every narrower counter
ZERO = (0,) * 8
LONG = 60                           # longer streams are judged as runs
NEGATIVE = (-1, -2, -9, -INTMAX, -INTMAX - 1)


def c02(ctx, rep):
    n = 'IFF_writeChunk'
    ps = ctx.walk(n)
    rep.need('chunk-layout', 20)
    if ps is None:
        rep.und('chunk-layout', n, 'not enumerable')
        for i in range(20):
            rep.und('chunk-layout', n, 'not enumerable')
        return
    file, chunk = P(('argp', 0)), P(('argp', 1))
    cs = ctx.fld(chunk, 'IFF_Chunk', 'chunkSize')
    cid = ctx.fld(chunk, 'IFF_Chunk', 'chunkId')
    head = be_bytes(ctx.m.be, cid) + be_bytes(ctx.m.be, cs)
    bl = blocks(ctx, ps)
    small = (0, 1, 2, 3, 4, 7, 12, 13)
    cases = [(None, c, b) for c in sorted(set(small + FAR) | set(near_blocks(bl)))
             for b in (sorted({0, 1, c - 2, c - 1, c, c + 1, c + 2}) if c in small + FAR else (0, 1)) if 0 <= b <= INTMAX]
    cases += [(i, c, b) for i in named_ids(ps) for c, b in ((4, 4), (5, 3), (12, 0))]
    for i, c, b in cases:
        if True:
            inst = '%sdeclared size %d, handler wrote %d' % ('' if i is None else 'chunk %s, ' % i.to_bytes(4, 'big').decode(), c, b)
            n_ok = 0
            for p in ps:
                if p.status != 'ret':
                    continue
                slots = [e for e in p.events if e.kind == 'slot' and e.name.startswith('write')]
                lv = {cs: c}
                if i is not None:
                    lv[cid] = i
                bad = False
                for e in slots:
                    t = ctx.walker().load(e.mem2, e.args[3], 4)
                    lv[t] = b
                pt = Pt(ctx, p, lv)
                if c >= LONG:
                    pt.big = far(c, b, bl)
                if not pt.settle(p.events, p.facts) or not ret_ok(ctx, 'bool', p.ret, pt.V):
                    continue
                if any(s.args[1] != chunk for s in slots):
                    rep.bad('chunk-layout', inst, 'the write handler is not given the chunk being written', slots[0].where(), p)
                    continue
                n_ok += 1
                tr = trace(ctx, pt, p.events, file)
                where = '%s:%s' % (p.file, p.line)
                judge_layout(ctx, rep, inst, tr, head, c, b, where, p, slots, pt)
            if not n_ok:
                rep.und('chunk-layout', inst, 'no success path')
    # whatever the declared size, the header shows it unchanged
    for c in NEGATIVE:
        for p in ps:
            pt = Pt(ctx, p, {cs: c & mask(32)})
            if p.status != 'ret' or not any(e.kind == 'slot' and e.name.startswith('write') for e in p.events) \
                    or not pt.settle(p.events, p.facts):
                continue
            upto = next(i for i, e in enumerate(p.events) if e.kind == 'slot' and e.name.startswith('write'))
            tr = trace(ctx, pt, p.events[:upto], file)
            inst = 'declared size %d' % c
            if any(x[0] not in 'b' for x in tr):
                rep.und('header-value', inst, 'what precedes the handler')
                continue
            want = ((0x46524f4d, c & mask(32)))
            V = at_iter(pt, ())
            V.l[cid] = want[0]
            V.memo.clear()
            got = [ev(x[3], V) for x in tr]
            rep.check('header-value', inst, None if None in got else bytes(got) == want[0].to_bytes(4, 'big') + want[1].to_bytes(4, 'big'),
                      'the header is not the chunk ID and declared size: %s' % show_trace(tr), '%s:%s' % (p.file, p.line), p)
    for p in ps:
        for e in p.events:
            if e.kind == 'slot' and e.name.startswith('write'):
                v = ctx.walker().load(e.mem, e.args[3], 4)
                rep.check('count-starts-at-zero', e.where(), True if v == C(32, 0) else False if isc(v) or v[0] in ('undef', 'ld') else None,
                          'the write handler starts with %s bytes counted as processed' % show(v), e.where(), p)


def named_ids(ps):
    """chunk IDs the conditions of paths mention"""
    cs = set()
    for p in ps:
        for x, _ in p.facts:
            constants(x, cs)
    ids = {k & mask(32) for c in cs if isinstance(c, int) for k in (c, -c)} | {0x464f524d, 0x4c495354, 0x43415420, 0x50524f50}
    return sorted(k for k in ids if all(0x20 <= x < 0x7f for x in k.to_bytes(4, 'big')) and k != 0x54455354)[:12]


def far(c, b, bl=()):
    g = max(0, c - b)
    out = {g, g & 0xff, g & 0xffff, g & 0x7f, g & 0x7fff}
    for k in bl:
        for d in (-1, 0, 1):
            if g // k + d >= 0:
                out.add(g // k + d)
    return tuple(sorted(out))


def near_blocks(bl):
    """declared sizes whose remainder fills blocks exactly, or misses that by a byte"""
    return sorted({k * m + d for k in bl for m in (1, 2) for d in (-1, 0, 1)} | {k * l for k in bl for l in bl if k * l < 1 << 30})


def runs(tr):
    """(kind, number) runs of a trace"""
    out = []
    for x in tr:
        k, n = (x[2][0], x[1]) if x[0] == 'n' else (x[0], 1)
        if out and out[-1][0] == k:
            out[-1][1] += n
        else:
            out.append([k, n])
    return out


def show_runs(r):
    w = {'b': '%d bytes written', 'i': '%d bytes read', 's': '%d handler call'}
    return ', '.join(w.get(k, '%%d %s' % k) % n for k, n in r)


def same_header(ctx, tr, head, pt, p):
    """another spelling of the same header bytes: compared on chunk IDs with which the path is possible"""
    chunk = P(('argp', 1))
    cid, cs = ctx.fld(chunk, 'IFF_Chunk', 'chunkId'), ctx.fld(chunk, 'IFF_Chunk', 'chunkSize')
    size = ev(cs, pt.V)
    if size is None or [x[1] for x in tr[4:8]] != head[4:] and \
            [ev(x[3], pt.V) for x in tr[4:8]] != list((size & mask(32)).to_bytes(4, 'big')):
        return False
    return [x[1] for x in tr[:4]] == head[:4] or cid in pt.V.l and [ev(x[3], pt.V) for x in tr[:4]] == list(pt.V.l[cid].to_bytes(4, 'big')) \
        or cid not in pt.V.l and sample_write(ctx, [x[3] for x in tr[:4]], 4, cid, pt, p.facts) is True


def judge_layout(ctx, rep, inst, tr, head, c, b, where, p, slots, pt):
    want_fill = max(0, c - b)
    if c >= LONG:
        if any(x[0] == '?' for x in tr):
            rep.und('chunk-layout', inst, [x for x in tr if x[0] == '?'][0][1])
            return
        got, want = runs(tr), [['b', 8], ['s', 1]] + ([['b', want_fill + (c & 1)]] if want_fill + (c & 1) else [])
        for x in tr[9:]:
            cells = x[2][1] if x[0] == 'n' and len(x[2]) > 1 else [x[1]] if x[0] == 'b' else []
            if got == want and any(isinstance(y, tuple) and len(y) == 8 and set(y) <= {0, 1} and y != ZERO for y in cells):
                rep.bad('chunk-layout', inst, 'filler or pad byte is not zero', where, p)
                return
        rep.check('chunk-layout', inst, got == want, 'written: %s; required: ID, size, body, %d zero bytes, %d pad byte' %
                  (show_runs(got), want_fill, c & 1), where, p)
        return
    want = ['b'] * 8 + ['s'] + ['b'] * want_fill + ['b'] * (c & 1)
    if any(x[0] == '?' for x in tr):
        rep.und('chunk-layout', inst, [x for x in tr if x[0] == '?'][0][1])
        return
    got = [x[0] for x in tr]
    msg = None
    if got != want:
        msg = 'written: %s; required: ID, size, body, %d zero bytes, %d pad byte' % (show_trace(tr), want_fill, c & 1)
    else:
        if [x[1] for x in tr[:8]] != head and not same_header(ctx, tr, head, pt, p):
            msg = 'the header is not the chunk ID and declared size: %s' % show_trace(tr[:8])
        for x in tr[9:]:
            if x[1] != ZERO:
                if any(y is None or isinstance(y, tuple) and y[0][0] in ('ld', 'undef', 'out') and y[0][0] != 'undef' and len(y[0]) > 3 and y[0][3] != 0
                       for y in x[1]):
                    rep.und('chunk-layout', inst, 'content of the filler')
                    return
                msg = 'filler or pad byte is not zero: %s' % show_trace(tr[9:])
    rep.check('chunk-layout', inst, msg is None, msg or '', where, p)


# ---------------------------------------------------------------- C03
def c03(ctx, rep):
    n = 'IFF_readChunk'
    ps = ctx.walk(n)
    rep.need('chunk-consumption', 20)
    if ps is None:
        for i in range(20):
            rep.und('chunk-consumption', n, 'not enumerable')
        return
    file = P(('argp', 0))
    ID = 0x54455354
    w = ctx.walker()
    bl = blocks(ctx, ps)
    small = (0, 1, 2, 3, 4, 7, 12, 13)
    cases = [(ID, c, b) for c in sorted(set(small + FAR + NEGATIVE) | set(near_blocks(bl)))
             for b in (sorted({0, 1, c - 2, c - 1, c, c + 1, c + 2}) if c in small + FAR else (0, 1)) if 0 <= b <= INTMAX]
    # and the chunk IDs the code singles out
    cases += [(i, c, b) for i in named_ids(ps) for c, b in ((4, 4), (5, 3), (12, 0), (-1, 0), (-8, 0), (-INTMAX - 1, 0))]
    for ID, c, b in cases:
        if True:
            inst = '%sdeclared size %d, handler read %d' % ('' if ID == 0x54455354 else 'chunk %s, ' % ID.to_bytes(4, 'big').decode(), c, b)
            content = list(ID.to_bytes(4, 'big') + (c & mask(32)).to_bytes(4, 'big')) + [0] * 64
            n_ok = 0
            for p in ps:
                if p.status != 'ret' or p.ret == NULL:
                    continue
                lv, m = {}, {}
                pos = 0
                unk = None
                for e in p.events:
                    if e.kind == 'slot' and e.name.startswith('read'):
                        break
                    if e.kind == 'call' and file_of(e) == file:
                        if e.name in ('fgetc', 'getc', '_IO_getc'):
                            lv[e.ret] = content[min(pos, 60)]
                            pos += 1
                        elif e.name == 'fread':
                            t = prod_len(e.args[1], e.args[2])
                            if not isc(t) or t[2] > 40:
                                unk = e
                                break
                            for i in range(t[2]):
                                m[(e.id, i)] = content[min(pos + i, 60)]
                            pos += t[2]
                slots = [e for e in p.events if e.kind == 'slot' and e.name.startswith('read')]
                creates = [e for e in p.events if e.kind == 'slot' and e.name.startswith('create')]
                for e in slots:
                    lv[w.load(e.mem2, e.args[3], 4)] = b
                pt = Pt(ctx, p, lv)

                def fn(t, V_=None, m=m):
                    if t[0] == 'sv':
                        bs = [m.get((t[1], t[2] + i)) for i in range(t[3])]
                        return None if None in bs else int.from_bytes(bytes(bs), 'big' if ctx.m.be else 'little')
                    return None
                pt.V.fn = fn
                pt.V.memo.clear()
                if c >= LONG:
                    pt.big = far(c, b, bl)
                if unk is not None or not pt.settle(p.events, p.facts):
                    continue
                where = '%s:%s' % (p.file, p.line)
                if ret_ok(ctx, 'ptr', p.ret, pt.V) is False:
                    continue
                if len(slots) != 1 or len(creates) != 1:
                    rep.bad('chunk-consumption', inst, 'a chunk is returned after %d create and %d read handler calls' % (len(creates), len(slots)),
                            where, p)
                    continue
                n_ok += 1
                if c < 0:
                    h = ret_ok(ctx, 'ptr', p.ret, pt.V) and holds(p.facts, pt.V)
                    rep.check('negative-size', inst, None if h is None else not h,
                              'a chunk whose declared size is negative is handed out as if read', where, p)
                tr = trace(ctx, pt, p.events, file)
                cr, sl = creates[0], slots[0]
                a0, a1 = ev(cr.args[0], pt.V), ev(cr.args[1], pt.V)
                if a0 is None or a1 is None or c >= 0 and any(x[0] == '?' for x in tr):
                    rep.und('chunk-consumption', inst, 'not evaluable')
                    continue
                msg = None
                if a0 != ID or a1 & mask(32) != c & mask(32):
                    msg = 'the handler is created with ID %#x and size %d, the stream holds ID %#x and size %d' % (a0, a1, ID, c)
                elif p.ret != cr.ret:
                    msg = 'the chunk returned is not the one the handler created'
                elif sl.args[1] != cr.ret:
                    msg = 'the read handler does not work on the chunk that was created'
                elif c >= 0:
                    want = ['i'] * 8 + ['s'] + ['i'] * (max(0, c - b) + (c & 1)) if c < LONG else None
                    got = [x[0] for x in tr]
                    if c >= LONG:
                        g, k = runs(tr), max(0, c - b) + (c & 1)
                        if g != [['i', 8], ['s', 1]] + ([['i', k]] if k else []) and not any(x[0] == 'k' for x in tr):
                            msg = '%s; required after the handler: %d unread plus %d pad byte' % (show_runs(g), max(0, c - b), c & 1)
                    elif got != want:
                        if any(x[0] == 'k' for x in tr):
                            rep.und('chunk-consumption', inst, 'repositioning is judged by C05')
                            continue
                        k = len(got) - got.index('s') - 1 if 's' in got else -1
                        msg = 'after the handler %d bytes are consumed, required: %d unread plus %d pad byte' % (k, max(0, c - b), c & 1)
                        if got[:9] != want[:9]:
                            msg = 'the header does not take exactly 8 bytes before the handler: %s' % show_trace(tr)
                rep.check('chunk-consumption', inst, msg is None, msg or '', where, p)
            if not n_ok:
                if c >= 0:
                    rep.und('chunk-consumption', inst, 'no success path')
                else:
                    rep.ok('negative-size', inst)
    rep.need('negative-size', 5)
    for p in ps:
        for e in p.events:
            if e.kind == 'slot' and e.name.startswith('read'):
                v = w.load(e.mem, e.args[3], 4)
                rep.check('count-starts-at-zero', e.where(), True if v == C(32, 0) else False if isc(v) or v[0] in ('undef', 'ld') else None,
                          'the read handler starts with %s bytes counted as processed' % show(v), e.where(), p)


RULES = {'C01': c01, 'C02': c02, 'C03': c03, 'C07': c07}
