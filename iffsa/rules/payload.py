"""C29, C30: the textual representation, and the payload of raw chunks.

The summaries of the printers are evaluated with the printing of nested chunks as oracles; the text they emit is rendered
from the format strings and the abstract values of their arguments.  The summaries of the raw chunk operations are
evaluated over payload lengths on both sides of every width a size could be narrowed to.
"""
import re, zlib
from ..lib import *
from ..heap import Heap, Evaluator, Stuck, Wrong

OUTFN = {'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'putc', '_IO_putc', 'fwrite', 'vprintf', 'vfprintf', 'IFF_printIndent'}
MARK = 0xe000


class Printer:
    """an abstract heap with standard output, and the text of a run"""

    def __init__(self, ctx, unit='lib'):
        self.ctx, self.unit = ctx, unit
        self.h = h = Heap(ctx)
        h.gl = {('g', x): h.obj(x + ' variable') for x in ('stdin', 'stdout', 'stderr')}
        self.std = {}
        for x in ('stdin', 'stdout', 'stderr'):
            self.std[x] = h.obj(x)
            h.set(h.gl[('g', x)], 8, self.std[x])
        self.marks = []
        self.addr = {0x10000000 + (zlib.crc32(repr(('g', n)).encode()) & 0xffff) * 4096: n for n in ctx.mods[unit].globals}

    def mark(self, *what):
        self.marks.append(what)
        return len(self.marks) - 1

    def string(self, t, v):
        m = self.ctx.mods[self.unit]
        if t[0] == 'p' and t[1][0] == 'g' and not t[3]:
            s = m.gstring(t[1][1], t[2])
            if s is not None:
                return s
        if v is not None:
            b = max((a for a in self.addr if a <= v), default=None)
            if b is not None and v - b < 4096:
                s = m.gstring(self.addr[b], v - b)
                if s is not None:
                    return s
            out = ''
            while v in self.h.strings if hasattr(self.h, 'strings') else False:
                return self.h.strings[v]
        raise Stuck('text of a string')

    def fmt(self, f, terms, vals):
        out = ''
        i = 0
        k = 0
        rx = re.compile(r'%([-0 +#]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])')
        while i < len(f):
            if f[i] != '%':
                out += f[i]
                i += 1
                continue
            m = rx.match(f, i)
            if not m:
                raise Stuck('format %r' % f)
            i = m.end()
            fl, wd, pr, ln, c = m.groups()
            if c == '%':
                out += '%'
                continue
            if wd == '*':
                wd, k = self.given(vals, k, f), k + 1
                fl, wd = (fl + '-', str(-wd)) if wd < 0 else (fl, str(wd))
            if pr == '*':
                pr, k = self.given(vals, k, f), k + 1
                pr = None if pr < 0 else str(pr)
            if k >= len(vals):
                raise Stuck('format %r' % f)
            v, t = vals[k], terms[k]
            k += 1
            if c == 's':
                s = self.text_at(t, v, None if pr is None else int(pr))
            else:
                if v is None:
                    raise Stuck('value printed with %r' % f)
                bits_ = {'hh': 8, 'h': 16, None: 32}.get(ln, 64)
                v &= mask(bits_)
                if c in 'di':
                    v = v - (1 << bits_) if v >> (bits_ - 1) else v
                    s = '%d' % v
                elif c == 'u':
                    s = '%d' % v
                elif c in 'xX':
                    s = ('%' + c) % v
                elif c == 'o':
                    s = '%o' % v
                elif c == 'c':
                    s = chr(v & 255)
                else:
                    raise Stuck('format %r' % f)
                if pr is not None and c in 'diuxXo':
                    s = s.rjust(int(pr), '0')
            if wd:
                s = s.ljust(int(wd)) if '-' in fl else s.rjust(int(wd), '0' if '0' in fl and c in 'diuxXo' else ' ')
            out += s
        return out

    @staticmethod
    def given(vals, k, f):
        if k >= len(vals) or vals[k] is None:
            raise Stuck('format %r' % f)
        v = vals[k] & mask(32)
        return v - (1 << 32) if v >> 31 else v

    def text_at(self, t, v, most):
        """the characters %s shows: up to a zero byte, or at most so many"""
        if most is None:
            return self.string(t, v)
        try:
            return self.string(t, v)[:most]
        except Stuck:
            if v is None:
                raise
        out = ''
        while len(out) < most:
            b = self.h.cell(v + len(out), 1)
            if b is None:
                raise Stuck('text of a string')
            if b == 0:
                break
            out += chr(b)
        return out

    def emitted(self, e, name, a):
        """(stream address, text) of an output call, None for other calls"""
        so = self.std['stdout']
        T = e.args
        if name == 'printf':
            return so, self.fmt(self.string(T[0], a[0]), T[1:], a[1:])
        if name == 'fprintf':
            return a[0], self.fmt(self.string(T[1], a[1]), T[2:], a[2:])
        if name == 'IFF_printIndent':
            if a[1] is None:
                raise Stuck('indentation')
            return a[0], UNIT * a[1] + self.fmt(self.string(T[2], a[2]), T[3:], a[3:])
        if name == 'puts':
            return so, self.string(T[0], a[0]) + '\n'
        if name == 'fputs':
            return a[1], self.string(T[0], a[0])
        if name == 'putchar' or name in ('fputc', 'putc', '_IO_putc'):
            if a[0] is None:
                raise Stuck('character written')
            return (so if name == 'putchar' else a[1]), chr(a[0] & 255)
        if name == 'fwrite':
            if None in a[:3]:
                raise Stuck('block written')
            out = ''
            for i in range(min(a[1] * a[2], 300)):
                b = self.h.cell(a[0] + i, 1)
                if b is None:
                    raise Stuck('block written')
                out += chr(b)
            return a[3], out
        if name in ('vprintf', 'vfprintf'):
            raise Stuck(name)
        return None

    def text(self, log):
        out = ''
        for e, name, a in log:
            if name == 'mark':
                out += chr(MARK + a)
                continue
            if e.kind in ('st', 'bulk', 'ld'):
                continue
            x = self.emitted(e, name, a)
            if x is None:
                continue
            if x[0] is None:
                raise Stuck('stream written')
            if x[0] == self.std['stdout']:
                out += x[1]
        return out


UNIT = '\ue800'      # one level of indentation


def idtext(v):
    return v.to_bytes(4, 'big').decode('latin1')


def run_text(ctx, P_, f, args, extra=None, boundary=frozenset(), maxiter=700):
    """evaluate f and return its text; extra(e, args) -> marker tuple or None"""
    def step(E, e, args_, V, depth):
        if e.name in OUTFN:
            return 'skip'
        if e.name == 'IFF_printId':
            return 'skip'
        if extra:
            return extra(E, e, args_, V)
        return None
    E = Evaluator(ctx, P_.h, boundary=frozenset(CORE | {'IFF_printIndent', 'IFF_printId'} | boundary), step=step, maxiter=maxiter)
    r = E.run(f, args)
    log = []
    for e, n, a in r.log:
        if n == 'IFF_printId':
            if a[0] is None:
                raise Stuck('ID printed')
            log.append((e, 'mark', P_.mark('id', a[0])))
        elif n == 'IFF_printChunk' and f != n:
            log.append((e, 'mark', P_.mark('chunk', a[0], a[1], e)))
        elif e.kind == 'slot' and n.startswith('print'):
            log.append((e, 'mark', P_.mark('slot', a[0], a[1], e)))
        else:
            log.append((e, n, a))
    return r, P_.text(log)


def marks(P_, text):
    """text with marks resolved to what they stand for: list of str and tuples"""
    out, cur = [], ''
    for ch in text:
        if MARK <= ord(ch) < MARK + 0x700:
            k = P_.marks[ord(ch) - MARK]
            if k[0] == 'id':
                cur += idtext(k[1])
            else:
                if cur:
                    out.append(cur)
                out.append(k)
                cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def safe(rep, rule, inst, fn):
    try:
        fn()
    except Wrong as e:
        rep.bad(rule, inst, str(e), e.where)
    except Stuck as e:
        rep.und(rule, inst, str(e))


IDS = (0x515a3778, 0x41412020, 0x7e217e21, 0x20202020)


def c29(ctx, rep):
    rep.need('chunk', 20)
    rep.need('group', 40)
    rep.need('raw', 40)
    rep.need('id', 3)
    for f in ('IFF_printChunk', 'IFF_printRawChunk', 'IFF_printId', 'IFF_printIndent'):
        if not ctx.has(f):
            raise Broken('anchor vanished: %s' % f)
    indent(ctx, rep)
    for v in IDS + (0x31323334, 0x7f417f42):
        safe(rep, 'id', 'IFF_printId(%r)' % idtext(v), lambda: print_id(ctx, rep, v))
    off = set()
    sp = specials(ctx, ctx.walk('IFF_printChunk'))
    odd = tuple(sorted(set(sp.get('chunkId', ())) | set(sp.get('', ())) | {0x464f524d, 0x54455854})[:8])
    for cid in IDS + odd:
        for size in (0, 7, 4711, (1 << 31) - 1) + tuple(sorted(x for x in sp.get('chunkSize', ()) if x < 1 << 31)[:6]):
            for lvl in (0, 1, 3) + levels(sp):
                safe(rep, 'chunk', 'IFF_printChunk(%r, size %d, indent %d)' % (idtext(cid), size, lvl),
                     lambda: print_chunk(ctx, rep, cid, size, lvl, off))
    d1 = off.pop() if len(off) == 1 else None
    for f in ('IFF_printForm', 'IFF_printCAT', 'IFF_printProp', 'IFF_printList'):
        if not ctx.has(f):
            raise Broken('anchor vanished: %s' % f)
        islist = f == 'IFF_printList'
        sp = specials(ctx, ctx.walk(f))
        for n, np_ in ((2, 0), (3, 0), (2, 2), (0, 3)) if islist else ((1, 0), (3, 0)):
            for fld in ('chunkId', 'chunkSize', 'groupType'):
                for v in sorted(set(sp.get(fld, ())) | ({0} if fld == 'chunkSize' else {0x50524f50, 0x54455854, 0x20202020} if fld == 'chunkId' else {0x4a4a4a4a}))[:8]:
                    gt = v if fld == 'groupType' else IDS[0]
                    mem = {} if fld == 'groupType' else {fld: v}
                    for own in ({}, {'chunkSize': v} if fld == 'chunkSize' else None):
                        if own is not None:
                            safe(rep, 'group', '%s(type %r, %d members, %d shared, %s %#x%s)' % (f, idtext(gt), n, np_, fld, v, ', own too' if own else ''),
                                 lambda: print_group(ctx, rep, f, gt, n, np_, 1, islist, d1, mem, own))
        for n in sorted({x for v in sp.values() for x in v if 5 < x < 40} | {17}):
            safe(rep, 'group', '%s(%d members)' % (f, n), lambda: print_group(ctx, rep, f, IDS[0], n, 2 * islist, 0, islist, d1))
            if islist:
                safe(rep, 'group', '%s(%d shared)' % (f, n), lambda: print_group(ctx, rep, f, IDS[0], 1, n, 0, islist, d1))
        for gt in IDS[:2]:
            for n in (0, 1, 2, 3, 5):
                for np_ in ((0, 1, 2, 4) if islist else (0,)):
                    for lvl in (0, 2) + levels(sp):
                        safe(rep, 'group', '%s(type %r, %d members, %d shared, indent %d)' % (f, idtext(gt), n, np_, lvl),
                             lambda: print_group(ctx, rep, f, gt, n, np_, lvl, islist, d1))
    for istext, cid in ((True, 0x54455854), (False, 0x424f4459), (False, 0x54455855), (False, 0x74657874), (False, 0x54004154)):
        raw_text(ctx, rep, istext, cid)
    safe(rep, 'entry', 'IFF_print', lambda: entry(ctx, rep))


def levels(sp):
    """indent levels around those the code singles out"""
    return tuple(sorted({x + d for n in ('',) for x in sp.get(n, ()) if 3 < x < 300 for d in (0, 1)})[:4])


def indent(ctx, rep):
    f = 'IFF_printIndent'
    rep.need('indent', 3)
    unit = None
    sp = specials(ctx, ctx.walk(f))
    for lvl in [1, 0, 2, 5, 33] + sorted({x + d for v in sp.values() for x in v if x < 400 for d in (0, 1, 2)})[:12]:
        inst = '%s(level %d)' % (f, lvl)

        def go():
            nonlocal unit
            P_ = Printer(ctx)
            fa = P_.h.obj('a format')
            st = P_.h.obj('a stream')

            def step(E, e, args, V, depth):
                return 'skip' if e.name in OUTFN else None
            E = Evaluator(ctx, P_.h, boundary=CORE, step=step, maxiter=500)
            r = E.run(f, [st, lvl, fa])
            out, seen = '', 0
            for e, n, a in r.log:
                if n in ('vfprintf', 'vprintf'):
                    if a[0] != st or n == 'vprintf':
                        raise Wrong('the text goes to %s' % P_.h.name(a[0]), e.where())
                    if a[1] != fa:
                        raise Wrong('the text printed is %s' % P_.h.name(a[1]), e.where())
                    seen += 1
                elif n in OUTFN:
                    x = P_.emitted(e, n, a)
                    if x[0] != st:
                        raise Wrong('the indentation goes to %s' % P_.h.name(x[0]), e.where())
                    if seen:
                        raise Wrong('text after the text requested', e.where())
                    out += x[1]
            if unit is None:
                unit = out
            good = seen == 1 and out == unit * lvl and unit.strip() == '' and unit != ''
            rep.check('indent', inst, good, '%s writes %r and the text %d times' % (f, out, seen), '%s:%s' % (r.path.file, r.path.line), r.path)
        safe(rep, 'indent', inst, go)


def print_id(ctx, rep, v):
    P_ = Printer(ctx)

    def step(E, e, args, V, depth):
        return 'skip' if e.name in OUTFN else None
    E = Evaluator(ctx, P_.h, boundary=CORE, step=step)
    r = E.run('IFF_printId', [v])
    t = P_.text(r.log)
    rep.check('id', 'IFF_printId(%r)' % idtext(v), t == idtext(v), 'prints %r' % t, '%s:%s' % (r.path.file, r.path.line), r.path)


def print_chunk(ctx, rep, cid, size, lvl, off):
    inst = 'IFF_printChunk(%r, size %d, indent %d)' % (idtext(cid), size, lvl)
    P_ = Printer(ctx)
    h = P_.h
    ch, reg, ty = h.obj('chunk'), h.obj('registry'), h.obj('chunk type')
    h.field(ch, 'IFF_Chunk', chunkId=cid, chunkSize=size, parent=0)

    def extra(E, e, args, V):
        return ty if e.name == 'IFF_findChunkType' else None
    r, t = run_text(ctx, P_, 'IFF_printChunk', [ch, lvl, 0x46545950, reg], extra)
    ms = marks(P_, t)
    where = '%s:%s' % (r.path.file, r.path.line)
    slots = [x for x in ms if isinstance(x, tuple)]
    if len(slots) != 1:
        raise Wrong('the printer of the chunk type is called %d times' % len(slots), where)
    if slots[0][1] != ch:
        raise Wrong('the printer is given %s' % h.name(slots[0][1]), slots[0][3].where())
    if slots[0][2] is None:
        raise Stuck('indentation of the body')
    off.add(slots[0][2] - lvl)
    plain = ''.join(x for x in ms if isinstance(x, str))
    msg = None
    if plain.count(idtext(cid)) < 1:
        msg = 'the ID is not shown: %r' % plain
    elif not re.search(r'(?<![0-9a-fA-FxX-])%d(?![0-9a-fA-F])' % size, plain.replace(idtext(cid), '', 1)):
        msg = 'the declared size is not shown: %r' % plain
    rep.check('chunk', inst, msg is None, msg or '', where, r.path)


def print_group(ctx, rep, f, gt, n, np_, lvl, islist, d1, mem={}, own={}):
    inst = '%s(type %r, %d members, %d shared, indent %d%s)' % (f, idtext(gt), n, np_, lvl, ''.join(', %s %#x' % x for x in list(mem.items()) + list(own.items())))
    P_ = Printer(ctx)
    h = P_.h
    g, reg = h.obj('group'), h.obj('registry')
    arr = h.obj('members')
    kids = [h.obj('member %d' % i) for i in range(n)]
    props = [h.obj('shared %d' % i) for i in range(np_)]
    h.field(g, 'IFF_Group', chunkId=0x4c495354 if islist else 0x464f524d, chunkSize=100, parent=0, groupType=gt, chunkLength=n, chunk=arr if n else 0)
    for i, k in enumerate(kids):
        h.set(arr + 8 * i, 8, k)
        h.field(k, 'IFF_Chunk', **dict(dict(chunkId=0x424f4459, chunkSize=10 + i, parent=g), **mem))
    if islist:
        pa = h.obj('shared properties')
        h.field(g, 'IFF_List', propLength=np_, prop=pa if np_ else 0)
        for i, k in enumerate(props):
            h.set(pa + 8 * i, 8, k)
            h.field(k, 'IFF_Chunk', **dict(dict(chunkId=0x50524f50, chunkSize=20 + i, parent=g), **mem))

    h.field(g, 'IFF_Chunk', **own)

    def extra(E, e, args, V):
        return 'skip' if e.name == 'IFF_printChunk' else None
    r, t = run_text(ctx, P_, f, [g, lvl, reg], extra)
    ms = marks(P_, t)
    where = '%s:%s' % (r.path.file, r.path.line)
    subs = [x for x in ms if isinstance(x, tuple)]
    if any(x[1] is None or x[2] is None for x in subs):
        raise Stuck('chunk printed')
    want = props + kids
    if [x[1] for x in subs] != want:
        raise Wrong('prints %s, required %s' % ([h.name(x[1]) for x in subs], [h.name(x) for x in want]), where)
    if d1 is not None:
        for x in subs:
            if x[2] != lvl - d1 + 1:
                raise Wrong('%s is printed at indent level %d, its group at %d' % (h.name(x[1]), x[2], lvl - d1), x[3].where())
    first = next((i for i, x in enumerate(ms) if isinstance(x, tuple)), len(ms))
    lead = ''.join(x for x in ms[:first])
    rep.check('group', inst, lead.count(idtext(gt)) == 1, 'the type ID is not shown before the members: %r' % lead, where, r.path)


def raw_data(L, kind=0):
    if kind:
        return [{1: 0, 2: 0x41, 3: 0xff}.get(kind, (0, 0x20, 0x41, 0x0a)[(i % 10) % 4]) for i in range(L)]
    pat = [0x00, 0x09, 0x0a, 0x0f, 0x10, 0x41, 0x7f, 0x80, 0xff, 0x25, 0xf0, 0x20, 0x1f]
    return [pat[(i * 5 + i // 13) % 13] for i in range(min(L, 64))] + [(i * 7) & 255 for i in range(64, L)]


def raw_text(ctx, rep, istext, cid):
    f = 'IFF_printRawChunk'
    frame = {}
    cs = {x + d for v in specials(ctx, ctx.walk(f)).values() for x in v if x < 600 for d in (0, 1, 2)}
    big = sorted({x + d for v in specials(ctx, ctx.walk(f)).values() for x in v if 600 <= x < 70000 for d in (1, 12)})[:4]
    for L in sorted({0, 1, 2, 3, 9, 10, 11, 12, 13, 20, 21, 33, 64, 101, 257} | set(sorted(cs)[:24]) | set(big)):
        ways = [(l, 0) for l in ((0, 1, 2) if L == 0 else (0, 2) if L < 34 else (1,))]
        # payloads that repeat: one value, or the same ten bytes again
        ways += [(1, k) for k in (1, 2, 3, 4)] if L in (21, 33, 64) else []
        for lvl, kind in ways:
            inst = '%s(%r, %d bytes%s, indent %d)' % (f, idtext(cid), L, ('', ' zero', ' 41', ' ff', ' repeating')[kind], lvl)

            def go():
                P_ = Printer(ctx)
                h = P_.h
                ch, reg, d = h.obj('chunk'), h.obj('registry'), h.obj('payload')
                h.field(ch, 'IFF_RawChunk', chunkId=cid, chunkSize=L, parent=0, chunkData=d)
                data = raw_data(L, kind)
                for i, b in enumerate(data):
                    h.set(d + i, 1, b)
                r, t = run_text(ctx, P_, f, [ch, lvl, reg], maxiter=L + 600)
                where = '%s:%s' % (r.path.file, r.path.line)
                if istext:
                    body = ''.join(map(chr, data))
                    got = t
                else:
                    body = ''.join('%02x' % b for b in data)
                    got = re.sub(r'\s', '', t).lower().replace(UNIT, '')
                if L == 0:
                    frame[lvl] = got
                    rep.check('raw', inst, True)
                    return
                fr = frame.get(lvl)
                if fr is None:
                    raise Stuck('frame of the payload')
                good = len(got) == len(fr) + len(body) and any(got == fr[:i] + body + fr[i:] for i in range(len(fr) + 1))
                if good and not istext:
                    good = pairs(t.replace(UNIT, ' ').lower(), data)
                rep.check('raw', inst, good, 'the payload %s is shown as %r' % (' '.join('%02x' % b for b in data), t.replace(UNIT, '  ')), where, r.path)
            safe(rep, 'raw', inst, go)


def pairs(t, data):
    """two digits per byte that are not torn apart by white space"""
    toks = ['%02x' % b for b in data]
    rx = r'\s*'.join(toks)
    return re.search(rx, t) is not None


def entry(ctx, rep):
    P_ = Printer(ctx)
    h = P_.h
    ch, reg = h.obj('chunk'), h.obj('registry')

    def extra(E, e, args, V):
        return 'skip' if e.name == 'IFF_printChunk' else None
    r, t = run_text(ctx, P_, 'IFF_print', [ch, 2, reg], extra)
    ms = [x for x in marks(P_, t) if isinstance(x, tuple)]
    good = len(ms) == 1 and ms[0][1] == ch and ms[0][2] == 2
    rep.check('entry', 'IFF_print', good, 'prints %s' % [(h.name(x[1]), x[2]) for x in ms], '%s:%s' % (r.path.file, r.path.line), r.path)


# ---------------------------------------------------------------- C30
LENS = (0, 1, 2, 3, 7, 20, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1)
SMALL = 24


class Raw:
    def __init__(self, ctx, L, data=None):
        self.ctx = ctx
        self.h = h = Heap(ctx)
        self.ch, self.reg, self.d, self.file, self.bp = h.obj('chunk'), h.obj('registry'), h.obj('payload', 1 << 32), h.obj('stream'), h.obj('bytes processed')
        h.field(self.ch, 'IFF_RawChunk', chunkId=0x424f4459, chunkSize=L & mask(32), parent=0, chunkData=self.d)
        for i, b in enumerate(data or []):
            h.set(self.d + i, 1, b)
        self.off = {x: ctx.m.field('IFF_RawChunk', x)['off'] for x in ('chunkSize', 'chunkData', 'chunkId')}
        self.allocs = {}

    def member(self, log, base, name, initial):
        v = initial
        for e, n, a in log:
            if e.kind == 'st':
                if a[0] is None:
                    raise Stuck('address stored to at %s' % e.where())
                if a[0] == base + self.off[name]:
                    v = a[2]
            elif e.kind == 'bulk' and a[0] is not None and a[2] is not None and a[0] <= base + self.off[name] < a[0] + a[2]:
                v = 0 if e.name == 'fill' and a[1] == 0 else None
        return v

    def static(self, log, base, name):
        """the object of the program a member is left pointing to, where it points to one"""
        v = None
        for e, n, a in log:
            if e.kind == 'st' and a[0] == base + self.off[name]:
                v = e.args[2]
        return v[1][1] if v is not None and v[0] == 'p' and v[1][0] == 'g' else None

    def alloc(self, E, e, args, V):
        """oracle for allocations: a new object per call"""
        n = {'malloc': lambda: args[0], 'calloc': lambda: None if None in args[:2] else args[0] * args[1], 'strdup': lambda: self.slen + 1,
             'strndup': lambda: None if args[1] is None else min(args[1], self.slen) + 1}.get(e.name)
        if n is None:
            return None
        n = n()
        if n is None:
            raise Stuck('size of the allocation at %s' % e.where())
        k = (e.id, n)
        if k not in self.allocs:
            self.allocs[k] = self.h.obj('allocation of %d bytes' % n, n + 1)
        return self.allocs[k]

    def size(self, addr):
        for (i, n), a in self.allocs.items():
            if a == addr:
                return n
        return None


def c30(ctx, rep):
    for f in ('IFF_createRawChunk', 'IFF_readRawChunk', 'IFF_writeRawChunk', 'IFF_copyDataToRawChunkData', 'IFF_setRawChunkData', 'IFF_setTextData'):
        if not ctx.has(f):
            raise Broken('anchor vanished: %s' % f)
    for r in ('create', 'read', 'write', 'copy', 'set', 'text'):
        rep.need(r, 5)
    for L in LENS:
        safe(rep, 'create', 'IFF_createRawChunk(size %d)' % L, lambda: raw_create(ctx, rep, L))
        for b0 in (0, 5):
            if L + b0 < 1 << 31:
                safe(rep, 'read', 'IFF_readRawChunk(%d bytes, %d processed)' % (L, b0), lambda: raw_read(ctx, rep, L, b0))
                safe(rep, 'write', 'IFF_writeRawChunk(%d bytes, %d processed)' % (L, b0), lambda: raw_write(ctx, rep, L, b0))
        safe(rep, 'copy', 'IFF_copyDataToRawChunkData(%d bytes)' % L, lambda: raw_copy(ctx, rep, L))
        safe(rep, 'set', 'IFF_setRawChunkData(%d bytes)' % L, lambda: raw_set(ctx, rep, L))
        if L <= 1 << 24:
            safe(rep, 'text', 'IFF_setTextData(%d characters)' % L, lambda: raw_settext(ctx, rep, L))
    for c in (1, 9, 10, 13, 26, 32, 37, 48, 92, 127, 128, 160, 255):
        for t in ([0x41, 0x42, c, 0x43], [c], [c, 0x41], [0x41, c], [c, c]):
            safe(rep, 'text', 'IFF_setTextData(%s)' % bytes(t), lambda: raw_settext(ctx, rep, len(t), t))


def evalr(ctx, R, f, args, step):
    E = Evaluator(ctx, R.h, boundary=CORE, step=step)
    E.record = True
    return E.run(f, args)


def raw_create(ctx, rep, L):
    f = 'IFF_createRawChunk'
    inst = '%s(size %d)' % (f, L)
    R = Raw(ctx, 0)

    def step(E, e, args, V, depth):
        return R.alloc(E, e, args, V)
    r = evalr(ctx, R, f, [0x424f4459, L], step)
    where = '%s:%s' % (r.path.file, r.path.line)
    if r.ret is None:
        raise Stuck('result')
    if r.ret == 0:
        raise Wrong('no chunk is returned although the memory was available', where)
    d = R.member(r.log, r.ret, 'chunkData', None)
    s = R.member(r.log, r.ret, 'chunkSize', None)
    if d is None or s is None:
        raise Stuck('members of the chunk')
    n = R.size(d)
    if n is None and d != 0:
        g = R.static(r.log, r.ret, 'chunkData')
        raise Wrong('the payload is %s, which every such chunk shares and none can release' % g, where) if g else Stuck('payload')
    rep.check('create', inst, s == L and (n is not None and n >= L or d == 0 and L == 0),
              'a chunk of declared size %d has size member %d and a payload of %s bytes' % (L, s, n), where, r.path)


def data_of(L):
    return [(37 * i + 5) & 255 for i in range(min(L, SMALL))]


def final_count(R, log, b0):
    v = b0
    for e, n, a in log:
        if e.kind == 'st':
            if a[0] is None:
                raise Stuck('address stored to at %s' % e.where())
            if a[0] == R.bp:
                v = a[2]
    if v is None:
        raise Stuck('bytes counted')
    return v


def raw_read(ctx, rep, L, b0):
    f = 'IFF_readRawChunk'
    inst = '%s(%d bytes, %d processed)' % (f, L, b0)
    R = Raw(ctx, L)
    R.h.set(R.bp, 4, b0)
    data = data_of(L)

    def step(E, e, args, V, depth):
        if e.name == 'fread':
            if args[2] is None:
                raise Stuck('fread')
            return args[2]
        if e.name in ('fgetc', 'getc', '_IO_getc'):
            if L > SMALL:
                raise Stuck('byte loop')
            i = V.cnt.get('in', 0)
            V.cnt = dict(V.cnt, **{'in': i + 1})
            return data[i] if i < len(data) else mask(32)
        if e.name in ('feof', 'ferror'):
            return 0
        return None
    r = evalr(ctx, R, f, [R.file, R.ch, R.reg, R.bp], step)
    where = '%s:%s' % (r.path.file, r.path.line)
    pos, total = 0, 0
    for e, n, a in r.log:
        if n == 'fread' and e.kind == 'call':
            if None in a[:4]:
                raise Stuck('fread')
            if a[3] != R.file:
                raise Wrong('reads from %s' % R.h.name(a[3]), e.where())
            k = a[1] * a[2]
            if k and a[0] != R.d + pos:
                raise Wrong('%d bytes are read to %s after %d bytes of the payload' % (k, R.h.name(a[0]), pos), e.where())
            pos += k
            total += k
        elif n in ('fgetc', 'getc', '_IO_getc'):
            total += 1
        elif e.kind == 'st' and a[0] is not None and R.d <= a[0] < R.d + (1 << 31):
            if a[0] != R.d + pos or a[2] is None:
                raise Stuck('order of the bytes stored') if a[2] is None else Wrong('payload byte %d is stored as byte %d' % (pos, a[0] - R.d), e.where())
            if pos < len(data) and a[2] != data[pos]:
                raise Wrong('payload byte %d is not the byte read' % pos, e.where())
            pos += 1
        elif e.kind in ('slot', 'icall') or n in ('fseek', 'fgets', 'ungetc', 'rewind', 'memcpy', 'memmove'):
            raise Stuck(n)
    if r.ret is None:
        raise Stuck('result')
    v = final_count(R, r.log, b0)
    good = r.ret != 0 and total == L and pos == L and v == b0 + L
    rep.check('read', inst, good, 'takes %d bytes, stores %d, counts %d, result %d' % (total, pos, v - b0, r.ret), where, r.path)


def raw_write(ctx, rep, L, b0):
    f = 'IFF_writeRawChunk'
    inst = '%s(%d bytes, %d processed)' % (f, L, b0)
    data = data_of(L)
    R = Raw(ctx, L, data)
    R.h.set(R.bp, 4, b0)

    def step(E, e, args, V, depth):
        if e.name == 'fwrite':
            if args[2] is None:
                raise Stuck('fwrite')
            return args[2]
        if e.name in ('fputc', 'putc', '_IO_putc'):
            if L > SMALL:
                raise Stuck('byte loop')
            return args[0] & 255 if args[0] is not None else None
        if e.name in ('fflush', 'ferror'):
            return 0
        return None
    r = evalr(ctx, R, f, [R.file, R.ch, R.reg, R.bp], step)
    where = '%s:%s' % (r.path.file, r.path.line)
    pos = 0
    for e, n, a in r.log:
        if n == 'fwrite' and e.kind == 'call':
            if None in a[:4]:
                raise Stuck('fwrite')
            if a[3] != R.file:
                raise Wrong('writes to %s' % R.h.name(a[3]), e.where())
            k = a[1] * a[2]
            if k and a[0] != R.d + pos:
                raise Wrong('%s is written after %d bytes of the payload' % (R.h.name(a[0]), pos), e.where())
            pos += k
        elif n in ('fputc', 'putc', '_IO_putc'):
            if a[0] is None:
                raise Stuck(n)
            if pos < len(data) and a[0] & 255 != data[pos]:
                raise Wrong('payload byte %d is written as %#x' % (pos, a[0] & 255), e.where())
            pos += 1
        elif e.kind in ('slot', 'icall') or n in ('fseek', 'fputs', 'fprintf', 'rewind'):
            raise Stuck(n)
    if r.ret is None:
        raise Stuck('result')
    v = final_count(R, r.log, b0)
    good = r.ret != 0 and pos == L and v == b0 + L
    rep.check('write', inst, good, 'writes %d bytes, counts %d, result %d' % (pos, v - b0, r.ret), where, r.path)


def copied(R, log, dst, src, data, L, text=False):
    """number of bytes copied in order from src to dst"""
    pos = 0
    for e, n, a in log:
        if e.kind == 'bulk' and e.name == 'copy' or e.kind == 'call' and n in ('memcpy', 'memmove', 'strncpy', '__memcpy_chk'):
            if None in a[:3]:
                raise Stuck('copy')
            if a[0] - pos != dst or a[1] - pos != src:
                if dst <= a[0] < dst + max(L, 1):
                    raise Wrong('%d bytes are copied from %s to %s' % (a[2], R.h.name(a[1]), R.h.name(a[0])), e.where())
                continue
            if n == 'strncpy' and not text and a[2] > 1:
                raise Wrong('copying ends at the first zero byte of the data', e.where())
            pos += a[2]
        elif e.kind == 'st' and a[0] is not None and dst <= a[0] < dst + max(L, 1):
            if a[0] != dst + pos or a[2] is None:
                raise Stuck('order of the bytes stored')
            if pos >= len(data) or a[2] != data[pos]:
                raise Wrong('byte %d is not the byte given' % pos, e.where())
            pos += 1
        elif e.kind == 'call' and n in ('strcpy', 'stpcpy', 'mempcpy', 'strcat', 'snprintf', 'sprintf'):
            raise Stuck(n)
        elif e.kind in ('icall', 'slot'):
            raise Stuck(n)
    return pos


def raw_copy(ctx, rep, L):
    f = 'IFF_copyDataToRawChunkData'
    inst = '%s(%d bytes)' % (f, L)
    R = Raw(ctx, L)
    src = R.h.obj('data', 1 << 32)
    data = data_of(L)
    for i, b in enumerate(data):
        R.h.set(src + i, 1, b)
    r = evalr(ctx, R, f, [R.ch, src], lambda *a: None)
    n = copied(R, r.log, R.d, src, data, L)
    d = R.member(r.log, R.ch, 'chunkData', R.d)
    s = R.member(r.log, R.ch, 'chunkSize', L)
    rep.check('copy', inst, None if d is None or s is None else n == L and d == R.d and s == L, 'copies %s bytes, size %s' % (n, s), '%s:%s' % (r.path.file, r.path.line), r.path)


def raw_set(ctx, rep, L):
    f = 'IFF_setRawChunkData'
    inst = '%s(%d bytes)' % (f, L)
    R = Raw(ctx, 99)
    new = R.h.obj('data')
    r = evalr(ctx, R, f, [R.ch, new, L], lambda E, e, a, V, d: 'skip' if e.name == 'free' else None)
    d = R.member(r.log, R.ch, 'chunkData', R.d)
    s = R.member(r.log, R.ch, 'chunkSize', 99)
    rep.check('set', inst, None if d is None or s is None else d == new and s == L, 'the payload is %s with size %s' % (R.h.name(d), s), '%s:%s' % (r.path.file, r.path.line), r.path)


def raw_settext(ctx, rep, L, text=None):
    f = 'IFF_setTextData'
    inst = '%s(%d characters)' % (f, L) if text is None else '%s(%s)' % (f, bytes(text))
    R = Raw(ctx, 99)
    R.slen = L
    src = R.h.obj('text', 1 << 32)
    data = text or [0x41 + i % 26 for i in range(min(L, SMALL))]
    for i, b in enumerate(data):
        R.h.set(src + i, 1, b)
    if L == len(data):
        R.h.set(src + L, 1, 0)

    def step(E, e, args, V, depth):
        if e.name == 'strlen':
            if args[0] != src:
                raise Stuck('strlen')
            return L
        if e.name == 'free':
            return 'skip'
        if e.name in ('strdup', 'strndup') and args[0] != src:
            raise Stuck(e.name)
        return R.alloc(E, e, args, V)
    r = evalr(ctx, R, f, [R.ch, src], step)
    where = '%s:%s' % (r.path.file, r.path.line)
    d = R.member(r.log, R.ch, 'chunkData', R.d)
    s = R.member(r.log, R.ch, 'chunkSize', 99)
    if d is None or s is None or r.ret is None:
        raise Stuck('members')
    if r.ret == 0:
        raise Wrong('fails although the memory was available', where)
    if s != L:
        raise Wrong('the size is %d' % s, where)
    dup = any(e.name in ('strdup', 'strndup') and e.kind == 'call' and (e.id, R.size(d)) in R.allocs for e, n, a in r.log if e.kind == 'call')
    n = R.size(d)
    if d == R.d:
        n = 99
    if n is None and d != 0:
        g = R.static(r.log, R.ch, 'chunkData')
        raise Wrong('the payload is %s' % (g or R.h.name(d)), where) if d == src or g else Stuck('payload')
    if d == 0:
        rep.check('text', inst, L == 0, 'no payload', where, r.path)
        return
    c = L if dup and n >= L else copied(R, r.log, d, src, data + [0], L, True)
    rep.check('text', inst, L <= c <= L + 1 and n >= L, '%d characters are copied to %d bytes' % (c, n), where, r.path)


RULES = {'C29': c29, 'C30': c30}
