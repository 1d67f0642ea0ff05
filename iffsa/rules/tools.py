"""C25, C26: the joining tool and the pretty printer.

The summaries of the tools' operations are evaluated with every library operation they use as an oracle, over all outcomes
of those operations; what reaches the output and the exit status must be what the property prescribes.
"""
import itertools
from ..lib import *
from ..heap import Heap, Evaluator, Stuck, Wrong
from .conform import FORM, CAT, LIST, ILBM, JJJJ

ADD = {'IFF_addToCAT', 'IFF_addToCATAndUpdateContentsType', 'IFF_addToGroup'}
CREATE = {'IFF_createEmptyCAT', 'IFF_createEmptyCATWithContentsType', 'IFF_createCAT'}
READ = {'IFF_read', 'IFF_readFile', 'IFF_readFd'}
WRITE = {'IFF_write', 'IFF_writeFile', 'IFF_writeFd', 'IFF_writeChunk'}
OPENERS = {'fopen', 'freopen', 'open', 'creat', 'remove', 'unlink', 'rename', 'truncate', 'fdopen'}
STDOUT = {'printf', 'puts', 'putchar', 'vprintf'}


def libfns(ctx):
    return {f for f in ctx.m.fns if ctx.m.body(f)}


def tool(ctx, unit, f):
    if unit not in ctx.mods:
        raise Broken('anchor vanished: the sources of %s' % unit)
    return ctx.mods[unit].body(f) is not None


def words(ctx, ps, unit):
    """file names that deserve a case of their own: short ones, and every text or character the code compares something with"""
    out = {'-', '', '--', 'x', '0', '/dev/null', '/dev/stdout', '-.iff', 'a.iff.', '.'}
    for v in specials(ctx, ps).values():
        for c in v:
            if 32 <= c < 127:
                out |= {chr(c), chr(c) + 'x.iff', 'x' + chr(c), 'x' + chr(c) + 'x'}
    m = ctx.mods[unit]
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and (e.name.startswith('str') or e.name == 'memcmp'):
                for t in e.args:
                    if t[0] == 'p' and t[1][0] == 'g':
                        s = m.gstring(t[1][1], t[2])
                        if s is not None and len(s) < 200:
                            out |= {s, 'x' + s, s + 'x'}
    return sorted(out)


SHAPES = ((FORM, 4, 0), (FORM, 0, 0), (CAT, 4, 0), (LIST, 4, 0), (FORM, 52, 3), (FORM, 0x7fffffff, 1), (FORM, mask(32), 0), (CAT, 40, 2), (LIST, 41, 2))


def shapes(ctx, ps):
    """(id, size, members) of the chunks a tool may be given"""
    sp = specials(ctx, ps, 1)
    out = list(SHAPES)
    for k in ('chunkSize', ''):
        out += [(FORM, v, 1) for v in sorted(sp.get(k, ()))[:20]]
    for k in ('chunkId', ''):
        out += [(v, 4, 0) for v in sorted(sp.get(k, ()))[:20]]
    out += [(FORM, 40, v) for v in sorted(sp.get('chunkLength', ()))[:20] if v < 64]
    return list(dict.fromkeys(out))


def groupobj(h, name, shape):
    a = h.obj(name)
    i, sz, n = shape
    h.field(a, 'IFF_Group', parent=0, chunkId=i, chunkSize=sz, groupType=ILBM, chunkLength=n, chunk=0)
    if n:
        arr = h.obj('members of ' + name)
        for k in range(n):
            m = h.obj('member %d of %s' % (k, name))
            h.field(m, 'IFF_Chunk', parent=a, chunkId=ILBM, chunkSize=0)
            h.set(arr + 8 * k, 8, m)
        h.field(a, 'IFF_Group', chunk=arr)
    return a


# ---------------------------------------------------------------- C25
def c25(ctx, rep):
    rep.need('join', 60)
    rep.need('command', 6)
    if not tool(ctx, 'iffjoin', 'IFF_join') or not tool(ctx, 'iffjoin', 'main'):
        raise Broken('anchor vanished: IFF_join or main of iffjoin')
    join(ctx, rep)
    join_main(ctx, rep)
    write_target(ctx, rep)


def outcomes(n):
    """per file: 'ok', 'read', 'check', 'add' (the step that fails)"""
    if n <= 2:
        yield from itertools.product(('ok', 'read', 'check', 'add'), repeat=n)
    else:
        for i in range(n):
            for o in ('read', 'check', 'add'):
                yield tuple(o if j == i else 'ok' for j in range(n))
        yield ('ok',) * n


FORMS = (FORM, 4, 0)


def join(ctx, rep):
    f = 'IFF_join'
    bound = (libfns(ctx) | {'printUsage', 'printVersion'})
    ps = ctx.walk(f, boundary=bound, unit='iffjoin') or []
    W = words(ctx, ps, 'iffjoin')
    for w in W:
        for wr in (1, 0):
            one_join(ctx, rep, f, bound, 2, ('ok', 'ok'), w, wr, 1)
        one_join(ctx, rep, f, bound, 2, ('ok', 'ok'), 'out.iff', 1, 1, files=('a.iff', w))
        one_join(ctx, rep, f, bound, 1, ('ok',), w, 1, 1, files=(w,))
        for o in ('read', 'check', 'add'):
            one_join(ctx, rep, f, bound, 2, ('ok', o), w, 1, 1, files=('a.iff', w))
    for i, sh in enumerate(shapes(ctx, ps)):
        for oc in (('ok', 'ok'), ('check', 'ok'), ('ok', 'check'), ('ok', 'add')):
            one_join(ctx, rep, f, bound, 2, oc, 'out.iff', 1, 1, shp=(sh, FORMS))
            one_join(ctx, rep, f, bound, 2, oc, None, 1, 1, shp=(FORMS, sh))
    for fs in (('a.iff', 'a.iff'), ('a.iff', 'b.iff', 'a.iff'), ('a.iff', 'a.iff', 'a.iff'), ('b.iff', 'a.iff'), ('out.iff', 'a.iff')):
        for at in [None] + list(range(len(fs))):
            for o in ('read', 'check', 'add')[:1 if at is None else 3]:
                for name in ('out.iff', None)[:2 if at is None else 1]:
                    one_join(ctx, rep, f, bound, len(fs), tuple(o if i == at else 'ok' for i in range(len(fs))), name, 1, 1, files=fs)
    sp = specials(ctx, ps, 1).get('', ())
    one_join(ctx, rep, f, bound, 300, ('ok',) * 300, 'out.iff', 1, 1)
    one_join(ctx, rep, f, bound, 300, ('ok',) * 299 + ('check',), 'out.iff', 1, 1)
    for n in sorted(v for v in sp if 36 <= v <= 1100)[-6:]:
        one_join(ctx, rep, f, bound, n, ('ok',) * n, 'out.iff', 1, 1)
    for n in sorted({5, 6, 8, 9, 16, 17, 33} | {v for v in sp if 4 < v < 36}):
        one_join(ctx, rep, f, bound, n, ('ok',) * n, 'out.iff', 1, 1)
        for o in ('read', 'check', 'add'):
            for at in (0, n // 2, n - 1):
                one_join(ctx, rep, f, bound, n, tuple(o if i == at else 'ok' for i in range(n)), 'out.iff', 1, 1)
    for n in range(0, 5):
        for oc in outcomes(n):
            for name in (None, 'out.iff'):
                for wr in (1, 0):
                    for cr in (1, 0):
                        if (wr == 0 or name is None and n > 2) and any(x != 'ok' for x in oc) or cr == 0 and (n > 1 or wr == 0):
                            continue
                        one_join(ctx, rep, f, bound, n, oc, name, wr, cr)


def one_join(ctx, rep, f, bound, n, oc, name, wr, cr, files=None, shp=None):
    h = Heap(ctx)
    h.gl = {('g', 'stdout'): h.obj('stdout variable'), ('g', 'stderr'): h.obj('stderr variable')}
    so = h.obj('stdout')
    h.set(h.gl[('g', 'stdout')], 8, so)
    h.set(h.gl[('g', 'stderr')], 8, h.obj('stderr'))
    names = [h.text(h.obj('input %d' % i), files[i] if files else '%s.iff' % chr(97 + i % 26)) for i in range(n)]
    arr = h.obj('inputs', 8 * n + 0x400)
    for i, x in enumerate(names):
        h.set(arr + 8 * i, 8, x)
    out = h.text(h.obj('output name'), name) if name is not None else 0
    cat = h.obj('concatenation')
    h.field(cat, 'IFF_Group', parent=0, chunkId=CAT, chunkSize=4, groupType=JJJJ, chunkLength=0)
    hdl = h.obj('output file opened by the tool')
    chunk = [groupobj(h, 'chunk %d' % i, shp[i] if shp else FORMS) for i in range(n)]
    held = []

    def who(c):
        if c is None:
            raise Stuck('chunk')
        return chunk.index(c) if c in chunk else None

    def step(E, e, args, V, depth):
        if e.name in CREATE:
            return cat if cr else 0
        if e.name in READ:
            if args[0] is None:
                raise Stuck('file read')
            if args[0] not in names:
                raise Wrong('%s is read' % h.name(args[0]), e.where())
            i = names.index(args[0])
            return 0 if oc[i] == 'read' else chunk[i]
        if e.name in ('IFF_check', 'IFF_checkChunk'):
            i = who(args[0])
            return 1 if i is None else int(oc[i] not in ('check', 'read'))
        if e.name in ADD:
            i = who(args[1])
            if i is None:
                return 1
            if oc[i] == 'add':
                return 0
            if args[0] == cat:
                # what adding leaves in the concatenation, for tools that look at it
                held.append(i)
                h.field(cat, 'IFF_Group', groupType=ILBM, chunkLength=len(held), chunkSize=4 + sum(8 + (shp[j] if shp else FORMS)[1] for j in held) & mask(32))
            return 1
        if e.name in WRITE:
            return wr
        if e.name in ('fflush', 'fclose'):
            return 0
        if e.name in ('fopen', 'open', 'creat', 'fdopen'):
            return hdl
        return None
    inst = '%s: %d inputs %s, %s%s%s' % (f, n, list(oc) if n < 40 else [x for x in oc if x != 'ok'] or 'ok', 'to standard output' if name is None else 'to a file' if name == 'out.iff' else 'to %r' % name, '' if wr else ', the write fails', '' if cr else ', no memory')
    if files:
        inst += ', files %s' % list(files)
    if shp:
        inst += ', chunks %s' % [tuple('%x' % v for v in x) for x in shp]
    E = Evaluator(ctx, h, boundary=bound, unit='iffjoin', step=step, maxiter=80 + n)
    try:
        r = E.run(f, [arr, n, out])
    except Wrong as e:
        rep.bad('join', inst, str(e), e.where)
        return
    except Stuck as e:
        rep.und('join', inst, str(e))
        return
    ok = cr and all(x == 'ok' for x in oc)
    where = '%s:%s' % (r.path.file, r.path.line)

    def bad(msg, w=where):
        rep.bad('join', inst, msg, w, r.path)
    reads, checked, added, writes, opened = [], set(), [], [], []
    for e, nm, args in r.log:
        if nm in READ:
            if writes:
                return bad('an input is read after the output was written', e.where())
            reads.append(names.index(args[0]))
        elif nm in ('IFF_check', 'IFF_checkChunk'):
            checked.add(args[0])
        elif nm in ADD:
            if args[0] != cat:
                return bad('a chunk is added to %s' % h.name(args[0]), e.where())
            if writes:
                return bad('a chunk is added after the output was written', e.where())
            added.append(args[1])
        elif nm in WRITE:
            if not ok:
                return bad('the output is written although %s' % ('nothing was created' if not cr else 'not every input is valid'), e.where())
            tgt, what = (args[0], args[1])
            good = tgt == out if nm == 'IFF_write' else (tgt == out and out) if nm == 'IFF_writeFile' else tgt == so and not out or tgt == hdl and out and opened
            if tgt is None or what is None:
                return rep.und('join', inst, 'target of the write')
            if not good:
                return bad('%s() writes to %s' % (nm, h.name(tgt)), e.where())
            if what != cat:
                return bad('%s is written instead of the concatenation' % h.name(what), e.where())
            if added != chunk:
                return bad('written with %s, required %s' % ([h.name(x) for x in added][:40], [h.name(x) for x in chunk][:40]), e.where())
            if any(c not in checked for c in chunk):
                return bad('written without checking %s' % [h.name(c) for c in chunk if c not in checked], e.where())
            writes.append(e)
        elif nm in OPENERS:
            if not args or args[0] != out or not out:
                return rep.und('join', inst, '%s() at %s' % (nm, e.where()))
            if not ok:
                return bad('%s() touches the output although not every input is valid' % nm, e.where())
            opened.append(e)
        elif nm in STDOUT or nm in ('fprintf', 'fputs', 'fwrite', 'fputc', 'putc') and file_of(e) is not None and file_of(e) != 'stdout' and ev(file_of(e), r.V) == so:
            return bad('%s() adds to the standard output' % nm, e.where())
    if reads != sorted(set(reads)):
        return bad('the inputs are read in the order %s' % (reads if n < 40 else reads[:40] + ['...']))
    if ok and len(writes) != 1:
        return bad('the output is written %d times' % len(writes))
    want = bool(ok and wr)
    rep.check('join', inst, None if r.ret is None else (r.ret == 0) == want, 'the status is %s, required %s' % (r.ret, 'zero' if want else 'nonzero'), where, r.path)


def getopt_world(ctx, h, opts, optind, argv, optarg):
    gi = P(('g', 'optind'))
    ga = P(('g', 'optarg'))

    def bind(E, e, args, V):
        i = V.cnt.get('option', 0)
        V.cnt = dict(V.cnt, option=i + 1)
        V.l[E.w.out(e.id, gi, 4, False)] = optind
        V.ptr[E.w.out(e.id, ga, 8, True)[1]] = optarg if i < len(opts) and opts[i] == 'o' else 0
        return ord(opts[i]) if i < len(opts) else mask(32)
    return bind


def options_complaint(ctx, E, e, unit, want):
    """the option text and the table of long options accept what is documented"""
    m = ctx.mods[unit]
    t = e.args[2]
    s = m.gstring(t[1][1], t[2]) if t[0] == 'p' and t[1][0] == 'g' else None
    if s is None:
        return None
    for c, (longname, arg) in want.items():
        i = s.find(c)
        if i < 0:
            return 'option -%s is not accepted (%r)' % (c, s)
        if (s[i + 1:i + 2] == ':') != arg:
            return 'option -%s %s an argument (%r)' % (c, 'lacks' if arg else 'takes', s)
    if e.name == 'getopt_long' and len(e.args) > 3:
        tab = e.args[3]
        found = {}
        for i in range(16):
            np = E.w.load(e.mem, padd(tab, 32 * i, ()), 8, True)
            if np == NULL or isc(np):
                break
            if np[0] != 'p' or np[1][0] != 'g':
                return None
            ha = E.w.load(e.mem, padd(tab, 32 * i + 8, ()), 4)
            fl = E.w.load(e.mem, padd(tab, 32 * i + 16, ()), 8, True)
            va = E.w.load(e.mem, padd(tab, 32 * i + 24, ()), 4)
            if not (isc(ha) and isc(va)):
                return None
            found[m.gstring(np[1][1], np[2])] = (ha[2], fl == NULL or isc(fl), va[2])
        else:
            return None
        for c, (longname, arg) in want.items():
            got = found.get(longname)
            if got is None:
                return 'option --%s is not accepted' % longname
            if got != (int(arg), True, ord(c)):
                return 'option --%s is handled differently from -%s' % (longname, c)
    return None


def join_main(ctx, rep):
    f = 'main'
    bound = libfns(ctx) | {'IFF_join', 'printUsage', 'printVersion'}
    ps = ctx.walk(f, boundary=bound, unit='iffjoin') or []
    W = words(ctx, ps, 'iffjoin')
    allsp = set().union(*specials(ctx, ps, 1).values())
    sp = {v for v in allsp if v < 60}
    many = [300] + sorted(v for v in allsp if 128 <= v <= 1100)[-6:]
    cases = [(o, n, st, None, None) for o in ([], ['o']) for n in many for st in (0, 1)]
    cases += [(o, n, st, None, None) for o in ([], ['o'], ['?'], ['o', '?'], ['?', 'o']) for n in sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 20} | sp) for st in (0, 1)]
    cases += [(['o'], 2, st, w, None) for w in W for st in (0, 1)] + [(['o', 'o'], n, 0, w, None) for w in W[:3] for n in (0, 1, 2)]
    cases += [(o, n, 0, None, w) for w in W for o in ([], ['o']) for n in (1, 2, 3)]
    cases += [(['o'], 1, 0, w, w) for w in W]
    cases += [(o, n, 0, None, None) for o in (['h'], ['v'], ['o', 'h'], ['h', 'o']) for n in (0, 2)]
    cases += [(['o'], 2, st, None, None) for st in sorted(sp | {2, 3, 255, 256, mask(32), 0x100, 0x10000})]
    for opts, nin, st, ow, iw in cases:
        if True:
            h = Heap(ctx)
            room = 0x400 + 8 * nin
            argv = h.obj('argv', room)
            first = 1 + 2 * len(opts)
            names = [h.text(h.obj('argument %d' % i), 'iffjoin' if i == 0 else '-o' if i < first else iw if iw is not None and i == first + nin - 1 else '%s.iff' % chr(97 + i % 26)) for i in range(first + nin)]
            for i, x in enumerate(names):
                h.set(argv + 8 * i, 8, x)
            h.set(argv + 8 * len(names), 8, 0)
            oarg = h.text(h.obj('option argument'), 'out.iff' if ow is None else ow)
            arrs = {}
            h.gl = {('g', 'stderr'): h.obj('stderr variable'), ('g', 'stdout'): h.obj('stdout variable')}
            gw = getopt_world(ctx, h, opts, first, argv, oarg)

            def step(E, e, args, V, depth):
                if e.name in ('getopt_long', 'getopt', 'getopt_long_only'):
                    # the same call evaluated on different paths is the same step: count per evaluation
                    c = options_complaint(ctx, E, e, 'iffjoin', {'o': ('output-file', True)})
                    if c:
                        raise Wrong(c, e.where())
                    return gw(E, e, args, V)
                if e.name in ('malloc', 'calloc'):
                    sz = args[0] if e.name == 'malloc' else None if None in args else args[0] * args[1]
                    k = ('a', sz)
                    if k not in arrs:
                        arrs[k] = h.obj('inputs', room)
                    return arrs[k]
                if e.name == 'IFF_join':
                    return st
                return None
            inst = 'main of iffjoin: options %s%s, %d inputs%s, joining %s' % (opts, '' if ow is None else ' %r' % ow, nin, '' if iw is None else ' (%r)' % iw, 'gives %d' % st if st else 'succeeds')
            E = Evaluator(ctx, h, boundary=bound, unit='iffjoin', step=step, maxiter=80 + nin)
            E.record = True
            try:
                r = E.run(f, [first + nin, argv])
                where = '%s:%s' % (r.path.file, r.path.line)
                js = [(e, args) for e, nm, args in r.log if nm == 'IFF_join']
                if set(opts) & {'h', 'v'}:
                    rep.check('command', inst, None if r.ret is None else not js and r.ret == 0, 'status %s, joined %d times' % (r.ret, len(js)), where, r.path)
                    continue
                refused = nin == 0 or '?' in opts
                if refused:
                    rep.check('command', inst, None if r.ret is None else not js and r.ret != 0, 'status %s, joined %d times' % (r.ret, len(js)), where, r.path)
                    continue
                if len(js) != 1:
                    raise Wrong('the inputs are joined %d times' % len(js), where)
                e, args = js[0]
                if None in args:
                    raise Stuck('arguments of IFF_join')
                arr = {}
                for e2, nm, a2 in r.log:
                    if nm == 'st' and a2[0] is not None and any(b <= a2[0] < b + room for b in arrs.values()):
                        arr[a2[0]] = a2[2]
                    elif nm in ('bulk', 'memcpy', 'memmove') and None not in a2[:3] and any(b <= a2[0] < b + room for b in arrs.values()):
                        for k in range(0, a2[2], 8):
                            arr[a2[0] + k] = h.cell(a2[1] + k, 8)
                got = [arr.get(args[0] + 8 * i) if args[0] in arrs.values() else h.cell(args[0] + 8 * i, 8) for i in range(args[1])] if args[1] <= nin + 50 else args[1]
                want = names[first:]
                if got != want:
                    vague = any(nm in ('st', 'bulk', 'memcpy', 'memmove') and None in a2[:3] for e2, nm, a2 in r.log)
                    if isinstance(got, list) and None in got and args[1] == nin and vague:
                        raise Stuck('names of the inputs')
                    raise Wrong('the inputs are %s, required %s' % ('%d: %s' % (len(got), [h.name(x) if x is not None else 'nothing' for x in got][:40]) if isinstance(got, list) else got, [h.name(x) for x in want][:40]), e.where())
                wo = oarg if 'o' in opts else 0
                if args[2] != wo:
                    raise Wrong('the output is %s, required %s' % (h.name(args[2]), h.name(wo)), e.where())
                rep.check('command', inst, None if r.ret is None else (r.ret != 0) == (st != 0), 'status %s' % r.ret, where, r.path)
            except Wrong as e:
                rep.bad('command', inst, str(e), e.where)
            except Stuck as e:
                rep.und('command', inst, str(e))


def write_target(ctx, rep):
    """IFF_write: named file or standard output"""
    for f, fd, fl, std, chunkarg in (('IFF_write', 'IFF_writeFd', 'IFF_writeFile', 'stdout', 1), ):
        route(ctx, rep, f, fd, fl, std, chunkarg)
    if ctx.has('IFF_writeFile'):
        mode(ctx, rep, 'IFF_writeFile', 'w')


def route(ctx, rep, f, fd, fl, std, chunkarg):
    if not ctx.has(f):
        raise Broken('anchor vanished: %s' % f)
    ps = ctx.walk(f, boundary=CORE | {fd, fl}) or []
    W = words(ctx, ps, 'lib')
    S = shapes(ctx, ps)
    for name, shp, outc in [(None, FORMS, 1), ('f.iff', FORMS, 1)] + [(w, FORMS, 1) for w in W] + [(n, s, 1) for n in (None, 'f.iff') for s in S] + [(n, FORMS, 0) for n in (None, 'f.iff', '-')]:
        h = Heap(ctx)
        var, so = h.obj('variable'), h.obj(std)
        h.gl = {('g', x): h.obj(x + ' variable') for x in ('stdin', 'stdout', 'stderr') if x != std}
        h.gl[('g', std)] = var
        h.set(var, 8, so)
        for x in ('stdin', 'stdout', 'stderr'):
            if x != std:
                h.set(h.gl[('g', x)], 8, h.obj(x))
        nm = h.text(h.obj('name'), name) if name is not None else 0
        ch, reg = groupobj(h, 'chunk', shp), h.obj('registry')
        res = groupobj(h, 'result', shp) if outc else 0

        def step(E, e, args, V, depth):
            if e.name in (fd, fl):
                return res if chunkarg is None else outc
            if e.name == 'fflush':
                return 0
            return None
        inst = '%s(%s)%s%s' % (f, 'a file name' if name == 'f.iff' else 'no file name' if name is None else repr(name), '' if shp == FORMS else ', chunk %x, size %x, %d members' % shp, '' if outc else ', which fails')
        E = Evaluator(ctx, h, boundary=CORE | {fd, fl}, step=step)
        try:
            r = E.run(f, [nm, ch, reg] if chunkarg is not None else [nm, reg])
            cs = [(e, n2, a) for e, n2, a in r.log if n2 in (fd, fl)]
            where = '%s:%s' % (r.path.file, r.path.line)
            if len(cs) != 1:
                if any(e.kind == 'call' and n2 in ('fopen', 'IFF_writeChunk', 'IFF_readChunk') for e, n2, a in r.log):
                    raise Stuck('the operation is inlined')
                raise Wrong('%d operations carry out the request' % len(cs), where)
            e, n2, a = cs[0]
            if a[0] is None:
                raise Stuck('target')
            good = n2 == fl and a[0] == nm if name is not None else n2 == fd and a[0] == so
            if chunkarg is not None and a[chunkarg] != ch:
                raise Wrong('%s is written' % h.name(a[chunkarg]), e.where())
            rep.check('target', inst, good, '%s(%s) carries out the request' % (n2, h.name(a[0])), e.where(), r.path)
            want = res if chunkarg is None else outc
            rep.check('target-result', inst, None if r.ret is None else r.ret == want if chunkarg is None else (r.ret != 0) == bool(want), 'the result is %s, the operation gave %s' % (h.name(r.ret), h.name(want)), where, r.path)
        except Wrong as e:
            rep.bad('target', inst, str(e), e.where)
        except Stuck as e:
            rep.und('target', inst, str(e))


def mode(ctx, rep, f, want):
    for p in ctx.walk(f) or []:
        for e in calls(p):
            if e.name == 'fopen':
                t = e.args[1]
                s = ctx.m.gstring(t[1][1], t[2]) if t[0] == 'p' and t[1][0] == 'g' else None
                rep.check('open-mode', '%s fopen' % f, None if s is None else s.startswith(want) and '+' not in s and 'x' not in s and 'a' not in s,
                          'the file is opened with mode %r' % s, e.where(), p)
                rep.check('open-name', '%s fopen' % f, e.args[0] == P(('argp', 0)) if e.args[0][0] == 'p' else None, 'the file opened is %s' % show(e.args[0]), e.where(), p)


# ---------------------------------------------------------------- C26
def pp_options(ctx, rep):
    """what main hands to IFF_prettyPrint for each set of options"""
    f = 'main'
    bound = libfns(ctx) | {'IFF_prettyPrint', 'printUsage', 'printVersion'}
    out = {}
    ps = ctx.walk(f, boundary=bound, unit='iffpp') or []
    W = words(ctx, ps, 'iffpp')
    sp = {v for v in specials(ctx, ps, 1).get('', ()) if v < 60}
    cases = [(o, n, st, None) for o in ([], ['c'], ['c', 'c'], ['c', 'c', 'c'], ['?'], ['c', '?'], ['h'], ['v'], ['c', 'h'], ['c', 'v']) for n in sorted({0, 1, 2, 3, 5} | sp) for st in (0, 1)]
    cases += [(o, n, 0, w) for w in W for o in ([], ['c']) for n in (1, 2)]
    cases += [(o, 1, st, None) for o in ([], ['c']) for st in sorted(sp | {2, 3, 255, 256, mask(32)})]
    for opts, nin, st, iw in cases:
        if True:
            h = Heap(ctx)
            argv = h.obj('argv')
            first = 1 + len(opts)
            names = [h.text(h.obj('argument %d' % i), 'iffpp' if i == 0 else '-c' if i < first else iw if iw is not None and i == first else '%s.iff' % chr(97 + i % 26)) for i in range(first + nin)]
            for i, x in enumerate(names):
                h.set(argv + 8 * i, 8, x)
            h.set(argv + 8 * len(names), 8, 0)
            gw = getopt_world(ctx, h, opts, first, argv, 0)

            def step(E, e, args, V, depth):
                if e.name in ('getopt_long', 'getopt', 'getopt_long_only'):
                    c = options_complaint(ctx, E, e, 'iffpp', {'c': ('disable-check', False)})
                    if c:
                        raise Wrong(c, e.where())
                    return gw(E, e, args, V)
                if e.name == 'IFF_prettyPrint':
                    return st
                return None
            inst = 'main of iffpp: options %s, %d files%s, printing %s' % (opts, nin, '' if iw is None else ' (%r)' % iw, 'gives %d' % st if st else 'succeeds')
            E = Evaluator(ctx, h, boundary=bound, unit='iffpp', step=step)
            try:
                r = E.run(f, [first + nin, argv])
                where = '%s:%s' % (r.path.file, r.path.line)
                js = [(e, args) for e, nm, args in r.log if nm == 'IFF_prettyPrint']
                if set(opts) & {'h', 'v'}:
                    rep.check('command', inst, None if r.ret is None else not js and r.ret == 0, 'status %s, printed %d times' % (r.ret, len(js)), where, r.path)
                    continue
                if '?' in opts:
                    rep.check('command', inst, None if r.ret is None else not js and r.ret != 0, 'status %s, printed %d times' % (r.ret, len(js)), where, r.path)
                    continue
                if len(js) != 1:
                    raise Wrong('the file is printed %d times' % len(js), where)
                e, args = js[0]
                if None in args:
                    raise Stuck('arguments of IFF_prettyPrint')
                wf = names[first] if nin else 0
                if args[0] != wf:
                    raise Wrong('%s is printed, required %s' % (h.name(args[0]), h.name(wf)), e.where())
                key = 'c' in opts
                if out.setdefault(key, args[1]) != args[1]:
                    raise Wrong('the options handed on are %s and %s for the same request' % (out[key], args[1]), e.where())
                rep.check('command', inst, None if r.ret is None else (r.ret != 0) == (st != 0), 'status %s' % r.ret, where, r.path)
            except Wrong as e:
                rep.bad('command', inst, str(e), e.where)
            except Stuck as e:
                rep.und('command', inst, str(e))
    return out


def delivered(ctx, rep):
    """the exit status tells whether what was printed could be delivered"""
    bound = libfns(ctx) | {'printUsage', 'printVersion'}
    for opts in ([], ['c']):
        for mode in ('works', 'fails while printing', 'fails when flushed', 'fails throughout'):
            h = Heap(ctx)
            h.gl = {('g', x): h.obj(x + ' variable') for x in ('stdin', 'stdout', 'stderr')}
            for x in ('stdin', 'stdout', 'stderr'):
                h.set(h.gl[('g', x)], 8, h.obj(x))
            so = h.cell(h.gl[('g', 'stdout')], 8)
            argv = h.obj('argv')
            names = [h.text(h.obj('argument %d' % i), x) for i, x in enumerate(['iffpp'] + ['-c'] * len(opts) + ['a.iff'])]
            for i, x in enumerate(names):
                h.set(argv + 8 * i, 8, x)
            h.set(argv + 8 * len(names), 8, 0)
            gw = getopt_world(ctx, h, opts, 1 + len(opts), argv, 0)
            ch = groupobj(h, 'chunk', FORMS)
            state = {'printed': 0, 'error': False, 'told': False}

            def step(E, e, args, V, depth):
                if e.name in ('getopt_long', 'getopt', 'getopt_long_only'):
                    return gw(E, e, args, V)
                if e.name in READ:
                    return ch
                if e.name in ('IFF_check', 'IFF_checkChunk'):
                    return 1
                if e.name in ('IFF_print', 'IFF_printChunk'):
                    state['printed'] += 1
                    state['error'] |= mode in ('fails while printing', 'fails throughout')
                    return 0
                if e.name in ('fflush', 'fclose', 'ferror') and args[0] not in (so, 0):
                    if args[0] is None:
                        raise Stuck('stream')
                    return 0
                if e.name in ('fflush', 'fclose'):
                    bad = state['printed'] and mode in ('fails when flushed', 'fails throughout')
                    state['error'] |= bool(bad)
                    return mask(32) if bad else 0
                if e.name == 'ferror':
                    return 1 if state['error'] else 0
                if e.kind == 'call' and e.name in ('atexit', 'on_exit', 'write', 'dup', 'dup2', 'close', 'fileno', 'fsync', 'freopen', 'setvbuf'):
                    raise Stuck(e.name)
                return None
            inst = 'iffpp%s, an output that %s' % (' -c' if opts else '', mode)
            E = Evaluator(ctx, h, boundary=bound, unit='iffpp', step=step)
            try:
                r = E.run('main', [len(names), argv])
                if not state['printed']:
                    raise Stuck('nothing is printed')
                rep.check('delivered', inst, None if r.ret is None else (r.ret == 0) == (mode == 'works'), 'the exit status is %s' % r.ret, '%s:%s' % (r.path.file, r.path.line), r.path)
            except Wrong as e:
                rep.bad('delivered', inst, str(e), e.where)
            except Stuck as e:
                rep.und('delivered', inst, str(e))


def c26(ctx, rep):
    rep.need('print', 10)
    rep.need('command', 6)
    if not tool(ctx, 'iffpp', 'IFF_prettyPrint') or not tool(ctx, 'iffpp', 'main'):
        raise Broken('anchor vanished: IFF_prettyPrint or main of iffpp')
    o = pp_options(ctx, rep)
    vals = {False: o.get(False, 0), True: o.get(True, 1)}
    if vals[True] == vals[False]:
        rep.bad('command', 'main of iffpp: -c', 'the option to disable checking has no effect', 'main')
    f = 'IFF_prettyPrint'
    bound = libfns(ctx)
    ps = ctx.walk(f, boundary=bound, unit='iffpp') or []
    W, S = words(ctx, ps, 'iffpp'), shapes(ctx, ps)
    cases = [x + (FORMS,) for x in itertools.product((False, True), ('f.iff', None), (1, 0), (1, 0))]
    cases += [(d, w, a, b, FORMS) for d in (False, True) for w in W for a, b in ((1, 1), (1, 0), (0, 0))]
    cases += [(d, 'f.iff', 1, b, s) for d in (False, True) for b in (1, 0) for s in S]
    for dis, name, rd, ck, shp in cases:
        h = Heap(ctx)
        h.gl = {('g', x): h.obj(x + ' variable') for x in ('stdin', 'stdout', 'stderr')}
        for x in ('stdin', 'stdout', 'stderr'):
            h.set(h.gl[('g', x)], 8, h.obj(x))
        si = h.cell(h.gl[('g', 'stdin')], 8)
        nm = h.text(h.obj('name'), name) if name is not None else 0
        ch = groupobj(h, 'chunk', shp)

        def step(E, e, args, V, depth):
            if e.name in READ:
                if args[0] is None:
                    raise Stuck('file read')
                good = args[0] == nm if e.name == 'IFF_read' else args[0] == nm and nm if e.name == 'IFF_readFile' else args[0] == si and not nm
                if not good:
                    raise Wrong('%s() reads %s' % (e.name, h.name(args[0])), e.where())
                return ch if rd else 0
            if e.name in ('IFF_check', 'IFF_checkChunk'):
                return ck if args[0] == ch else 1
            if e.name in ('fflush', 'ferror', 'fclose'):
                return 0
            return None
        inst = '%s: %s, %s, %s%s%s' % (f, 'named file' if name == 'f.iff' else 'standard input' if name is None else 'file %r' % name, 'readable' if rd else 'not readable', 'valid' if ck else 'invalid', ', checking disabled' if dis else '', '' if shp == FORMS else ', chunk %x, size %x, %d members' % shp)
        E = Evaluator(ctx, h, boundary=bound, unit='iffpp', step=step)
        try:
            r = E.run(f, [nm, vals[dis]])
            where = '%s:%s' % (r.path.file, r.path.line)
            pr = [(e, a) for e, n2, a in r.log if n2 in ('IFF_print', 'IFF_printChunk')]
            want = bool(rd and (dis or ck))
            if len(pr) != int(want):
                raise Wrong('the file is printed %d times, required %d' % (len(pr), int(want)), pr[0][0].where() if pr else where)
            if pr and pr[0][1][0] != ch:
                if pr[0][1][0] is None:
                    raise Stuck('chunk printed')
                raise Wrong('%s is printed' % h.name(pr[0][1][0]), pr[0][0].where())
            rep.check('print', inst, None if r.ret is None else (r.ret == 0) == want, 'the status is %s, required %s' % (r.ret, 'zero' if want else 'nonzero'), where, r.path)
        except Wrong as e:
            rep.bad('print', inst, str(e), e.where)
        except Stuck as e:
            rep.und('print', inst, str(e))
    delivered(ctx, rep)
    route(ctx, rep, 'IFF_read', 'IFF_readFd', 'IFF_readFile', 'stdin', None)
    if ctx.has('IFF_readFile'):
        mode(ctx, rep, 'IFF_readFile', 'r')


RULES = {'C25': c25, 'C26': c26}
