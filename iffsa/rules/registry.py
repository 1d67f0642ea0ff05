"""C12, C13: handler lookup.

C12 evaluates the summary of the lookup over a finite family of abstract registries that covers every combination of
(form type registered or not, length of both table chains, table holding the ID or not); the comparators are evaluated on
pairs from every ordering class of signed and unsigned 32 bit numbers; the shipped tables are read from the initialisers.
C13 compares the arguments of every chunk operation, handler lookup and handler call with the context they must carry.
"""
from ..lib import *
from ..heap import Heap, Evaluator, Stuck, Wrong
from .module import tables, root

IDS = (0x41424344, 0x80000001)
LOW, HIGH = (0x20202020, 0x30303030), (0xf0f0f0f0, 0xfffffff0)


def table(h, name, struct, idf, ids, extra=None):
    T = h.ctx.m.sizeof(struct)
    a = h.obj(name, T * (len(ids) + 1))
    h.tables[a] = (T, len(ids))
    for i, x in enumerate(ids):
        h.field(a + i * T, struct, **{idf: x})
        if extra:
            extra(i, a + i * T)
    return a


def rowids(cid, has, where):
    """a sorted table with or without the ID, the ID at the start, in the middle or at the end"""
    lo, hi = [x for x in LOW if x < cid], [x for x in HIGH if x > cid]
    if where == 'none':
        return [cid] if has else []
    base = (lo[:0] if where == 'first' else lo) + ([cid] if has else []) + (hi[:0] if where == 'last' else hi)
    return base


def chain(h, tag, cid, bits_, where):
    """a chain of tables; returns (first node or 0, address of the entry that must be found or None)"""
    T = h.ctx.m.sizeof('IFF_ChunkType')
    want = None
    nodes = []
    for k, has in enumerate(bits_):
        ids = rowids(cid, has, where)
        t = table(h, '%s table %d' % (tag, k), 'IFF_ChunkType', 'chunkId', ids)
        n = h.obj('%s node %d' % (tag, k))
        h.field(n, 'IFF_ChunkTypesNode', chunkTypesLength=len(ids), chunkTypes=t if ids else 0, parent=0)
        if has and want is None:
            want = t + ids.index(cid) * T
        nodes.append(n)
    for a, b in zip(nodes, nodes[1:]):
        h.field(a, 'IFF_ChunkTypesNode', parent=b)
    return (nodes[0] if nodes else 0), want


def c12_lookup(ctx, rep):
    rep.need('lookup', 300)
    chains = [(), (0,), (1,), (0, 0), (0, 1), (1, 0), (1, 1), (0, 0, 1)]
    cases = []
    for cid in IDS:
        for ft in (0x494c424d, 0x80000002):
            for where in ('first', 'middle', 'last', 'none'):
                for form in [None] + chains:
                    for glob in chains:
                        if where != 'middle' and (len(glob) > 1 and form and len(form) > 1):
                            continue
                        cases.append((cid, ft, where, form, glob, None))
    # form tables of every small length, the enclosing type equal to the ID, no enclosing type, and the values the code singles out
    ps = ctx.walk('IFF_findChunkType', boundary=())
    odd = sorted(set().union(*specials(ctx, ps).values()) if ps else ())[:8]
    few = [(), (0,), (1,), (0, 1)]
    for form in [None] + few:
        for glob in few:
            for k in range(0, 7):
                cases.append((0x41424344, 0x494c424d, 'middle', form, glob, k))
            for v in (0x41424344, 0x464f524d, 0x4c495354):
                cases.append((v, v, 'middle', form, glob, None))
            for v in odd + [0, 0x20202020]:
                cases.append((v, 0x494c424d, 'middle', form, glob, None))
                cases.append((0x41424344, v, 'middle', form, glob, None))
    n = 0
    for cid, ft, where, form, glob, width_ in cases:
        h = Heap(ctx)
        reg = h.obj('registry')
        d = h.obj('default type')
        g, wg = chain(h, 'global', cid, glob, where)
        rows = {}
        wf = None
        if form is not None:
            f, wf = chain(h, 'form', cid, form, where)
            rows[ft] = f
        # the other forms hold the ID too: they must not be used
        o, _ = chain(h, 'other form', cid, (1,), 'middle')
        if width_ is None:
            ids = rowids(ft, form is not None, 'middle' if where == 'none' else where)
        else:
            ids = sorted([x for x in (0x30303030, 0x41414141, 0x51515151, 0x52525252, 0x53535353, 0x54545454)][:width_] + ([ft] if form is not None else []))

        def extra(i, a):
            h.field(a, 'IFF_FormChunkTypes', chunkTypesNode=rows.get(ids[i], o))
        fa = table(h, 'form table', 'IFF_FormChunkTypes', 'formType', ids, extra)
        h.field(reg, 'IFF_ChunkRegistry', formChunkTypesLength=len(ids), formChunkTypes=fa if ids else 0, globalChunkTypesNode=g,
                defaultChunkType=d)
        want = wf if wf is not None else wg if wg is not None else d
        inst = 'ID %08x form %08x %s%s form chain %s global chain %s' % (cid, ft, where, '' if width_ is None else ' of %d' % len(ids), form, glob)
        E = Evaluator(ctx, h, boundary=())
        try:
            r = E.run('IFF_findChunkType', [reg, ft, cid])
        except Stuck as e:
            rep.check('lookup', inst, False if isinstance(e, Wrong) else None, str(e), getattr(e, 'where', ''))
            continue
        n += 1
        rep.check('lookup', inst, None if r.ret is None else r.ret == want, 'finds %s, must find %s' % (h.name(r.ret), h.name(want)),
                  '%s:%s' % (r.path.file, r.path.line), r.path)
    rep.counts['registries evaluated'] = n


PAIRS = [0, 1, 0x20, 0xff, 0x100, 0xffff, 0x10000, 0x01000000, 0x43415420, 0x464f524d, 0x4c495354, 0x50524f50, 0x7fffffff, 0x80000000, 0x80000001,
         0xc3415420, 0xfffffffe, 0xffffffff]


def c12_order(ctx, rep):
    rep.need('order', 1)
    ps = ctx.walk('IFF_findChunkType', boundary=())
    fns = set()
    for p in ps or []:
        for e, _ in deep_calls(p):
            if e.name == 'bsearch' and len(e.args) == 5:
                f = e.args[4]
                if f[0] == 'p' and f[1][0] == 'f' and ctx.has(f[1][1]):
                    fns.add((f[1][1], e.where()))
                else:
                    rep.und('order', 'comparator %s' % show(f), 'unknown function')
    if not fns:
        rep.ok('order', 'no comparator')
    for f, w in sorted(fns):
        cps = ctx.walk(f)
        bad = und = None
        cnt = 0
        order = 'big' if ctx.cfg == 'be' else 'little'
        near = set()
        consts(tuple(x for p in cps or [] for x in [p.ret] + [c for c, tv in p.facts]), near)
        near = {x & mask(32) for c in near for x in (c, ~c, -c)} | {1 << k for k in range(32)}
        pairs = [(a, b) for a in PAIRS + sorted(near) for b in PAIRS] + [(b, a) for a in sorted(near) for b in PAIRS] + \
            [(a, x & mask(32)) for a in PAIRS + [0x41414141, 0x61626364] for c in sorted(near) for x in (a ^ c, a + c, a - c)]
        for a, b in pairs:
            res = set()
            for p in cps or []:
                V = Val()

                def fn(t, V):
                    if t[0] == 'ld' and t[1][0] == 'p' and t[1][1] in (('argp', 0), ('argp', 1)) and t[2] == 4:
                        return a if t[1][1][1] == 0 else b
                    return None
                V.fn = fn
                for e in p.events:
                    # bytes as they are in memory
                    if e.kind == 'call' and e.name in ('memcmp', 'bcmp') and e.ret is not None and e.args[2] == C(64, 4) \
                            and all(x[0] == 'p' and x[1] in (('argp', 0), ('argp', 1)) and not x[3] for x in e.args[:2]):
                        x, y = ((a, b)[t[1][1]].to_bytes(4, order) for t in e.args[:2])
                        V.l[e.ret] = ((x > y) - (x < y)) & mask(width(e.ret))
                h = holds(p.facts, V)
                if h is False:
                    continue
                v = ev(p.ret, V) if p.ret is not None else None
                if h is None or v is None:
                    und = p
                    continue
                sv = v - (1 << width(p.ret)) if v >> (width(p.ret) - 1) else v
                res.add(((sv > 0) - (sv < 0), p))
            cnt += 1
            want = (a > b) - (a < b)
            for s, p in res:
                if s != want and bad is None:
                    bad = ('%s() orders %08x %s %08x' % (f, a, 'before' if s < 0 else 'after' if s else 'equal to', b), p)
        if bad:
            rep.bad('order', f, bad[0], '%s:%s' % (bad[1].file, bad[1].line), bad[1])
        else:
            rep.check('order', f, None if und or cps is None else True, 'comparator not understood', w, detail='%d pairs' % cnt)


def c12_tables(ctx, rep):
    rep.need('shipped-table', 3)
    t = tables(ctx)
    m = ctx.m
    T = m.sizeof('IFF_ChunkType')
    seen = set()
    for label, gname, n, arr in t['nodes']:
        wh = '%s:%s' % (m.globals[gname].get('file'), m.globals[gname].get('line'))
        if n is None or arr is None or arr == 0 and n:
            rep.check('shipped-table', gname, False if arr == 0 and n else None, 'the table has no entries but length %s' % n, wh)
            continue
        if not isinstance(arr, tuple):
            continue
        cap = (m.globals[arr[1]]['size'] - arr[2]) // T
        ids = [r[0] for r in t['rows'] if r[3] == arr[1]]
        rep.check('shipped-table', '%s length' % gname, n == cap, 'the recorded length is %d, the table has %d entries' % (n, cap), wh)
        rep.check('shipped-table', '%s order' % gname, None if any(not isinstance(i, int) for i in ids) else all(a < b for a, b in zip(ids, ids[1:])),
                  'the IDs are not strictly ascending: %s' % ' '.join('%08x' % i for i in ids if isinstance(i, int)), wh)
        if label == 'global':
            seen |= set(ids)
    for x in ('CAT ', 'FORM', 'LIST', 'PROP'):
        rep.check('shipped-table', 'entry %r' % x, int.from_bytes(x.encode(), 'big') in seen, 'the default registry has no global entry for %r' % x,
                  'IFF_defaultChunkRegistry')
    if t['nforms']:
        f = t['forms']
        rep.check('shipped-table', 'form types order', None if any(not isinstance(i, int) for i in f) else all(a < b for a, b in zip(f, f[1:])),
                  'the form types are not strictly ascending', 'IFF_defaultChunkRegistry')
        F = m.sizeof('IFF_FormChunkTypes')
        if isinstance(t['farr'], tuple):
            cap = (m.globals[t['farr'][1]]['size'] - t['farr'][2]) // F
            rep.check('shipped-table', 'form types length', t['nforms'] == cap, 'the recorded length is %d, the table has %d entries' % (t['nforms'], cap),
                      'IFF_defaultChunkRegistry')


def c12(ctx, rep):
    c12_lookup(ctx, rep)
    c12_order(ctx, rep)
    c12_tables(ctx, rep)


# ---------------------------------------------------------------- C13
SLOTOF = {'IFF_readChunk': 'readExtensionChunkFields', 'IFF_writeChunk': 'writeExtensionChunkFields', 'IFF_checkChunk': 'checkExtensionChunk',
          'IFF_freeChunk': 'freeExtensionChunk', 'IFF_printChunk': 'printExtensionChunk', 'IFF_compareChunk': 'compareExtensionChunk'}
TOP = ['IFF_readFd', 'IFF_readFile', 'IFF_read', 'IFF_writeFd', 'IFF_writeFile', 'IFF_write', 'IFF_free', 'IFF_check', 'IFF_print', 'IFF_compare']
TOK = 0x7100000


def params(fn, sub):
    return [i for i, t in enumerate(fn.dty[1:]) if sub in t]


def idparam(fn):
    """position of the context parameter of a chunk operation"""
    r = [i for i, t in enumerate(fn.dty[1:]) if t.replace('const ', '') == 'IFF_ID']
    return r[-1] if r else None


def simple(t):
    """a term whose value is fully described by parameters, members and constants"""
    return all(x[0] in ('arg', 'ld', 'sv', 'ret', 'out') or x[0] == 'p' and x[1][0] in ('argp', 'ldp', 'ret', 'g') for x in leaves(t))


def place(t):
    """the memory location a leaf is read from"""
    if t[0] == 'ld':
        return t[1], t[2]
    if t[0] == 'out':
        return t[2], t[3]
    if t[0] == 'p' and t[1][0] == 'ldp':
        return t[1][1], 8, t[2:]
    return None


class Tokens:
    """valuation in which every leaf has its own value, except those a path requires to be equal"""

    def __init__(self, facts):
        self.rep = {}
        for c, tv in facts:
            if tv and c[0] == 'cmp' and c[1] == 'eq':
                a, b = self.find(c[2]), self.find(c[3])
                if a != b and not (isc(a) and isc(b)):
                    if isc(a):
                        a, b = b, a
                    self.rep[a] = b

    def find(self, t):
        while t in self.rep:
            t = self.rep[t]
        return t

    def same(self, a, b):
        """True / False / None"""
        a, b = self.find(a), self.find(b)
        if a == b:
            return True
        if place(a) is not None and place(a) == place(b):
            return None
        if simple(a) and simple(b):
            return False if self.evalsame(a, b) is False else None
        return None

    def evalsame(self, a, b):
        for seed in (1, 7, 1 << 28):
            V = Val()
            for i, x in enumerate(sorted(leaves(a) | leaves(b), key=repr)):
                if x[0] == 'p':
                    V.ptr[x[1]] = TOK + 0x1000 * i * seed
                else:
                    V.l[x] = (0x01020304 * (i + 1) * seed) & mask(width(x))
            x, y = ev(a, V), ev(b, V)
            if x is None or y is None:
                return None
            if x != y:
                return False
        return None


def default_reg(ctx):
    return P(('g', 'IFF_defaultChunkRegistry'))


def c13_ops(ctx, rep):
    """the chunk operations: lookup, handler and the arguments they are given"""
    m = ctx.m
    T = m.sizeof('IFF_ChunkType')
    for op, slot in sorted(SLOTOF.items()):
        fn = m.fns.get(op)
        if fn is None:
            raise Broken('anchor vanished: %s' % op)
        ps = ctx.walk(op, boundary={'IFF_findChunkType', 'IFF_freeChunk', 'IFF_checkId'})
        reg = params(fn, 'IFF_ChunkRegistry*')[0]
        fi = idparam(fn)
        chunks = params(fn, 'IFF_Chunk*')
        R, F = P(('argp', reg)), ('arg', fi, 32)
        if ps is None:
            rep.und('lookup-args', op, 'not enumerable')
            continue
        nslot = 0
        for p in ps:
            tk = Tokens(p.facts)
            finds, created = {}, None
            w = ctx.walker()
            for e in calls(p):
                if e.name == 'IFF_findChunkType' and e.kind == 'call':
                    finds[e.ret] = e
                    rep.check('lookup-args', op + ': registry', tk.same(e.args[0], R), 'the handler is looked up in the registry %s' % show(e.args[0]), e.where(), p)
                    rep.check('lookup-args', op + ': context', tk.same(e.args[1], F), 'the handler is looked up for the enclosing type %s instead of the one '
                              'given' % show(e.args[1]), e.where(), p)
                    if chunks:
                        own = [w.load(e.mem, ctx.fptr(P(('argp', c)), 'IFF_Chunk', 'chunkId'), 4) for c in chunks]
                        g = [tk.same(e.args[2], o) for o in own]
                        rep.check('lookup-args', op + ': ID', True if True in g else None if None in g else False,
                                  'the handler is looked up for the ID %s, not the chunk\'s own' % show(e.args[2]), e.where(), p)
                    else:
                        # the ID in the stream: four bytes read, most significant first
                        srcs = [x[1] for x in b_sources(ctx, p)][:4]
                        rep.check('lookup-args', op + ': ID', None if len(srcs) < 4 else denotes(ctx, e.args[2], srcs),
                                  'the handler is looked up for the ID %s, not the one read' % show(e.args[2]), e.where(), p)
                elif e.kind == 'slot':
                    nslot += 1
                    cal = e.x['callee']
                    base = slotbase(ctx, cal)
                    want = {slot} if op != 'IFF_readChunk' else {slot, 'createExtensionChunk', 'freeExtensionChunk'}
                    rep.check('handler', op + ': ' + e.name, e.name in want, '%s() invokes the handler\'s %s' % (op, e.name), e.where(), p)
                    rep.check('handler', op + ': ' + e.name + ' of', True if base in finds else None if base is None or base[0] != 'p' else
                              False if base[1][0] in ('argp', 'g', 'ldp') else None,
                              'the function is taken from %s, not from the handler looked up' % show(cal), e.where(), p)
                    if base in finds and e.name == 'createExtensionChunk':
                        rep.check('handler', op + ': created for', tk.same(e.args[0], finds[base].args[2]), 'the chunk is created with the ID %s' % show(e.args[0]),
                                  e.where(), p)
                        created = e.ret
                    elif base in finds:
                        ft = handler_types(ctx, e)
                        for a, kind in ft:
                            if kind == 'reg':
                                rep.check('handler', op + ': registry', tk.same(a, R), 'the handler gets the registry %s' % show(a), e.where(), p)
                        objs = [a for a, kind in ft if kind == 'chunk']
                        want = [P(('argp', c)) for c in chunks] if chunks else [created]
                        if len(objs) == len(want):
                            for a, b in zip(objs, want):
                                rep.check('handler', op + ': chunk', None if b is None else tk.same(a, b), 'the handler gets the chunk %s' % show(a), e.where(), p)
                elif e.name == 'IFF_freeChunk':
                    fr = m.fns['IFF_freeChunk']
                    rep.check('lookup-args', op + ': context on failure', tk.same(e.args[idparam(fr)], F), 'a failed chunk is freed in the context %s' %
                              show(e.args[idparam(fr)]), e.where(), p)
                    rep.check('lookup-args', op + ': registry on failure', tk.same(e.args[params(fr, 'IFF_ChunkRegistry*')[0]], R),
                              'a failed chunk is freed with another registry', e.where(), p)
        if not nslot:
            rep.und('handler', op, 'no handler call recognised')


def b_sources(ctx, p):
    pt = Pt(ctx, p, {})
    pt.settle(p.events, p.facts)
    file = P(('argp', 0))
    return [x for x in trace(ctx, pt, p.events, file) if x[0] == 'i']


def slotbase(ctx, cal):
    """the chunk type record a called slot function was loaded from"""
    if cal[0] != 'p' or cal[1][0] != 'ldp' or cal[1][1][0] != 'p':
        return None
    q = cal[1][1]
    return P(q[1], 0, q[3]) if q[2] < (ctx.m.sizeof('IFF_ChunkType') or 64) else None


def handler_types(ctx, e):
    """[(argument, 'chunk' | 'reg' | 'file' | 'num')] of a handler call, by the fixed parameter order of the slot"""
    lay = {'readExtensionChunkFields': ['file', 'chunk', 'reg', 'count'], 'writeExtensionChunkFields': ['file', 'chunk', 'reg', 'count'],
           'checkExtensionChunk': ['chunk', 'reg'], 'freeExtensionChunk': ['chunk', 'reg'], 'printExtensionChunk': ['chunk', 'num', 'reg'],
           'compareExtensionChunk': ['chunk', 'chunk', 'reg'], 'createExtensionChunk': ['num', 'num']}.get(e.name, [])
    return list(zip(e.args, lay))


def member_owner(ctx, t):
    """the object in whose array the chunk pointer t is stored: (owner, member) or None"""
    r = elem(ctx, t)
    if r is None or r[0][0] != 'p' or r[0][3]:
        return None
    a = r[0]
    for st, f in (('IFF_Group', 'chunk'), ('IFF_List', 'prop')):
        if ctx.m.off(st, f) == a[2]:
            return P(a[1]), f
    return None


def c13_calls(ctx, rep):
    """every chunk operation called on a member, a chunk just read or a main chunk"""
    m = ctx.m
    goff = m.off('IFF_Group', 'groupType')
    for n, fn in sorted(m.fns.items()):
        if fn.decl or fn.local or n in SLOTOF or n == 'IFF_findChunkType':
            continue
        regs = params(fn, 'IFF_ChunkRegistry*')
        ps = ctx.walk(n, boundary=CORE)
        if ps is None:
            continue
        for p in ps:
            w = ctx.walker()
            alle = deep_calls(p)
            reads = {e.ret: e for e, _ in alle if e.name == 'IFF_readChunk'}
            for e, stk in alle:
                if e.name not in SLOTOF or e.kind not in ('call', 'rec'):
                    continue
                inst = '%s: %s' % (n, e.name)
                f2 = m.fns[e.name]
                ft = e.args[idparam(f2)]
                rg = e.args[params(f2, 'IFF_ChunkRegistry*')[0]]
                objs = [e.args[i] for i in params(f2, 'IFF_Chunk*')]
                tk = Tokens(p.facts)
                top = n in TOP
                # registry
                if not regs:
                    rep.check('call-registry', inst, None, 'no registry parameter', e.where(), p)
                else:
                    for R in (0, TOK):
                        V = Val(ptr={('argp', regs[0]): R, ('g', 'IFF_defaultChunkRegistry'): TOK + 0x1000})
                        own = [(c, tv) for c, tv in p.facts if mentions(c, ('argp', regs[0]))]
                        if holds(own, V) is False or not top and R == 0:
                            continue
                        v = ev(rg, V)
                        want = R or TOK + 0x1000
                        rep.check('call-registry', inst + (' with%s a registry' % ('out' if R == 0 else '')),
                                  v == want if v is not None else False if rg[0] == 'p' and rg[1][0] in ('argp', 'g') or rg == NULL else None,
                                  'uses the registry %s %s' % (show(rg), 'where none was given' if R == 0 else 'instead of the one given'), e.where(), p)
                # context
                inst += ' context'
                if top:
                    rep.check('call-context', inst, tk.same(ft, C(32, 0)), 'a main chunk is handled in the context %s' % show(ft), e.where(), p)
                elif e.name == 'IFF_readChunk':
                    # a member of the group this handler fills
                    own = [w.load(e.mem, padd(P(('argp', c)), goff, ()), 4) for c in params(fn, 'IFF_Chunk*') + params(fn, 'IFF_Group*') + params(fn, 'IFF_List*')
                           + params(fn, 'IFF_Form*') + params(fn, 'IFF_CAT*') + params(fn, 'IFF_Prop*')]
                    rep.check('call-context', inst, judge(tk, ft, own), 'a sub chunk is read in the context %s instead of the type of its group' % show(ft), e.where(), p)
                else:
                    got = None
                    for t in objs:
                        if t in reads:
                            g = tk.same(ft, reads[t].args[idparam(m.fns['IFF_readChunk'])])
                        else:
                            o = member_owner(ctx, t)
                            if o is None:
                                if t[0] == 'p' and t[1][0] == 'argp' and idparam(fn) is not None and t[2] == 0:
                                    g = tk.same(ft, ('arg', idparam(fn), 32))
                                else:
                                    g = None
                            else:
                                g = tk.same(ft, w.load(e.mem, padd(o[0], goff, ()), 4))
                                if g is not True and len(objs) > 1:
                                    g = False if g is False and got is not True else got
                        got = True if got is True or g is True else g
                    rep.check('call-context', inst, got, 'a member is handled in the context %s instead of the type of its group' % show(ft), e.where(), p)


def judge(tk, t, own):
    g = [tk.same(t, o) for o in own]
    return True if True in g else None if None in g or not g else False


def c13_tools(ctx, rep):
    """the tools use one registry throughout"""
    for unit in [u for u in ('iffjoin', 'iffpp') if u in ctx.mods]:
        m = ctx.mods[unit]
        lib = {f for f in ctx.m.fns if ctx.m.body(f)}
        used = {}
        for n, f in sorted(m.fns.items()):
            if f.decl or n in lib:
                continue
            ps = ctx.walk(n, boundary=CORE | lib, unit=unit)
            for p in ps or []:
                for e, _ in deep_calls(p):
                    d = ctx.m.fns.get(e.name)
                    if e.kind not in ('call', 'rec') or d is None or e.name not in lib:
                        continue
                    for i in params(d, 'IFF_ChunkRegistry*'):
                        a = e.args[i]
                        a = NULL if a == default_reg(ctx) else a
                        used.setdefault(a, []).append((n, e, p))
        main = max(used, key=lambda a: len(used[a])) if used else None
        for a, us in used.items():
            for n, e, p in us:
                inst = '%s %s: %s' % (unit, n, e.name)
                rep.check('tool-registry', inst, True if a == main or main is None else False if a == NULL or a[0] == 'p' and a[1][0] == 'g' else None,
                          'uses the registry %s, the other operations use %s' % (show(a), show(main)), e.where(), p)


def c13(ctx, rep):
    rep.need('lookup-args', 6)
    rep.need('handler', 6)
    rep.need('call-registry', 20)
    rep.need('call-context', 20)
    c13_ops(ctx, rep)
    c13_calls(ctx, rep)
    c13_tools(ctx, rep)


RULES = {'C12': c12, 'C13': c13}
