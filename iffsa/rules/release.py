"""C09: what freeing a hierarchy releases.

The path summaries of IFF_freeChunk and of every registered free handler are evaluated, composed with each other, over a family of
abstract hierarchies.  The resulting sequence of reads and releases is compared with what the hierarchy owns.
"""
from ..lib import *
from ..heap import Heap, Evaluator, Stuck, Wrong
from .module import tables

FORMT = 0x494c424d


class Hier:
    """an abstract hierarchy: objects, who owns what"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.h = Heap(ctx)
        self.reg = self.h.obj('registry')
        self.owned = {}         # address -> (name, size, owner address or None)
        self.kind = {}
        self.row = {}
        self.ids = {k: ctx.enum('IFF_ID_' + k) if ('IFF_ID_' + k) in ctx.m.enums else ids(k) for k in ('FORM', 'CAT', 'LIST', 'PROP')}
        self.n = 0
        self.link = None        # what the parent members hold: None the true parent, else an address
        self.rawid = 0x424f4459
        self.type = FORMT
        self.size = None        # declared size of the groups

    def own(self, name, size, owner):
        a = self.h.obj(name, size)
        self.owned[a] = (name, size, owner)
        return a

    def up(self, parent):
        return parent if self.link is None or not parent else self.link

    def raw(self, size, parent=0, data=True):
        self.n += 1
        a = self.own('raw chunk %d' % self.n, self.ctx.m.sizeof('IFF_RawChunk'), parent or None)
        d = self.own('payload %d (%d bytes)' % (self.n, size), max(1, size), a) if data else 0
        self.h.field(a, 'IFF_RawChunk', parent=self.up(parent), chunkId=self.rawid, chunkSize=size, chunkData=d)
        self.kind[a] = 'RAW'
        return a

    def group(self, kind, members, props=(), parent=0):
        self.n += 1
        s = 'IFF_List' if kind == 'LIST' else 'IFF_Group'
        a = self.own('%s %d' % (kind, self.n), self.ctx.m.sizeof(s), parent or None)
        cs = [m(self, a) for m in members]
        ps = [m(self, a) for m in props]
        self.h.field(a, s, parent=self.up(parent), chunkId=self.ids[kind], chunkSize=4 + 12 * len(cs) if self.size is None else self.size, chunkLength=len(cs), chunk=self.array('members of %s %d' % (kind, self.n), cs, a))
        f = self.ctx.m.field(s, 'groupType') or self.ctx.m.field(s, 'contentsType')
        self.h.set(a + f['off'], 4, self.type)
        if kind == 'LIST':
            self.h.field(a, s, propLength=len(ps), prop=self.array('properties of LIST %d' % self.n, ps, a))
        self.kind[a] = kind
        return a

    def array(self, name, xs, owner):
        if not xs:
            return 0
        a = self.own('array of the ' + name, 8 * len(xs), owner)
        for i, x in enumerate(xs):
            self.h.set(a + 8 * i, 8, x)
        return a

    def at(self, addr):
        """the owned object an address lies in"""
        for a, (n, s, o) in self.owned.items():
            if a <= addr < a + s:
                return a
        return None


def ids(k):
    return int.from_bytes((k + ' ')[:4].encode(), 'big')


def raw(size, data=True):
    return lambda H, p: H.raw(size, p, data)


def grp(kind, members, props=()):
    return lambda H, p: H.group(kind, members, props, p)


def family(tier):
    R = raw(6)
    F = lambda *m: grp('FORM', m)
    for s in (0, 1, 2, 7, 10, 255, 256, 4096, 65536):
        yield 'raw chunk of %d bytes' % s, raw(s)
    yield 'raw chunk without a payload', raw(0, False)
    for k in ('FORM', 'CAT', 'PROP', 'LIST'):
        for n in (0, 1, 2, 3, 4, 5, 8, 17):
            yield '%s of %d raw chunks' % (k, n), grp(k, [raw(i) for i in range(n)])
        yield '%s of groups' % k, grp(k, [F(R), grp('CAT', [F(R, R), F()]), grp('LIST', [F(R)], [grp('PROP', [R])]), grp('PROP', [R])])
    for n in (0, 1, 2, 3, 5):
        for q in (0, 1, 2, 3, 4, 6):
            yield 'LIST of %d members and %d properties' % (n, q), grp('LIST', [F(R) for _ in range(n)], [grp('PROP', [raw(j) for j in range(i % 3)]) for i in range(q)])
    deep = F(R)
    for i in range(8 if tier == 'thorough' else 5):
        deep = grp(('CAT', 'LIST', 'FORM')[i % 3], [R, deep, R], [grp('PROP', [R])] if i % 3 == 1 else [])
    yield 'nested groups', deep
    for n in (255, 256, 257, 300):
        yield 'FORM of %d members' % n, grp('FORM', [raw(0, False)] * n)
        yield 'LIST of %d properties' % n, grp('LIST', [], [grp('PROP', [])] * n)


def twist(mk, **kw):
    """the same hierarchy with other members that have no say in what is owned"""
    def make(H, p):
        for k, v in kw.items():
            setattr(H, k, H.h.obj('another object') if v == 'other' else v)
        return mk(H, p)
    return make


def twisted(ctx, fns, known):
    R = [raw(i) for i in (0, 3, 6)]
    base = [('raw chunk of 6 bytes', raw(6))] + [('%s of 3 raw chunks' % k, grp(k, R, [grp('PROP', R)] * (2 * (k == 'LIST')))) for k in ('FORM', 'CAT', 'PROP', 'LIST')] + \
        [('LIST of FORMs', grp('LIST', [grp('FORM', R), grp('CAT', [])], [grp('PROP', R)]))]
    sp = {}
    for f in fns:
        for k, v in specials(ctx, ctx.walk(f)).items():
            sp.setdefault(k, set()).update(v)
    for name, mk in base:
        yield name + ', parent links absent', twist(mk, link=0)
        yield name + ', parent links to another object', twist(mk, link='other')
        for v in sorted((set(sp.get('chunkId', ())) | {0x54455854, 0, 0x20202020}) - set(known))[:12]:
            yield name + ', raw ID %#x' % v, twist(mk, rawid=v)
        for v in sorted(set(sp.get('groupType', ())) | {0, 0x4a4a4a4a, 0x50524f50})[:8]:
            yield name + ', type %#x' % v, twist(mk, type=v)
        for v in sorted({x for x in sp.get('chunkSize', ())} | {0, 4, mask(32)})[:8]:
            yield name + ', declared size %#x' % v, twist(mk, size=v)


class Free:
    def __init__(self, ctx, H, rows, deflt):
        self.ctx, self.H = ctx, H
        self.rows, self.deflt = rows, deflt
        self.table = H.h.obj('handlers')
        self.E = Evaluator(ctx, H.h, boundary=CORE, step=self.step, maxdepth=40, maxiter=400)
        self.E.record = 'all'
        self.active = []

    def begin(self, root):
        self.active = [root]
        return self.E

    def handler(self, chunk):
        c = self.H.h.cell(chunk + self.ctx.m.off('IFF_Chunk', 'chunkId'), 4)
        return self.rows.get(c, self.deflt)

    def step(self, E, e, args, V, depth):
        if e.name == 'IFF_findChunkType':
            return self.table
        if e.name == 'IFF_freeChunk' and e.kind in ('call', 'rec'):
            if args[0] is None:
                raise Stuck('chunk freed at %s' % e.where())
            if args[0] == 0 or args[0] not in self.H.kind:
                raise Wrong('IFF_freeChunk is called for %s, which is not a chunk of the hierarchy' % self.H.h.name(args[0]), e.where())
            if args[0] in self.active:
                raise Wrong('%s is freed while it is being freed' % self.H.h.name(args[0]), e.where())
            self.active.append(args[0])
            try:
                return E.run('IFF_freeChunk', args, depth + 1)
            finally:
                self.active.pop()
        if e.kind == 'slot':
            if not e.name.startswith('free'):
                return None
            if args[0] is None:
                raise Stuck('chunk freed at %s' % e.where())
            if args[0] not in self.H.kind:
                raise Wrong('the free handler is called for %s, which is not a chunk of the hierarchy' % self.H.h.name(args[0]), e.where())
            f = self.handler(args[0])
            if f is None or self.ctx.m.body(f) is None:
                raise Stuck('free handler of %s' % self.H.h.name(args[0]))
            return E.run(f, args, depth + 1)
        return None


def audit(H, log, want, shallow=()):
    """compare a log of reads and releases with the set of addresses that must be released; raises Wrong"""
    gone = {}
    for e, n, a in log:
        if n == 'free' and e.kind == 'call':
            p = a[0]
            if p is None:
                raise Stuck('address released at %s' % e.where())
            if p == 0:
                continue
            if p not in H.owned:
                raise Wrong('%s is released, which is not a block of the hierarchy' % H.h.name(p), e.where())
            if p in gone:
                raise Wrong('%s is released twice, at %s and at %s' % (H.h.name(p), gone[p].where(), e.where()), e.where())
            if p not in want:
                raise Wrong('%s is released although it does not belong to what is freed' % H.h.name(p), e.where())
            gone[p] = e
            continue
        if n in ('realloc', 'reallocarray'):
            raise Stuck('reallocation at %s' % e.where())
        ads = []
        if e.kind in ('ld', 'st'):
            ads = [a[0]]
        elif e.kind == 'bulk':
            ads = [x for x in a[:2]]
        elif e.kind == 'slot' or n in CHUNK_OPS:
            continue
        for x in ads:
            if x is None:
                continue
            o = H.at(x)
            if o in gone:
                raise Wrong('%s is accessed after it was released at %s' % (H.h.name(o), gone[o].where()), e.where())
    for p in want:
        if p not in gone:
            raise Wrong('%s is not released' % H.h.name(p), '')
    return len(gone)


def below(H, a):
    """blocks owned, directly or not, by the chunk at a (without the chunk itself)"""
    out = set()
    work = [a]
    while work:
        x = work.pop()
        for b, (n, s, o) in H.owned.items():
            if o == x and b not in out:
                out.add(b)
                work.append(b)
    return out


PUBLIC = {'IFF_freeForm': 'FORM', 'IFF_freeCAT': 'CAT', 'IFF_freeList': 'LIST', 'IFF_freeProp': 'PROP', 'IFF_freeRawChunk': 'RAW', 'IFF_freeGroup': 'FORM'}


def c09(ctx, rep):
    m = ctx.m
    t = tables(ctx)
    col = [n for n in m.slots().values() if n.startswith('free')]
    if len(col) != 1:
        raise Broken('anchor vanished: free handler of IFF_ChunkType')
    col = col[0]
    rows = {}
    for idv, r, label, g, off in t['rows']:
        f = r.get(col)
        rows.setdefault(idv, f if isinstance(f, str) and f != '?' else None)
    deflt = t['default'][1].get(col) if t['default'] else None
    for f in ('IFF_freeChunk', 'IFF_free'):
        if not ctx.has(f):
            raise Broken('anchor vanished: %s' % f)
    blocks = 0

    def one(rule, inst, name, mk, run):
        nonlocal blocks
        H = Hier(ctx)
        root = mk(H, 0)
        F = Free(ctx, H, rows, deflt)
        try:
            r, want = run(H, F, root)
            n = audit(H, r.log, want)
        except Wrong as e:
            rep.bad(rule, inst, '%s: %s' % (inst, e), e.where or where_of(ctx, H, root, rows, deflt))
            return
        except Stuck as e:
            rep.und(rule, inst, str(e))
            return
        blocks += n
        rep.ok(rule, inst, '%d blocks' % n)
    for name, mk in family(rep.tier):
        one('everything-once', 'IFF_freeChunk(%s)' % name, name, mk,
            lambda H, F, root: (F.begin(root).run('IFF_freeChunk', [root, 0, H.reg]), below(H, root) | {root}))
    tw = list(twisted(ctx, sorted({f for f in list(rows.values()) + [deflt, 'IFF_freeChunk'] if f and ctx.has(f)}), rows))
    for name, mk in tw:
        one('everything-once', 'IFF_freeChunk(%s)' % name, name, mk,
            lambda H, F, root: (F.begin(root).run('IFF_freeChunk', [root, 0, H.reg]), below(H, root) | {root}))
    small = [x for x in family('quick') if not x[0].startswith('nested') and not x[0].endswith(('255 members', '256 members', '257 members', '300 members'))]
    for f, k in PUBLIC.items():
        if not ctx.has(f):
            continue
        for name, mk in small:
            if not name.startswith({'RAW': 'raw'}.get(k, k)):
                continue
            if f == 'IFF_freeGroup' and k != 'FORM':
                continue
            one('handler', '%s(%s)' % (f, name), name, mk, lambda H, F, root: (F.begin(root).run(f, [root, H.reg]), below(H, root)))
    for given in (True, False):
        for name, mk in (('raw chunk', raw(4)), ('FORM', grp('FORM', [raw(2), raw(3)])), ('LIST', grp('LIST', [grp('FORM', [])], [grp('PROP', [raw(1)])]))):
            one('entry', 'IFF_free(%s, %s)' % (name, 'registry' if given else 'NULL'), name, mk,
                lambda H, F, root: (F.E.run('IFF_free', [root, H.reg if given else 0]), below(H, root) | {root}))
    rep.need('everything-once', 60)
    rep.need('handler', 40)
    rep.need('entry', 4)
    rep.counts['blocks whose release was followed'] = blocks


def where_of(ctx, H, root, rows, deflt):
    c = H.h.cell(root + ctx.m.off('IFF_Chunk', 'chunkId'), 4)
    return 'free handler %s' % rows.get(c, deflt)


RULES = {'C09': c09}
