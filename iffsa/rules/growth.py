"""How the arrays of a group grow: the attach operation is evaluated from an empty group on, and the block that holds the array after each
step is measured.  A group whose array has more room than it has members is as legal as one whose array fits exactly, provided that the
operation itself sees to it."""
from ..lib import *
from ..heap import LiveHeap, LiveEvaluator, Stuck, Wrong

LIST, PROP, BODY = 0x4c495354, 0x50524f50, 0x424f4459
OPS = {'chunk': ('IFF_attachToGroup', 'IFF_addToGroup'), 'prop': ('IFF_addPropToList',)}
MOST = 320


class Growth:
    """caps[n] is the size of the block that holds n members; state is 'open', 'stuck' or 'wrong'"""

    def __init__(self, ctx, arr):
        self.ctx, self.arr = ctx, arr
        self.caps, self.state, self.why = [0], 'open', None
        self.op = next((f for f in OPS[arr] if ctx.has(f)), None)
        if self.op is None:
            self.state = 'stuck'
            return
        h = self.h = LiveHeap(ctx)
        self.g = h.struct('the group', 'IFF_List', chunkId=LIST, chunkSize=4, parent=0)
        h.field(self.g, 'IFF_Group', groupType=0x41414141, chunk=0, chunkLength=0)
        h.field(self.g, 'IFF_List', prop=0, propLength=0)
        self.E = LiveEvaluator(ctx, h, 'moves')

    def step(self):
        h, n = self.h, len(self.caps)
        x = h.struct('chunk %d' % n, 'IFF_Group', chunkId=PROP if self.arr == 'prop' else BODY, chunkSize=4, parent=0, groupType=0x41414141, chunk=0, chunkLength=0)
        st = 'IFF_List' if self.arr == 'prop' else 'IFF_Group'
        try:
            r = self.E.run(self.op, [self.g, x])
            a = h.cells.get((self.g + self.ctx.m.off(st, self.arr), 8))
            ln = h.cells.get((self.g + self.ctx.m.off(st, self.arr + 'Length'), 4))
            if r.ret is None or a is None or ln is None:
                raise Stuck('the array after %d steps' % n)
            if not r.ret or ln != n or a not in h.size or a in h.freed or h.size[a] < 8 * n:
                raise Wrong('%d members after %d steps, in a block of %s bytes' % (ln, n, h.size.get(a)), '%s:%s' % (r.path.file, r.path.line))
            self.caps.append(h.size[a])
        except Wrong as e:
            self.state, self.why = 'wrong', e
        except Stuck as e:
            self.state, self.why = 'stuck', e

    def cap(self, n):
        while self.state == 'open' and len(self.caps) <= min(n, MOST):
            self.step()
        return self.caps[n] if n < len(self.caps) else None


def growth(ctx, arr):
    d = ctx.__dict__.setdefault('_growth', {})
    if arr not in d:
        d[arr] = Growth(ctx, arr)
    return d[arr]


def capacity(ctx, arr, n):
    """size of the block an array of n members is held in"""
    c = growth(ctx, arr).cap(n)
    return 8 * n if c is None else c


def ahead(ctx, arr):
    """True when the arrays of this family are given more room than they have members"""
    G = growth(ctx, arr)
    G.cap(20)
    return G.state == 'open' and any(c > 8 * n for n, c in enumerate(G.caps))
