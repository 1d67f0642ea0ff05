"""C14: the sets of IDs and form types that are accepted.

The paths of the two predicates form a decision tree over conditions on single characters and on the whole ID.  The truth
of each character condition over all 256 values partitions every character position; the tree is then decided for every
tuple of classes, and for every ID the code or the standard singles out.  Together this covers all 2^32 IDs.
"""
import itertools
from ..lib import *
from ..heap import Heap, Evaluator, Stuck


def fourcc(s):
    return int.from_bytes(s.encode(), 'big')


RESERVED = [fourcc(x) for x in ['LIST', 'FORM', 'PROP', 'CAT ', 'JJJJ'] + [a + str(i) for a in ('LIS', 'FOR', 'CAT') for i in range(1, 10)]]
SPACES = fourcc('    ')
A0 = ('arg', 0, 32)


def legal_id(b):
    return all(0x20 <= c <= 0x7e for c in b) and not any(b[i] == 0x20 and b[i + 1] != 0x20 for i in range(3))


def legal_form(b):
    v = int.from_bytes(bytes(b), 'big')
    return legal_id(b) and v != SPACES and all(c == 0x20 or 0x30 <= c <= 0x39 or 0x41 <= c <= 0x5a for c in b) and v not in RESERVED


SPECCLASS = [(0x20, 0x20), (0x30, 0x39), (0x41, 0x5a), (0x21, 0x7e)]


def speckey(c):
    return tuple(a <= c <= b for a, b in SPECCLASS)


class Tree:
    """decision tree of the facts of a set of paths"""

    def __init__(self):
        self.cond = None; self.kids = {}; self.leaf = []

    def add(self, facts, p):
        t = self
        for c, tv in facts:
            if t.cond is None:
                t.cond = c
            if t.cond != c:
                return False
            t = t.kids.setdefault(tv, Tree())
        t.leaf.append(p)
        return True


def position(c):
    """the character position (0 = most significant) a condition depends on, 'all' for a test of the whole ID, None otherwise"""
    if leaves(c) - {A0}:
        return None
    if c[0] == 'cmp' and c[1] == 'eq' and (c[2] == A0 and isc(c[3]) or c[3] == A0 and isc(c[2])):
        return 'all'
    pos = set()
    terms = [c]
    while terms:
        t = terms.pop()
        if t[0] == 'cmp':
            terms += [t[2], t[3]]
        elif t[0] == 'not':
            terms.append(t[1])
        elif t[0] == 'op' and width(t) == 1:
            terms += [t[3], t[4]]
        else:
            for b in bits(t):
                if isinstance(b, tuple):
                    if b[0] != A0:
                        s = leaves(b[0])
                        # the bit of a computed value: every character it mentions
                        q = deps(b[0])
                        if q is None:
                            return None
                        pos |= q
                    else:
                        pos.add(3 - b[1] // 8)
    return pos.pop() if len(pos) == 1 else None


def deps(t):
    k = t[0]
    if k == 'c':
        return set()
    if t == A0:
        return {0, 1, 2, 3}
    if k in ('trunc', 'zext', 'sext', 'bswap', 'op'):
        b = bits(t)
        if all(not isinstance(x, tuple) or x[0] == A0 for x in b):
            return {3 - x[1] // 8 for x in b if isinstance(x, tuple)}
        subs = [t[2]] if k != 'op' else [t[3], t[4]]
        out = set()
        for s in subs:
            q = deps(s)
            if q is None:
                return None
            out |= q
        return out
    if k == 'lin':
        out = set()
        for x, _ in t[3]:
            q = deps(x)
            if q is None:
                return None
            out |= q
        return out
    return None


def value(c, idv):
    return ev(c, Val({A0: idv}))


def decide(ctx, rep, fname, legal):
    ps = ctx.walk(fname, boundary=())
    inst0 = fname
    if ps is None:
        rep.und('accepts', inst0, 'not enumerable')
        return
    ps = [p for p in ps if p.status == 'ret']
    tree, ok = Tree(), True
    for p in ps:
        if any(e.kind == 'loop' for e in p.events) or any(e.ret is not None and e.name not in ('__ctype_b_loc',) for e in calls(p)) or not tree.add(p.facts, p):
            ok = False
            break
    if not ok:
        return sampled(ctx, rep, fname, legal)
    conds = {}

    def collect(t):
        if t.cond is not None:
            conds.setdefault(t.cond, position(t.cond))
        for k in t.kids.values():
            collect(k)
    collect(tree)
    if any(v is None for v in conds.values()):
        return sampled(ctx, rep, fname, legal, tree)
    special = {c[3][2] if isc(c[3]) else c[2][2] for c, v in conds.items() if v == 'all'} | set(RESERVED) | {SPACES}
    # partition of each position
    part = []
    for k in range(4):
        cs = [c for c, v in conds.items() if v == k]
        cl = {}
        for b in range(256):
            iv = b << (8 * (3 - k))
            key = (tuple(value(c, iv) for c in cs), speckey(b))
            if None in key[0]:
                return sampled(ctx, rep, fname, legal, tree)
            cl.setdefault(key, []).append(b)
        part.append([(dict(zip(cs, key[0])), bs) for key, bs in cl.items()])

    def go(t, truth):
        while t.cond is not None:
            v = truth(t.cond)
            t2 = t.kids.get(bool(v))
            if t2 is None:
                return None
            t = t2
        return t.leaf[0] if t.leaf else None

    def result(p):
        v = ev(p.ret, Val())
        return None if v is None else v != 0
    ncls = 0
    bad = {}
    und = 0
    for combo in itertools.product(*part):
        size = 1
        for d, bs in combo:
            size *= len(bs)
        rep_ = [bs[0] for d, bs in combo]
        if size <= len(special):
            members = [m for m in itertools.product(*[bs for d, bs in combo]) if int.from_bytes(bytes(m), 'big') not in special]
            if not members:
                continue
            rep_ = list(members[0])
        ncls += 1
        p = go(tree, lambda c: False if conds[c] == 'all' else combo[conds[c]][0][c])
        got = None if p is None else result(p)
        # membership in the standard: outside the special IDs only the classes matter
        want = legal_cls(legal, rep_, combo, special)
        if got is None:
            und += 1
        elif got != want:
            bad.setdefault((got, p.line), (rep_, p))
    rep.counts['%s: character classes per position' % fname] = [len(x) for x in part]
    rep.counts['%s: class tuples decided' % fname] = ncls
    rep.counts['%s: IDs decided one by one' % fname] = len(special)
    inst = '%s: all IDs outside the %d singled out' % (fname, len(special))
    for (got, line), (b, p) in bad.items():
        rep.bad('accepts', inst, 'ID %s (%s) is %s' % (bytes(b).hex(), printable(b), 'accepted' if got else 'rejected'), '%s:%s' % (p.file, p.line), p)
    if not bad:
        rep.check('accepts', inst, True if not und else None, '%d class tuples reach no result' % und)
    for s in sorted(special):
        one(rep, fname, s, tree, go, result, legal)


def legal_cls(legal, b, combo, special):
    v = int.from_bytes(bytes(b), 'big')
    if v in special:
        for m in itertools.islice(itertools.product(*[bs for d, bs in combo]), 4096):
            if int.from_bytes(bytes(m), 'big') not in special:
                b = m
                break
    return legal(list(b))


def printable(b):
    return ''.join(chr(c) if 0x20 <= c < 0x7f else '.' for c in b)


def one(rep, fname, s, tree, go, result, legal):
    b = list(s.to_bytes(4, 'big'))
    p = go(tree, lambda c: value(c, s))
    got = None if p is None else result(p)
    rep.check('accepts', '%s: %s' % (fname, printable(b)), None if got is None else got == legal(b),
              'ID %s (%s) is %s' % (bytes(b).hex(), printable(b), 'accepted' if got else 'rejected'), '%s:%s' % (p.file, p.line) if p else '', p)


CHARS = [0, 0x1f, 0x20, 0x21, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x5b, 0x60, 0x61, 0x7a, 0x7e, 0x7f, 0x80, 0xff]


def sampled(ctx, rep, fname, legal, tree=None):
    """the conditions are not all on single characters: decide boundary characters in every position"""
    E = Evaluator(ctx, Heap(ctx), boundary=())
    ids = set(RESERVED) | {SPACES}
    for r in list(RESERVED):
        for k in range(4):
            for d in (-1, 1):
                ids.add((r + (d << (8 * k))) & 0xffffffff)
    for base in (fourcc('AAAA'), SPACES, fourcc('A1  '), fourcc('ZZ09')):
        for k in range(4):
            for c in range(256):
                ids.add(base & ~(0xff << (8 * k)) & 0xffffffff | c << (8 * k))
        for i, j in itertools.combinations(range(4), 2):
            for c in CHARS:
                for d in CHARS:
                    ids.add(base & ~(0xff << (8 * i) | 0xff << (8 * j)) & 0xffffffff | c << (8 * i) | d << (8 * j))
    rep.counts['%s: IDs decided one by one' % fname] = len(ids)

    def fast(s):
        t = tree
        while t.cond is not None:
            v = value(t.cond, s)
            if v is None:
                raise Stuck('condition %s' % show(t.cond))
            t2 = t.kids.get(bool(v))
            if t2 is None:
                raise Stuck('no path')
            t = t2
        p = t.leaf[0]
        v = ev(p.ret, Val({A0: s}))
        return v, p
    for s in sorted(ids):
        b = list(s.to_bytes(4, 'big'))
        inst = '%s: %s' % (fname, bytes(b).hex())
        try:
            if tree is not None:
                v, p = fast(s)
            else:
                r = E.run(fname, [s])
                v, p = r.ret, r.path
        except Stuck as e:
            rep.und('accepts', inst, str(e))
            continue
        rep.check('accepts', inst, None if v is None else (v != 0) == legal(b),
                  'ID %s (%s) is %s' % (bytes(b).hex(), printable(b), 'accepted' if v else 'rejected'), '%s:%s' % (p.file, p.line), p)


def c14(ctx, rep):
    rep.need('accepts', 20)
    decide(ctx, rep, 'IFF_checkId', legal_id)
    decide(ctx, rep, 'IFF_checkFormType', legal_form)


RULES = {'C14': c14}
