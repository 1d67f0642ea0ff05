"""Evaluation of terms on points of a finite partition of their operand space."""
import zlib
from .terms import *

CT = {}
for _c in range(-1, 256):
    ch = chr(_c) if _c >= 0 else ''
    a = 0 <= _c < 128
    f = 0
    if a and 'A' <= ch <= 'Z': f |= 256
    if a and 'a' <= ch <= 'z': f |= 512
    if a and ch.isalpha(): f |= 1024
    if a and ch.isdigit(): f |= 2048
    if a and ch in '0123456789abcdefABCDEF': f |= 4096
    if a and ch in ' \t\n\v\f\r': f |= 8192
    if a and 32 <= _c <= 126: f |= 16384
    if a and 33 <= _c <= 126: f |= 32768
    if a and ch in ' \t': f |= 1
    if a and (_c < 32 or _c == 127): f |= 2
    if a and 33 <= _c <= 126 and not ch.isalnum(): f |= 4
    if a and ch.isalnum(): f |= 8
    CT[_c] = f


class Val:
    """leaves: dict term->int (unsigned); bases: dict base->int for pointer nullness/ordering"""

    def __init__(self, leaves=None, fn=None, ptr=None):
        self.l = dict(leaves or {})
        self.fn = fn
        self.ptr = ptr or {}
        self.pf = None
        self.memo = {}

    def get(self, t):
        if t in self.l:
            return self.l[t]
        if self.fn:
            return self.fn(t, self)
        return None


def ev(t, V):
    if t in V.memo:
        return V.memo[t]
    r = _ev(t, V)
    if r is not None:
        r &= mask(width(t))
    V.memo[t] = r
    return r


def s(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def _ev(t, V):
    k = t[0]
    if k == 'c':
        return t[2]
    x = V.get(t)
    if x is not None:
        return x
    if k == 'lin':
        acc = t[2]
        for a, c in t[3]:
            v = ev(a, V)
            if v is None:
                return None
            acc += v * c
        return acc
    if k in ('zext', 'trunc'):
        return ev(t[2], V)
    if k == 'sext':
        v = ev(t[2], V)
        return None if v is None else s(v, width(t[2]))
    if k == 'bswap':
        v = ev(t[2], V)
        return None if v is None else int.from_bytes(v.to_bytes(t[1] // 8, 'little'), 'big')
    if k == 'op':
        if t[1] == 'ptrint':
            return None
        a, b = ev(t[3], V), ev(t[4], V)
        if t[1] == 'and' and (a == 0 or b == 0):
            return 0
        if t[1] == 'or' and (a == mask(t[2]) or b == mask(t[2])):
            return mask(t[2])
        if a is None or b is None:
            return None
        if t[1] == 'mul':
            return a * b
        return const_op(t[1], t[2], C(t[2], a), C(t[2], b))
    if k == 'not':
        v = ev(t[1], V)
        return None if v is None else 1 - v
    if k == 'sel':
        c = ev(t[1], V)
        if c is None:
            x, y = ev(t[2], V), ev(t[3], V)
            return x if x == y else None
        return ev(t[2] if c else t[3], V)
    if k == 'cmp':
        a, b = t[2], t[3]
        x, y = ev(a, V), ev(b, V)
        if x is None or y is None:
            return None
        if t[1] == 'eq':
            return int(x == y)
        if t[1] == 'ult':
            return int(x < y)
        w = width(a)
        return int(s(x, w) < s(y, w))
    if k == 'p':
        b = V.ptr.get(t[1])
        if b is None and V.pf:
            b = V.pf(t, V)
        if b is None:
            if t[1][0] in ('alloca', 'g', 'f'):
                b = 0x10000000 + (zlib.crc32(repr(t[1]).encode()) & 0xffff) * 4096
            else:
                return None
        off = t[2]
        for x, sc in t[3]:
            v = ev(x, V)
            if v is None:
                return None
            off += s(v, width(x)) * sc
        return b + off
    if k == 'ld':
        # classification table of <ctype.h>: *(__ctype_b_loc()) + 2*c
        p = t[1]
        if p[0] == 'p' and p[1][0] == 'ldp' and p[2] == 0 and len(p[3]) == 1 and p[3][0][1] == 2 \
                and p[1][1][0] == 'p' and p[1][1][1][0] == 'ret' and evname(p[1][1][1][1]) == '__ctype_b_loc':
            v = ev(p[3][0][0], V)
            if v is None:
                return None
            v = s(v, width(p[3][0][0]))
            return CT.get(v, 0 if -128 <= v < 0 else None)
        return None
    return None


def holds(facts, V, unknown=None):
    """truth of a conjunction of (cond, truth); None if undecided"""
    und = False
    for c, tv in facts:
        v = ev(c, V)
        if v is None:
            und = True
            if unknown is not None:
                unknown.append(c)
        elif bool(v) != tv:
            return False
    return None if und else True
