"""Value-number terms.

A term is a hashable tuple.  Integer terms know their width:

  ('c', w, v)                       constant, v unsigned
  ('lin', w, k, ((t, c), ...))      k + sum(c * t) modulo 2^w, canonical
  ('op', name, w, a, b)             and or xor shl lshr ashr udiv sdiv urem srem mul
  ('zext'|'sext'|'trunc', w, t)
  ('bswap', w, t)
  ('cmp', pred, a, b)               pred in eq slt ult; width 1
  ('not', t)                        width 1
  ('ld', ptr, size, ver)            memory content at entry (ver 0) or after event ver
  ('sv', ev, off, n)                n stream bytes delivered by input event ev, as memory content
  ('ret', ev, w)                    result of call event ev
  ('out', ev, ptr, size)            memory content left by call event ev
  ('lphi', loop, key, w)            value carried round a loop
  ('iter', loop, w)                 canonical iteration counter of a loop
  ('arg', i, w)                     integer argument of the entry function
  ('undef', w)

Pointers are ('p', base, off, ((t64, scale), ...)); the null pointer is ('c', 64, 0).
Bases: ('argp', i), ('alloca', id), ('g', name), ('f', name), ('ret', ev), ('ldp', ptr, ver),
('lphi', ...), ('out', ...).
"""
M = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64)}


def mask(w):
    return M.get(w) or ((1 << w) - 1)


def C(w, v):
    return ('c', w, v & mask(w))


NULL = C(64, 0)
T1, F1 = C(1, 1), C(1, 0)


def isc(t):
    return t[0] == 'c'


def sval(t):
    w, v = t[1], t[2]
    return v - (1 << w) if v >> (w - 1) else v


def width(t):
    k = t[0]
    if k in ('c', 'lin', 'zext', 'sext', 'trunc', 'bswap', 'undef'):
        return t[1]
    if k == 'op':
        return t[2]
    if k in ('cmp', 'not'):
        return 1
    if k in ('ld', 'sv', 'out'):
        return 8 * (t[2] if k == 'ld' else t[3])
    if k == 'ret':
        return t[2]
    if k == 'lphi':
        return t[3]
    if k in ('iter', 'arg'):
        return t[2]
    if k == 'p':
        return 64
    return 64


# ---------------------------------------------------------------- linear forms
def lin_parts(t):
    if t[0] == 'c':
        return t[2], {}
    if t[0] == 'lin':
        return t[2], dict(t[3])
    return 0, {t: 1}


def mklin(w, k, d):
    m = mask(w)
    items = []
    for t, c in d.items():
        c &= m
        if c:
            items.append((t, c))
    k &= m
    if not items:
        return C(w, k)
    if len(items) == 1 and k == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=repr)
    return ('lin', w, k, tuple(items))


def add(w, a, b, sb=1):
    if w == 64 and (a[0] == 'p' or b[0] == 'p'):
        if a[0] == 'p' and b[0] == 'p' and sb == -1 and a[1] == b[1]:
            return ptrdiff(a, b)
        return ('op', 'ptrint', 64, a, b)
    k1, d1 = lin_parts(a)
    k2, d2 = lin_parts(b)
    d = dict(d1)
    for t, c in d2.items():
        d[t] = d.get(t, 0) + sb * c
    return mklin(w, k1 + sb * k2, d)


def mulc(w, a, c):
    k, d = lin_parts(a)
    return mklin(w, k * c, {t: x * c for t, x in d.items()})


def ptrdiff(a, b):
    k = a[2] - b[2]
    d = {}
    for t, s in a[3]:
        d[t] = d.get(t, 0) + s
    for t, s in b[3]:
        d[t] = d.get(t, 0) - s
    # distribute nested linear terms
    out = C(64, k)
    for t, s in d.items():
        out = add(64, out, mulc(64, t, s))
    return out


# ---------------------------------------------------------------- pointers
def P(base, off=0, idx=()):
    return ('p', base, off, idx)


def padd(p, off, idxs):
    """p + off + sum(t*s)"""
    if p == NULL:
        return P(('nullp',), off, ())
    if p[0] != 'p':
        p = P(('int', p))
    d = {}
    for t, s in p[3]:
        d[t] = d.get(t, 0) + s
    o = p[2] + off
    for t, s in idxs:
        if isc(t):
            o += sval(t) * s
            continue
        k, parts = lin_parts(t)
        if t[0] == 'lin':
            if k >> 63:
                k -= 1 << 64
            o += k * s
            for tt, c in parts.items():
                if c >> 63:
                    c -= 1 << 64
                d[tt] = d.get(tt, 0) + c * s
        else:
            d[t] = d.get(t, 0) + s
    idx = tuple(sorted(((t, s) for t, s in d.items() if s), key=repr))
    return P(p[1], o, idx)


# ---------------------------------------------------------------- bits
def bits(t, memo=None):
    """list (lsb first) of (src, bit) | 0 | 1 | None"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    w = width(t)
    k = t[0]
    r = None
    if k == 'c':
        r = [(t[2] >> i) & 1 for i in range(w)]
    elif k == 'zext':
        b = bits(t[2], memo)
        r = b + [0] * (w - len(b))
    elif k == 'sext':
        b = bits(t[2], memo)
        r = b + [b[-1]] * (w - len(b))
    elif k == 'trunc':
        r = bits(t[2], memo)[:w]
    elif k == 'bswap':
        b = bits(t[2], memo)
        r = []
        for i in range(0, w, 8):
            r = b[i:i + 8] + r
    elif k == 'op' and t[1] in ('and', 'or', 'xor'):
        a, b = bits(t[3], memo), bits(t[4], memo)
        r = []
        for x, y in zip(a, b):
            if t[1] == 'and':
                r.append(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else None)
            elif t[1] == 'or':
                r.append(1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else None)
            else:
                r.append(y if x == 0 else x if y == 0 else None if (x in (1, None) or y in (1, None)) else 0 if x == y else None)
                if x in (0, 1) and y in (0, 1):
                    r[-1] = x ^ y
    elif k == 'op' and t[1] in ('shl', 'lshr', 'ashr') and isc(t[4]):
        a = bits(t[3], memo)
        s = t[4][2]
        if s < w:
            if t[1] == 'shl':
                r = [0] * s + a[:w - s]
            else:
                r = a[s:] + [a[-1] if t[1] == 'ashr' else 0] * s
    elif k == 'op' and t[1] == 'udiv' and isc(t[4]) and t[4][2] and t[4][2] & (t[4][2] - 1) == 0:
        s = t[4][2].bit_length() - 1
        r = bits(t[3], memo)[s:] + [0] * s
    elif k == 'op' and t[1] == 'urem' and isc(t[4]) and t[4][2] and t[4][2] & (t[4][2] - 1) == 0:
        s = t[4][2].bit_length() - 1
        r = bits(t[3], memo)[:s] + [0] * (w - s)
    elif k == 'lin':
        # sum of terms with power-of-two coefficients on disjoint bits
        acc = [(t[2] >> i) & 1 for i in range(w)]
        ok = True
        for tt, c in t[3]:
            if c & (c - 1):
                ok = False
                break
            s = c.bit_length() - 1
            b = [0] * s + bits(tt, memo)[:w - s]
            n = []
            for x, y in zip(acc, b):
                if x == 0:
                    n.append(y)
                elif y == 0:
                    n.append(x)
                else:
                    ok = False
                    break
            if not ok:
                break
            acc = n
        r = acc if ok else None
        if r is None:
            r = [(t, i) for i in range(w)]
    if r is None:
        r = [(t, i) for i in range(w)]
    memo[t] = r
    return r


def from_bits(b):
    """recognise a value, or a byte swapped value, from its bits"""
    w = len(b)
    if all(x in (0, 1) for x in b):
        return C(w, sum(x << i for i, x in enumerate(b)))
    x0 = b[0]
    if isinstance(x0, tuple):
        src = x0[0]
        sw = width(src)
        if sw == w:
            if all(b[i] == (src, i) for i in range(w)):
                return src
            if w in (16, 32, 64) and all(b[i] == (src, (w - 8 - 8 * (i // 8)) + i % 8) for i in range(w)):
                return ('bswap', w, src)
    return None


# ---------------------------------------------------------------- constructors
def binop(op, w, a, b):
    if op == 'add':
        return add(w, a, b)
    if op == 'sub':
        return add(w, a, b, -1)
    if op == 'mul':
        if isc(a) and not isc(b):
            a, b = b, a
        if isc(b):
            return mulc(w, a, b[2])
        return ('op', 'mul', w, *sorted((a, b), key=repr))
    if isc(a) and isc(b):
        v = const_op(op, w, a, b)
        if v is not None:
            return C(w, v)
    if op == 'shl' and isc(b) and a[0] in ('lin', 'iter'):
        return mulc(w, a, 1 << b[2])
    if op in ('and', 'or', 'xor'):
        if isc(a) and not isc(b):
            a, b = b, a
        if w == 1:
            if isc(b):
                if op == 'and':
                    return a if b[2] else F1
                if op == 'or':
                    return T1 if b[2] else a
                if op == 'xor':
                    return neg(a) if b[2] else a
            if a == b and op != 'xor':
                return a
        if isc(b):
            if b[2] == 0:
                return b if op == 'and' else a
            if b[2] == mask(w) and op == 'and':
                return a
    if op in ('shl', 'lshr', 'ashr') and isc(b) and b[2] == 0:
        return a
    t = ('op', op, w, a, b)
    if op in ('or', 'and', 'lshr', 'shl', 'ashr', 'xor') and w >= 16:
        f = from_bits(bits(t))
        if f is not None:
            return f
    return t


def const_op(op, w, a, b):
    x, y = a[2], b[2]
    sx, sy = sval(a), sval(b)
    if op == 'and':
        return x & y
    if op == 'or':
        return x | y
    if op == 'xor':
        return x ^ y
    if op == 'shl':
        return x << y if y < w else None
    if op == 'lshr':
        return x >> y if y < w else None
    if op == 'ashr':
        return sx >> y if y < w else None
    if op == 'udiv':
        return x // y if y else None
    if op == 'urem':
        return x % y if y else None
    if op == 'sdiv':
        return int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1) if sy else None
    if op == 'srem':
        return (abs(sx) % abs(sy)) * (1 if sx >= 0 else -1) if sy else None
    return None


def cast(op, w, t):
    tw = width(t)
    if tw == w:
        return t
    if isc(t):
        return C(w, t[2] if op != 'sext' else sval(t))
    if op in ('zext', 'sext') and t[0] == 'iter' and tw >= 32:
        return ('iter', t[1], w)        # a narrower counter wraps within reach
    if op == 'trunc':
        if t[0] == 'iter':
            return ('iter', t[1], w)
        if t[0] in ('zext', 'sext'):
            if width(t[2]) == w:
                return t[2]
            if width(t[2]) < w:
                return (t[0], w, t[2])
            return cast('trunc', w, t[2])
        if t[0] == 'lin':
            return mklin_list(w, t[2], [(cast('trunc', w, x), c) for x, c in t[3]])
        if t[0] == 'p':
            return ('trunc', w, t)
    if op == 'zext' and t[0] == 'zext':
        return ('zext', w, t[2])
    if op == 'sext' and t[0] == 'zext':
        return ('zext', w, t[2])
    if op == 'sext' and t[0] == 'sext':
        return ('sext', w, t[2])
    r = (op, w, t)
    if op == 'trunc' and w >= 8:
        f = from_bits(bits(r))
        if f is not None:
            return f
    return r


def mklin_list(w, k, items):
    out = C(w, k)
    for t, c in items:
        out = add(w, out, mulc(w, t, c))
    return out


def bswap(w, t):
    if t[0] == 'bswap':
        return t[2]
    if isc(t):
        return C(w, int.from_bytes(t[2].to_bytes(w // 8, 'little'), 'big'))
    return ('bswap', w, t)


def neg(c):
    if isc(c):
        return C(1, 1 - c[2])
    if c[0] == 'not':
        return c[1]
    return ('not', c)


NONNULL = ('alloca', 'g', 'f')


def cmp(pred, a, b):
    if pred == 'ne':
        return neg(cmp('eq', a, b))
    if pred in ('sgt', 'ugt'):
        return cmp(pred[0] + 'lt', b, a)
    if pred in ('sle', 'ule'):
        return neg(cmp(pred[0] + 'lt', b, a))
    if pred in ('sge', 'uge'):
        return neg(cmp(pred[0] + 'lt', a, b))
    if pred == 'ult':
        # 0 < x  <=>  x != 0 ;  x < 1  <=>  x == 0
        if isc(a) and a[2] == 0:
            return neg(cmp('eq', b, a))
        if isc(b) and b[2] == 1:
            return cmp('eq', a, C(b[1], 0))
        if isc(b) and b[2] == 0 or isc(a) and a[2] == mask(a[1]):
            return C(1, 0)
    if isc(a) and isc(b):
        if pred == 'eq':
            return C(1, a[2] == b[2])
        if pred == 'ult':
            return C(1, a[2] < b[2])
        return C(1, sval(a) < sval(b))
    if a == b and 'undef' not in (a[0],):
        return C(1, pred == 'eq')
    if pred == 'eq':
        if isc(a):
            a, b = b, a
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                if a[3] == b[3]:
                    return C(1, a[2] == b[2])
                return cmp('eq', ptrdiff(a, b), C(64, 0))
            da, db = a[1][0], b[1][0]
            if da in NONNULL and db in NONNULL:
                return F1
            a, b = sorted((a, b), key=repr)
        if a[0] == 'p' and b == NULL:
            if a[1][0] in NONNULL:
                return F1
            if a[1] == ('nullp',):
                return C(1, a[2] == 0)
            if a[2] or a[3]:
                a = P(a[1])      # p + off is null iff p is (never, in practice)
                return ('cmp', 'eq', a, b) if not (a[1][0] in NONNULL) else F1
        if isc(b):
            v = b[2]
            if a[0] == 'zext':
                iw = width(a[2])
                if v > mask(iw):
                    return F1
                if iw == 1:
                    return a[2] if v else neg(a[2])
                return cmp('eq', a[2], C(iw, v))
            if a[0] == 'sext':
                iw = width(a[2])
                s = sval(b)
                if not -(1 << (iw - 1)) <= s < (1 << (iw - 1)):
                    return F1
                if iw == 1:
                    return a[2] if v else neg(a[2])
                return cmp('eq', a[2], C(iw, s))
            if width(a) == 1:
                return a if v else neg(a)
            if a[0] == 'lin' and len(a[3]) == 1 and a[3][0][1] == 1:
                return cmp('eq', a[3][0][0], C(a[1], v - a[2]))
        elif a[0] in ('zext', 'sext') and a[0] == b[0] and width(a[2]) == width(b[2]):
            return cmp('eq', a[2], b[2])
        if not isc(b):
            a, b = sorted((a, b), key=repr)
    else:
        if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
            d = ptrdiff(b, a)
            return cmp('slt', C(64, 0), d)
        if a[0] == b[0] and a[0] in ('zext', 'sext') and width(a[2]) == width(b[2]):
            # zext: both orders become unsigned; sext keeps the order
            return cmp('ult' if a[0] == 'zext' else pred, a[2], b[2])
        # widened operand against a constant that fits the narrow type
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x[0] in ('zext', 'sext') and isc(y):
                iw = width(x[2])
                s = sval(y) if pred == 'slt' else y[2]
                if x[0] == 'zext' and 0 <= s <= mask(iw):
                    n = C(iw, s)
                    return cmp('ult', x[2], n) if not sw else cmp('ult', n, x[2])
                if x[0] == 'sext' and pred == 'slt' and -(1 << (iw - 1)) <= s < (1 << (iw - 1)):
                    n = C(iw, s)
                    return cmp('slt', x[2], n) if not sw else cmp('slt', n, x[2])
    return ('cmp', pred, a, b)


def select(c, a, b):
    if isc(c):
        return a if c[2] else b
    return a if a == b else ('sel', c, a, b)


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if not isinstance(t, tuple) or t in seen:
        return seen
    seen.add(t)
    for x in t:
        if isinstance(x, tuple):
            subterms(x, seen)
    return seen


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


def subst(t, m):
    """structural substitution with re-simplification"""
    if t in m:
        return m[t]
    k = t[0]
    if k in ('c', 'undef', 'arg'):
        return t
    if k == 'lin':
        return mklin_list(t[1], t[2], [(subst(x, m), c) for x, c in t[3]])
    if k == 'op':
        return binop(t[1], t[2], subst(t[3], m), subst(t[4], m)) if t[1] != 'ptrint' else t
    if k in ('zext', 'sext', 'trunc'):
        return cast(k, t[1], subst(t[2], m))
    if k == 'bswap':
        return bswap(t[1], subst(t[2], m))
    if k == 'cmp':
        return cmp(t[1], subst(t[2], m), subst(t[3], m))
    if k == 'not':
        return neg(subst(t[1], m))
    if k == 'p':
        b = P(t[1])
        if b in m:
            return padd(m[b], t[2], [(subst(x, m), s) for x, s in t[3]])
        b = t[1]
        if b[0] == 'ldp':
            b = ('ldp', subst(b[1], m), b[2])
        return padd(P(b), t[2], [(subst(x, m), s) for x, s in t[3]])
    if k == 'ld':
        return ('ld', subst(t[1], m), t[2], t[3])
    return t


def show(t):
    """short human readable rendering"""
    k = t[0] if isinstance(t, tuple) and t else t
    try:
        if k == 'c':
            if t[1] == 64 and t[2] == 0:
                return '0'
            return str(sval(t))
        if k == 'lin':
            s = []
            for x, c in t[3]:
                c = c - (1 << t[1]) if c >> (t[1] - 1) else c
                s.append((('' if c == 1 else '-' if c == -1 else '%d*' % c)) + show(x))
            kk = t[2] - (1 << t[1]) if t[2] >> (t[1] - 1) else t[2]
            if kk:
                s.append(str(kk))
            return '(' + ' + '.join(s) + ')'
        if k == 'op':
            return '(%s %s %s)' % (show(t[3]), t[1], show(t[4]))
        if k in ('zext', 'sext', 'trunc', 'bswap'):
            return show(t[2]) if k != 'bswap' else 'bswap(%s)' % show(t[2])
        if k == 'cmp':
            return '%s %s %s' % (show(t[2]), {'eq': '==', 'slt': '<', 'ult': '<u'}[t[1]], show(t[3]))
        if k == 'not':
            return '!(%s)' % show(t[1])
        if k == 'p':
            s = showbase(t[1])
            for x, sc in t[3]:
                s += '+%s*%d' % (show(x), sc)
            return s + ('+%d' % t[2] if t[2] else '')
        if k == 'ld':
            return '[%s]' % show(t[1])
        if k == 'sv':
            return 'stream(%s)' % evname(t[1])
        if k == 'ret':
            return 'result of %s' % evname(t[1])
        if k == 'out':
            return '[%s after %s]' % (show(t[2]), evname(t[1]))
        if k == 'lphi':
            return 'loop-carried'
        if k == 'iter':
            return 'i'
        if k == 'arg':
            return 'arg%d' % t[1]
    except Exception:
        pass
    return str(t)[:80]


def evname(e):
    return e[-1] if isinstance(e, tuple) and isinstance(e[-1], str) else 'call'


def showbase(b):
    k = b[0]
    if k == 'argp':
        return 'arg%d' % b[1]
    if k == 'ldp':
        return '[%s]' % show(b[1])
    if k == 'ret':
        return 'result of %s' % evname(b[1])
    if k == 'g':
        return b[1]
    if k == 'f':
        return b[1]
    if k == 'alloca':
        return 'local'
    if k == 'lphi':
        return 'loop-carried'
    return str(b)[:40]
