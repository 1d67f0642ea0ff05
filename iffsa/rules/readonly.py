"""C17: inspecting operations never modify a hierarchy.

Effect analysis: every store, bulk write and release on every path of every inspecting operation is classified by where
its target comes from; targets reached from a chunk, array, payload or registry handed to the operation are violations.
"""
import re
from ..lib import *
from ..prov import *
from .module import tables

INSPECT = re.compile(r'^IFF_(write|check|print|compare|search|get|find)')
READING = ('write', 'check', 'print', 'compare')
WRITES = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'fread': 0, 'fgets': 0, 'sprintf': 0, 'snprintf': 0, 'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'qsort': 0,
          'bzero': 0, 'vsprintf': 0, 'vsnprintf': 0, 'explicit_bzero': 0, 'swab': 1, 'bcopy': 1, 'strtok': 0, '__memcpy_chk': 0, '__memset_chk': 0, 'mempcpy': 0}
RELEASES = {'free': 0, 'realloc': 0, 'reallocarray': 0, 'cfree': 0}
TAKES = {'IFF_freeChunk': 0, 'IFF_free': 0, 'IFF_readChunk': None}


def operations(ctx):
    out = {}
    for n, f in ctx.m.fns.items():
        if ctx.m.body(n) is not None and not f.local and INSPECT.match(n):
            out[n] = f
    t = tables(ctx)
    for cid, r, label, g, off in t['rows'] + ([t['default']] if t['default'] else []):
        for s, fn in r.items():
            if s.startswith(READING) and fn and fn != '?' and ctx.has(fn):
                out[fn] = ctx.m.fns[fn]
    return out


def c17(ctx, rep):
    rep.need('operation', 60)
    for n, f in sorted(operations(ctx).items()):
        ps = ctx.walk(n)
        if ps is None:
            rep.und('operation', n, 'not enumerable')
            continue
        bad, und, seen = None, None, 0
        for p in ps:
            pv = Prov(ctx, f, p)
            for e, st in events_all(p):
                for what, t in targets(e):
                    seen += 1
                    if what == 'stores to' and samevalue(e):
                        continue
                    k = pv.of(t)
                    if 'obj' in k or 'global' in k and what != 'stores to' or k == {'global'}:
                        bad = ('%s %s %s, which belongs to the objects it inspects' % (n, what, show(t)), e.where(), p)
                    elif k & {'?', 'text'}:
                        und = und or '%s %s %s' % (e.where(), what, show(t))
        if bad:
            rep.bad('operation', n, *bad)
        elif und:
            rep.und('operation', n, und)
        else:
            rep.ok('operation', n, '%d writes or releases, none to inspected objects' % seen)


def samevalue(e):
    """a store of the value the place already holds"""
    t, v = e.args[0], e.args[2]
    if v[0] == 'ld':
        return v[1] == t and v[3] in (0, None)
    if v[0] == 'p' and v[1][0] == 'ldp':
        return v[1][1] == t and v[2] == 0 and not v[3] and v[1][2] == 0
    return False


def targets(e):
    if e.kind == 'st':
        yield 'stores to', e.args[0]
    elif e.kind == 'bulk':
        yield 'overwrites', e.args[0]
    elif e.kind == 'call':
        if e.name in WRITES and len(e.args) > WRITES[e.name]:
            yield 'overwrites', e.args[WRITES[e.name]]
        elif e.name in RELEASES:
            yield 'releases', e.args[RELEASES[e.name]]
        elif e.name in TAKES and TAKES[e.name] is not None:
            yield 'frees', e.args[TAKES[e.name]]
    elif e.kind == 'slot' and not e.name.startswith(READING + ('create',)):
        yield 'hands to %s()' % e.name, e.args[1 if e.name.startswith('read') else 0]


RULES = {'C17': c17}
