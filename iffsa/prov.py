"""Where a pointer comes from: locals, fresh memory, out parameters, or the objects handed to an operation."""
from .lib import *

FRESH = {'malloc', 'calloc', 'realloc', 'reallocarray', 'strdup', 'strndup', 'fopen', 'fdopen', 'tmpfile', 'IFF_createChunk', 'IFF_createGroup', 'IFF_createForm'}
SEARCHES = {'IFF_searchForms', 'IFF_searchFormsFromArray', 'IFF_searchFormsInGroup', 'IFF_searchFormsInForm', 'IFF_searchFormsInCAT',
            'IFF_searchFormsInList', 'IFF_getChunksFromForm', 'IFF_mergeFormArray'}
SCALAR = ('IFF_Long', 'IFF_ULong', 'IFF_Word', 'IFF_UWord', 'IFF_UByte', 'IFF_Byte', 'IFF_ID', 'unsigned int', 'int', 'unsigned long', 'size_t', 'long')


def events_all(p):
    """every event of a path, loop bodies included, with the stack of loops around it"""
    def go(evs, stack):
        for e in evs:
            yield e, stack
            if e.kind == 'loop':
                for b in e.loop.backs:
                    yield from go(b.events, stack + [e.loop])
    yield from go(p.events, [])


def loopmap(p):
    return {e.loop.id: e.loop for e, _ in events_all(p) if e.kind == 'loop'}


def evmap(p):
    return {e.id: e for e, _ in events_all(p) if e.kind in ('call', 'slot', 'rec', 'icall')}


def paramkind(dty):
    d = dty.strip()
    if 'FILE' in d:
        return 'file'
    if d.endswith('**'):
        return 'arr'
    if not d.endswith('*'):
        return 'num'
    if d == 'fn*':
        return 'fn'
    b = d[:-1].strip()
    const = b.startswith('const ')
    b = b[6:].strip() if const else b
    if b in ('char', 'void'):
        return 'text'
    if b in SCALAR:
        return 'in' if const else 'out'
    return 'obj'


class Prov:
    def __init__(self, ctx, fn, p):
        self.ctx = ctx; self.fn = fn; self.p = p
        self.loops = loopmap(p); self.evs = evmap(p)
        self.memo = {}

    def of(self, ptr, seen=()):
        """subset of {'null','local','fresh','out','file','obj','global','text','?'}"""
        if ptr == NULL or isc(ptr):
            return {'null'}
        if ptr[0] == 'sel' or ptr[0] == 'ite':
            return {'?'}
        if ptr[0] != 'p':
            return {'?'}
        b = ptr[1]
        if b in seen:
            return set()
        k = b[0]
        if k == 'alloca':
            return {'local'}
        if k == 'g':
            return {'global'}
        if k == 'argp':
            kind = paramkind(self.fn.dty[b[1] + 1]) if len(self.fn.dty) > b[1] + 1 else '?'
            return {{'obj': 'obj', 'out': 'out', 'in': 'obj', 'file': 'file', 'text': 'text'}.get(kind, '?')}
        if k == 'ldp':
            q = self.of(b[1], seen + (b,))
            if q <= {'obj', 'global'}:
                return {'obj'}
            return {'?'}
        if k == 'ret':
            n = b[1][3] if isinstance(b[1], tuple) and len(b[1]) > 3 else None
            if n in FRESH or n in SEARCHES or (n or '').startswith('IFF_create'):
                return {'fresh'}
            if n in ('IFF_findChunkType', 'bsearch') or (n or '').startswith('IFF_get'):
                return {'obj'}
            return {'?'}
        if k == 'lphi':
            LI = self.loops.get(b[1])
            if LI is None or b[2] not in LI.init:
                return {'?'}
            r = set(self.of(LI.init[b[2]], seen + (b,)))
            for x in LI.backs:
                if b[2] in x.next:
                    r |= self.of(x.next[b[2]], seen + (b,))
                else:
                    r.add('?')
            return r
        return {'?'}
