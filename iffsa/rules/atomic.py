"""C38: a modification that fails leaves the objects as they were.

For every path on which an add, attach or set operation reports failure, each member of the objects it was given that is stored to must
hold its original contents in the end; a difference is reported only if the facts of the path have a model in which the contents differ.
"""
import re
from ..lib import *
from ..prov import events_all
from .init import possible

MODIFY = re.compile(r'^IFF_(add|attach|set|append|insert|copy|remove|replace)')


def c38(ctx, rep):
    rep.need('unchanged', 8)
    for f, fn in sorted(ctx.m.fns.items()):
        if fn.decl or fn.local or ctx.m.body(f) is None or not MODIFY.match(f) or conv(ctx.m, f) != 'bool':
            continue
        ps = ctx.walk(f)
        if ps is None:
            rep.und('unchanged', f, 'not enumerable')
            continue
        w = ctx.walker()
        for p in ps:
            if p.status != 'ret' or isc(p.ret) and p.ret[2] != 0:
                continue
            facts = list(p.facts) + [(cmp('eq', p.ret, C(width(p.ret), 0)), True)]
            verdict, why, where = True, '', '%s:%s' % (p.file, p.line)
            for e, st in events_all(p):
                if e.kind == 'bulk' and e.args[0][0] == 'p' and e.args[0][1][0] in ('argp', 'ldp'):
                    verdict = None if verdict else verdict
                if e.kind != 'st':
                    continue
                a, n = e.args[0], e.args[1][2]
                if a[0] != 'p' or a[1][0] not in ('argp', 'ldp'):
                    continue
                if st:
                    verdict = None if verdict else verdict
                    continue
                isptr = e.args[2][0] == 'p' or e.args[2] == NULL
                old, new = w.load(None, a, n, isptr), w.load(p.mem, a, n, isptr)
                if old == new:
                    continue
                more = [(cmp('eq', new, old), False)]
                r = next((x for x in p.events if x.kind == 'call' and x.name in ('realloc', 'reallocarray') and x.ret == new and x.args[0] == old), None)
                if r is not None:
                    more = [(cmp('eq', new, NULL), True)]       # an array that has only been moved is the same array
                elif isptr and new[0] == 'p' and old[0] == 'p':
                    more = []
                v = possible(ctx, p, facts + more, 'lib')
                if v is True:
                    verdict, why, where = False, '%s fails although it has already changed %s' % (f, show(a)), e.where()
                    break
                if v is None:
                    verdict = None if verdict else verdict
            rep.check('unchanged', f, verdict, why, where, p)


RULES = {'C38': c38}
