#!/usr/bin/env python3
"""decide one property of libiff from the current sources: check.py C01 [--tier quick|thorough]"""
import argparse, hashlib, importlib, json, os, pkgutil, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from iffsa import lib, rules


def registry():
    out = {}
    for x in pkgutil.iter_modules(rules.__path__):
        m = importlib.import_module('iffsa.rules.' + x.name)
        for k, f in getattr(m, 'RULES', {}).items():
            out.setdefault(k, []).append((x.name, f))
    return out


def known(prop):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    for l in open(f) if os.path.exists(f) else []:
        if l.startswith('known: '):
            d = dict(x.split('=', 1) for x in l[7:].split() if '=' in x)
            if d.get('property') == prop:
                out.append((d, l.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    reg = registry()
    if prop not in reg:
        print('no rule for', prop)
        return 3
    cfgs = ['le', 'be', 'uc'] if a.tier == 'thorough' else ['le', 'be'] if prop in ('C01',) else ['le']
    rep = lib.Rep(prop, a.tier)
    ctxs = []
    try:
        for cfg in cfgs:
            ctx = lib.Ctx(cfg)
            ctxs.append(ctx)
            for name, f in reg[prop]:
                f(ctx, rep)
    except lib.Broken as e:
        print('ANALYSIS BROKEN property=%s: %s' % (prop, e))
        return 2
    per = {}
    for rule, inst, v, d in rep.obl:
        per.setdefault(rule, {}).setdefault(v, 0)
        per[rule][v] += 1
    for rule, n in rep.minimum.items():
        have = sum(per.get(rule, {}).values())
        if have < n:
            print('ANALYSIS BROKEN property=%s: rule %s matched %d instances, expected at least %d' % (prop, rule, have, n))
            return 2
    bads = list(rep.bads.values())
    ks = known(prop)
    new, old = [], []
    for b in bads:
        hit = [l for d, l in ks if d.get('rule') == b['rule'] and d.get('where') == b['instance'].replace(' ', '_')]
        (old if hit else new).append((b, hit))
    und = [(r, i, d) for r, i, v, d in rep.obl if v == 'undecided']
    cov = dict(obligations=len(rep.obl), discharged=sum(1 for o in rep.obl if o[2] == 'discharged'), undecided=len(und), violated=len(bads),
               rules=per, functions_analysed=sorted(set().union(*[c.nfn for c in ctxs])), paths=sum(c.npaths for c in ctxs),
               configurations=cfgs, measured=rep.counts, undecided_items=['%s | %s | %s' % x for x in und[:40]],
               not_enumerable=sorted({u for c in ctxs for u in c.undecided}),
               samples=sorted({'%s: %s' % (o[0], o[1]) for o in rep.obl if o[2] == 'discharged'})[:25],
               explanation=('Obligations generated by the rules for %s from the LLVM IR of the current sources and decided without running them; '
                            '"paths" are control-flow paths of the functions listed (callees inlined, loops as one generic iteration). ' % prop) +
               ' '.join(rep.notes))
    evd = dict(property=prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
               coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 3), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(evd, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if a.v:
        for x in und:
            print('UNDECIDED', x)
    for b, hit in old:
        print('KNOWN-FINDING: property=%s %s %s' % (prop, b['instance'], b['message']))
    rc = 0
    for i, (b, _) in enumerate(new):
        rc = 1
        h = hashlib.sha1(json.dumps([b['rule'], b['instance'], b['where'], b['message']]).encode()).hexdigest()[:8]
        f = os.path.join('evidence', 'replay-%s-%s.txt' % (prop, h))
        with open(os.path.join(VERIF, f), 'w') as o:
            o.write('property %s\nrule %s\ninstance %s\nwhere %s\n%s\n\npath:\n' % (prop, b['rule'], b['instance'], b['where'], b['message']))
            o.write('\n'.join('  ' + x for x in b['path']) + '\n')
        print('%s: [%s] %s: %s' % (b['where'], b['rule'], b['instance'], b['message']))
        print('VIOLATION property=%s replay=%s' % (prop, f))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' % (prop, cov['obligations'], cov['discharged'], len(und), len(bads),
                                                                                   time.time() - t0))
    return rc


ASSUME = ['IR of clang -O0 + mem2reg represents the source; distinct memory bases do not alias unless the code shows it',
          'handlers registered by applications keep the chunk header and only modify the chunk they are given',
          'C library functions behave as documented']

if __name__ == '__main__':
    sys.exit(main())
