#!/usr/bin/env python3
"""Development self-test: apply textual edits to scratch copies of /repo/src and see which rules report.
Edits expected to break a property must be reported by its check; behaviour-preserving ones by none.
usage: run.py [-k substring] [-p C04,C05] [-j 8]"""
import argparse, os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE)); sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def one(a):
    name, edits, expect, props = a
    from iffsa import build, lib
    import check
    tmp = tempfile.mkdtemp(prefix='iffmut')
    try:
        shutil.copytree('/repo/src', tmp + '/src', ignore=shutil.ignore_patterns('*.o', '*.lo', '*.la', '.libs', '.deps', 'Makefile*'))
        for f, old, new in edits:
            p = os.path.join(tmp, 'src', f)
            t = open(p).read()
            if t.count(old) < 1:
                return name, 'EDIT DOES NOT APPLY: %s' % old[:60], expect
            t = t.replace(old, new, 1)
            open(p, 'w').write(t)
        build.REPO = tmp
        reg = check.registry()
        try:
            ctx = lib.Ctx('le')
        except build.Broken as e:
            return name, 'BROKEN ' + str(e)[:800], expect
        hit = {}
        for p in props or sorted(reg):
            rep = lib.Rep(p, 'quick')
            try:
                cs = [ctx] + ([lib.Ctx('be')] if p == 'C01' else [])
                for c in cs:
                    for n, f in reg.get(p, []):
                        f(c, rep)
            except (lib.Broken, build.Broken) as e:
                hit[p] = ['BROKEN ' + str(e)]
                continue
            except Exception as e:
                import traceback
                hit[p] = ['CRASH ' + traceback.format_exc()[-600:]]
                continue
            per = {}
            for o in rep.obl:
                per[o[0]] = per.get(o[0], 0) + 1
            for r, n in rep.minimum.items():
                if per.get(r, 0) < n:
                    hit[p] = ['BROKEN rule %s has %d instances' % (r, per.get(r, 0))]
            if rep.bads:
                hit[p] = ['%s [%s] %s: %s' % (b['where'], b['rule'], b['instance'], b['message']) for b in rep.bads.values()]
        return name, hit, expect
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-k', default='')
    ap.add_argument('-p', default='')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-r', action='store_true', help='only refactorings')
    ap.add_argument('-x', action='store_true', help='mutants against the properties they break only')
    ap.add_argument('-m', action='store_true', help='only mutants')
    a = ap.parse_args()
    import mutants
    props = [x for x in a.p.split(',') if x]
    jobs = []
    for name, expect, edits in mutants.MUTANTS:
        if a.r and expect or (a.m or a.x) and not expect:
            continue
        if a.k in name and (not props or not expect or set(expect) & set(props)):
            jobs.append((name, edits, expect, sorted(set(expect) & set(props) if props else expect) if a.x and expect else props))
    bad = 0
    with ProcessPoolExecutor(a.j) as ex:
        for name, hit, expect in ex.map(one, jobs):
            if isinstance(hit, str):
                print('??', name, hit); bad += 1
                continue
            broken = [p for p, v in hit.items() if v[0].startswith(('BROKEN', 'CRASH'))]
            want = set(expect) & set(props) if props else set(expect)
            miss = want - (set(hit) - set(broken))
            alarm = (not expect) and hit
            tag = 'ok' if not miss and not alarm and not broken else 'MISS' if miss else 'ALARM' if alarm else 'BROKEN'
            if tag != 'ok':
                bad += 1
            print('%-6s %-40s expect %s got %s' % (tag, name, ','.join(sorted(expect)) or '-', ','.join(sorted(hit)) or '-'))
            if a.v or tag in ('ALARM', 'BROKEN'):
                for p, v in hit.items():
                    for x in v[:4]:
                        print('        ', p, x)
    print('%d jobs, %d not as expected' % (len(jobs), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
