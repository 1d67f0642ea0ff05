"""C22, C23, C24, C27: call graph, format strings, global state, layout and handler tables.

Whole-module rules: every function of the library (and its tools where the property says so) is inspected; the stream and
store rules additionally use the path events of every function.
"""
import re
from ..lib import *
from .. import build, ir

WIDE = CORE | {'IFF_checkId', 'IFF_checkFormType', 'IFF_printIndent', 'IFF_printId', 'IFF_searchFormsFromArray'}


def allwalks(ctx, unit='lib', own=None):
    """(name, paths) of every function with a body; functions not enumerable are recorded and skipped"""
    m = ctx.mods[unit]
    lib = set(f for f in ctx.m.fns if ctx.m.body(f))
    for n, f in sorted(m.fns.items()):
        if f.decl or (unit != 'lib' and n in lib):
            continue
        b = WIDE if unit == 'lib' else WIDE | (lib if own is None else own)
        ps = ctx.walk(n, boundary=b, unit=unit)
        if ps is not None:
            yield n, f, ps


def refs(fn):
    """functions and globals an IR function mentions: {('f', name): line, ('g', name): line}, and functions called directly"""
    out, called = {}, set()

    def go(x, line):
        if isinstance(x, dict):
            if x.get('k') in ('f', 'g') and 'n' in x:
                out.setdefault((x['k'], x['n']), line)
            for v in x.values():
                if isinstance(v, (dict, list)):
                    go(v, line)
        elif isinstance(x, list):
            for v in x:
                go(v, line)
    for i in fn.inst.values():
        go({k: v for k, v in i.items() if k != 'file'}, i.get('line'))
        if i['op'] == 'call' and i.get('callee', {}).get('k') == 'f':
            called.add(i['callee']['n'])
    return out, called


class Graph:
    def __init__(self, m):
        self.refs, self.called = {}, {}
        for n, f in m.fns.items():
            if not f.decl:
                self.refs[n], self.called[n] = refs(f)

    def succ(self, n):
        return {x for k, x in self.refs.get(n, ()) if k == 'f'}

    def reach(self, roots, stop=()):
        seen, st = set(), list(roots)
        while st:
            x = st.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            st.extend(self.succ(x))
        return seen


TERMINATE = {'exit', '_exit', '_Exit', 'quick_exit', 'abort', 'longjmp', 'siglongjmp', '_longjmp', 'raise', 'kill', 'pthread_exit', 'pthread_kill',
             'thrd_exit', 'err', 'errx', 'verr', 'verrx', '__assert_fail', '__assert', '__assert_perror_fail', 'error', 'error_at_line', 'llvm.trap',
             'execl', 'execv', 'execve', 'execvp', 'execlp', '__stack_chk_fail', '__fortify_fail', '__chk_fail', 'tgkill', 'killpg', 'llvm.debugtrap'}
HANDLERS = {'signal', 'sigaction', 'sigset', 'bsd_signal', 'sysv_signal', 'atexit', 'at_quick_exit', 'on_exit', 'sigprocmask', 'setitimer', 'alarm',
            'setlocale', 'chdir', 'fchdir', 'umask', 'setenv', 'putenv', 'unsetenv', 'dup2', 'dup', 'freopen', 'fork', 'vfork', 'system', 'popen',
            'setrlimit', 'mallopt', 'pthread_atfork', 'clearenv', 'close', 'fcloseall', '__cxa_atexit'}
STDERRFN = {'perror', 'warn', 'warnx', 'vwarn', 'vwarnx', 'psignal', 'psiginfo', 'malloc_stats', 'herror', 'syslog', 'vsyslog'}
STDOUTFN = {'printf', 'vprintf', 'puts', 'putchar', 'putchar_unlocked', 'putw', '__printf_chk', '__vprintf_chk'}
RAWFD = {'write', 'dprintf', 'vdprintf', 'pwrite', 'writev', 'read', 'open', 'openat', 'creat', 'unlink', 'remove', 'rename', 'rmdir', 'truncate',
         'ftruncate', 'tmpfile', 'mkstemp'}


def callback_default(m):
    """the function the error callback starts with"""
    for o, e in m.gbytes('IFF_errorCallback').items():
        v = e.get('val', {})
        if v.get('k') == 'f':
            return v['n']
    return None


def process_role(m, G, fine=None):
    """yield (rule, instance, complaint or None, where)"""
    default = callback_default(m)
    fns = {n: f for n, f in m.fns.items() if not f.decl}

    def at(n, k):
        return '%s:%s' % (fns[n].file, G.refs[n].get(k) or fns[n].line)
    for n in sorted(fns):
        bad = None
        for k, x in sorted(G.refs[n]):
            if k != 'f':
                continue
            if x in TERMINATE:
                bad = ('%s can terminate the process through %s()' % (n, x), at(n, (k, x)))
            elif x in HANDLERS:
                bad = ('%s changes process-wide state through %s()' % (n, x), at(n, (k, x)))
            elif x in RAWFD and not (fine and fine(n, x)):
                bad = ('%s uses %s(), which bypasses the stream it was given' % (n, x), at(n, (k, x)))
        if bad is None and any(i['op'] == 'call' and i.get('callee', {}).get('k') == 'asm' for i in fns[n].inst.values()):
            bad = ('%s contains assembly' % n, at(n, None))
        yield ('no-exit', n, bad[0] if bad else None, bad[1] if bad else '')
    # standard error: only inside the initial value of the callback
    used = {n: k for n in fns for k in G.refs[n] if k == ('g', 'stderr') or k[0] == 'f' and k[1] in STDERRFN}
    callers = {n: {c for c in fns if ('f', n) in G.refs[c]} for n in fns}

    def only_default(n, seen=()):
        if n == default:
            return True
        if not fns[n].local or n in seen:
            return False
        return bool(callers[n]) and all(only_default(c, seen + (n,)) for c in callers[n])
    for n in sorted(fns):
        if n in used:
            ok = only_default(n) and used[n][0] == 'g'
            yield ('stderr', n, None if ok else '%s writes to standard error without the error callback' % n, at(n, used[n]))
        else:
            yield ('stderr', n, None, '')
    # standard output
    def mayprint(n):
        return n.startswith('IFF_print') or n in ('IFF_write',)
    rows = {x for g in m.globals.values() for e in g.get('init', []) if e.get('val', {}).get('k') == 'f' for x in [e['val']['n']]}
    roots = [n for n in fns if not fns[n].local and not mayprint(n)]
    prn = {n for n in fns if ('g', 'stdout') in G.refs[n] or any(('f', x) in G.refs[n] for x in STDOUTFN)}
    for r in sorted(roots):
        if r == 'IFF_printIndent':
            continue
        reach = G.reach([r], stop={'IFF_write'})
        hit = sorted(reach & prn)
        yield ('stdout', r, ('%s, which is no printing operation, reaches standard output in %s' % (r, hit[0])) if hit else None,
               at(hit[0], None) if hit else '')


FIXTURE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <stdarg.h>
void IFF_errorCallbackStderr(const char *f, va_list ap) { vfprintf(stderr, f, ap); }
void (*IFF_errorCallback)(const char *f, va_list ap) = &IFF_errorCallbackStderr;
int IFF_readBad(FILE *file) { if(fgetc(file) == EOF) exit(1); return 1; }
static void diag(void) { fprintf(stderr, "oops"); }
int IFF_checkBad(int x) { if(x) diag(); return x; }
int IFF_compareBad(int x) { printf("%d", x); return x; }
int IFF_readBad2(FILE *f) { signal(2, SIG_IGN); return fgetc(f); }
int IFF_checkGood(int x) { return x; }
'''


def c22(ctx, rep):
    rep.need('no-exit', 60)
    rep.need('stderr', 60)
    rep.need('stdout', 60)
    rep.need('own-stream', 20)
    fx = ir.Module(build.compile_text(FIXTURE))
    got = {(r, i) for r, i, c, w in process_role(fx, Graph(fx)) if c}
    want = {('no-exit', 'IFF_readBad'), ('no-exit', 'IFF_readBad2'), ('stderr', 'diag'), ('stdout', 'IFF_compareBad')}
    if got != want:
        raise Broken('the fixture for C22 is judged %s' % sorted(got))
    if callback_default(ctx.m) is None and 'IFF_errorCallback' not in ctx.m.globals:
        raise Broken('anchor vanished: IFF_errorCallback')
    for r, i, c, w in process_role(ctx.m, Graph(ctx.m), lambda n, x: x in ('remove', 'unlink') and takes_back(ctx, n, x)):
        rep.check(r, i, c is None, c or '', w)
    # streams: the one passed in, one opened here, or the standard stream the caller asked for
    for n, f, ps in allwalks(ctx):
        if f.local:
            continue
        for p in ps:
            opened = {e.ret for e, _ in deep_calls(p) if e.name in ('fopen', 'fdopen')}
            for e, _ in deep_calls(p):
                if e.kind == 'diag':
                    continue
                cands = [file_of(e)] if file_of(e) is not None else []
                if e.kind in ('call', 'rec') and ctx.m.body(e.name) is not None:
                    d = ctx.m.fns[e.name].dty
                    cands += [a for a, t in zip(e.args, d[1:]) if t.replace('const ', '') == 'FILE*']
                for s in cands:
                    inst = '%s: %s' % (n, e.name)
                    if e.name == 'fclose' and s not in opened:
                        std = [x for x in ('stdin', 'stdout', 'stderr') if s == x or stdglobal(s, x)]
                        given = s[0] == 'p' and s[1][0] == 'argp' and s[2] == 0 and n.startswith(('IFF_read', 'IFF_write', 'IFF_skip'))
                        if std or given:
                            rep.bad('own-stream', inst, '%s closes %s, which it has not opened' % (n, 'the process\'s ' + std[0] if std else 'the stream it was given'), e.where(), p)
                            continue
                    if s in ('stdout', 'stdin') or stdglobal(s, 'stdout') or stdglobal(s, 'stdin'):
                        out = s == 'stdout' or s != 'stdin' and stdglobal(s, 'stdout')
                        if out and n.startswith('IFF_print'):
                            rep.ok('own-stream', inst)
                            continue
                        ptrs = [P(('argp', i)) for i, a in enumerate(f.args) if a['ty'] == 'ptr']
                        nul = any(holds([(cmp('eq', a, NULL), True)], nullval(p, a)) for a in ptrs[:1])
                        rep.check('own-stream', inst, True if nul and n == ('IFF_write' if out else 'IFF_read') else
                                  (None if n in ('IFF_write', 'IFF_read') and False else False),
                                  '%s uses standard %s although a stream or file was given' % (n, 'output' if out else 'input'), e.where(), p)
                    elif stdglobal(s, 'stderr'):
                        continue
                    elif s == NULL and e.name == 'fflush':
                        rep.bad('own-stream', inst, 'every open stream of the process is flushed', e.where(), p)
                    elif s in opened or s[0] == 'p' and s[1][0] == 'argp' and s[2] == 0:
                        rep.ok('own-stream', inst)
                    else:
                        rep.und('own-stream', inst, 'stream %s' % show(s))


def takes_back(ctx, n, x):
    """x() is only applied to the file the function itself has opened for writing"""
    ps = ctx.walk(n)
    if not ps:
        return False
    some = False
    for p in ps:
        names = set()
        for e, _ in deep_calls(p):
            if e.name == 'fopen':
                names.add(e.args[0])
            elif e.name == x:
                some = True
                if not e.args or e.args[0] not in names:
                    return False
    return some


def nullval(p, a):
    V = Val()
    for c, tv in p.facts:
        if c == cmp('eq', a, NULL):
            V.ptr[a[1]] = 0 if tv else BIG
    return V


# ---------------------------------------------------------------- C23
CONV = re.compile(r'%(?P<flags>[-+ #0\']*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+)?)?(?P<len>hh|h|ll|l|j|z|t|L|q)?(?P<c>[diouxXcsSCpneEfFgGaAm%])')
LEN = {None: 32, 'hh': 32, 'h': 32, 'l': 64, 'll': 64, 'j': 64, 'z': 64, 't': 64, 'q': 64}
FMT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'asprintf': 1, '__printf_chk': 1, '__fprintf_chk': 2, 'syslog': 1}
VFMT = {'vprintf': 0, 'vfprintf': 1, 'vsprintf': 1, 'vsnprintf': 2, 'vdprintf': 1, '__vfprintf_chk': 2}


def wrappers(ctx, unit='lib'):
    """variadic functions that hand their own arguments on: name -> index of the format parameter"""
    out = {}
    m = ctx.mods[unit]
    for n, f in m.fns.items():
        if f.decl or not f.vararg:
            continue
        for i, a in enumerate(f.args):
            if a['ty'] == 'ptr' and 'char*' in (f.dty[i + 1] if len(f.dty) > i + 1 else ''):
                out[n] = i
    return out


def fmt_complaint(ctx, unit, fmt, args, w, mem, strict=True):
    """complaint about one formatted call, None if fine, '?..' if undecided"""
    m = ctx.mods[unit]
    if not (fmt[0] == 'p' and fmt[1][0] == 'g' and not fmt[3]):
        return 'nonconst'
    g = m.globals.get(fmt[1][1])
    s = m.gstring(fmt[1][1], fmt[2])
    if g is None or s is None:
        return 'nonconst'
    if not g['const']:
        return 'the format text %r can be modified' % s
    i = 0
    pos = 0
    while True:
        k = s.find('%', pos)
        if k < 0:
            break
        mt = CONV.match(s, k)
        if not mt:
            return 'invalid conversion in format %r' % s
        pos = mt.end()
        c = mt.group('c')
        if c == '%':
            continue
        if c == 'n':
            return 'format %r stores through an argument' % s
        if c == 'm':
            continue
        need = []
        for st in ('w', 'p'):
            if mt.group(st) == '*':
                need.append(('int', 32))
        if c in 'diouxXc':
            need.append(('int', LEN.get(mt.group('len'), 32)))
        elif c in 's':
            need.append(('str', 64))
        elif c == 'p':
            need.append(('ptr', 64))
        else:
            need.append(('float', 64))
        for kind, width_ in need:
            if i >= len(args):
                return 'format %r needs more arguments than the %d given' % (s, len(args))
            a = args[i]
            i += 1
            isp = a[0] == 'p' or a == NULL
            if kind == 'int':
                if isp:
                    return 'format %r prints a pointer (%s) as a number' % (s, show(a))
                if width(a) != width_:
                    return 'format %r: conversion %s takes a %d bit argument, %s has %d bits' % (s, mt.group(0), width_, show(a), width(a))
            elif kind in ('str', 'ptr'):
                if not isp and a[0] not in ('ld', 'out', 'sv', 'undef', 'ret', 'lphi'):
                    return 'format %r: conversion %s takes a pointer, %s is a number' % (s, mt.group(0), show(a))
                if not isp and width(a) != 64:
                    return 'format %r: conversion %s takes a pointer, %s has %d bits' % (s, mt.group(0), show(a), width(a))
                if kind == 'str' and isp and mt.group('p') is None:
                    x = notstring(ctx, unit, a, w, mem)
                    if x:
                        return x if x[0] == '?' else 'format %r: %s' % (s, x)
            else:
                return '?floating point conversion'
    if i < len(args):
        return 'format %r uses %d of %d arguments' % (s, i, len(args))
    return None


def notstring(ctx, unit, a, w, mem):
    b = a[1] if a[0] == 'p' else None
    m = ctx.mods[unit]
    if a == NULL:
        return 'a null pointer is printed as text'
    if b[0] == 'g':
        return None if m.gstring(b[1], a[2]) is not None else '?text %s' % b[1]
    if b[0] == 'alloca':
        n = b[1][3]
        unknown = False
        for i in range(a[2] if not a[3] else 0, n):
            x = w.load(mem, P(b, i), 1)
            if isc(x) and x[2] == 0:
                return None
            if x[0] == 'undef':
                continue
            if not isc(x) and x[0] not in ('trunc', 'ld', 'op', 'arg'):
                unknown = True
        return '?local text' if unknown else 'a local array without terminating zero is printed as text'
    if b[0] == 'ldp':
        o = opath(b[1], Val()) if b[1][0] == 'p' else None
        st, f = 'IFF_RawChunk', 'chunkData'
        if o and o[1] == m.off(st, f) and o[0][0] in ('A', 'R', '*'):
            return 'a chunk payload, which has no terminating zero, is printed as text'
    return None


def c23(ctx, rep):
    rep.need('format', 60)
    rep.need('wrapper', 2)
    for unit in [u for u in ('lib', 'iffjoin', 'iffpp') if u in ctx.mods]:
        m = ctx.mods[unit]
        W = wrappers(ctx, 'lib')
        W.update(wrappers(ctx, unit))
        w = ctx.walker(unit)
        for n, f, ps in allwalks(ctx, unit):
            for p in ps:
                lists(rep, n, f, p)
                for e, _ in alldeep(p):
                    if e.kind == 'slot' or e.name is None:
                        continue
                    k = FMT.get(e.name, W.get(e.name))
                    if k is not None:
                        judge_format(ctx, rep, unit, n, f, e, e.args[k] if k < len(e.args) else None, e.args[k + 1:], w, p, m)
                    k = VFMT.get(e.name)
                    if k is None and e.name == 'IFF_errorCallback':
                        k = 0
                    if k is not None:
                        a = e.args[k]
                        inst = '%s: %s' % (n, e.name)
                        if a[0] == 'p' and a[1][0] == 'argp':
                            va = f.vararg or any('va_list' in t for t in f.dty)
                            rep.check('wrapper', inst, True if va else None, 'format of a plain function', e.where(), p)
                            if len(e.args) > k + 1 and e.args[k + 1][0] == 'p' and e.args[k + 1][1][0] == 'g':
                                rep.bad('wrapper', inst, 'the argument list passed on is not the own one', e.where(), p)
                        elif a[0] == 'p' and a[1][0] == 'g' and f.vararg:
                            rep.bad('wrapper', inst, 'a fixed format text is used with the arguments of an unknown one', e.where(), p)
                        else:
                            rep.und('wrapper', inst, 'format %s' % show(a))


def lists(rep, n, f, p):
    """the arguments of an argument list are taken once per va_start or va_copy, and not after va_end"""
    state = {P(('argp', i)): 'started' for i, t in enumerate(f.dty[1:]) if 'va_list' in t} if not f.local else {}
    judged = set()

    def go(evs, state):
        for e in evs:
            if e.kind == 'loop':
                # what is taken in one round is gone in the next
                for b in e.loop.backs:
                    once = dict(state)
                    go(b.events, once)
                    go(b.events, once)
            elif e.kind == 'va':
                if e.name == 'va_copy' and len(e.args) > 1 and state.get(e.args[1]) in ('taken', 'ended'):
                    say(e, 'copied', state[e.args[1]])
                state[e.args[0]] = 'ended' if e.name == 'va_end' else 'started'
            elif e.kind in ('call', 'rec', 'icall', 'slot', 'diag'):
                for a in e.args[-1:] if e.name in VFMT or e.name == 'IFF_errorCallback' else e.args:
                    if a in state:
                        if state[a] != 'started':
                            say(e, 'used', state[a])
                        else:
                            rep.ok('list', '%s: %s' % (n, e.name))
                            state[a] = 'taken'

    def say(e, what, st):
        if e.where() not in judged:
            judged.add(e.where())
            rep.bad('list', '%s: %s' % (n, e.name), 'the argument list is %s although its arguments have been %s' % (what, 'taken before' if st == 'taken' else 'given up by va_end'), e.where(), p)
    go(p.events, state)


def alldeep(path):
    out = []

    def go(evs, stack):
        for e in evs:
            if e.kind == 'loop':
                for b in e.loop.backs:
                    go(b.events, stack + [e.loop])
            elif e.kind in ('call', 'slot', 'rec', 'icall', 'diag'):
                out.append((e, stack))
    go(path.events, [])
    return out


def judge_format(ctx, rep, unit, n, f, e, fmt, args, w, p, m):
    inst = '%s: %s at %s' % (n, e.name, e.where())
    if fmt is None:
        rep.bad('format', inst, 'no format given', e.where(), p)
        return
    c = fmt_complaint(ctx, unit, fmt, args, w, e.mem)
    if c == 'nonconst':
        b = fmt[1] if fmt[0] == 'p' else None
        if b and b[0] == 'argp' and (f.vararg or any('va_list' in t for t in f.dty)):
            rep.ok('format', inst)
        elif b and b[0] == 'argp' and f.local:
            pass                            # judged where the function is called
        elif b and b[0] in ('argp', 'ldp', 'alloca', 'ret'):
            rep.bad('format', inst, 'the format is not a fixed text but %s' % show(fmt), e.where(), p)
        else:
            rep.und('format', inst, 'format %s' % show(fmt))
    elif c and c[0] == '?':
        rep.und('format', inst, c[1:])
    else:
        rep.check('format', inst, c is None, c or '', e.where(), p)


# ---------------------------------------------------------------- C24
STATEFUL = {'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'localtime', 'gmtime', 'asctime', 'ctime', 'tmpnam', 'setlocale',
            'strerror', 'getenv', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getpid', 'rand_r', 'ecvt', 'fcvt', 'mktemp', 'getopt', 'getopt_long',
            'setenv', 'putenv', 'strsignal', 'inet_ntoa', 'readdir', 'hsearch', 'hcreate', 'lgamma', 'mblen', 'mbtowc', 'wctomb'}

FIX24 = r'''
#include <string.h>
static int counter;
int table[2] = {1, 2};
const int good[2] = {3, 4};
int IFF_a(void) { return ++counter; }
void IFF_b(int x) { int *p = table; p[x] = 5; }
int IFF_c(char *s) { return strtok(s, "x") != 0; }
int IFF_d(int x) { return good[x] + table[x]; }
int IFF_e(int x) { static int last; int r = last; last = x; return r; }
'''


def gstores(fn, m):
    """globals whose address flows into a store, a call that may write or a return inside one function: [(global, line, how)]"""
    taint = {}
    ch = True

    def of(o):
        if o.get('k') == 'g':
            return {o['n']}
        if o.get('k') == 'i':
            return taint.get(o['id'], set())
        return set()
    insts = [i for b in fn.blocks.values() for i in b.insts]
    while ch:
        ch = False
        for i in insts:
            if i['op'] in ('getelementptr', 'bitcast', 'select', 'phi', 'freeze', 'inttoptr', 'ptrtoint'):
                s = set()
                if i['op'] == 'phi':
                    for _, o in i['in']:
                        s |= of(o)
                else:
                    for o in i['ops'][1:] if i['op'] == 'select' else i['ops'][:1]:
                        s |= of(o)
                if s - taint.get(i['id'], set()):
                    taint[i['id']] = taint.get(i['id'], set()) | s
                    ch = True
    out = []
    for i in insts:
        if i['op'] == 'store':
            for g in of(i['ops'][1]):
                out.append((g, i.get('line'), 'stored to'))
        elif i['op'] == 'call' and i['callee'].get('k') == 'f':
            n = i['callee']['n']
            for k, a in enumerate(i['args']):
                for g in of(a):
                    if n.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')) or n in ('memcpy', 'memmove', 'memset', 'fread', 'strcpy', 'strncpy', 'sprintf',
                                                                                          'snprintf', 'qsort', 'free', 'realloc', 'fgets', 'strcat'):
                        if k == (0 if n != 'x' else 0):
                            out.append((g, i.get('line'), 'modified by %s()' % n))
        elif i['op'] in ('atomicrmw', 'cmpxchg'):
            for g in of(i['ops'][0]):
                out.append((g, i.get('line'), 'modified'))
    return out


def hidden_state(m):
    fns = {n: f for n, f in m.fns.items() if not f.decl}
    written = {}
    for n, f in fns.items():
        for g, line, how in gstores(f, m):
            written.setdefault(g, []).append((n, '%s:%s' % (f.file, line), how))
    for g, d in sorted(m.globals.items()):
        if g.startswith(('.str', 'llvm.')) or d.get('decl') and g not in written:
            continue
        ws = written.get(g)
        yield 'global', g, ('global %s is %s in %s' % (g, ws[0][2], ws[0][0])) if ws else None, ws[0][1] if ws else ''
        if d.get('tls'):
            yield 'global', g + ' (thread)', 'per-thread state %s' % g, '%s:%s' % (d.get('file'), d.get('line'))
    for n, f in sorted(fns.items()):
        r, _ = refs(f)
        bad = sorted(x for k, x in r if k == 'f' and x in STATEFUL)
        yield 'no-hidden-libc-state', n, ('%s uses %s(), whose result depends on hidden state' % (n, bad[0])) if bad else None, \
            '%s:%s' % (f.file, r[('f', bad[0])]) if bad else ''


def c24(ctx, rep):
    rep.need('global', 4)
    rep.need('no-hidden-libc-state', 60)
    rep.need('registry-readonly', 20)
    fx = ir.Module(build.compile_text(FIX24))
    got = {i.split('.')[-1] for r, i, c, w in hidden_state(fx) if c}
    if got != {'counter', 'table', 'IFF_c', 'last'}:
        raise Broken('the fixture for C24 is judged %s' % sorted(got))
    if 'IFF_errorCallback' not in ctx.m.globals:
        raise Broken('anchor vanished: IFF_errorCallback')
    for r, i, c, w in hidden_state(ctx.m):
        rep.check(r, i, c is None, c or '', w)
    # nothing reached through a registry is stored to
    for n, f, ps in allwalks(ctx):
        reg = {P(('argp', i)) for i, t in enumerate(f.dty[1:]) if any(x in t for x in ('IFF_ChunkRegistry', 'IFF_ChunkTypesNode', 'IFF_ChunkType', 'IFF_FormChunkTypes'))}
        bad = None
        seen = False
        for p in ps:
            find = {e.ret for e, _ in alldeep(p) if e.name in ('IFF_findChunkType', 'bsearch')}
            seen = seen or bool(find) or bool(reg)
            for e in events_deep(p):
                if e.kind == 'st':
                    r = root(e.args[0])
                    if r in reg or r in find or r is not None and r[1][0] == 'g' and not stdglobal(r, 'stdout'):
                        bad = ('%s stores to %s' % (n, show(e.args[0])), e.where(), p)
        if seen or bad:
            rep.check('registry-readonly', n, bad is None, bad[0] if bad else '', bad[1] if bad else '', bad[2] if bad else None)


def events_deep(p):
    st = list(p.events)
    while st:
        e = st.pop()
        if e.kind == 'loop':
            for b in e.loop.backs:
                st.extend(b.events)
        else:
            yield e


def root(ptr):
    """the object a pointer was derived from, through any number of loads"""
    while ptr[0] == 'p' and ptr[1][0] == 'ldp':
        ptr = ptr[1][1]
    return P(ptr[1]) if ptr[0] == 'p' else None


# ---------------------------------------------------------------- C27
COMMON = ['parent', 'chunkId', 'chunkSize']


def tables(ctx):
    """rows of every handler table the default registry reaches: [(id, {slot: function}, label)]"""
    m = ctx.m
    rows = []
    T = m.sizeof('IFF_ChunkType')
    g = m.gbytes('IFF_defaultChunkRegistry')
    if not g:
        raise Broken('anchor vanished: IFF_defaultChunkRegistry')

    def word(gname, off):
        e = m.gbytes(gname).get(off)
        if e is None:
            for o, z in m.gbytes(gname).items():
                if 'zero' in z and o <= off < o + z['zero']:
                    return 0
            return None
        v = e.get('val')
        if v is None:
            return None
        if v['k'] == 'c':
            return int(v['v'])
        if v['k'] == 'null':
            return 0
        if v['k'] in ('f', 'g'):
            return (v['k'], v['n'], v.get('off', 0))
        return 0 if v['k'] == 'zeroagg' else None

    def row(gname, off, label):
        r = {}
        for o, n in m.slots().items():
            v = word(gname, off + o)
            r[n] = v[1] if isinstance(v, tuple) and v[0] == 'f' else (None if v == 0 else '?')
        return (word(gname, off + m.off('IFF_ChunkType', 'chunkId')), r, label, gname, off)
    nodes = []

    def node(ref, label):
        seen = 0
        while isinstance(ref, tuple) and seen < 20:
            _, gname, off = ref
            n = word(gname, off + m.off('IFF_ChunkTypesNode', 'chunkTypesLength'))
            arr = word(gname, off + m.off('IFF_ChunkTypesNode', 'chunkTypes'))
            nodes.append((label, gname, n, arr))
            if isinstance(arr, tuple) and n is not None:
                cap = m.globals[arr[1]]['size']
                for i in range(n):
                    if arr[2] + (i + 1) * T <= cap:
                        rows.append(row(arr[1], arr[2] + i * T, '%s[%d]' % (arr[1], i)))
            ref = word(gname, off + m.off('IFF_ChunkTypesNode', 'parent'))
            seen += 1
    R = 'IFF_ChunkRegistry'
    nf = word('IFF_defaultChunkRegistry', m.off(R, 'formChunkTypesLength'))
    fa = word('IFF_defaultChunkRegistry', m.off(R, 'formChunkTypes'))
    forms = []
    F = m.sizeof('IFF_FormChunkTypes')
    if isinstance(fa, tuple) and nf:
        for i in range(nf):
            forms.append(word(fa[1], fa[2] + i * F + m.off('IFF_FormChunkTypes', 'formType')))
            node(word(fa[1], fa[2] + i * F + m.off('IFF_FormChunkTypes', 'chunkTypesNode')), 'form %d' % i)
    node(word('IFF_defaultChunkRegistry', m.off(R, 'globalChunkTypesNode')), 'global')
    d = word('IFF_defaultChunkRegistry', m.off(R, 'defaultChunkType'))
    deflt = row(d[1], d[2], d[1]) if isinstance(d, tuple) else None
    return dict(rows=rows, default=deflt, nodes=nodes, forms=forms, nforms=nf, farr=fa)


ARGOF = {'createExtensionChunk': None, 'readExtensionChunkFields': 1, 'writeExtensionChunkFields': 1, 'checkExtensionChunk': 0, 'freeExtensionChunk': 0,
         'printExtensionChunk': 0, 'compareExtensionChunk': 0}


def extent(ctx, fn, arg):
    """bytes of the object passed as argument `arg` a handler touches: (highest end, member offsets of pointer size, path, where)"""
    ps = ctx.walk(fn, boundary=WIDE)
    if ps is None:
        return None
    hi, wh, who, offs = 0, '', None, set()
    for p in ps:
        for e in events_deep(p):
            if e.kind in ('ld', 'st') and e.args[0][0] == 'p' and e.args[0][1] == ('argp', arg):
                if e.args[0][3]:
                    continue
                end = e.args[0][2] + e.args[1][2]
                offs.add((e.args[0][2], e.args[1][2]))
                if end > hi:
                    hi, wh, who = end, e.where(), p
    return hi, offs, wh, who


def c27(ctx, rep):
    rep.need('layout', 25)
    rep.need('row-complete', 5 * 7)
    rep.need('create-size', 5 * 6)
    rep.need('row-kind', 5)
    m = ctx.m
    groups = {'IFF_Group': 'groupType', 'IFF_Form': 'formType', 'IFF_Prop': 'formType', 'IFF_CAT': 'contentsType', 'IFF_List': 'contentsType'}
    for st in list(groups) + ['IFF_RawChunk']:
        if st not in m.structs:
            raise Broken('anchor vanished: struct %s' % st)
        for f in COMMON:
            a, b = m.field('IFF_Chunk', f), m.field(st, f)
            if a is None:
                raise Broken('anchor vanished: IFF_Chunk.%s' % f)
            rep.check('layout', '%s.%s' % (st, f), b is not None and (a['off'], a['size']) == (b['off'], b['size']),
                      '%s.%s lies at %s, IFF_Chunk.%s at %s' % (st, f, b and (b['off'], b['size']), f, (a['off'], a['size'])), 'struct %s' % st)
    for st, ty in groups.items():
        for f, g in ((ty, 'groupType'), ('chunkLength', 'chunkLength'), ('chunk', 'chunk')):
            a, b = m.field('IFF_Group', g), m.field(st, f)
            if a is None:
                raise Broken('anchor vanished: IFF_Group.%s' % g)
            rep.check('layout', '%s.%s' % (st, f), b is not None and (a['off'], a['size']) == (b['off'], b['size']),
                      '%s.%s lies at %s, IFF_Group.%s at %s' % (st, f, b and (b['off'], b['size']), g, (a['off'], a['size'])), 'struct %s' % st)
    t = tables(ctx)
    rows = list(t['rows'])
    if t['default'] is None:
        rep.bad('row-complete', 'default chunk type', 'the default registry has no default chunk type', 'IFF_defaultChunkRegistry')
    else:
        rows.append(t['default'])
    member = {}
    for st, f in (('IFF_Group', 'chunk'), ('IFF_List', 'prop')):
        member[m.off(st, f)] = f
    dataoff = m.off('IFF_RawChunk', 'chunkData')
    for cid, r, label, gname, off in rows:
        wh = '%s:%s' % (m.globals[gname].get('file'), m.globals[gname].get('line'))
        for s in m.slots().values():
            rep.check('row-complete', '%s.%s' % (label, s), None if r[s] == '?' else r[s] is not None, 'the handler table has no function for %s' % s, wh)
        c = r.get('createExtensionChunk')
        if not c or c == '?' or not ctx.has(c):
            continue
        size = created_size(ctx, c)
        kinds = {}
        idname = cid.to_bytes(4, 'big').decode('latin1') if isinstance(cid, int) else '?'
        for s, a in ARGOF.items():
            fn = r.get(s)
            if a is None or not fn or fn == '?' or not ctx.has(fn):
                continue
            for arg in ([0, 1] if s.startswith('compare') else [a]):
                x = extent(ctx, fn, arg)
                if x is None or size is None:
                    rep.und('create-size', '%s %s' % (label, fn), 'extent or size')
                    continue
                rep.check('create-size', '%s %s' % (label, fn), x[0] <= size, '%s() accesses %d bytes of a chunk, %s() only creates %d' % (fn, x[0], c, size),
                          x[2], x[3])
                if s.startswith(('check',)) and gname == (t['default'] or [0] * 5)[3]:
                    continue
                kinds[s] = ({'chunkData'} if not t['rows'] or (gname, off) == (t['default'][3], t['default'][4]) else set()) & {'chunkData'} or set()
                kinds[s] = frozenset(n for o, n in member.items() if any(o == q and z == 8 for q, z in x[1]))
        want = {'LIST': {'chunk', 'prop'}, 'FORM': {'chunk'}, 'CAT ': {'chunk'}, 'PROP': {'chunk'}}.get(idname)
        isdef = t['default'] is not None and (gname, off) == (t['default'][3], t['default'][4])
        if isdef:
            for s in ('readExtensionChunkFields', 'writeExtensionChunkFields', 'freeExtensionChunk', 'compareExtensionChunk', 'printExtensionChunk'):
                fn = r.get(s)
                x = extent(ctx, fn, ARGOF[s]) if fn and fn != '?' and ctx.has(fn) else None
                if x is None:
                    continue
                rep.check('row-kind', '%s %s' % (label, s), any(o == dataoff for o, z in x[1]) and not any(o in member and o != dataoff for o, z in x[1]),
                          '%s() of the default chunk type does not handle the payload of a raw chunk' % fn, wh)
        elif want is not None:
            for s, k in sorted(kinds.items()):
                rep.check('row-kind', '%s %s' % (label, s), set(k) >= want and not (set(k) - want),
                          '%s() registered for %r works on the members %s, a %s has %s' % (r[s], idname, sorted(k), idname.strip(), sorted(want)), wh)
        # the object created carries the ID it is registered for
        for p in ctx.walk(c) or []:
            if p.status != 'ret' or p.ret is None or p.ret[0] != 'p' or cid is None or isdef:
                continue
            q = follow(ctx, p, Val({('arg', 0, 32): cid, ('arg', 1, 32): 20}))
            if q is None:
                continue
            v = ev(q[0].w.load(p.mem, padd(p.ret, m.off('IFF_Chunk', 'chunkId'), ()), 4), q[0].V)
            rep.check('row-id', label, None if v is None else v == cid, 'the chunk created for ID %08x gets ID %s' % (cid, v), wh, p)
    for label, gname, n, arr in t['nodes']:
        pass


def created_size(ctx, c):
    """smallest object a create function returns"""
    best = None
    for p in ctx.walk(c) or []:
        if p.status != 'ret' or p.ret is None or p.ret[0] != 'p':
            continue
        e = [e for e in calls(p) if e.ret == P(p.ret[1]) and e.name in ('malloc', 'calloc', 'realloc')]
        if not e:
            return None
        e = e[0]
        t = e.args[0] if e.name == 'malloc' else prod_len(e.args[0], e.args[1]) if e.name == 'calloc' else e.args[1]
        for cs in (0, 20):
            v = ev(t, Val({('arg', 0, 32): 1, ('arg', 1, 32): cs}))
            if v is None:
                return None
            best = v if best is None else min(best, v)
    return best


RULES = {'C22': c22, 'C23': c23, 'C24': c24, 'C27': c27}
