"""C35: every installed declaration can be used from C and C++.  C36: streams are used sequentially.

C35 is decided by the compiler front end on witnesses built around the installed headers (nothing is run): each header alone, twice, and
all of them together in both orders; every library source under all installed declarations at once; and a query over the declarations for
their language linkage and for the definition in the library's IR.
C36 is an effect query: no operation that positions, sizes or rereads a stream is referenced anywhere in the library or the tools.
"""
import glob, json, os, re, shutil, subprocess, tempfile
from .. import build
from ..lib import *
from .module import refs

LANGS = {'C': ['-x', 'c', '-std=gnu11'], 'C++': ['-x', 'c++', '-std=c++11']}


def sources(be=0):
    tmp = tempfile.mkdtemp(prefix='iffsa')
    src = os.path.join(tmp, 'src')
    shutil.copytree(os.path.join(build.REPO, 'src'), src, ignore=shutil.ignore_patterns('*.o', '*.lo', '*.la', '.libs', '.deps', 'Makefile'))
    inf = os.path.join(src, 'libiff', 'ifftypes.h.in')
    if os.path.exists(inf):
        t = open(inf).read().replace('@IFF_BIG_ENDIAN@', str(be))
        open(os.path.join(src, 'libiff', 'ifftypes.h'), 'w').write(t)
    return tmp, os.path.join(src, 'libiff')


def installed(d):
    am = os.path.join(d, 'Makefile.am')
    out = []
    if os.path.exists(am):
        t = open(am).read().replace('\\\n', ' ')
        for l in re.findall(r'^\s*(?:nodist_)?(?:pkg)?include_HEADERS\s*\+?=(.*)$', t, re.M):
            out += l.split()
    out = [h for h in out if os.path.exists(os.path.join(d, h))]
    return out or sorted(os.path.basename(h) for h in glob.glob(os.path.join(d, '*.h')))


def compiles(d, lang, text, extra=()):
    p = subprocess.run([build.CLANG, *LANGS[lang], '-fsyntax-only', '-w', '-I', d, *build.DEFS, *extra, '-'], input=text.encode(), cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode == 0:
        return None
    for l in p.stderr.decode(errors='replace').splitlines():
        if 'error:' in l:
            return l.replace(d + '/', 'src/libiff/').strip()
    return 'does not compile'


def declarations(d, headers, lang):
    """(kind, name, mangled name, header, line, has body) of what the installed headers declare"""
    text = ''.join('#include "%s"\n' % h for h in headers)
    p = subprocess.run([build.CLANG, *LANGS[lang], '-fsyntax-only', '-w', '-I', d, *build.DEFS, '-Xclang', '-ast-dump=json', '-'], input=text.encode(), cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        return None
    tree = json.loads(p.stdout)
    out = []
    cur = {'file': None, 'line': None}

    def place(n):
        for l in (n.get('loc') or {}, (n.get('range') or {}).get('begin') or {}):
            l = l.get('expansionLoc') or l.get('spellingLoc') or l
            if 'file' in l:
                cur['file'] = l['file']
            if 'line' in l:
                cur['line'] = l['line']
        return cur['file'], cur['line']

    def go(n):
        f, l = place(n)
        if n.get('kind') in ('FunctionDecl', 'VarDecl'):
            if f and (f.startswith(d) or not f.startswith('/')) and f != '<stdin>' and not n.get('isImplicit'):
                body = any(x.get('kind') == 'CompoundStmt' for x in n.get('inner', ())) or n.get('storageClass') == 'static'
                out.append((n['kind'], n['name'], n.get('mangledName', n['name']), os.path.basename(f), l, body, n.get('storageClass')))
            skim(n)
            return
        for x in n.get('inner', ()):
            go(x) if n.get('kind') in ('TranslationUnitDecl', 'LinkageSpecDecl', 'NamespaceDecl') else skim(x)

    def skim(n):
        # keeps the running file and line, which the dump only states where they change
        for k in ('loc', 'range'):
            v = n.get(k) or {}
            for l in (v, v.get('begin') or {}, v.get('end') or {}):
                for q in (l, l.get('spellingLoc') or {}, l.get('expansionLoc') or {}):
                    if 'file' in q:
                        cur['file'] = q['file']
                    if 'line' in q:
                        cur['line'] = q['line']
        for x in n.get('inner', ()):
            skim(x)
    go(tree)
    return out


def c35(ctx, rep):
    rep.need('header-alone', 20)
    rep.need('declared-defined', 60)
    rep.need('c-linkage', 60)
    tmp, d = sources()
    try:
        hs = installed(d)
        for lang in LANGS:
            for h in hs:
                e = compiles(d, lang, '#include "%s"\n#include "%s"\n' % (h, h))
                rep.check('header-alone', '%s in %s' % (h, lang), e is None, 'src/libiff/%s cannot be included on its own in %s: %s' % (h, lang, e), 'src/libiff/' + h)
            for what, order in (('in the listed order', hs), ('in the reverse order', hs[::-1])):
                e = compiles(d, lang, ''.join('#include "%s"\n' % h for h in order))
                rep.check('headers-together', '%s in %s' % (what, lang), e is None, 'the installed headers cannot be included together in %s: %s' % (lang, e), 'src/libiff')
        allh = ''.join('#include "%s"\n' % h for h in hs)
        for c in sorted(glob.glob(os.path.join(d, '*.c'))):
            b = os.path.basename(c)
            e = compiles(d, 'C', '#include "%s"\n%s' % (b, allh))
            if e is not None and compiles(d, 'C', '#include "%s"\n' % b) is not None:
                raise Broken('cannot compile %s: %s' % (b, e))
            rep.check('declared-type', b, e is None, 'a definition in src/libiff/%s disagrees with an installed declaration: %s' % (b, e), 'src/libiff/' + b)
        seen = {lang: declarations(d, hs, lang) for lang in LANGS}
        names = {lang: {x[1] for x in ds} for lang, ds in seen.items() if ds is not None}
        if len(names) == len(LANGS):
            for lang, ds in seen.items():
                for kind, name, mangled, h, line, body, sc in ds:
                    if body:
                        continue
                    miss = [l for l in LANGS if name not in names[l]]
                    rep.check('both-languages', name, not miss, '%s, declared in src/libiff/%s for %s, is not declared in %s' % (name, h, lang, ', '.join(miss)), 'src/libiff/%s:%s' % (h, line))
        for lang in LANGS:
            ds = seen[lang]
            if ds is None:
                continue
            for kind, name, mangled, h, line, body, sc in ds:
                where = 'src/libiff/%s:%s' % (h, line)
                if body:
                    continue
                if kind == 'VarDecl' and sc != 'extern':
                    rep.check('c-linkage', '%s in %s' % (name, lang), False, 'src/libiff/%s defines the variable %s in every program unit that includes it' % (h, name), where)
                    continue
                if lang == 'C++':
                    rep.check('c-linkage', name, mangled == name, '%s, declared in src/libiff/%s, is looked up as %s by C++ programs' % (name, h, mangled), where)
                    continue
                if kind == 'FunctionDecl':
                    f = ctx.m.fns.get(name)
                    rep.check('declared-defined', name, f is not None and not f.decl and not f.local and ctx.m.body(name) is not None,
                              '%s is declared in src/libiff/%s but the library does not define it' % (name, h), where)
                else:
                    g = ctx.m.globals.get(name)
                    rep.check('declared-defined', name, None if g is None else not g.get('decl') and not g.get('local'),
                              '%s is declared in src/libiff/%s but the library does not define it' % (name, h), where)
        rep.counts['headers'] = len(hs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SEEK = {'fseek', 'fseeko', 'fseeko64', 'ftell', 'ftello', 'rewind', 'fgetpos', 'fsetpos', 'lseek', 'lseek64', 'fstat', 'fstat64', 'stat', 'lstat', 'mmap',
        'pread', 'pwrite', 'freopen', 'truncate', 'ftruncate', '__fxstat', '__xstat', 'fmemopen'}


def c36(ctx, rep):
    rep.need('sequential', 100)
    for unit, m in sorted(ctx.mods.items()):
        for n, f in sorted(m.fns.items()):
            if f.decl or unit != 'lib' and ctx.m.body(n) is not None:
                continue
            r, _ = refs(f)
            hit = sorted((l or 0, x) for (k, x), l in r.items() if k == 'f' and x in SEEK)
            rep.check('sequential', '%s: %s' % (unit, n), not hit, '%s uses %s(), which a pipe or terminal does not support' % (n, hit[0][1] if hit else ''),
                      '%s:%s' % (f.file, hit[0][0] if hit else f.line))
        for g, v in sorted(m.globals.items()):
            for e in v.get('init', []):
                x = e.get('val', {})
                if x.get('k') == 'f' and x.get('n') in SEEK:
                    rep.bad('sequential', '%s: %s' % (unit, g), 'the table %s refers to %s()' % (g, x['n']), g)


RULES = {'C35': c35, 'C36': c36}
