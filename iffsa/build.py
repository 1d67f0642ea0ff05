"""Compile /repo's current sources to LLVM IR and load them.  Nothing of /repo is executed."""
import glob, json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IFFSA_REPO', '/repo')
CLANG = '/usr/bin/clang-18'


class Broken(Exception):
    """the analysis could not be carried out (not a verdict)"""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[-3000:]))
    return p.stdout


def irdump():
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    bdir = os.path.join(VERIF, 'build')
    exe = os.path.join(bdir, 'irdump')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(bdir, exist_ok=True)
    fl = lambda *a: run(['/usr/bin/llvm-config-18', *a]).decode().split()
    tmp = exe + '.%d' % os.getpid()
    run(['/usr/bin/clang++-18', *fl('--cxxflags'), '-O1', '-fno-rtti', src, '-o', tmp,
         *fl('--ldflags', '--libs', '--link-shared')])
    os.replace(tmp, exe)
    return exe


CFG = {
    'le': dict(be=0, target=[]),
    'be': dict(be=1, target=['--target=powerpc64-linux-gnu', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include',
                            '-D__x86_64__']),
    # platforms where plain char is unsigned (ARM, POWER)
    'uc': dict(be=0, target=['-funsigned-char']),
    # locals start with a marker, so that values nobody set stay visible
    'init': dict(be=0, target=['-ftrivial-auto-var-init=pattern']),
}
DEFS = ['-DHAVE_GETOPT_H=1', '-DPACKAGE_NAME="libiff"', '-DPACKAGE_VERSION="0.1"']


def compile_repo(cfg='le', defs=(), fixture=None):
    """-> dict unit -> json module for 'lib', 'iffjoin', 'iffpp'"""
    tmp = tempfile.mkdtemp(prefix='iffsa')
    try:
        src = os.path.join(tmp, 'src')
        shutil.copytree(os.path.join(REPO, 'src'), src,
                        ignore=shutil.ignore_patterns('*.o', '*.lo', '*.la', '.libs', '.deps', 'Makefile*'))
        c = CFG[cfg]
        inf = os.path.join(src, 'libiff', 'ifftypes.h.in')
        if os.path.exists(inf):
            t = open(inf).read().replace('@IFF_BIG_ENDIAN@', str(c['be']))
            open(os.path.join(src, 'libiff', 'ifftypes.h'), 'w').write(t)
        flags = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-emit-llvm', '-c', '-w',
                 '-fno-builtin-memset', '-fdebug-prefix-map=%s=' % (tmp + '/'), '-I', os.path.join(src, 'libiff'),
                 *c['target'], *DEFS, *defs]
        mods = {}
        procs = []
        for d in ('libiff', 'iffjoin', 'iffpp'):
            for f in sorted(glob.glob(os.path.join(src, d, '*.c'))):
                o = f[:-2] + '.bc'
                procs.append((f, o, d, subprocess.Popen([CLANG, *flags, os.path.relpath(f, tmp), '-o', o], cwd=tmp,
                                                        stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        objs = {}
        for f, o, d, p in procs:
            _, e = p.communicate()
            if p.returncode:
                raise Broken('cannot compile %s:\n%s' % (os.path.relpath(f, tmp), e.decode(errors='replace')[-2000:]))
            objs.setdefault(d, []).append(o)
        if not objs.get('libiff'):
            raise Broken('no library sources found under %s/src/libiff' % REPO)
        lib = os.path.join(tmp, 'lib.bc')
        run(['/usr/bin/llvm-link-18', *objs['libiff'], '-o', lib])
        units = {'lib': lib}
        for d in ('iffjoin', 'iffpp'):
            if d in objs:
                o = os.path.join(tmp, d + '.bc')
                run(['/usr/bin/llvm-link-18', lib, *objs[d], '-o', o])
                units[d] = o
        exe = irdump()
        for u, o in units.items():
            out = run([exe, o, 'function(mem2reg)'])
            mods[u] = json.loads(out)
        return mods
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def compile_text(text, cfg='le'):
    """compile a fixture given as C text"""
    tmp = tempfile.mkdtemp(prefix='iffsa')
    try:
        f = os.path.join(tmp, 'fixture.c')
        open(f, 'w').write(text)
        run([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-emit-llvm', '-c', '-w',
             *CFG[cfg]['target'], f, '-o', f + '.bc'])
        return json.loads(run([irdump(), f + '.bc', 'function(mem2reg)']))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    print(irdump())
