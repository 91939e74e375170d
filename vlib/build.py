"""Builds libpire (from /repo's current working tree) and the harnesses, cached by content hash.

Nothing is written to /repo.  Output goes to $VERIF_BUILD (default /verif/build, git-ignored).
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
HARNESS = os.path.join(VERIF, 'harness')

# The configuration of the project's own build: checked mode on, <limits> force-included for gcc 13.
BASE = ['-std=c++17', '-w', '-include', 'limits', '-pthread']
CONFIGS = {
    # the project's default build: optimized, assertions on
    'std':    dict(cxx='g++', flags=BASE + ['-O2', '-g1', '-DPIRE_CHECKED']),
    # the same without assertions: what `configure` without --enable-checked gives
    'rel':    dict(cxx='g++', flags=BASE + ['-O2', '-g1']),
    # no SIMD: exercises the portable BasicInstructionSet word path
    'nosimd': dict(cxx='g++', flags=BASE + ['-O2', '-g1', '-DPIRE_CHECKED', '-U__SSE2__', '-U__MMX__']),
    # 64-bit MMX words
    'mmx':    dict(cxx='g++', flags=BASE + ['-O2', '-g1', '-DPIRE_CHECKED', '-U__SSE2__']),
    # memory errors become crashes
    'asan':   dict(cxx='g++', flags=BASE + ['-O1', '-g1', '-DPIRE_CHECKED', '-fsanitize=address',
                                            '-fno-omit-frame-pointer']),
    # memory errors without the project's assertions in the way
    'asanrel': dict(cxx='g++', flags=BASE + ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']),
    # every memory access calls the exploring runtime of harness/sched_rt.cpp (not ThreadSanitizer's)
    'sched':  dict(cxx='g++', flags=BASE + ['-O1', '-g1', '-DPIRE_CHECKED', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fsanitize=thread'],
                   runtime='sched_rt.cpp', rtflags=['-std=c++17', '-w', '-pthread', '-O2', '-g1', '-fno-builtin'],
                   link=['-pthread', '-rdynamic', '-ldl'] + ['-Wl,--wrap=' + f for f in (
                       'memcpy', 'memmove', 'memset', 'memcmp', 'malloc', 'free', 'calloc', 'realloc', 'pthread_mutex_lock',
                       'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_once', '__cxa_allocate_exception')]),
}
CONFIG_H = """#define PIRE_ALIGNOF_SIZE_T 8
#define PIRE_ALIGNOF_UINT64_T 8
#define PIRE_HAVE_ALIGNAS 1
#define PIRE_HAVE_ATTR_ALIGNED 1
#define PIRE_HAVE_LAMBDAS 1
#define PIRE_HAVE_SCOPED_EXPR 1
"""


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def tree_hash(root, exts):
    items = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('.git', '_build', 'autom4te.cache'))
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    items.append(os.path.relpath(p, root) + ':' + hashlib.sha256(fh.read()).hexdigest())
    return sha('\n'.join(items))


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune(parent, keep, prefix):
    try:
        ds = [os.path.join(parent, d) for d in os.listdir(parent) if d.startswith(prefix)]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def repo_hash():
    return tree_hash(os.path.join(REPO, 'pire'), ('.h', '.cpp', '.y', '.lpp', '.am'))


def generated(rh):
    """re_parser.{cpp,h}, config.h and the pire_inline scanner, generated out of the repo's tree."""
    out = os.path.join(BUILD, 'gen-' + rh)
    with Lock('gen'):
        if not os.path.exists(out + '/.done'):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out + '/pire')
            with open(out + '/pire/config.h', 'w') as f:
                f.write(CONFIG_H)
            run(['bison', '-y', '-d', '-o', 're_parser.cpp', '--defines=re_parser.h',
                 os.path.join(REPO, 'pire/re_parser.y')], cwd=out)
            run(['flex', '-o', out + '/inline.cpp', os.path.join(REPO, 'pire/inline.lpp')])
            open(out + '/.done', 'w').close()
            prune(BUILD, 3, 'gen-')
    return out


def incs(gen):
    p = os.path.join(REPO, 'pire')
    return ['-I' + gen, '-I' + p, '-I' + REPO, '-I' + HARNESS]


def lib_sources():
    p = os.path.join(REPO, 'pire')
    src = []
    for d in ('', 'extra', 'scanners', 'stub'):
        dd = os.path.join(p, d)
        src += [os.path.join(dd, f) for f in sorted(os.listdir(dd)) if f.endswith('.cpp')]
    return [s for s in src if os.path.basename(s) not in ('re_parser.cpp', 'inline.cpp')]


def library(cfg):
    rh = repo_hash()
    gen = generated(rh)
    c = CONFIGS[cfg]
    key = sha(rh, cfg, ' '.join([c['cxx']] + c['flags']))
    out = os.path.join(BUILD, 'lib-%s-%s' % (cfg, key))
    with Lock('lib-' + cfg):
        if not os.path.exists(out + '/.done'):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            srcs = lib_sources() + [gen + '/re_parser.cpp']
            objs = []

            def one(s):
                o = os.path.join(out, sha(s) + '_' + os.path.basename(s)[:-4] + '.o')
                run([c['cxx']] + c['flags'] + incs(gen) + ['-c', s, '-o', o])
                return o
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                objs = list(ex.map(one, srcs))
            run(['ar', 'rcs', out + '/libpire.a'] + objs)
            for o in objs:
                os.unlink(o)
            open(out + '/.done', 'w').close()
            prune(BUILD, 3, 'lib-%s-' % cfg)
    return out + '/libpire.a', gen, key


def harness(name, cfg, extra=()):
    """Builds harness/<name>.cpp against libpire in configuration cfg; returns the binary's path."""
    lib, gen, key = library(cfg)
    c = CONFIGS[cfg]
    hh = tree_hash(HARNESS, ('.h',))
    if 'runtime' in c:
        with open(os.path.join(HARNESS, c['runtime']), 'rb') as f:
            hh = sha(hh, f.read())
    src = os.path.join(HARNESS, name + '.cpp')
    with open(src, 'rb') as f:
        k = sha(key, hh, f.read(), ' '.join(list(extra) + c.get('rtflags', []) + c.get('link', [])))
    out = os.path.join(BUILD, 'h-%s-%s-%s' % (name, cfg, k))
    with Lock('h-%s-%s' % (name, cfg)):
        if not os.path.exists(out):
            if 'runtime' in c:
                run([c['cxx']] + c['rtflags'] + ['-I' + HARNESS, '-c', os.path.join(HARNESS, c['runtime']), '-o', out + '.rt.o'])
                run([c['cxx']] + c['flags'] + incs(gen) + list(extra) + ['-c', src, '-o', out + '.o'])
                run([c['cxx'], out + '.o', lib, out + '.rt.o'] + c['link'] + ['-o', out + '.tmp'])
                os.unlink(out + '.o')
                os.unlink(out + '.rt.o')
            else:
                run([c['cxx']] + c['flags'] + incs(gen) + list(extra) + [src, lib, '-o', out + '.tmp'])
            os.rename(out + '.tmp', out)
            old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)
                          if f.startswith('h-%s-%s-' % (name, cfg))), key=os.path.getmtime, reverse=True)
            for f in old[2:]:
                os.unlink(f)
    return out


def inline_tool(cfg='std'):
    """pire_inline built from the current tree."""
    lib, gen, key = library(cfg)
    c = CONFIGS[cfg]
    out = os.path.join(BUILD, 'pire_inline-%s-%s' % (cfg, key))
    with Lock('inline-' + cfg):
        if not os.path.exists(out):
            run([c['cxx']] + c['flags'] + incs(gen) + [gen + '/inline.cpp', lib, '-o', out + '.tmp'])
            os.rename(out + '.tmp', out)
            old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)
                          if f.startswith('pire_inline-%s-' % cfg)), key=os.path.getmtime, reverse=True)
            for f in old[2:]:
                os.unlink(f)
    return out


if __name__ == '__main__':
    t = time.time()
    for spec in sys.argv[1:]:
        n, _, c = spec.partition(':')
        print(harness(n, c or 'std'))
    print('%.1fs' % (time.time() - t))
