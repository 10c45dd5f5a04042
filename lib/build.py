"""Builds the daemon (and in-process harnesses) from /repo's working tree."""
import glob, hashlib, os, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('DNSF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
HARN = os.path.join(VERIF, 'harness')

WRAPS = ['time', 'clock_gettime', 'gettimeofday', 'usleep', 'sleep', 'nanosleep', 'select',
         'getpwuid', 'mmap', 'pthread_spin_lock', 'pthread_mutex_lock', 'pthread_rwlock_rdlock',
         'pthread_rwlock_wrlock', 'sendto', 'recvfrom', 'close', 'send', 'recv',
         'fopen', 'fclose', 'rename', 'remove', 'unlink']

UBSAN = ('bool,bounds,builtin,enum,float-cast-overflow,integer-divide-by-zero,nonnull-attribute,null,'
         'object-size,pointer-overflow,return,returns-nonnull-attribute,unreachable,vla-bound,'
         'shift-exponent,signed-integer-overflow')

VARIANTS = {
    'asan': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-fsanitize=' + UBSAN,
             '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'crash': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-fsanitize=' + UBSAN,
              '-fno-sanitize-recover=all', '-fsanitize-coverage=trace-pc,trace-stores'],
    # without libcurl, which is not instrumented
    'msan': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fsanitize-memory-track-origins=2', '-UDOWNLOAD_LIBCURL', '-DNODOWNLOAD'],
    'plain': ['-O1'],
}
LIBS = ['-lcurl', '-lm', '-pthread']
COMMON = ['-g', '-w', '-std=gnu17', '-pthread', '-DHAVE_CONFIG_H', '-DDOWNLOAD_LIBCURL']
CC = 'clang'


class BuildError(Exception):
    pass


def sources():
    return sorted(glob.glob(os.path.join(REPO, '*.c')))


def _digest(extra):
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, '*.[ch]'))) + sorted(glob.glob(os.path.join(HARN, '*'))):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read())
    h.update(repr(extra).encode())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])


def _compile_all(objdir, flags, srcs):
    jobs = []
    for s in srcs:
        o = os.path.join(objdir, os.path.basename(s)[:-2] + '.o')
        jobs.append(([CC] + COMMON + flags + ['-I' + HARN, '-I' + REPO, '-c', s, '-o', o], o))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: _run(j[0]), jobs))
    return [j[1] for j in jobs]


def _locked(dirname, fn):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, dirname)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'ok')):
            # keep the cache small
            old = sorted((d for d in glob.glob(os.path.join(BUILD, '*-*')) if os.path.isdir(d)),
                         key=os.path.getmtime)
            for d in old[:-24]:
                shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            fn(out)
            open(os.path.join(out, 'ok'), 'w').close()
    return out


def daemon(variant='asan'):
    """Path of the daemon built with the given instrumentation."""
    flags = VARIANTS[variant]

    def go(out):
        objs = _compile_all(out, flags, sources())
        objs += _compile_all(out, [f for f in flags if 'coverage' not in f], [os.path.join(HARN, 'shim.c')])
        _run([CC] + flags + ['-g', '-rdynamic', '-o', os.path.join(out, 'dnsforwarder')] + objs +
             ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)] + LIBS)
        for o in objs:
            os.unlink(o)
    d = _locked('d%s-%s' % (variant, _digest((variant, flags))), go)
    return os.path.join(d, 'dnsforwarder')


def harness(name, variant='asan', extra=(), only=None):
    """An in-process harness harness/<name>.c linked with the daemon's objects but main()."""
    flags = VARIANTS[variant] + list(extra)

    def go(out):
        srcs = [s for s in sources() if os.path.basename(s) != 'main.c']
        objs = _compile_all(out, flags, srcs)
        ho = os.path.join(out, 'harness_main.o')
        _run([CC] + COMMON + flags + ['-I' + HARN, '-I' + REPO, '-c', os.path.join(HARN, name + '.c'), '-o', ho])
        _run([CC] + flags + ['-g', '-o', os.path.join(out, name), ho] + objs + LIBS)
        for o in objs:
            os.unlink(o)
    d = _locked('h%s%s-%s' % (name, variant, _digest((name, variant, flags))), go)
    return os.path.join(d, name)


if __name__ == '__main__':
    for v in sys.argv[1:] or ['asan', 'tsan']:
        print(daemon(v))
