"""Builds harnesses against the C sources in /repo's working tree.

Objects are cached in /verif/build by a hash of the flags, the source text and
all headers, so a check always judges the current tree and recompiles only what
changed.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CONF = os.path.join(BUILD, 'conf')
GENERATED = ['config/config.h', 'wizard/wizard-baseconfig.h', 'wizard/version.h']

LIBS = ['-lbz2', '-llzma', '-lz', '-lm', '-lpthread', '-ldl']
COMMON = ['-g', '-pthread', '-DHAVE_CONFIG_H', '-I' + CONF, '-I' + REPO, '-w',
          '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE', '-D_LARGE_FILES=1', '-D_LARGEFILE_SOURCE=1']

PTHREAD = ['pthread_mutex_init', 'pthread_mutex_lock', 'pthread_mutex_unlock',
           'pthread_mutex_trylock', 'pthread_mutex_destroy', 'pthread_self',
           'pthread_equal', 'pthread_key_create', 'pthread_key_delete',
           'pthread_getspecific', 'pthread_setspecific', 'pthread_once']
HEAP = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'memalign', 'aligned_alloc',
        'strdup', 'strndup']
FILES = ['open', 'open64', 'openat', 'creat', 'close', 'read', 'write', 'readv', 'writev', 'pread',
         'pwrite', 'pread64', 'pwrite64', 'lseek', 'lseek64', 'stat', 'stat64', 'lstat', 'lstat64',
         'fstat', 'fstat64', 'access', 'unlink', 'remove', 'rmdir', 'rename', 'link', 'mkdir',
         'ftruncate', 'ftruncate64', 'truncate', 'posix_fallocate', 'posix_fadvise', 'fsync',
         'fdatasync', 'mmap', 'mmap64', 'munmap', 'msync', 'fdopen', 'fopen', 'fopen64', 'fileno',
         'mkstemp', 'mkstemp64', 'chmod', 'fchmod', 'utime', 'fcntl', 'flock', 'readlink', 'realpath',
         'usleep', 'sleep', 'nanosleep', 'time', 'gettimeofday', 'getpid', 'pthread_self', 'kill',
         'getentropy', 'clock', 'times', 'getrusage', 'posix_memalign']
TTY = ['open', 'open64', 'close', 'read', 'write', 'tcgetattr', 'tcsetattr', 'sigaction', 'signal',
       'kill', 'raise']
LIFE = ['pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_destroy', 'open', 'open64', 'unlink', 'remove']
RAW = ['memcpy', 'memmove', 'memset', 'memcmp', 'strlen', 'strcmp', 'strcpy', 'strncpy',
       'strcat', 'strncmp', 'strcasecmp', 'strncasecmp', 'strchr', 'strrchr']


class Variant:
    def __init__(self, cc, cflags, redefine=(), ldflags=None, prefix='seam_'):
        self.cc, self.cflags, self.redefine, self.prefix = cc, cflags, list(dict.fromkeys(redefine)), prefix
        self.ldflags = cflags if ldflags is None else ldflags


ASAN = ['-O1', '-fsanitize=address', '-fno-common']
VARIANTS = {
    'asan': Variant('gcc', ASAN),
    'plain': Variant('gcc', ['-O2']),
    'heap': Variant('gcc', ['-O1'], HEAP),
    'sim': Variant('gcc', ASAN, FILES),
    'tty': Variant('gcc', ASAN, TTY),
    'life': Variant('gcc', ASAN, LIFE),
    'simheap': Variant('gcc', ['-O1'], FILES + HEAP),
    'simplain': Variant('gcc', ['-O1'], FILES),
    'sched': Variant('gcc', ['-O1', '-fsanitize=thread', '-fno-builtin', '-fno-pie'],
                     PTHREAD + HEAP + RAW, ['-O1']),
    'schedsim': Variant('gcc', ['-O1', '-fsanitize=thread', '-fno-builtin', '-fno-pie'],
                        PTHREAD + HEAP + RAW + FILES, ['-O1']),
    'schedlog': Variant('gcc', ['-O1', '-fsanitize=thread', '-fno-builtin', '-fno-pie'],
                        PTHREAD + HEAP + RAW + FILES + ['fprintf', 'fflush', 'fclose'], ['-O1']),
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()


def readb(path):
    with open(path, 'rb') as f:
        return f.read()


def write_if_changed(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or readb(path) != data:
        tmp = path + '.tmp%d' % os.getpid()
        with open(tmp, 'wb') as f:
            f.write(data)
        os.rename(tmp, path)


def configure():
    """Headers configure generates: from /repo's build, else from our own run."""
    obj = os.path.join(REPO, '_build', 'obj')
    have = all(os.path.exists(os.path.join(obj, g)) for g in GENERATED)
    if have:
        for g in GENERATED:
            write_if_changed(os.path.join(CONF, g), readb(os.path.join(obj, g)))
        return
    if all(os.path.exists(os.path.join(CONF, g)) for g in GENERATED):
        return
    src, out = os.path.join(BUILD, 'confsrc'), os.path.join(BUILD, 'confout')
    for d in (src, out):
        shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, src, symlinks=True,
                    ignore=shutil.ignore_patterns('.git', '_build', 'www'))
    for g in GENERATED + ['Makefile', 'config/configure.xml']:
        p = os.path.join(src, g)
        if os.path.exists(p):
            os.unlink(p)
    os.makedirs(out)
    r = subprocess.run([os.path.join(src, 'configure'), '--disable-openmp', '--disable-static'],
                       cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.buffer.write(r.stdout[-4000:])
        raise BuildError('configure failed')
    for g in GENERATED:
        write_if_changed(os.path.join(CONF, g), readb(os.path.join(out, g)))
    for d in (src, out):
        shutil.rmtree(d, ignore_errors=True)


def headers_hash():
    files = sorted(glob.glob(REPO + '/wizard/*.h') + glob.glob(REPO + '/utilities/*.h') +
                   glob.glob(REPO + '/wizard/*.inc') + [os.path.join(CONF, g) for g in GENERATED])
    return sha(*[x for f in files for x in (f, readb(f))])


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(' '.join(cmd)[:600] + '\n')
        sys.stderr.buffer.write(r.stdout[-6000:])
        raise BuildError('%s failed' % cmd[0])


def compile_object(v, vname, src, hh, extra=()):
    flags = COMMON + v.cflags + list(extra)
    key = sha(2, v.cc, flags, v.redefine, v.prefix, readb(src), hh)[:20]
    d = os.path.join(BUILD, 'obj-' + vname)
    os.makedirs(d, exist_ok=True)
    base = os.path.relpath(src, REPO).replace('/', '_')[:-2]
    if extra:
        base += '-' + sha(extra)[:6]
    obj = os.path.join(d, '%s-%s.o' % (base, key))
    if os.path.exists(obj):
        return obj
    tmp = obj + '.tmp%d.o' % os.getpid()
    run([v.cc] + flags + ['-c', src, '-o', tmp])
    if v.redefine:
        cmd = ['objcopy']
        for s in v.redefine:
            cmd += ['--redefine-sym', '%s=%s%s' % (s, v.prefix, s)]
        if '-fsanitize=thread' in v.cflags:
            cmd += ['--rename-section', '.data=wizdata', '--rename-section', '.bss=wizbss']
        run(cmd + [tmp])
    for old in glob.glob(os.path.join(d, base + '-*.o')):
        rest = os.path.basename(old)[len(base) + 1:]
        if len(rest) == 22 and old != obj:
            try:
                os.unlink(old)
            except OSError:
                pass
    os.rename(tmp, obj)
    return obj


def library(vname):
    v = VARIANTS[vname]
    hh = headers_hash()
    srcs = sorted(glob.glob(REPO + '/wizard/*.c'))
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_object(v, vname, s, hh), srcs))


def build(harness, vname, engines=('mc',), utilities=(), wraps=()):
    """Compile and link one harness; returns the binary's path."""
    configure()
    v = VARIANTS[vname]
    objs = library(vname)
    hh = headers_hash()
    for u in utilities:
        objs.append(compile_object(v, vname, os.path.join(REPO, 'utilities', u + '.c'), hh,
                                   ['-Dmain=%s_main' % u.replace('-', '_')]))
    srcs = [os.path.join(VERIF, 'harness', harness + '.c')]
    srcs += [os.path.join(VERIF, 'lib', e + '.c') for e in engines]
    hdrs = sorted(glob.glob(VERIF + '/lib/*.h') + glob.glob(VERIF + '/harness/*.h'))
    # engines and harness are compiled without the thread instrumentation
    flags = [f for f in v.cflags if f not in ('-fsanitize=thread', '-fno-builtin', '-fno-pie')]
    cmd = [v.cc] + COMMON + flags + ['-iquote', VERIF + '/lib', '-iquote', VERIF + '/harness']
    libs = LIBS + (['-lcrypto'] if 'ref' in engines else [])
    libs += ['-Wl,--wrap=' + w for w in wraps]
    key = sha(cmd, objs, [sha(readb(s)) for s in srcs + hdrs], libs, v.ldflags)[:20]
    d = os.path.join(BUILD, 'bin')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s-%s' % (harness, vname, key))
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    run(cmd + ['-no-pie'] + srcs + objs + ['-o', tmp] + libs)
    for old in glob.glob(os.path.join(d, '%s-%s-*' % (harness, vname))):
        if old != tmp and len(os.path.basename(old)) == len(os.path.basename(out)):
            os.unlink(old)
    os.rename(tmp, out)
    return out
