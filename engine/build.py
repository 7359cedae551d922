"""Builds, from /repo's working tree, the library under test as simulated-process images (one shared object per
PE, linked against simMPI) in several build configurations, and the check engine itself.  Everything is cached in
/verif/.build by content hash of every input, so an edit of a template, header or source always rebuilds."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OSHV_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NPE = 10
BASE_DEFS = ['OSHMPI_ENABLE_SYMM_ALLOC']
NO_ASYNC = ['OSHMPI_DISABLE_AM_ASYNC_THREAD']
CONFIGS = {
    # what the test suite builds
    'base': ['OSHMPI_ENABLE_OP_TRACKING', 'OSHMPI_ENABLE_STRIDED_DTYPE_CACHE', 'OSHMPI_ENABLE_THREAD_SERIALIZED'],
    # --enable-fast
    'fast': ['OSHMPI_DISABLE_DEBUG', 'OSHMPI_DISABLE_ERROR_CHECKING', 'OSHMPI_ENABLE_THREAD_SINGLE'],
    # dynamic symmetric windows
    'dynwin': ['OSHMPI_ENABLE_DYNAMIC_WIN', 'OSHMPI_ENABLE_OP_TRACKING', 'OSHMPI_ENABLE_THREAD_FUNNELED'],
    # all remote accesses through active messages
    'am': ['OSHMPI_ENABLE_AM_RMA', 'OSHMPI_ENABLE_AM_AMO', 'OSHMPI_ENABLE_OP_TRACKING', 'OSHMPI_ENABLE_STRIDED_DTYPE_CACHE',
           'OSHMPI_ENABLE_THREAD_SERIALIZED'],
    # all remote accesses through MPI RMA
    'direct': ['OSHMPI_ENABLE_DIRECT_RMA', 'OSHMPI_ENABLE_DIRECT_AMO', 'OSHMPI_ENABLE_OP_TRACKING',
               'OSHMPI_ENABLE_STRIDED_DTYPE_CACHE', 'OSHMPI_ENABLE_THREAD_SERIALIZED'],
    # thread multiple: critical sections and atomics compiled in
    'mt': ['OSHMPI_ENABLE_THREAD_MULTIPLE', 'OSHMPI_THREAD_CS_LOCK', 'OSHMPI_ENABLE_STRIDED_DTYPE_CACHE'],
    # several threads per PE: every memory access of the library is a possible preemption point
    'thr': ['OSHMPI_ENABLE_THREAD_MULTIPLE', 'OSHMPI_THREAD_CS_LOCK', 'OSHMPI_ENABLE_STRIDED_DTYPE_CACHE', 'OSHMPI_ENABLE_OP_TRACKING'],
    'thrdyn': ['OSHMPI_ENABLE_THREAD_MULTIPLE', 'OSHMPI_THREAD_CS_LOCK', 'OSHMPI_ENABLE_DYNAMIC_WIN', 'OSHMPI_ENABLE_OP_TRACKING'],
}
ASYNC = ('thr', 'thrdyn')     # --enable-async-thread=auto: chosen at run time
PREEMPT = ('thr', 'thrdyn')   # instrumented: accesses call into the simulator
WRAP = ['getenv', 'atexit', 'exit', '_exit', 'abort'] + ['pthread_' + x for x in (
    'mutex_init', 'mutex_destroy', 'mutex_lock', 'mutex_trylock', 'mutex_unlock', 'cond_init', 'cond_destroy', 'cond_wait', 'cond_signal',
    'cond_broadcast', 'create', 'join', 'detach')]
LDWRAP = '-Wl,' + ','.join('--wrap=' + x for x in WRAP)


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=600, check=True, env=None):
    r = subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                       shell=isinstance(cmd, str))
    out = r.stdout.decode('utf8', 'replace')
    if check and r.returncode:
        raise BuildError('%s\n%s' % (cmd if isinstance(cmd, str) else ' '.join(cmd), out[-6000:]))
    return out


def tree_files(top, subs):
    out = []
    for s in subs:
        p = os.path.join(top, s)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ('.git', '.deps', '.libs', 'autom4te.cache'))
            for f in sorted(fs):
                if f.endswith(('.o', '.lo', '.la', '.dirstamp')):
                    continue
                if re.search(r'_(typed|sized)\.[ch]$', f) or f == 'shmem.h.in':
                    continue          # generated
                out.append(os.path.join(d, f))
    return out


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\1')
    return h.hexdigest()[:20]


def jobs():
    return max(2, os.cpu_count() or 2)


def codegen(dst):
    """Expand the API templates exactly as autogen.sh does, in a scratch copy."""
    for s in ('src', 'include', 'maint'):
        shutil.copytree(os.path.join(REPO, s), os.path.join(dst, s), symlinks=True,
                        ignore=shutil.ignore_patterns('*.o', '*.lo', '.deps', '.libs', 'openpa'))
    for d, _, fs in os.walk(dst):
        for f in fs:
            if re.search(r'_(typed|sized)\.[ch]$', f) or f == 'shmem.h.in':
                os.unlink(os.path.join(d, f))
    for f in ('autogen.sh', 'configure.ac', 'Makefile.am'):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), dst)
    os.makedirs(os.path.join(dst, 'tests'), exist_ok=True)
    os.makedirs(os.path.join(dst, 'confdb'), exist_ok=True)
    shim = os.path.join(dst, '.shim')
    os.makedirs(shim)
    for t in ('autoreconf', 'git'):
        with open(os.path.join(shim, t), 'w') as f:
            f.write('#!/bin/sh\nexit 0\n')
        os.chmod(os.path.join(shim, t), 0o755)
    env = dict(os.environ, PATH=shim + ':' + os.environ['PATH'])
    out = sh(['timeout', '120', 'bash', './autogen.sh'], cwd=dst, check=False, env=env)
    need = [os.path.join(dst, 'include/shmem.h.in')]
    for t in glob.glob(dst + '/src/shmem/*.c.tpl') + glob.glob(dst + '/include/*.h.tpl'):
        need.append(t[:-4])
    miss = [n for n in need if not os.path.exists(n)]
    if miss:
        raise BuildError('code generation did not produce %s\n%s' % (miss, out[-3000:]))
    ver = dict(OSHMPI_VERSION='0', OSHMPI_NUMVERSION='0', OSHMPI_RELEASE_DATE='unreleased', CONFIGURE_ARGS_CLEAN='sim')
    vm = open(os.path.join(dst, 'maint/version.m4')).read()
    m = re.search(r'OSHMPI_VERSION_m4\],\[([^\]]*)\]', vm)
    if m:
        ver['OSHMPI_VERSION'] = m.group(1)
    for h in ('shmem.h', 'shmemx.h'):
        t = open(os.path.join(dst, 'include', h + '.in')).read()
        for k, v in ver.items():
            t = t.replace('@%s@' % k, v)
        open(os.path.join(dst, 'include', h), 'w').write(t)


def sources(dst):
    """Library sources as listed in the Makefile.mk files (CPU build)."""
    out = []
    for mk in [os.path.join(d, f) for d, _, fs in os.walk(dst + '/src') for f in fs if f == 'Makefile.mk']:
        t = open(mk).read().replace('\\\n', ' ')
        skip = False
        for line in t.split('\n'):
            if re.match(r'if\s+OSHMPI_ENABLE_(ZE|CUDA)', line):
                skip = True
            elif re.match(r'else\b', line):
                skip = not skip
            elif re.match(r'endif\b', line):
                skip = False
            elif re.match(r'liboshmpi_la_SOURCES\s*\+?=', line) and not skip:
                out += [x for x in line.split('=', 1)[1].split() if x.endswith('.c')]
    res = []
    for x in out:
        p = os.path.join(dst, x)
        if os.path.exists(p) and x not in res:
            res.append(x)
    if len(res) < 20:
        res = [os.path.relpath(p, dst) for p in glob.glob(dst + '/src/**/*.c', recursive=True) if not p.endswith('gpu/ze.c')]
    return res


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def prune(d, keep, n):
    if not os.path.isdir(d):
        return
    es = sorted((os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d) if e != keep)
    for _, e in es[:-n] if n else es:
        shutil.rmtree(os.path.join(d, e), ignore_errors=True)


_ALL = 'float double longdouble char schar short int long longlong uchar ushort uint ulong ulonglong int8 int16 int32 int64 uint8 uint16 uint32 uint64 size ptrdiff'.split()
_CT = dict(longdouble='long double', schar='signed char', longlong='long long', uchar='unsigned char', ushort='unsigned short',
           uint='unsigned int', ulong='unsigned long', ulonglong='unsigned long long', size='size_t', ptrdiff='ptrdiff_t',
           complexd='double _Complex', complexf='float _Complex')
_STD = 'int long longlong uint ulong ulonglong int32 int64 uint32 uint64 size ptrdiff'.split()
_ACT = 'int short long longlong float double longdouble'.split()
SPELL = dict(RMA=_ALL, COLL=_ALL, STD=_STD, EXT=_STD + ['float', 'double'], BIT='uint ulong ulonglong int32 int64 uint32 uint64'.split(),
             P2P=_STD + ['short', 'ushort'], WAIT='short int long longlong'.split(), MM_T=_ALL, SP_T=_ALL + ['complexd', 'complexf'],
             BIT_T='uchar ushort uint ulong ulonglong int8 int16 int32 int64 uint8 uint16 uint32 uint64 size'.split(),
             MM_A=_ACT, SP_A=_ACT + ['complexd', 'complexf'], BIT_A='short int long longlong'.split())


def build_spell(d, inc, src):
    """The callers of every spelling, compiled as user programs; what does not compile becomes an object that says so."""
    if os.path.exists(d + '/.done'):
        return
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    i = ['-I' + inc, '-I' + os.path.join(src, 'include')]
    strict = ['-Werror=' + x for x in ('implicit-function-declaration', 'int-conversion', 'incompatible-pointer-types')]
    cc = ['gcc', '-std=gnu11', '-g1', '-O0', '-w', '-fPIC'] + strict + i

    def one(name, cmd, o):
        try:
            sh(cmd + ['-o', o])
        except BuildError as e:
            m = [l for l in str(e).split('\n') if 'error' in l][:3] or ['?']
            c = o[:-2] + '_err.c'
            with open(c, 'w') as f:
                f.write('const char oshv_sp_err_%s[] = "%s";\n' % (name, re.sub(r'[^ -~]|["\\\\]', ' ', ' | '.join(m))[:600]))
            sh(['gcc', '-fPIC', '-c', c, '-o', o])
    js = []
    with ThreadPoolExecutor(jobs()) as ex:
        for n in _ALL + ['complexd', 'complexf']:
            ct = _CT.get(n) or (n + '_t' if 'int' in n and n != 'int' else n)
            js.append(ex.submit(one, n, cc + ['-DN=' + n, '-DT=' + ct] + ['-D' + c for c in SPELL if n in SPELL[c]] +
                                ['-c', VERIF + '/engine/spell.c'], '%s/sp_%s.o' % (d, n)))
        js.append(ex.submit(one, 'cxx', ['g++', '-std=c++14', '-w', '-fPIC'] + i + ['-c', VERIF + '/engine/shim_cxx.cc'], d + '/cxx.o'))
        js.append(ex.submit(one, 'sync', cc + ['-c', VERIF + '/engine/shim_sync.c'], d + '/sync.o'))
        js.append(ex.submit(one, 'const', cc + ['-c', VERIF + '/engine/shim_const.c'], d + '/const.o'))
    for j in js:
        j.result()
    open(d + '/.done', 'w').close()


def build_lib(cfgs, asan=False):
    """Returns {cfg: directory with pe0.so .. pe<NPE-1>.so}."""
    rf = tree_files(REPO, ['src', 'include', 'maint', 'autogen.sh'])
    mine = tree_files(VERIF, ['simmpi/include', 'simmpi/pe_base.c', 'configs']) + \
        sorted(glob.glob(os.path.join(VERIF, 'engine/shim*'))) + [os.path.join(VERIF, 'engine/spell.c')] + [os.path.abspath(__file__)]
    key = digest(rf + mine, 'asan' if asan else '')
    root = os.path.join(BUILD, 'lib', key)
    res = {c: os.path.join(root, c) for c in cfgs}
    todo = [c for c in cfgs if not os.path.exists(os.path.join(root, c, 'ok'))]
    if not todo:
        os.utime(root)
        return res
    os.makedirs(root, exist_ok=True)
    prune(os.path.join(BUILD, 'lib'), key, 3)
    src = os.path.join(root, 'src')
    if not os.path.exists(os.path.join(src, '.done')):
        shutil.rmtree(src, ignore_errors=True)
        os.makedirs(src)
        codegen(src)
        open(os.path.join(src, '.done'), 'w').close()
    srcs = sources(src)
    inc = os.path.join(VERIF, 'simmpi/include')
    common = open(os.path.join(VERIF, 'configs/common.h')).read()
    jobs_ = []
    with ThreadPoolExecutor(jobs()) as ex:
        for c in todo:
            d = os.path.join(root, c)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d + '/o')
            with open(d + '/oshmpiconf.h', 'w') as f:
                f.write(common + ''.join('#define %s 1\n' % x for x in BASE_DEFS + ([] if c in ASYNC else NO_ASYNC) + CONFIGS[c]))
            fl = ['gcc', '-std=gnu11', '-g1', '-O0', '-w', '-fPIC', '-fno-strict-aliasing'] + \
                (['-fsanitize=address'] if asan else []) + \
                ['-DONLY_MSPACES', '-I' + inc, '-I' + d] + \
                ['-I' + os.path.join(src, x) for x in ('include', 'src/include', 'src/internal', 'src/internal/util')]
            pf = ['-fsanitize=thread'] if c in PREEMPT and not asan else []
            for s in srcs:
                jobs_.append(ex.submit(sh, fl + pf + ['-c', os.path.join(src, s), '-o', d + '/o/' + s.replace('/', '_')[:-2] + '.o']))
            jobs_.append(ex.submit(sh, fl + ['-c', VERIF + '/simmpi/pe_base.c', '-o', d + '/pe_base.o']))
        for j in jobs_:
            j.result()
        build_spell(root + '/spell', inc, src)
        for c in todo:
            d = os.path.join(root, c)
            sh(['gcc', '-shared', '-Wl,-Bsymbolic', LDWRAP] + (['-fsanitize=address'] if asan else []) +
               ['-o', d + '/pe0.so', d + '/pe_base.o'] + sorted(glob.glob(d + '/o/*.o')) + sorted(glob.glob(root + '/spell/*.o')) + ['-lm', '-lpthread'])
            shutil.rmtree(d + '/o')
            for i in range(1, NPE):
                shutil.copy(d + '/pe0.so', d + '/pe%d.so' % i)
            open(d + '/ok', 'w').close()
    return res


def build_host(asan=False):
    srcs = [VERIF + '/simmpi/sim.cpp'] + sorted(glob.glob(VERIF + '/engine/*.cpp'))
    hdrs = sorted(glob.glob(VERIF + '/engine/*.hpp')) + [VERIF + '/simmpi/sim.hpp', VERIF + '/simmpi/include/mpi.h']
    root = os.path.join(BUILD, 'host')
    os.makedirs(root, exist_ok=True)
    fl = ['g++', '-std=c++17', '-O1', '-g1', '-Wall', '-I' + VERIF + '/simmpi', '-I' + VERIF + '/simmpi/include'] + \
        (['-fsanitize=address'] if asan else [])
    objs, jl = [], []
    hd = digest(hdrs, ' '.join(fl))
    with ThreadPoolExecutor(jobs()) as ex:
        for s in srcs:
            o = os.path.join(root, '%s-%s.o' % (os.path.basename(s)[:-4], digest([s], hd)))
            objs.append(o)
            if not os.path.exists(o):
                jl.append(ex.submit(sh, '%s -c %s -o %s.tmp && mv %s.tmp %s' % (' '.join(fl), s, o, o, o)))
        for j in jl:
            j.result()
    exe = os.path.join(root, 'oshv-' + digest(objs[:0], ' '.join(objs)))
    if not os.path.exists(exe):
        for f in os.listdir(root):
            p = os.path.join(root, f)
            if p not in objs and time.time() - os.path.getmtime(p) > 3600:
                os.unlink(p)
        sh(['g++', '-rdynamic'] + (['-fsanitize=address'] if asan else []) + ['-o', exe + '.tmp'] + objs + ['-ldl', '-lpthread'])
        os.rename(exe + '.tmp', exe)
    return exe


def build_all(cfgs, asan=False):
    l = lock()
    try:
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(build_lib, cfgs, asan)
            b = ex.submit(build_host, asan)
            return a.result(), b.result()
    finally:
        l.close()


if __name__ == '__main__':
    t = time.time()
    cfgs = sys.argv[1:] or list(CONFIGS)
    try:
        print(build_all(cfgs))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print('%.1f s' % (time.time() - t))
