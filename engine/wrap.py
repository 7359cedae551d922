"""C27: the compiler wrappers oshcc and oshc++.  Each configuration makes the wrappers from env/ with the rules of
env/Makefile.mk and a stub compiler that records what it was given; generated command lines are then compared with
what the stub saw and with what the caller got back."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build

STUB = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
int main(int argc, char **argv)
{
    char buf[65536];
    ssize_t n;
    const char *rec = getenv("OSHV_REC"), *how = getenv("OSHV_HOW"), *out = getenv("OSHV_OUT"), *err = getenv("OSHV_ERR"), *want = getenv("OSHV_STDIN");
    FILE *f = fopen(rec, "ab");
    fprintf(f, "%d%c", argc, 0);
    for (int i = 0; i < argc; i++) fwrite(argv[i], 1, strlen(argv[i]) + 1, f);
    if (getcwd(buf, sizeof(buf))) fwrite(buf, 1, strlen(buf) + 1, f);
    n = want ? read(0, buf, sizeof(buf)) : 0;
    fwrite(buf, 1, n > 0 ? n : 0, f);
    fputc(0, f);
    fclose(f);
    if (out) fputs(out, stdout);
    if (err) fputs(err, stderr);
    fflush(stdout);
    fflush(stderr);
    if (how[0] == 's') { signal(atoi(how + 1), SIG_DFL); raise(atoi(how + 1)); }
    _exit(atoi(how));
}
'''

PIECES = ['-c', '-o', 'a.out', 'foo.c', '-I', '-I/opt/inc', '-L/opt/lib', '-lfoo', '-DX', '-DNAME="a b"', "-DNAME='q'", '-DV=\\"x\\"', '', ' ', '  two  spaces  ', '*', '?', '[a-z]',
          '$HOME', '${HOME}', '$(echo x)', '`echo x`', '\\', '\\\\', 'a\\ b', '"', "'", '"unterminated', ';', '&', '&&', '|', '>', '>out', '<in', '#', '#x', '~', '~/x', '!', '!x', '{a,b}',
          '(x)', 'a\nb', '\n', 'a\tb', '-', '--', '-E', '-e', '-n', '-v', '--version', '-help', '-Wl,-rpath,/x', '-Wl,-rpath', '-Wl,/x', '@resp', '%s', '%d%n', '=', 'a=b', '-x', 'c', '@OSHMPI_CC@',
          '-loshmpi', '-show', '-compile_info', '-O2', '-g', '-std=c11', '-DEMPTY=', '-DF(x)=((x)+1)', '-std=gnu++17', '../rel/path.c', 'dir with space/f.c', '\u00e9t\u00e9.c', '-march=native',
          '-pthread', '-shared', '-static', '-Wall', '-fopenmp', '.', '..', '/', 'x' * 5000, '$@', '$*', '"$@"', '$?', '$$', 'f*', 'shmem.*']
CHARS = 'ab1 \'"\\$`*?[]{}()<>|&;#~!\n\t-=%,:@/._^+'
WORDS = ['-O2', '-g', '-m64', '-pthread', '-Wall', '-std=gnu11', '-DCFG=1', '--param=x', '-fPIC']
LDF = ['-L/opt/cuda/lib64', '-Wl,-rpath', '-Wl,/opt/cuda/lib64', '-L/usr/local/lib', '-Wl,--as-needed', '-pthread', '-L/opt/ze/lib']
LIBS = ['-lcuda', '-lcudart', '-lze_loader', '-lm', '-ldl', '-lrt', '-lpthread']
DIRC = 'abz09_-.+,@=%:'


def gen_dir(r):
    return '/' + '/'.join(''.join(r.choice(DIRC[:12] if i == 0 else DIRC) for i in range(r.randint(1, 9))) for _ in range(r.randint(1, 5)))


def gen_cfg(r):
    return {'cc': r.choice([[], [], ['-m64'], r.sample(WORDS, r.randint(1, 4))]), 'prefix': r.choice([[], [], ['env'], ['env', 'OSHV_X=1']]),
            'inc': gen_dir(r), 'lib': gen_dir(r), 'ldflags': r.choice([[], r.sample(LDF, r.randint(1, 5))]), 'libs': r.choice([[], r.sample(LIBS, r.randint(1, 4))])}


def gen_arg(r):
    k = r.randrange(10)
    if k < 6:
        return r.choice(PIECES)
    if k < 8:
        return ''.join(r.choice(CHARS) for _ in range(r.randint(0, 12)))
    return r.choice(['-D', '-I', '-L', '-o', '-Wl,', 'f', '']) + ''.join(r.choice(PIECES) for _ in range(r.randint(1, 3)))


def gen_case(r, big):
    n = r.choice([0, 1, 1, 2, 3, 5, 9, r.randint(10, 40)])
    if big:
        n = r.randint(300, 1500)
    args = [gen_arg(r) for _ in range(n)]
    if r.randrange(4) == 0 and args:
        args.append(r.choice(args))
    how = r.choice(['0', '0', '0', '1', '2', str(r.randint(3, 255)), '126', '127', '128', '255', 's6', 's9', 's11', 's15'])
    return {'lang': r.choice(['cc', 'cc', 'c++']), 'args': args, 'how': how, 'stdin': r.choice([None, None, '', 'int x;\n', 'a b\n\\c']),
            'out': r.choice(['', '', 'hello\n', '%s no newline']), 'err': r.choice(['', '', 'warning: x\n']),
            'env': r.choice([{}, {}, {}, {'IFS': ','}, {'IFS': ''}, {'POSIXLY_CORRECT': '1'}, {'rc': '5', 'allargs': 'x', 'mpicc': 'y', 'mpicxx': 'z'}]),
            'cwd': r.choice(['.', '.', 'sub dir', 'glob'])}


def special(a):
    return a == '' or re.search(r'[^A-Za-z0-9_./=,+-]', a) is not None


class World:
    """One configuration: wrappers made by the project's own rules, and a place to run them."""

    def __init__(self, cfg, stub):
        self.cfg = cfg
        self.dir = tempfile.mkdtemp(prefix='oshvwrap')
        os.makedirs(os.path.join(self.dir, 'b'))
        for d in ('sub dir', 'glob'):
            os.makedirs(os.path.join(self.dir, 'b', d))
        for d in ('.', 'glob'):
            for f in ('foo.c', 'fab', 'a', 'b', 'shmem.h', '-lx'):
                open(os.path.join(self.dir, 'b', d, f), 'w').close()
        self.stub = os.path.join(self.dir, 'cc')
        shutil.copy(stub, self.stub)
        mk = open(os.path.join(build.REPO, 'env', 'Makefile.mk')).read()
        mk = re.sub(r'(?m)^(if|endif|else)\b.*$', '', mk)
        head = 'bin_SCRIPTS =\nCLEANFILES =\nEXTRA_DIST =\nall: env/oshcc env/oshc++\ntop_srcdir = %s\nsrcdir = $(top_srcdir)\nam__v_SED_ = @\nAM_DEFAULT_VERBOSITY = 0\n' % build.REPO
        cc = ' '.join(cfg['prefix'] + [self.stub] + cfg['cc'])
        head += 'SED = sed\nMKDIR_P = mkdir -p\ntop_builddir = .\nbuilddir = .\nSHELL = /bin/bash\n'
        head += 'CC = %s\nCXX = %s\nFC = false\nprefix = /none\nincludedir = %s\nlibdir = %s\nWRAPPER_LDFLAGS = %s\nWRAPPER_LIBS = %s\n' % (
            cc, cc + ' -DCXXSTUB', cfg['inc'], cfg['lib'], ' '.join(cfg['ldflags']), ' '.join(cfg['libs']))
        with open(os.path.join(self.dir, 'b', 'Makefile'), 'w') as f:
            f.write(head + mk)
        r = subprocess.run(['make', '-s', 'all'], cwd=os.path.join(self.dir, 'b'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise build.BuildError('the rules of env/Makefile.mk failed:\n' + r.stdout.decode('utf8', 'replace')[-2000:])
        self.wrapper = {'cc': os.path.join(self.dir, 'b', 'env', 'oshcc'), 'c++': os.path.join(self.dir, 'b', 'env', 'oshc++')}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def judge(self, c, key):
        """None, or what is wrong."""
        rec = os.path.join(self.dir, 'rec%s' % key)
        if os.path.exists(rec):
            os.unlink(rec)
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': '/root', 'LC_ALL': 'C.UTF-8', 'OSHV_REC': rec, 'OSHV_HOW': c['how']}
        for k in ('out', 'err'):
            if c[k]:
                env['OSHV_' + k.upper()] = c[k]
        if c['stdin'] is not None:
            env['OSHV_STDIN'] = '1'
        env.update(c['env'])
        cwd = os.path.realpath(os.path.join(self.dir, 'b', c['cwd']))
        before = sorted(os.listdir(cwd))
        try:
            r = subprocess.run([self.wrapper[c['lang']]] + c['args'], cwd=cwd, env=env, input=(c['stdin'] or '').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return 'the wrapper did not end within 60 s'
        if not os.path.exists(rec):
            return 'the compiler was not run; exit %d, %s' % (r.returncode, r.stderr.decode('utf8', 'replace')[:200])
        raw = open(rec, 'rb').read()
        parts = raw.split(b'\0')
        n = int(parts[0])
        argv = [x.decode('utf8', 'surrogateescape') for x in parts[1:1 + n]]
        rest = parts[1 + n:]
        if len(rest) != 3:
            return 'the compiler was run more than once'
        if rest[0].decode() != cwd:
            return 'the compiler ran in %r, not in the working directory of the caller' % rest[0]
        if c['stdin'] is not None and rest[1] != c['stdin'].encode():
            return 'the compiler read %r from its standard input, not %r' % (rest[1], c['stdin'])
        if sorted(os.listdir(cwd)) != before:
            return 'the wrapper left files behind: %s' % sorted(set(os.listdir(cwd)) ^ set(before))
        g = self.cfg
        want = g['cc'] + (['-DCXXSTUB'] if c['lang'] == 'c++' else [])
        if argv[1:1 + len(want)] != want:
            return 'the flags that belong to the compiler command are %r, not %r' % (argv[1:1 + len(want)], want)
        a = argv[1 + len(want):]
        # where do the caller's arguments stand?
        m = len(c['args'])
        fits = []
        for i in range(len(a) - m + 1):
            if a[i:i + m] != c['args']:
                continue
            pre, post = a[:i], a[i + m:]
            if '-I' + g['inc'] not in pre + post and not any(x == '-I' and y == g['inc'] for x, y in zip(a, a[1:])):
                continue
            if '-loshmpi' not in post or '-L' + g['lib'] not in pre + post:
                continue
            j = ' '.join(pre + post)
            if not re.search(r'-Wl,-rpath(,| -Wl,|=)%s( |$|,)' % re.escape(g['lib']), j):
                continue
            at = post.index('-loshmpi')
            extra = g['ldflags'] + g['libs']
            it = iter(post)
            if not all(x in it for x in g['libs']) or not all(x in pre + post for x in extra):
                continue
            own = set(['-I' + g['inc'], '-L' + g['lib'], '-loshmpi', '-Wl,-rpath', '-Wl,' + g['lib'], '-Wl,-rpath,' + g['lib'], '-Wl,-rpath=' + g['lib'], '-I', g['inc']] + extra)
            if any(x not in own for x in pre + post):
                continue
            if g['libs'] and max(k for k, x in enumerate(post) if x in g['libs']) < at:
                continue
            fits.append(i)
        if not fits:
            return 'the compiler was given\n  %r\nwhich is not the caller\'s arguments\n  %r\nwith the include directory %s, the library and %r around them' % (
                a[:60], c['args'][:60], g['inc'], g['ldflags'] + g['libs'])
        if r.stdout != c['out'].encode():
            return 'standard output is %r, the compiler wrote %r' % (r.stdout[:200], c['out'])
        if c['how'][0] != 's' and r.stderr != c['err'].encode():
            return 'standard error is %r, the compiler wrote %r' % (r.stderr[:200], c['err'])
        if c['how'][0] == 's':
            k = int(c['how'][1:])
            if r.returncode not in (-k, 128 + k):
                return 'exit status %d after the compiler died from signal %d' % (r.returncode, k)
        elif r.returncode != int(c['how']):
            return 'exit status %d, the compiler ended with %s' % (r.returncode, c['how'])
        return None


def make_stub(d):
    p = os.path.join(d, 'stub')
    with open(p + '.c', 'w') as f:
        f.write(STUB)
    build.sh(['gcc', '-O1', '-o', p, p + '.c'])
    return p


def real(r, d, n):
    """Programs compiled with the real compiler through the wrapper, linked with a library of that name, and run."""
    inc, lib = os.path.join(d, 'inc'), os.path.join(d, 'lib')
    os.makedirs(inc)
    os.makedirs(lib)
    with open(os.path.join(inc, 'oshv_probe.h'), 'w') as f:
        f.write('#ifdef __cplusplus\nextern "C"\n#endif\nint oshv_probe(int);\n')
    with open(os.path.join(d, 'l.c'), 'w') as f:
        f.write('int oshv_probe(int x) { return x * 3 + 1; }\n')
    build.sh(['gcc', '-shared', '-fPIC', '-o', os.path.join(lib, 'liboshmpi.so'), os.path.join(d, 'l.c')])
    bad = []

    def one(i):
        rr = random.Random(r * 7919 + i)
        w = os.path.join(d, 'r%d' % i)
        os.makedirs(os.path.join(w, 'my dir'))
        text = ''.join(rr.choice(' abc$`*?&;|<>#~!%') for _ in range(rr.randint(0, 10)))
        num = rr.randint(-1000, 1000)
        cxx = rr.randrange(3) == 0
        src = os.path.join(w, rr.choice(['p', 'my dir/p', 'my dir/p q']) + ('.cc' if cxx else '.c'))
        with open(src, 'w') as f:
            f.write('#include <oshv_probe.h>\n#include <stdio.h>\nint main(void) { printf("%%s %%d", TEXT, oshv_probe(NUM)); return 0; }%s\n' % (' error' if i % 10 == 9 else ''))
        exe = os.path.join(w, rr.choice(['x', 'x y']))
        two = rr.randrange(2)
        defs = ['-DTEXT="%s"' % text.replace('\\', '\\\\'), '-DNUM=(%d)' % num]
        cfg = World.__new__(World)
        steps = [defs + ['-c', src, '-o', src + '.o'], [src + '.o', '-o', exe]] if two else [defs + [src, '-o', exe]]
        for s in steps:
            p = subprocess.run([ws.wrapper['c++' if cxx else 'cc']] + s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if i % 10 == 9:
                return None if p.returncode else 'compiling a program with an error gave exit status 0'
            if p.returncode:
                return 'oshc%s %r failed: %s' % ('++' if cxx else 'c', s, p.stdout.decode('utf8', 'replace')[-400:])
        env = {k: v for k, v in os.environ.items() if k != 'LD_LIBRARY_PATH'}
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        want = '%s %d' % (text, num * 3 + 1)
        if p.returncode or p.stdout.decode() != want:
            return 'the program built by %r printed %r (status %d), expected %r' % (steps, p.stdout, p.returncode, want)
        return None
    ws = World({'cc': [], 'prefix': [], 'inc': inc, 'lib': lib, 'ldflags': [], 'libs': ['-lm']}, shutil.which('gcc'))
    # the real compilers instead of the stub
    for k, comp in (('cc', 'gcc'), ('c++', 'g++')):
        t = open(ws.wrapper[k]).read().replace(ws.stub + ' -DCXXSTUB', comp).replace(ws.stub, comp)
        open(ws.wrapper[k], 'w').write(t)
    try:
        with ThreadPoolExecutor(build.jobs()) as ex:
            for i, m in enumerate(ex.map(one, range(n))):
                if m:
                    bad.append((i, m))
    finally:
        ws.close()
    return bad


def shrink(w, c, limit):
    t0 = time.time()
    key = 's'

    def bad(x):
        return time.time() - t0 < limit and w.judge(x, key) is not None
    for k, v in (('env', {}), ('stdin', None), ('out', ''), ('err', ''), ('how', '0'), ('how', '1'), ('cwd', '.')):
        if c[k] != v:
            x = dict(c)
            x[k] = v
            if bad(x):
                c = x
    step = max(1, len(c['args']) // 2)
    while step:
        i = 0
        while i < len(c['args']):
            x = dict(c)
            x['args'] = c['args'][:i] + c['args'][i + step:]
            if bad(x):
                c = x
            else:
                i += step
        step //= 2
    for i in range(len(c['args'])):
        j = 0
        while j < len(c['args'][i]):
            x = dict(c)
            a = c['args'][i]
            x['args'] = c['args'][:i] + [a[:j] + a[j + 1:]] + c['args'][i + 1:]
            if bad(x):
                c = x
            else:
                j += 1
    return c


def run(seed, tier):
    """Returns (evidence coverage, violation or None)."""
    ncfg, per, nreal = (64, 160, 40) if tier == 'quick' else (1500, 800, 1500)
    t0, tlim = time.time(), 300 if tier == 'quick' else 3600
    d = tempfile.mkdtemp(prefix='oshvwrap')
    seen, cases, nspecial, failed, how_n, samples, real_n = set(), 0, 0, 0, 0, [], 0
    viol = None
    try:
        stub = make_stub(d)

        def one_cfg(ci):
            r = random.Random(seed * 1000003 + ci)
            cfg = gen_cfg(r)
            if time.time() - t0 > tlim:
                return None
            w = World(cfg, stub)
            res = []
            try:
                for i in range(per):
                    c = gen_case(r, i % 80 == 79)
                    res.append(c)
                    m = w.judge(c, 'm')
                    if m:
                        c = shrink(w, c, 30)
                        return cfg, res, (c, w.judge(c, 'm') or m)
            finally:
                w.close()
            return cfg, res, None
        with ThreadPoolExecutor(build.jobs()) as ex:
            for x in ex.map(one_cfg, range(ncfg)):
                if x is None or viol:
                    continue
                cfg, res, v = x
                for c in res:
                    cases += 1
                    sp = any(special(a) for a in c['args'])
                    nspecial += sp
                    how_n += c['how'] != '0'
                    if sp or c['how'] != '0':
                        seen.add(json.dumps([cfg, c], sort_keys=True))
                if len(samples) < 6 and res:
                    s = dict(res[len(res) // 2])
                    s['args'] = [a[:60] for a in s['args'][:12]]
                    samples.append({'configuration': cfg, 'case': s})
                if v:
                    viol = {'cfg': cfg, 'case': v[0], 'message': v[1]}
        if not viol:
            b = real(seed, d, nreal)
            real_n = nreal
            if b:
                viol = {'real': b[0][0], 'seed': seed, 'n': nreal, 'message': b[0][1]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'evaluations': cases + real_n, 'distinct_nontrivial': len(seen) + real_n,
            'rule': 'command lines with an argument that is empty or holds a character outside [A-Za-z0-9_./=,+-], or with a compiler that fails; and programs really compiled and run',
            'samples': samples,
            'counters': {'command lines with special arguments': nspecial, 'runs in which the compiler fails or dies': how_n, 'programs compiled, linked and run through the wrapper': real_n,
                         'configurations (compiler command, directories, extra flags)': ncfg}}, viol


def replay(v):
    d = tempfile.mkdtemp(prefix='oshvwrap')
    try:
        if 'real' in v:
            b = [m for i, m in real(v['seed'], d, v['n']) if i == v['real']]
            m = b[0] if b else None
        else:
            w = World(v['cfg'], make_stub(d))
            try:
                print('configuration %s' % json.dumps(v['cfg']))
                print('case %s' % json.dumps(v['case']))
                m = w.judge(v['case'], 'm')
            finally:
                w.close()
        print(m or 'the property held')
        return 1 if m else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
