"""Builds one engine executable per wrench build configuration, always from
/repo's current working tree.  Objects are cached by the hash of the
*preprocessed* source plus the flags, so an unchanged file is never recompiled
and a changed one always is."""
import hashlib, os, subprocess, sys, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WV_REPO', '/repo')
BUILD = os.environ.get('WV_BUILD', os.path.join(VERIF, 'build'))

EXCLUDE = re.compile(r'(arduino|esp32|win32|spiffs|/debugger\.cpp|wrench_cli|wrench_min|/test_)')

BASE = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer',
        '-ffp-contract=off', '-fno-common', '-w']
COMMON = ['-DWRENCH_LINUX_FILE_IO']

CONFIGS = {
    'default':   [],
    'compact':   ['-DWRENCH_COMPACT'],
    'really':    ['-DWRENCH_COMPACT', '-DWRENCH_REALLY_COMPACT'],
    'slices':    ['-DWRENCH_TIME_SLICES', '-DWRENCH_PROTECT_STACK_FROM_OVERFLOW'],
    'cslices':   ['-DWRENCH_COMPACT', '-DWRENCH_TIME_SLICES', '-DWRENCH_PROTECT_STACK_FROM_OVERFLOW'],
    'mfail':     ['-DWRENCH_HANDLE_MALLOC_FAIL'],
    'trapdiv':   ['-DWRENCH_TRAP_DIVISION_BY_ZERO'],
    'unaligned': ['-DWRENCH_UNALIGNED_READS'],
    'fsprintf':  ['-DWRENCH_FLOAT_SPRINTF'],
    'tcp':       ['-DWRENCH_LINUX_TCP'],
    'amtcp':     ['-DWRENCH_LINUX_TCP'],
    'amalgam':   [],
    'amcompact': ['-DWRENCH_COMPACT'],
    'amslices':  ['-DWRENCH_TIME_SLICES', '-DWRENCH_PROTECT_STACK_FROM_OVERFLOW'],
    'ammfail':   ['-DWRENCH_HANDLE_MALLOC_FAIL'],
}


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), p.stderr.decode('utf8', 'replace')[-4000:]))
    return p.stdout


def _obj(src, flags, incs, extra_key=''):
    cpp = _run(['g++', '-E'] + flags + incs + [src])
    # line markers carry paths only; hashing them as well is harmless
    key = hashlib.sha256()
    cflags = [f for f in flags if not f.startswith('-D')]
    key.update(repr((os.path.basename(src), cflags, extra_key)).encode())
    key.update(cpp)
    out = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' + key.hexdigest()[:24] + '.o')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid() + hashlib.md5(repr(flags).encode()).hexdigest()[:6]
        p = subprocess.run(['g++', '-x', 'c++-cpp-output'] + cflags + ['-c', '-', '-o', tmp],
                           input=cpp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise BuildError('compile %s failed (%s)\n%s' % (src, flags, p.stderr.decode('utf8', 'replace')[-4000:]))
        os.replace(tmp, out)
    return out


def sources():
    fs = []
    for d in ('cc', 'vm', 'lib', 'utils', 'debug'):
        fs += sorted(glob.glob(os.path.join(REPO, 'discrete_src', d, '*.cpp')))
    return [f for f in fs if not EXCLUDE.search(f[len(REPO):])]


def build(configs):
    """Build engines for the given configs; returns {cfg: path}."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    inc = ['-iquote', os.path.join(REPO, 'discrete_src'), '-I', REPO, '-I', os.path.join(REPO, 'src')]
    incam = ['-I', os.path.join(REPO, 'src')]
    eng = os.path.join(VERIF, 'wv', 'engine.cpp')
    jobs = []
    am = [c for c in configs if c.startswith('am')]
    rest = [c for c in configs if not c.startswith('am')]
    with ThreadPoolExecutor(max_workers=(os.cpu_count() or 4)) as ex:
        futs = {}
        for c in am:
            fl = BASE + COMMON + CONFIGS[c]
            fs = [ex.submit(_obj, os.path.join(REPO, 'src', 'wrench.cpp'), fl + ['-std=c++98'], incam),
                  ex.submit(_obj, eng, fl + ['-std=c++17', '-DWV_AMALGAM'], incam)]
            futs[c] = fs
        srcs = sorted(sources(), key=lambda f: -os.path.getsize(f))
        for c in rest:
            fl = BASE + COMMON + CONFIGS[c]
            fs = [ex.submit(_obj, eng, fl + ['-std=c++17'], inc)]
            futs[c] = fs
        for s in srcs:
            for c in rest:
                fl = BASE + COMMON + CONFIGS[c]
                futs[c].append(ex.submit(_obj, s, fl + ['-std=c++98'], inc))
        out = {}
        lf = {}
        for c in configs:
            objs = [f.result() for f in futs[c]]
            k = hashlib.sha256(repr(objs).encode()).hexdigest()[:16]
            exe = os.path.join(BUILD, 'engine_%s_%s' % (c, k))
            out[c] = exe
            if not os.path.exists(exe):
                lf[c] = ex.submit(_run, ['g++', '-fsanitize=address', '-o', exe + '.tmp%d' % os.getpid()] + objs + ['-lm'])
        for c, f in lf.items():
            f.result()
            os.replace(out[c] + '.tmp%d' % os.getpid(), out[c])
    return out


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(sys.argv[1:] or list(CONFIGS)))
    print('%.1fs' % (time.time() - t))
