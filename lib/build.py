"""Builds the code under test, unmodified, from /repo's working tree as shared
objects for the simulator: one per configuration, out of tree, cached by content."""
import hashlib, os, shutil, subprocess, sys, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ATHSIM_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.environ.get('ATHSIM_BUILD') or os.path.join(VERIF, 'build')
WRAPS = ('malloc calloc realloc free strdup fopen fclose freopen fflush mkdir chdir getcwd stat access '
         'unlink remove rmdir rename system vfprintf fprintf fwrite fread fgets fputs time gettimeofday times clock '
         'signal sigaction rand srand sleep exit _exit abort __assert_fail fftw_plan_dft_2d fftw_plan_dft_3d '
         'Userwork_in_loop Userwork_after_loop data_output').split()
CFLAGS = ['-O2', '-fPIC', '-fcommon', '-w', '-U_FORTIFY_SOURCE', '-fno-semantic-interposition', '-fno-builtin-malloc', '-fno-builtin-calloc']
if os.environ.get('ATHSIM_COV'): CFLAGS += ['-O0', '-g', '-fsanitize-coverage=trace-pc']     # development: tools/cov.py
# problem generators of ours (user problem files), by name
OWN = {'simprob': 'simprob.c', 'simpart': 'simpart.c', 'simcyl': 'simcyl.c', 'simgrav': 'simprob.c'}

class BuildError(Exception):
    pass

def _sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout

def _files():
    """The source files of the code under test that a build reads."""
    out = []
    for top in ('configure.ac', 'Makefile.in', 'Makeoptions.in', 'install-sh'):
        p = os.path.join(REPO, top)
        if os.path.exists(p):
            out.append(top)
    for base in ('src', 'vis'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.in')) and f not in ('defs.h', 'config.h') and not (f == 'problem.c' and d.endswith('/src')):
                    out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)

_key = None
def tree_key():
    global _key
    if _key is None:
        h = hashlib.sha256()
        for f in _files():
            h.update(f.encode()); h.update(open(os.path.join(REPO, f), 'rb').read())
        for f in sorted(glob.glob(SIM + '/*')) + [os.path.abspath(__file__)]:
            h.update(open(f, 'rb').read())
        _key = h.hexdigest()[:20]
    return _key

def root():
    d = os.path.join(BUILD, tree_key())
    os.makedirs(d, exist_ok=True)
    return d

def _cc():
    return ['ccache', 'gcc'] if shutil.which('ccache') else ['gcc']

def simulator():
    exe = os.path.join(root(), 'athsim')
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        _sh(['gcc', '-O2', '-g', '-w', '-rdynamic', '-fcommon', os.path.join(SIM, 'sim.c'), '-o', tmp, '-ldl', '-lm'])
        os.replace(tmp, exe)
    return exe

_stage_lock = threading.Lock()
def _stage():
    st = os.path.join(root(), 'stage')
    with _stage_lock:
        if not os.path.exists(st + '/ok'):
            shutil.rmtree(st, ignore_errors=True)
            for f in _files():
                d = os.path.join(st, f)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copy2(os.path.join(REPO, f), d)
            for name, f in OWN.items():
                if os.path.exists(os.path.join(SIM, f)):
                    shutil.copy2(os.path.join(SIM, f), os.path.join(st, 'src/prob', name + '.c'))
            _sh(['autoconf'], cwd=st)
            open(st + '/ok', 'w').close()
    return st

def gc(keep=3):
    """drop build trees of older source states"""
    try:
        ds = sorted((d for d in glob.glob(BUILD + '/*') if os.path.isdir(d) and os.path.basename(d) != 'ccache'), key=os.path.getmtime)
        for d in ds[:-keep]:
            if os.path.basename(d) != tree_key():
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass

def build(configs, jobs=None):
    """configs: {name: [configure options]} -> {name: path of shared object}"""
    jobs = jobs or os.cpu_count() or 4
    os.environ.setdefault('CCACHE_DIR', os.path.join(BUILD, 'ccache'))
    os.environ.setdefault('CCACHE_MAXSIZE', '2G')
    os.environ.setdefault('CCACHE_NOHASHDIR', '1')
    exe = simulator()
    out, todo = {}, {}
    for n, opts in configs.items():
        so = os.path.join(root(), n + '-' + hashlib.sha256(' '.join(opts).encode()).hexdigest()[:8] + '.so')
        out[n] = so
        if not os.path.exists(so):
            todo[n] = opts
    if not todo:
        return out
    st = _stage()
    pool = ThreadPoolExecutor(jobs)
    def conf(n):
        d = os.path.join(root(), 'cfg-' + n + '-%d' % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(st, d, symlinks=True)
        _sh(['sh', './configure'] + todo[n], cwd=d)
        return d
    dirs = dict(zip(todo, pool.map(conf, todo)))
    jobs_ = []
    for n in todo:
        src = dirs[n] + '/src'
        fft = '--enable-fft' in todo[n]
        mpi = '--enable-mpi' in todo[n]
        objs = []
        for c in sorted(glob.glob(src + '/*.c') + glob.glob(src + '/*/*.c')):
            rel = os.path.relpath(c, src)
            if rel.startswith('prob/'):
                continue
            if rel.startswith('fftsrc/') and not (fft and (mpi or rel == 'fftsrc/ath_fft.c')):
                continue
            o = os.path.join(src, rel.replace('/', '__')[:-2] + '.o')
            # relative paths only: the compiler cache (where there is one) then works across trees
            up = '..' if '/' in rel else '.'
            inc = ['-I' + SIM, '-I' + up] + (['-I' + up + '/fftsrc'] if fft else [])
            cmd = _cc() + CFLAGS + inc + (['-Dmain=athena_main'] if rel == 'main.c' else []) + ['-c', os.path.basename(c), '-o', os.path.join(up, os.path.basename(o))]
            objs.append(o); jobs_.append((os.path.dirname(c), cmd))
        o = os.path.join(src, 'observer__.o')
        jobs_.append((src, _cc() + CFLAGS + ['-I' + SIM, '-I.', '-c', os.path.join(SIM, 'observer.c'), '-o', os.path.basename(o)]))
        objs.append(o)
        dirs[n] = (dirs[n], objs, fft)
    list(pool.map(lambda a: _sh(a[1], cwd=a[0]), jobs_))
    def link(n):
        d, objs, fft = dirs[n]
        tmp = out[n] + '.%d' % os.getpid()
        _sh(['gcc', '-shared', '-fPIC', '-Wl,-Bsymbolic', '-Wl,-z,lazy', '-o', tmp] + objs + ['-Wl,--wrap=' + w for w in WRAPS] + (['-lfftw3'] if fft else []) + ['-lm'])
        os.replace(tmp, out[n])
        shutil.rmtree(d, ignore_errors=True)
    list(pool.map(link, todo))
    pool.shutdown()
    return out

if __name__ == '__main__':
    import configs
    names = sys.argv[1:] or list(configs.CONFIGS)
    print(build({n: configs.CONFIGS[n] for n in names}))
