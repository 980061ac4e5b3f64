"""Runs simulated jobs: spec -> athsim worker -> Result."""
import os, struct, subprocess, tempfile, threading, shutil, atexit, queue, time, copy, hashlib, json
import numpy as np
import build, configs

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 2 << 30 else None
        _scratch = tempfile.mkdtemp(prefix='athsim.', dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def inp(blocks):
    """athinput text from {block: {par: value}}"""
    o = []
    for b, ps in blocks.items():
        o.append('<%s>' % b)
        for k, v in ps.items():
            o.append('%-12s = %s' % (k, v))
        o.append('')
    return '\n'.join(o) + '\n'

def pack_fs(fs):
    o = []
    for p, d in fs.items():
        t = 1 if d is None else 0
        d = b'' if d is None else d
        o.append(struct.pack('<IIQ', t, len(p.encode()), len(d)) + p.encode() + d)
    return b''.join(o)

def unpack_fs(b):
    fs, i = {}, 0
    while i + 16 <= len(b):
        t, l, n = struct.unpack_from('<IIQ', b, i); i += 16
        p = b[i:i + l].decode('latin1'); i += l
        fs[p] = None if t else b[i:i + n]
        i += n
    return fs

class Spec:
    """One simulated run, completely: what is run, on what disk, with which faults,
    under which seed (or explicit list of decisions)."""
    FIELDS = ('config', 'nranks', 'args', 'fs', 'seed', 'faults', 'junk', 'bufsize', 'redperm', 'obs_every', 'obs_out', 'skew', 'policy', 'budget', 'cpu', 'wantio', 'replay', 'dev', 'tag')
    def __init__(self, config, nranks=1, args=(), fs=None, seed=0, faults=(), junk=1, bufsize=4096, redperm=0, obs_every=0, obs_out=0, skew=(), policy=None, budget=20000000, cpu=60, wantio=0, replay=0, dev=(), tag=''):
        self.config, self.nranks, self.args, self.fs, self.seed = config, nranks, list(args), dict(fs or {}), seed
        self.faults, self.junk, self.bufsize, self.redperm, self.obs_every, self.obs_out = list(faults), junk, bufsize, redperm, obs_every, obs_out
        self.skew, self.policy, self.budget, self.cpu, self.wantio = list(skew), policy, budget, cpu, wantio
        self.replay, self.dev, self.tag = replay, list(dev), tag
    def but(self, **kw):
        s = copy.copy(self)
        for k, v in kw.items():
            setattr(s, k, v)
        return s
    def to_json(self):
        d = {k: getattr(self, k) for k in self.FIELDS}
        d['fs'] = {p: (None if b is None else b.decode('latin1')) for p, b in self.fs.items()}
        d['dev'] = ' '.join('%d:%d' % tuple(x) for x in self.dev)
        return d
    @staticmethod
    def from_json(d):
        d = dict(d)
        d['fs'] = {p: (None if b is None else b.encode('latin1')) for p, b in d['fs'].items()}
        d['dev'] = [tuple(int(y) for y in x.split(':')) for x in d['dev'].split()]
        return Spec(**d)

CALM = (0, 0, 0, 0, 0, 0)   # immediate delivery, run-to-block, eager sends, synchronising collectives

class Result:
    def __init__(self, prefix, spec, wantdev=False):
        self.spec = spec
        self.viols, self.exit, self.fired, self.rseam, self.ralloc = [], {}, {}, {}, {}
        self.stats = {}
        self.status, self.why, self.jobexit, self.hash = 'nores', '', -1, ''
        for line in open(prefix + '.res', errors='replace'):
            k, _, v = line.rstrip('\n').partition(' ')
            if k == 'status': self.status = v
            elif k == 'why': self.why = v
            elif k == 'viol':
                a, _, b = v.partition(' '); self.viols.append((a, b))
            elif k == 'exit':
                a = v.split(); self.exit[int(a[0])] = (int(a[1]), int(a[2]))
            elif k == 'jobexit': self.jobexit = int(v)
            elif k == 'hash': self.hash = v
            elif k == 'fired':
                a = v.split(); self.fired[a[0]] = int(a[1])
            elif k in ('rseam', 'ralloc'):
                a = v.split(); getattr(self, k)[int(a[0])] = int(a[1])
            elif k == 'policy': self.policy = v
            else:
                try: self.stats[k] = float(v)
                except ValueError: pass
        self.fs, self.out, self.err, self.obs = {}, {}, {}, {}
        if os.path.exists(prefix + '.fs'):
            self.fs = unpack_fs(open(prefix + '.fs', 'rb').read())
        if os.path.exists(prefix + '.rk'):
            b = open(prefix + '.rk', 'rb').read(); i = 0
            for r in range(spec.nranks):
                a = struct.unpack_from('<QQQ', b, i); i += 24
                self.out[r] = b[i:i + a[0]]; i += a[0]
                self.err[r] = b[i:i + a[1]]; i += a[1]
                self.obs[r] = b[i:i + a[2]]; i += a[2]
        self.io = open(prefix + '.io', errors='replace').read().splitlines() if os.path.exists(prefix + '.io') else []
        self.dev = []
        if wantdev and os.path.exists(prefix + '.dev'):
            self.dev = [tuple(int(y) for y in x.split(':')) for x in open(prefix + '.dev').read().split()]
    @property
    def ok(self):
        return self.status == 'ok' and self.jobexit == 0
    def log(self):
        return b'\n'.join(self.out.get(r, b'') + self.err.get(r, b'') for r in sorted(self.out)).decode('latin1')
    def digest(self):
        h = hashlib.sha256()
        h.update(('%s %s %s %s' % (self.status, self.why, self.jobexit, self.hash)).encode())
        for p in sorted(self.fs):
            h.update(p.encode()); h.update(self.fs[p] or b'')
        for r in sorted(self.out):
            h.update(self.out[r]); h.update(self.err[r]); h.update(self.obs[r])
        return h.hexdigest()[:24]
    def steps(self):
        """list per rank of dicts (one per observed step)"""
        if not hasattr(self, '_obs'):
            self._obs = {r: parse_obs(b) for r, b in self.obs.items()}
        return {r: v[0] for r, v in self._obs.items()}
    def fulls(self):
        self.steps()
        return {r: [f for f in v[1] if f['phase'] < 2] for r, v in self._obs.items()}
    def outs(self):
        """per rank, the state at every call of the output driver (needs obs_out=1); phase 2: only what is due, phase 3: everything"""
        self.steps()
        return {r: [f for f in v[1] if f['phase'] >= 2] for r, v in self._obs.items()}

def parse_obs(b):
    steps, fulls, i = [], [], 0
    while i < len(b):
        tag, phase, nstep, ng = struct.unpack_from('<iiii', b, i); i += 16
        if tag == 1:
            t, dt, h = struct.unpack_from('<ddQ', b, i); i += 24
            gs = []
            for _ in range(ng):
                nl, nd, nv, npart = struct.unpack_from('<iiii', b, i); i += 16
                v = struct.unpack_from('<%dd' % (nv + 3), b, i); i += 8 * (nv + 3)
                gs.append(dict(level=nl, dom=nd, npart=npart, sums=np.array(v[:nv]), divb=v[nv], bmax=v[nv + 1], time=v[nv + 2]))
            steps.append(dict(phase=phase, nstep=nstep, time=t, dt=dt, hash=h, grids=gs))
        elif tag == 2:
            t, dt = struct.unpack_from('<dd', b, i); i += 16
            gs = []
            for _ in range(ng):
                q = struct.unpack_from('<18i', b, i); i += 72
                dx = struct.unpack_from('<6d', b, i); i += 48
                nl, nd = q[0], q[1]; dN, dD, gN, gD = q[2:5], q[5:8], q[8:11], q[11:14]
                nv, hasB, hasPhi, npart = q[14:18]
                def arr(shape):
                    nonlocal i
                    n = int(np.prod(shape)); a = np.frombuffer(b, '<f8', n, i).reshape(shape); i += 8 * n
                    return a
                g = dict(level=nl, dom=nd, dN=dN, dD=dD, gN=gN, gD=gD, nv=nv, dx=dx[:3], minx=dx[3:])
                g['U'] = arr((gN[2], gN[1], gN[0], nv))
                if hasB:
                    g['B1'] = arr((gN[2], gN[1], gN[0] + (gN[0] > 1)))
                    g['B2'] = arr((gN[2], gN[1] + (gN[1] > 1), gN[0]))
                    g['B3'] = arr((gN[2] + (gN[2] > 1), gN[1], gN[0]))
                if hasPhi:
                    g['Phi'] = arr((gN[2], gN[1], gN[0]))
                g['part'] = arr((npart, 10)) if npart else np.zeros((0, 10))
                gs.append(g)
            fulls.append(dict(phase=phase, nstep=nstep, time=t, dt=dt, grids=gs))
        else:
            raise ValueError('bad observation record')
    return steps, fulls

class Worker:
    def __init__(self, so):
        self.p = subprocess.Popen([build.simulator(), so], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    def run(self, specfile):
        try:
            self.p.stdin.write(specfile + '\n'); self.p.stdin.flush()
            return self.p.stdout.readline().strip()
        except BrokenPipeError:
            return ''
    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill()

class Infra(Exception):
    pass

class Engine:
    """A pool of simulator processes; all simulated runs go through run()/map()."""
    def __init__(self, names, jobs=None):
        self.jobs = jobs or int(os.environ.get('ATHSIM_JOBS', os.cpu_count() or 4))
        t = time.time()
        build.gc()
        self.so = build.build({n: configs.CONFIGS[n] for n in names}, self.jobs)
        self.build_s = time.time() - t
        self.local = threading.local()
        self.all = []
        self.lock = threading.Lock()
        self.n = 0
        self.t0 = time.time()
        self.agg = dict(runs=0, simtime=0.0, seams=0, choices=0, deviations=0, messages=0, collectives=0, fired={}, status={})
        self.hashes = set()
        atexit.register(self.close)
    def close(self):
        for w in self.all:
            w.close()
        self.all = []
    def run(self, spec, wantdev=False):
        ws = getattr(self.local, 'w', None)
        if ws is None:
            ws = self.local.w = {}
            with self.lock:
                self.local.id = len(self.all) * 1000 + threading.get_ident() % 1000
        if spec.config not in ws:
            ws[spec.config] = Worker(self.so[spec.config])
            with self.lock:
                self.all.append(ws[spec.config])
        with self.lock:
            self.n += 1; n = self.n
        prefix = os.path.join(scratch(), 'r%d' % n)
        with open(prefix + '.fsin', 'wb') as f:
            f.write(pack_fs(spec.fs))
        L = ['seed %d' % spec.seed, 'nranks %d' % spec.nranks, 'out ' + prefix, 'fsin ' + prefix + '.fsin', 'junk %d' % spec.junk, 'bufsize %d' % spec.bufsize, 'redperm %d' % spec.redperm,
             'obs_every %d' % spec.obs_every, 'obs_out %d' % spec.obs_out, 'budget %d' % spec.budget, 'cpu %d' % spec.cpu, 'wantio %d' % spec.wantio, 'wantdev %d' % (1 if wantdev else 0)]
        L += ['arg ' + a for a in spec.args]
        L += ['skew %d %r' % (r, x) for r, x in spec.skew]
        L += ['fault ' + ' '.join(str(x) for x in f) for f in spec.faults]
        if spec.policy is not None:
            L.append('policy %d %d %d %d %d %d' % tuple(spec.policy))
        if spec.replay:
            L.append('replay 1')
            for k in range(0, len(spec.dev), 2000):
                L.append('dev ' + ' '.join('%d:%d' % tuple(x) for x in spec.dev[k:k + 2000]))
        with open(prefix + '.spec', 'w') as f:
            f.write('\n'.join(L) + '\n')
        a = ws[spec.config].run(prefix + '.spec')
        try:
            if a != 'done':
                raise Infra('simulator answered %r' % a)
            r = Result(prefix, spec, wantdev)
        finally:
            for s in ('.fsin', '.spec', '.res', '.fs', '.rk', '.io', '.dev'):
                try: os.unlink(prefix + s)
                except OSError: pass
        with self.lock:
            g = self.agg
            g['runs'] += 1; g['simtime'] += r.stats.get('simtime', 0); g['seams'] += int(r.stats.get('nseam', 0)); g['choices'] += int(r.stats.get('nchoice', 0))
            g['deviations'] += int(r.stats.get('ndev', 0)); g['messages'] += int(r.stats.get('nmsg', 0)); g['collectives'] += int(r.stats.get('ncoll', 0))
            for k, v in r.fired.items():
                g['fired'][k] = g['fired'].get(k, 0) + v
            g['status'][r.status] = g['status'].get(r.status, 0) + 1
            self.hashes.add(r.hash)
        return r
    def map(self, fn, items):
        """fn(item) on self.jobs threads, results in order; exceptions propagate."""
        items = list(items); out = [None] * len(items); q = queue.Queue(); errs = []
        for i, x in enumerate(items): q.put((i, x))
        def work():
            while not errs:
                try: i, x = q.get_nowait()
                except queue.Empty: return
                try: out[i] = fn(x)
                except BaseException as e:
                    errs.append(e); return
        ts = [threading.Thread(target=work) for _ in range(min(self.jobs, max(1, len(items))))]
        # workers keep per-thread simulator processes; close them when the thread ends
        for t in ts: t.start()
        for t in ts: t.join()
        if errs: raise errs[0]
        return out
