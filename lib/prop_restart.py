"""P10, P11, P13: checkpoints, crashes and stop requests."""
from fw import *
import zoo, oracle, rst, copy, re

QUICK = ['hyd', 'mhd', 'mhdvl', 'shr', 'shrhf', 'cylf', 'grav', 'gravs', 'smrh', 'smrm', 'part', 'parts', 'ress', 'cool', 'srh', 'hyd.s', 'part.s']

def big(rng, j, c):
    """Grids and particle lists longer than the 32768 numbers the checkpoint writer collects before it writes"""
    b = j['blocks']; d = b['domain1']
    if c == 'part':
        d.update(Nx1=10, Nx2=10, Nx3=1, NGrid_x1=rng.choice([1, 2]), NGrid_x2=1, NGrid_x3=1)
        b['particle'].update(parnumcell=rng.choice([330, 660]) * d['NGrid_x1'], partypes=1, tshuf=0); b['particle'].pop('parnumgrid', 0)
        for k in ('npc', 'cl1', 'cl2', 'cl3', 'cw1', 'cw2', 'cw3'): b['problem'].pop(k, 0)
        b['problem']['mpar'] = 1e-4; j['dim'] = 2
    else:
        n = rng.choice([1, 2]); d.update(Nx1=n * rng.choice([32768, 32769, 40001]), Nx2=1, Nx3=1, NGrid_x1=n, NGrid_x2=1, NGrid_x3=1); j['dim'] = 1
    d.pop('AutoWithNProc', 0); j.pop('auto', 0)
    j['ng'] = [d['NGrid_x1'], 1, 1]; j['nranks'] = d['NGrid_x1']; b['time']['nlim'] = 3; j['huge'] = 1
    return j

class Rst(Check):
    level = 'exploration'
    huge = logs = 0.0
    def configs(self, tier):
        if tier == 'quick': return QUICK
        return zoo.ALL + [c + '.s' for c in zoo.ALL]
    def job(self, rng, i, tier, nlim=None, fmts=None):
        cf = self.configs(tier); c = cf[i % len(cf)]; s = c.endswith('.s')
        j = zoo.any_(rng, tier, c[:-2] if s else c, nlim=nlim or rng.randint(5, 9), need=1 if rng.random() < 0.1 else 2)
        if self.huge and c in ('hyd', 'mhd', 'part') and rng.random() < self.huge: j = big(rng, j, c)
        if s: j = zoo.serial(j, c)
        if j['config'].split('.')[0] in zoo.MHDC:
            # a reflecting wall resets the normal field on the wall after the zones next to it were averaged from it:
            # there the cell-centred field of the running job is not a function of what a checkpoint holds
            for d in range(1, zoo.ndom(j) + 1):
                b = j['blocks']['domain%d' % d]
                for k in list(b):
                    if k.startswith('bc_') and b[k] == 1: b[k] = 2
        zoo.outputs(rng, j, n=rng.randint(1, 5) if not j.get('huge') else 1, fmts=fmts)
        b = j['blocks']
        outs = [k for k in b if k.startswith('output') and b[k]['out_fmt'] != 'rst']
        n = len(outs); new = [b.pop(k) for k in [k for k in b if k.startswith('output')]]
        new = [o for o in new if o['out_fmt'] != 'rst']
        new.insert(rng.randint(0, len(new)), {'out_fmt': 'rst', 'dt': 0})
        for n, o in enumerate(new):
            o['mult'] = round(rng.uniform(1.05, 2.6), 3)
            b['output%d' % (n + 1)] = o
        b['job']['maxout'] = len(new)
        if rng.random() < 0.5: b['problem']['udata'] = rng.randint(1, 6)
        if rng.random() < self.logs: b['log'] = {'file_open': 1, 'lazy': rng.choice([0, 1]), 'iflush': rng.choice([0, 1, 2])}
        j['tfrac'] = round(rng.uniform(0.55, 0.95), 3) if rng.random() < 0.3 else 0
        return j
    def spec(self, j, **kw):
        args = ['-i', 'athinput'] + kw.pop('args', [])
        if 'particle' in j['blocks']: kw.setdefault('obs_every', 1)
        return Spec(j['config'], j['nranks'], args, zoo.fs(j), **kw)
    def prepare(self, ctx, j):
        """run the job once to learn its time steps, then space its outputs at least a step apart"""
        j = copy.deepcopy(j); b = j['blocks']
        outs = {k: b[k] for k in b if k.startswith('output')}
        probe = copy.deepcopy(j); probe['blocks']['job']['maxout'] = 0
        for k in outs: del probe['blocks'][k]
        r = ctx.run('probe', self.spec(probe, seed=0, policy=CALM))
        if not r.ok: raise Skip('probe: %s %s %s' % (r.status, r.why, r.log()[-200:]))
        st = r.steps()[0]
        dts = [s['dt'] for s in st if s['phase'] == 0]
        if not dts: raise Skip('no step')
        self.dtmax = m = max(dts)
        for o in outs.values(): o['dt'] = repr(m * o.pop('mult'))
        if j['tfrac']: b['time']['tlim'] = repr(j['tfrac'] * st[-1]['time'])
        return j
    def rspec(self, j, fs, name, **kw):
        if 'particle' in j['blocks']: kw.setdefault('obs_every', 1)
        return Spec(j['config'], j['nranks'], ['-r', name] + kw.pop('args', []), fs, **kw)

def same_steps(a, b, n0, what, j):
    """states after step n0 of run a against those of run b"""
    part = 'particle' in j['blocks']
    for q in a.steps():
        x = [s for s in a.steps()[q] if s['phase'] == 1 or s['nstep'] >= n0]; y = b.steps().get(q, [])
        if len(x) != len(y): raise Violation('restart-steps', '%s: process %d takes %d steps instead of %d' % (what, q, len(y), len(x)))
        for s, t in zip(x, y):
            if s['nstep'] != t['nstep'] or not near(t['time'], s['time'], part) or not near(t['dt'], s['dt'], part):
                raise Violation('restart-time', '%s: process %d, step %d: time %r dt %r instead of %r, %r' % (what, q, s['nstep'], t['time'], t['dt'], s['time'], s['dt']))
            if s['hash'] != t['hash'] and not part:
                d = ' '.join('%.3g' % abs(u - v).max() for u, v in ((g['sums'], h['sums']) for g, h in zip(s['grids'], t['grids'])))
                raise Violation('restart-state', '%s: process %d: the state after step %d differs from the uninterrupted run (differences of sums per grid: %s)' % (what, q, s['nstep'], d))
    if not part: return
    # particles are kept in another order after a restart, so their drag is summed in another order: equal up to round-off
    box = [(float(j['blocks']['domain1']['x%smin' % d]), float(j['blocks']['domain1']['x%smax' % d])) for d in '123']
    fa, fb = a.fulls(), b.fulls()
    n = len(fb[0])
    for k in range(1, n + 1):
        A, B = oracle.assemble({q: fa[q][-k] for q in fa}), oracle.assemble({q: fb[q][-k] for q in fb})
        w = '%s, %d records before the end: ' % (what, k)
        oracle.compare(B, A, 1e-9, w); oracle.compare_particles(B, A, box, 1e-8, what=w, ident=j.get('kind') != 'shipped')

def near(x, y, part):
    return x == y or (part and abs(x - y) <= 1e-9 * abs(y))

def same_rst(p, x, y, ignore=()):
    a, u = rst.split(x); b, v = rst.split(y)
    if a is None or b is None: raise Violation('restart-files', '%s: no parameters in the checkpoint' % p)
    for k in sorted(set(a) | set(b)):
        if k in ignore: continue
        if a.get(k) != b.get(k): raise Violation('restart-parameters', '%s: parameter %s is %r in the restarted run and %r in the uninterrupted run' % (p, k, b.get(k), a.get(k)))
    if u != v: raise Violation('restart-files', '%s: data of the checkpoint differ' % p)

def same_output(a, b, after, what, part=False):
    """rounds of run a after `after` (index per process) against all rounds of run b, which starts with one empty round"""
    A, B = rst.rounds(a), rst.rounds(b)
    for q in A:
        x, y = A[q][after[q] + 1:], B[q][1:]
        if not y: raise Violation('restart-outputs', '%s: process %d reaches no output round' % (what, q))
        if x and x[0]['nstep'] == A[q][after[q]]['nstep'] and x[0]['flag'] == 0: y = [None] + y    # the checkpoint made before the main loop: the first round of the loop is common
        elif y[0]['files']: raise Violation('restart-outputs', '%s: process %d writes %s at once, although the outputs of that time were made already' % (what, q, sorted(y[0]['files'])[:3]))
        y = y[1:]
        for s, t in zip(x, y):
            if (s['nstep'], s['flag']) != (t['nstep'], t['flag']) or not near(s['t'], t['t'], part):
                raise Violation('restart-outputs', '%s: process %d: output round at step %d time %r instead of step %d time %r' % (what, q, t['nstep'], t['t'], s['nstep'], s['t']))
            f, g = {p: w for p, w in s['files'].items()}, {p: w for p, w in t['files'].items()}
            if set(f) != set(g): raise Violation('restart-outputs', '%s: process %d, step %d: files %s, uninterrupted run: %s' % (what, q, s['nstep'], sorted(set(g) - set(f))[:4], sorted(set(f) - set(g))[:4]))
        if len(x) != len(y): raise Violation('restart-outputs', '%s: process %d: %d output rounds instead of %d' % (what, q, len(y), len(x)))
        for t in y:
            for p, w in t['files'].items():
                d, e = b.fs.get(p), a.fs.get(p)
                if w[0] == 'a': e = e[-len(d):] if d else b''
                if p.endswith('.rst') and not part: same_rst(p, e, d)
                elif part:
                    if not alike(p, d, e): raise Violation('restart-files', '%s: %s differs from that of the uninterrupted run by more than round-off' % (what, p))
                elif bare(p, d) != bare(p, e): raise Violation('restart-files', '%s: %s differs from that of the uninterrupted run' % (what, p))

def alike(p, x, y):
    """files of two runs that differ by round-off: same kind of content; numbers of text files equal up to 1e-6 of the largest"""
    if p.endswith(('.hst', '.phst', '.tab')):
        u, v = x.decode('latin1').splitlines(), y.decode('latin1').splitlines()
        if len(u) != len(v): return False
        for l, m in zip(u, v):
            if l == m: continue
            try: f, g = [float(z) for z in l.split()], [float(z) for z in m.split()]
            except ValueError: return l.startswith('#')
            if len(f) != len(g) or any(abs(r - s) > 1e-5 * max(abs(s), 1.0) for r, s in zip(f, g)): return False
        return True
    return p.endswith('.rst') or p.endswith('.ppm') or p.endswith('.prb') or len(x) == len(y)

def bare(p, d):
    """a PPM image without its comment (which records the extremes seen so far by this execution)"""
    return re.sub(rb'#[^\n]*\n', b'', d, count=4) if p.endswith('.ppm') and d else d

class P10(Rst):
    id = 'P10'
    technique = 'deterministic simulation: a job is run to its end and stopped/restarted from checkpoints of its simulated disk (chains of restarts, schedules varied); state of every later step and every later file compared bit by bit'
    rule = 'a distinct (job, chain of checkpoints restarted from) whose continuation was compared bit by bit with the uninterrupted run'
    huge = 0.06; logs = 0.25
    quick_n, thorough_n = 170, 8000
    def scenario(self, rng, i, tier):
        return dict(job=self.job(rng, i, tier), seeds=[rng.randint(1, 2**31) for _ in range(4)], u=[rng.random() for _ in range(3)], chain=rng.choice([1, 1, 2, 3]), more=rng.randint(1, 3), idle=rng.random() < 0.3)
    def evaluate(self, ctx, sc):
        j = self.prepare(ctx, sc['job']); part = 'particle' in j['blocks']
        A = ctx.run('whole', self.spec(j, seed=sc['seeds'][0], wantio=1, junk=1))
        if not A.ok: raise Skip('whole: %s %s %s' % (A.status, A.why, A.log()[-200:]))
        cps = sorted(rst.checkpoints(A))
        if len(cps) < 2: raise Skip('one checkpoint only')
        R = rst.rounds(A)
        cur, prev = A, None; at = -1
        for c in range(sc['chain']):
            avail = [m for m in sorted(rst.checkpoints(cur)) if m in cps[:-1] and m > at]
            if not avail: break
            m = avail[int(sc['u'][c] * len(avail))]; at = m
            idx = {}
            for q in R:
                p = rst.checkpoints(A)[m][q]
                idx[q] = next(n for n, t in enumerate(R[q]) if p in t['files'])
            fs, name = rst.restart_fs(cur, m)
            B = ctx.run('restart%d' % c, self.rspec(j, fs, name, seed=sc['seeds'][1 + c], wantio=1, junk=2))
            what = 'restart from checkpoint %d%s' % (m, ' of a restarted run' if c else '')
            if not B.ok: raise Violation('restart-fails', '%s ends with %s (exit %d) %s: %s' % (what, B.status, B.jobexit, B.why, B.log()[-300:]))
            same_steps(A, B, R[0][idx[0]]['nstep'], what, j)
            same_output(A, B, idx, what, part); self.own(A, B, what, part)
            cur = B
        # go on from the last checkpoint, on the disk the first job left behind
        m = cps[-1]
        if sc.get('idle'):
            fs, name = rst.restart_fs(A, m, keep=True)
            D = ctx.run('idle', self.rspec(j, fs, name, seed=sc['seeds'][3], wantio=1, junk=1))
            if not D.ok: raise Violation('restart-fails', 'restart of a finished run ends with %s (exit %d) %s: %s' % (D.status, D.jobexit, D.why, D.log()[-300:]))
            same_steps(A, D, R[0][-1]['nstep'], 'restart of a finished run', j)
            self.kept(A, D, 'restarting the finished run')
        if not j['tfrac']:
            nlim = int(j['blocks']['time']['nlim']) + sc['more']
            j2 = copy.deepcopy(j); j2['blocks']['time']['nlim'] = nlim
            A2 = ctx.run('longer', self.spec(j2, seed=0, policy=CALM))
            fs, name = rst.restart_fs(A, m, keep=True)
            D = ctx.run('extend', self.rspec(j, fs, name, args=['time/nlim=%d' % nlim], seed=sc['seeds'][3], wantio=1))
            if not A2.ok: raise Skip('longer run: %s' % A2.why)
            if not D.ok: raise Violation('restart-fails', 'restart from the last checkpoint with a larger limit ends with %s (exit %d) %s: %s' % (D.status, D.jobexit, D.why, D.log()[-300:]))
            same_steps(A2, D, R[0][-1]['nstep'], 'restart from the last checkpoint', j)
            self.kept(A, D, 'continuing from the last checkpoint')
        ctx.mark(j['config'], j['kind'], 'ranks%d' % j['nranks'], 'chain%d' % sc['chain'])
    def own(self, A, B, what, part): pass
    def kept(self, A, D, what):
        """files of the first job keep their contents; records and messages are appended"""
        for p, d in A.fs.items():
            if d is None: continue
            e = D.fs.get(p)
            if e is None or e[:len(d)] != d or (re.search(r'\.\d\d\d\d\.', p) and e != d): raise Violation('earlier-output-damaged', '%s changes the earlier file %s' % (what, p))

def finish_like(ctx, A, j, B, n0, what):
    if not B.ok: raise Violation('restart-fails', '%s ends with %s (exit %d) %s: %s' % (what, B.status, B.jobexit, B.why, B.log()[-300:]))
    same_steps(A, B, n0, what, j)

def nstep_of(A, m):
    """step and round index per process at which run A wrote checkpoint m"""
    R = rst.rounds(A); idx = {}
    for q in R:
        p = rst.checkpoints(A)[m][q]
        idx[q] = next(n for n, t in enumerate(R[q]) if p in t['files'])
    return R[0][idx[0]]['nstep'], idx

def closed_files(r):
    """files that were closed when the run ended, and those left open: {path: mode of the last open}"""
    done, mode = {}, {}
    for line in r.io:
        a = line.split(' ')
        if a[0] == 'o' and len(a) > 3 and (a[3][0] != 'r'): mode[a[2]] = a[3][0]; done.pop(a[2], None)
        elif a[0] == 'c' and a[2] in mode: done[a[2]] = mode[a[2]]
    return done, {p: m for p, m in mode.items() if p not in done}

class P11(Rst):
    id = 'P11'
    technique = 'deterministic simulation with crash injection: the job is killed at a seeded scheduling point or in the middle of a seeded write, only the simulated disk survives, and it is restarted (crashing again in chains); checkpoint files are also cut at seeded lengths'
    rule = 'a distinct (job, crash point or cut length) after which disk contents and the restarted run were compared with the run that was never killed'
    quick_n, thorough_n = 220, 9000
    def scenario(self, rng, i, tier):
        j = self.job(rng, i, tier)
        mode = rng.choice(['io', 'io', 'seam', 'cut', 'cut'])
        return dict(job=j, mode=mode, seeds=[rng.randint(1, 2**31) for _ in range(5)], u=[rng.random() for _ in range(8)], frac=[rng.choice([0.0, 1.0, rng.random()]) for _ in range(3)],
                    crashes=rng.choice([1, 1, 2, 3]), bufsize=rng.choice([512, 4096, 65536]), where=rng.choice(['any', 'any', 'header', 'last', 'zero', 'missing']))
    def evaluate(self, ctx, sc):
        j = self.prepare(ctx, sc['job'])
        A = ctx.run('whole', self.spec(j, seed=sc['seeds'][0], wantio=1, bufsize=sc['bufsize']))
        if not A.ok: raise Skip('whole: %s %s %s' % (A.status, A.why, A.log()[-200:]))
        cps = rst.checkpoints(A)
        if len(cps) < 2: raise Skip('one checkpoint only')
        if sc['mode'] == 'cut': self.cut(ctx, sc, j, A)
        else: self.crash(ctx, sc, j, A)
        ctx.mark(j['config'], j['kind'], sc['mode'], 'ranks%d' % j['nranks'])
    def crash(self, ctx, sc, j, A):
        fs, name, args = None, None, None
        tot = A.stats['nwrite'] if sc['mode'] == 'io' else A.stats['nseam']
        start = 0; hit = False; torn, done = set(), set()
        for c in range(sc['crashes']):
            k = max(1, int(tot * (start + (1 - start) * sc['u'][c])) if not c else int(tot * sc['u'][c] * (1 - start)))
            f = ('crash_io', -1, k, 0, sc['frac'][c], '*') if sc['mode'] == 'io' else ('crash_seam', -1, k, 0, 0, '*')
            if fs is None: s = self.spec(j, seed=sc['seeds'][1 + c], wantio=1, faults=[f], bufsize=sc['bufsize'])
            else: s = self.rspec(j, fs, name, seed=sc['seeds'][1 + c], wantio=1, faults=[f], bufsize=sc['bufsize'])
            C = ctx.run('crash%d' % c, s)
            if C.status == 'segv' or C.viols: raise Violation('crash-' + C.status, '%s %s' % (C.why, C.viols[:1]))
            hit = hit or C.status == 'crashed'
            if c == 0 or C.status == 'crashed': self.disk(A, C, j, first=(c == 0))
            if C.ok: break
            d_, t_ = closed_files(C); torn = (torn - set(d_)) | set(t_); done = (done - set(t_)) | set(d_)
            good = [n for n, s in rst.checkpoints(C).items() if n in rst.checkpoints(A) and not torn & set(s.values())]
            if not good: break
            m = max(good); start = m / max(rst.checkpoints(A))
            fs, name = self.carry(C, m)
        if not hit: raise Skip('the crash point was not reached')
        if fs is None: return
        n0, idx = nstep_of(A, m)
        B = ctx.run('again', self.rspec(j, fs, name, seed=sc['seeds'][4], wantio=1))
        what = 'restart from checkpoint %d after a crash' % m
        finish_like(ctx, A, j, B, n0, what)
        part = 'particle' in j['blocks']
        later = {p for q, R in rst.rounds(A).items() for t in R[idx[q] + 1:] for p in t['files']}
        for p, d in A.fs.items():           # data files due after that checkpoint or complete before the crash: all there, none damaged
            if d is None or not re.search(r'\.\d\d\d\d\.', p) or not (p in later or p in done): continue
            e = B.fs.get(p)
            if e is None: raise Violation('output-lost', '%s: %s is missing after the restarted run' % (what, p))
            if p.endswith('.rst') and not part: same_rst(p, d, e)
            elif bare(p, d) != bare(p, e) and not (part and alike(p, e, d)): raise Violation('output-damaged', '%s: %s differs from the run that was never killed' % (what, p))
    def disk(self, A, C, j, first=True):
        """what the crash left: files completed before it are those of the run that was never killed, append files are a prefix"""
        part = 'particle' in j['blocks']
        done, torn = closed_files(C)
        for p, m in done.items():
            d, e = C.fs.get(p), A.fs.get(p)
            if e is None: raise Violation('crash-files', '%s was written only by the killed job' % p)
            if d is None: raise Violation('completed-file-lost', '%s was complete before the crash and is gone' % p)
            if m == 'a':
                if first and not e.startswith(d): raise Violation('completed-file-damaged', 'after the crash %s is not a beginning of the history of an undisturbed run' % p)
            elif p.endswith('.rst'):
                if not part: same_rst(p, e, d)
            elif bare(p, d) != bare(p, e) and not (part and not first and alike(p, d, e)): raise Violation('completed-file-damaged', '%s was complete before the crash but differs from that of an undisturbed run' % p)
        for p, m in torn.items():
            if m == 'a' and first and not A.fs[p].startswith(C.fs.get(p) or b''): raise Violation('completed-file-damaged', 'after the crash %s is not a beginning of the history of an undisturbed run' % p)
    def carry(self, C, m):
        fs = {p: d for p, d in C.fs.items() if '/rs/' not in p}
        fs['/w/rs'] = None; s = rst.checkpoints(C)[m]
        for q, p in s.items(): fs['/w/rs/' + p.rsplit('/', 1)[1]] = C.fs[p]
        return fs, 'rs/' + s[0].rsplit('/', 1)[1]
    def cut(self, ctx, sc, j, A):
        cps = rst.checkpoints(A); ms = sorted(cps)[:-1]
        m = ms[int(sc['u'][0] * len(ms))]; q = int(sc['u'][1] * j['nranks'])
        fs, name = rst.restart_fs(A, m)
        p = '/w/rs/' + cps[m][q].rsplit('/', 1)[1]
        d = fs[p]; h = d.find(b'<par_end>') + 10
        w = sc['where']
        if w == 'zero': n = 0
        elif w == 'header': n = int(sc['u'][2] * h)
        elif w == 'last': n = max(0, len(d) - 1 - int(sc['u'][2] * 64))
        else: n = h + int(sc['u'][2] * (len(d) - h - 1))
        if w == 'missing': del fs[p]; n = -1
        else: fs[p] = d[:n]
        B = ctx.run('cut', self.rspec(j, fs, name, seed=sc['seeds'][1], wantio=1, junk=2, cpu=10))
        what = 'restart from checkpoint %d with the file of process %d %s' % (m, q, 'missing' if n < 0 else 'cut to %d of %d bytes' % (n, len(d)))
        for v in B.viols: raise Violation('truncated-' + v[0], '%s: %s' % (what, v[1]))
        if B.status in ('segv', 'hang', 'deadlock', 'budget'): raise Violation('truncated-' + B.status, '%s: %s' % (what, B.why))
        if B.ok:
            n0, idx = nstep_of(A, m)
            try: same_steps(A, B, n0, what, j)
            except Violation as v: raise Violation('truncated-accepted', '%s is accepted and computes something else: %s' % (what, v.msg))
        elif not b''.join(B.err.values()).strip(): raise Violation('truncated-silent', '%s fails without any message' % what)

class P13(Rst):
    id = 'P13'
    technique = 'deterministic simulation: termination signals delivered to a seeded process at a seeded scheduling point, wall-clock limits with skewed and jumping clocks; compared with the undisturbed run and continued from the final checkpoint'
    rule = 'a distinct (job, receiving process, delivery point or clock history) in which a stop request was delivered while the main loop ran'
    quick_n, thorough_n = 260, 9000
    def scenario(self, rng, i, tier):
        j = self.job(rng, i, tier, nlim=rng.randint(6, 12))
        mode = rng.choice(['signal', 'signal', 'wall']) if j['nranks'] > 1 else 'signal'
        return dict(job=j, mode=mode, q=[rng.randrange(j['nranks']) for _ in range(3)], n=rng.choice([1, 1, 2, 3]), u=[rng.random() for _ in range(4)], seeds=[rng.randint(1, 2**31) for _ in range(4)],
                    skew=[[q, round(rng.uniform(-50, 50), 3)] for q in range(j['nranks'])], jump=rng.choice([0, 0, 1]), pat=[rng.choice(['*', 'Allreduce', 'Allreduce', 'MPI_']) for _ in range(3)])
    def evaluate(self, ctx, sc):
        j = self.prepare(ctx, sc['job'])
        A = ctx.run('whole', self.spec(j, seed=sc['seeds'][0], wantio=1))
        if not A.ok: raise Skip('whole: %s %s %s' % (A.status, A.why, A.log()[-200:]))
        # the stop request must come while the main loop runs: between the first and the last output round of the undisturbed run
        args, kw, end0 = [], {}, A.steps()[0][-1]['nstep']
        if sc['mode'] == 'signal':
            T = ctx.run('same', self.spec(j, seed=sc['seeds'][1], wantio=1))
            if not T.ok: raise Skip('undisturbed run under the second schedule: %s' % T.status)
            kw['faults'] = [('signal', sc['q'][k], max(1, int(T.rseam[sc['q'][k]] * sc['u'][k])) if sc['pat'][k] == '*' else 1 + int((3 if sc['pat'][k] == 'Allreduce' else 60) * end0 * sc['u'][k]), 15, 1, sc['pat'][k]) for k in range(sc['n'])]
        else:
            sim = A.stats['simtime']; lim = max(1, int(sim * sc['u'][0] * 1.2))
            args = ['-t', '%d:%02d:%02d' % (lim // 3600, lim // 60 % 60, lim % 60)]
            kw['skew'] = sc['skew']
            if sc['jump']: kw['faults'] = [('clock_jump', sc['q'][0], max(1, int(A.stats['nseam'] * sc['u'][1])), 0, [-1e4, 1e4][sc['u'][2] > 0.3], '*')]
        S = ctx.run('stop', self.spec(j, seed=sc['seeds'][1], wantio=1, args=args, **kw))
        what = 'stop request (%s)' % (kw.get('faults') or args)
        for v in S.viols: raise Violation('stop-' + v[0], '%s: %s' % (what, v[1]))
        if 'killed by signal' in S.why: raise Skip('signal before the handler was installed')
        if not S.ok: raise Violation('stop-fails', '%s: the job ends with %s (exit %d) %s: %s' % (what, S.status, S.jobexit, S.why, S.log()[-300:]))
        full = end0
        ends = {q: S.steps()[q][-1]['nstep'] for q in S.steps()}
        if len(set(ends.values())) != 1: raise Violation('stop-not-together', '%s: processes stop after different steps: %s' % (what, ends))
        end = ends[0]
        for q in A.steps():
            x, y = [s for s in A.steps()[q] if s['phase'] == 0], [s for s in S.steps()[q] if s['phase'] == 0]
            for s, t in zip(x, y):
                if (s['nstep'], s['time'], s['dt'], s['hash']) != (t['nstep'], t['time'], t['dt'], t['hash']): raise Violation('stop-changes-result', '%s: the solution of process %d after step %d is not that of the undisturbed run' % (what, q, t['nstep']))
        rounds = rst.rounds(S)
        if sc['mode'] == 'signal':
            fired = S.fired.get('signal', 0)
            if not fired: raise Skip('no signal delivered')
            # a signal delivered in loop round n ends the run with that round, or with the next one if the processes had agreed already
            at = self.delivered(S)
            if at is not None and end > at + 2: raise Violation('stop-ignored', '%s: delivered while step %d was the current step, but the job goes on to step %d' % (what, at, end))
        else:
            for q, r in rounds.items():      # rounds in and after which the clock of process q was past the limit
                for a, c in zip(r[1:], r[2:]):
                    if min(a['clock'], c['clock']) - r[1]['clock'] > lim and end > a['nstep'] + 2: raise Violation('stop-ignored', '%s: the limit of %d s had passed on process %d in step %d, but the job goes on to step %d' % (what, lim, q, a['nstep'], end))
        if end == full and sc['mode'] == 'wall' : raise Skip('limit not reached')
        # final outputs: everything requested, on every process, at the last step
        for q in rounds:
            last = rounds[q][-1]
            if last['flag'] != 1 or last['nstep'] != end: raise Violation('stop-no-output', '%s: process %d makes no final output at step %d' % (what, q, end))
            ref = rst.rounds(A)[q][-1]
            ext = lambda t: sorted(re.sub(r'\.\d\d\d\d\.', '.', p) for p in t['files'])
            if ext(last) != ext(ref): raise Violation('stop-no-output', '%s: final outputs of process %d are %s instead of %s' % (what, q, ext(last), ext(ref)))
        cps = rst.checkpoints(S)
        if not cps: raise Violation('stop-no-checkpoint', '%s: no complete checkpoint' % what)
        m = max(cps)
        n0, idx = nstep_of(S, m)
        if n0 != end: raise Violation('stop-no-checkpoint', '%s: the last checkpoint is of step %d, the job stopped after step %d' % (what, n0, end))
        if end < full:
            fs, name = rst.restart_fs(S, m)
            B = ctx.run('again', self.rspec(j, fs, name, seed=sc['seeds'][2]))
            finish_like(ctx, A, j, B, end, 'restart after a stop request at step %d' % end)
        ctx.mark(j['config'], sc['mode'], 'ranks%d' % j['nranks'], 'at%d' % end)
    def delivered(self, S):
        """step count of the receiving process when the first signal was delivered, if the main loop was running then"""
        n = {}
        for line in S.io:
            a = line.split(' ')
            if a[0] == 'k': n[int(a[1])] = (int(a[2]), int(a[3]))
            elif a[0] == 's':
                q = int(a[1])
                if q not in n or n[q][1] == 1 and n[q][0] > 0: return None
                return n[q][0]
        return None
