"""P14-P16: schedule and contents of outputs."""
from fw import *
import zoo, oracle, rst, copy, re, struct, os
import numpy as np

QUICK = ['hyd', 'mhd', 'mhdvl', 'shr', 'shrhf', 'cylm', 'grav', 'smrh', 'smrm', 'part', 'parts', 'srh', 'hyd.s', 'mhd.s', 'smrh.s', 'part.s']

class Out(Check):
    level = 'exploration'
    def configs(self, tier):
        if tier == 'quick': return QUICK
        return zoo.ALL + [c + '.s' for c in zoo.ALL]
    def base(self, rng, i, tier, **kw):
        cf = self.configs(tier); c = cf[i % len(cf)]; s = c.endswith('.s')
        j = zoo.any_(rng, tier, c[:-2] if s else c, need=1 if rng.random() < 0.1 else 2, **kw)
        return zoo.serial(j, c) if s else j
    def spec(self, j, **kw):
        return Spec(j['config'], j['nranks'], ['-i', 'athinput'] + kw.pop('args', []), zoo.fs(j), **kw)

def blocks(j):
    """{number: output block}"""
    b = j['blocks']
    return {int(k[6:]): b[k] for k in b if k.startswith('output')}

def block_of(path, bl):
    """number of the output block a file belongs to, and its number (None: appended)"""
    f = os.path.basename(path)
    m = re.match(r'.*?\.(\d{4,})\.(?:(o\d+)\.)?(\w+)$', f)
    if m:
        num, oid, ext = int(m.group(1)), m.group(2), m.group(3)
        for n, o in bl.items():
            if oid is not None and o.get('id') == oid: return n, num
            if oid is None and o['out_fmt'] == ext and o.get('out', 'cons') in ('cons', 'prim') and ext != 'lis': return n, num
        return None, num
    m = re.match(r'.*\.prb_stat\.(o\d+)\.tab$', f)
    if m: return next((n for n, o in bl.items() if o.get('id') == m.group(1)), None), None
    if f.endswith(('.hst', '.phst')): return next((n for n, o in bl.items() if o['out_fmt'] == f.rsplit('.', 1)[1]), None), None
    return None, None

class Sched:
    """model of the output schedule: every output has a next time and a next number; it is due when the time has come, or when everything is asked for"""
    def __init__(self, bl, t0=0.0):
        self.s = {n: dict(t=float(o.get('time', t0)), num=int(o.get('num', 0)), dt=float(o['dt'])) for n, o in bl.items()}
    def round(self, time, flag):
        due = {}
        for n, b in self.s.items():
            if abs(time - b['t']) <= 1e-12 * max(abs(time), abs(b['dt'])) and time != b['t']: raise Skip('output time within round-off of the simulation time')
            hit = time >= b['t']
            if hit: b['t'] += b['dt']
            if hit or flag: due[n] = b['num']; b['num'] += 1
        return due
    def copy(self):
        return copy.deepcopy(self)

class P14(Out):
    id = 'P14'
    technique = 'deterministic simulation: the I/O history of every simulated process is compared with an executable model of the output schedule, over stop/restart chains and schedules, and with runs that request other outputs'
    rule = 'a distinct (job, set of output blocks, stop/restart point, schedule hash) whose whole sequence of created and appended files equals that of the schedule model'
    quick_n, thorough_n = 260, 12000
    def scenario(self, rng, i, tier):
        j = self.base(rng, i, tier, nlim=rng.randint(4, 12))
        many = rng.random() < 0.3
        if many: zoo.outputs(rng, j, n=rng.randint(9, 16), fmts=['hst', 'tab1', 'tab1', 'pdf', 'tab1', 'rst', 'bin', 'vtk', 'tab', 'pdf'])
        else: zoo.outputs(rng, j, n=rng.randint(2, 7))
        b = j['blocks']; bl = blocks(j)
        if 'rst' not in [o['out_fmt'] for o in bl.values()] and rng.random() < 0.8:
            b['output%d' % (len(bl) + 1)] = {'out_fmt': 'rst', 'dt': rng.choice([0.004, 0.03, 10.0]), 'id': 'o%d' % (len(bl) + 1)}
            b['job']['maxout'] += 1
        for n, o in blocks(j).items():
            if rng.random() < 0.25: o['num'] = rng.randint(0, 30)
            if rng.random() < 0.25: o['time'] = round(rng.uniform(-0.05, 0.06), 4)
            if rng.random() < 0.3: o['dt'] = round(rng.uniform(0.002, 0.05), 5)
        if rng.random() < 0.2: b['job']['maxout'] += rng.randint(1, 3)
        if rng.random() < 0.3: b['time']['tlim'] = round(rng.uniform(0.01, 0.08), 4)
        n = int(b['time']['nlim'])
        return dict(job=j, seeds=[rng.randint(1, 2**31) for _ in range(4)], stop=rng.randint(1, n - 1), mid=rng.random(), keep=[rng.random() < 0.5 for _ in range(20)], sub=rng.random() < 0.5)
    def check(self, r, bl, sched, seen, what, nround0):
        """rounds of one incarnation against the model; returns the file patterns of each block"""
        R = rst.rounds(r); pats = seen['pats']
        for q in R:
            if len(R[q]) != len(R[0]): raise Violation('output-rounds', '%sprocess %d: %d output rounds, process 0: %d' % (what, q, len(R[q]), len(R[0])))
            for w in R[q][0]['files']:
                if block_of(w, bl)[0] is not None: raise Violation('output-early', '%s%s is written before the first output round' % (what, w))
        states = []
        for k in range(1, len(R[0])):
            t, flag = R[0][k]['t'], R[0][k]['flag']
            for q in R:
                if (R[q][k]['nstep'], R[q][k]['flag'], R[q][k]['t']) != (R[0][k]['nstep'], flag, t): raise Violation('output-rounds', '%sprocesses 0 and %d call for output at different times' % (what, q))
            due = sched.round(t, flag)
            got = {}
            for q in R:
                for p, (mode, size) in R[q][k]['files'].items():
                    n, num = block_of(p, bl)
                    if n is None: raise Violation('output-unknown', '%s%s belongs to no output block' % (what, p))
                    if num is not None and mode != 'w' : raise Violation('output-mode', '%s%s is opened with mode %s' % (what, p, mode))
                    if num is None and mode != 'a': raise Violation('output-overwritten', '%s%s, a file that collects records, is opened with mode %s' % (what, p, mode))
                    if num is not None:
                        if p in seen['files']: raise Violation('output-overwritten', '%s%s of step %d is written again in step %d' % (what, p, seen['files'][p], R[0][k]['nstep']))
                        seen['files'][p] = R[0][k]['nstep']
                    got.setdefault(n, {}).setdefault(num, set()).add((re.sub(r'\.\d{4,}\.', '.#.', p)))
            for n in bl:
                if n in due and n not in got and not self.empty(n, bl, pats): raise Violation('output-missing', '%soutput%d (%s) is due at step %d, time %r, but nothing is written' % (what, n, bl[n]['out_fmt'], R[0][k]['nstep'], t))
                if n not in due and n in got: raise Violation('output-unexpected', '%soutput%d (%s) is written at step %d, time %r, although it is not due' % (what, n, bl[n]['out_fmt'], R[0][k]['nstep'], t))
                if n in due and n in got:
                    nums = set(got[n]) - {None}
                    if nums and nums != {due[n]}: raise Violation('output-number', '%soutput%d (%s) at step %d has number %s instead of %d' % (what, n, bl[n]['out_fmt'], R[0][k]['nstep'], sorted(nums), due[n]))
                    pat = frozenset().union(*got[n].values())
                    if n not in pats: pats[n] = pat
                    elif pats[n] != pat: raise Violation('output-missing', '%soutput%d (%s) at step %d: files %s instead of %s' % (what, n, bl[n]['out_fmt'], R[0][k]['nstep'], sorted(pat - pats[n])[:3], sorted(pats[n] - pat)[:3]))
                if n in due: seen['due'].setdefault(n, []).append(t)
            states.append(sched.copy())
        return states
    def empty(self, n, bl, pats):
        # a slice may miss every Grid of the selected level
        return n not in pats and any(k in bl[n] for k in ('x1', 'x2', 'x3', 'level'))
    def records(self, fs, bl, seen, what):
        """rows of history and statistics files"""
        for p, d in fs.items():
            if d is None or '/rs/' in p: continue
            n, num = block_of(p, bl)
            if n is None or num is not None: continue
            ts = seen['due'].get(n, [])
            L = d.decode('latin1').splitlines(); o = bl[n]
            if p.endswith('.phst'):
                rows = []; prev = ''
                for l in L:
                    if l and l[0] != '#' and (prev == '' or prev[0] == '#'): rows.append(l)
                    prev = l
                rows = [l for l in rows if l.strip()]
            else: rows = [l for l in L if l.strip() and l[0] != '#']
            try: T = [float(l.split()[0]) for l in rows]
            except ValueError: raise Violation('history-garbled', '%s%s: unreadable row' % (what, p))
            if len(T) != len(ts): raise Violation('history-rows', '%s%s has %d records, %d were due' % (what, p, len(T), len(ts)))
            for x, y in zip(T, ts):
                if abs(x - y) > 1e-4 * max(abs(y), 1e-9): raise Violation('history-rows', '%s%s: record of time %r instead of %r' % (what, p, x, y))
            head = [l for l in L if l.startswith('#') and ('time' in l)]
            if len(head) != (1 if int(o.get('num', 0)) == 0 else 0) and not p.endswith('.phst'):
                raise Violation('history-header', '%s%s has %d headers' % (what, p, len(head)))
    def evaluate(self, ctx, sc):
        j = sc['job']; bl = blocks(j)
        A = ctx.run('whole', self.spec(j, seed=sc['seeds'][0], wantio=1))
        if not A.ok: raise Skip('whole: %s %s %s' % (A.status, A.why, A.log()[-200:]))
        seen = dict(files={}, pats={}, due={})
        states = self.check(A, bl, Sched(bl), seen, '', 0)
        self.records(A.fs, bl, seen, '')
        R = rst.rounds(A)[0]
        rn = next((n for n, o in bl.items() if o['out_fmt'] == 'rst'), None)
        # the same job with fewer outputs
        if sc['sub']:
            k2 = copy.deepcopy(j)
            for m, n in enumerate(sorted(bl)):
                if not sc['keep'][m % 20]: del k2['blocks']['output%d' % n]
            B = ctx.run('fewer', self.spec(k2, seed=sc['seeds'][1], wantio=1))
            if not B.ok: raise Violation('depends-on-other-outputs', 'with outputs %s removed the job ends with %s %s' % (sorted(set(bl) - set(blocks(k2))), B.status, B.why))
            b2 = blocks(k2)
            for q in A.steps():
                for s, t in zip(A.steps()[q], B.steps()[q]):
                    if s['hash'] != t['hash'] or s['time'] != t['time']: raise Violation('solution-depends-on-output', 'process %d: the state after step %d depends on which outputs are requested' % (q, s['nstep']))
            fa = {p: d for p, d in A.fs.items() if d is not None and block_of(p, bl)[0] in b2}; fb = {p: d for p, d in B.fs.items() if d is not None and block_of(p, b2)[0] is not None}
            if set(fa) != set(fb): raise Violation('depends-on-other-outputs', 'files %s are written only when other outputs are (not) requested' % sorted(set(fa) ^ set(fb))[:4])
            for p in fa:
                if not p.endswith('.rst') and fa[p] != fb[p]: raise Violation('depends-on-other-outputs', '%s depends on which other outputs are requested' % p)
        elif rn is not None:
            # stop early, go on from the last checkpoint on the same disk
            k2 = copy.deepcopy(j); k2['blocks']['time']['nlim'] = sc['stop']
            B = ctx.run('first', self.spec(k2, seed=sc['seeds'][1], wantio=1))
            if not B.ok: raise Skip('first: %s' % B.why)
            s2 = Sched(bl); seen2 = dict(files={}, pats={}, due={})
            self.check(B, bl, s2, seen2, 'stopped run: ', 0)
            cp = rst.checkpoints(B)
            if not cp: raise Violation('output-missing', 'the stopped run left no checkpoint')
            m = max(cp)
            fs, name = rst.restart_fs(B, m, keep=True)
            C = ctx.run('second', Spec(j['config'], j['nranks'], ['-r', name, 'time/nlim=%d' % int(j['blocks']['time']['nlim'])], fs, seed=sc['seeds'][2], wantio=1))
            if not C.ok: raise Violation('restart-fails', 'restart from checkpoint %d ends with %s (exit %d) %s: %s' % (m, C.status, C.jobexit, C.why, C.log()[-300:]))
            self.check(C, bl, s2, seen2, 'run continued from checkpoint %d: ' % m, 0)
            self.records(C.fs, bl, seen2, 'run continued from checkpoint %d: ' % m)
            # and from a checkpoint in the middle of the uninterrupted run
            cps = sorted(rst.checkpoints(A))[:-1]
            if cps:
                m = cps[int(sc['mid'] * len(cps))]; p = rst.checkpoints(A)[m][0]
                k = next(n for n, t in enumerate(R) if p in t['files'])
                fs, name = rst.restart_fs(A, m)
                D = ctx.run('middle', Spec(j['config'], j['nranks'], ['-r', name], fs, seed=sc['seeds'][3], wantio=1))
                if not D.ok: raise Violation('restart-fails', 'restart from checkpoint %d ends with %s (exit %d) %s: %s' % (m, D.status, D.jobexit, D.why, D.log()[-300:]))
                seen3 = dict(files={}, pats=dict(seen['pats']), due={})
                self.check(D, bl, states[k - 1].copy(), seen3, 'run restarted from checkpoint %d: ' % m, 0)
        ctx.mark(j['config'], j['kind'], 'ranks%d' % j['nranks'], 'blocks%d' % len(bl), 'sub' if sc['sub'] else 'restart')

# ---------------------------------------------------------------- fields of an observed state
def fields(j, g, gamma, cs):
    """named quantities of a zone array U[..., v] (None: not recomputed here)"""
    U = g['U']; iso = j['config'].split('.')[0] in zoo.ISO; mhd = j['config'].split('.')[0] in zoo.MHDC
    sr = j['config'].startswith('sr')
    n = 4 if iso else 5
    f = dict(d=U[..., 0], M1=U[..., 1], M2=U[..., 2], M3=U[..., 3])
    if not iso: f['E'] = U[..., 4]
    if mhd:
        for q in range(3): f['B%dc' % (q + 1)] = U[..., n + q]
        f['ME'] = 0.5 * (f['B1c'] ** 2 + f['B2c'] ** 2 + f['B3c'] ** 2); n += 3
    for q in range(U.shape[-1] - n): f['s%d' % q] = U[..., n + q]
    for q in '123': f['V' + q] = f['M' + q] / f['d']       # the same for special relativity: the expressions say so
    ke = 0.5 * (f['M1'] ** 2 + f['M2'] ** 2 + f['M3'] ** 2) / f['d']
    if iso: f['P'] = f['d'] * cs * cs
    else:
        f['P'] = (gamma - 1) * (f['E'] - (f['ME'] if mhd else 0.0) - ke)
        f['cs2'] = gamma * f['P'] / f['d']
        with np.errstate(invalid='ignore'): f['S'] = f['P'] / f['d'] ** gamma
    f['v2'] = (f['M1'] ** 2 + f['M2'] ** 2) / f['d']
    for q in range(3): f['KE%d' % (q + 1)] = 0.5 * f['M%d' % (q + 1)] ** 2 / f['d']
    if mhd:
        for q in range(3): f['ME%d' % (q + 1)] = 0.5 * f['B%dc' % (q + 1)] ** 2
    if 'Phi' in g: f['Phi'] = g['Phi']
    return f

def sr_prim(f, gamma):
    """d, V, P of special-relativistic conserved variables: the total energy is a rising function of
    Q = (d + gamma P/(gamma-1)) times the square of the Lorentz factor, whose root is found by bisection"""
    D, E, M = f['d'], f['E'], [f['M' + k] for k in '123']; B = [f.get('B%dc' % k, 0.0 * D) for k in (1, 2, 3)]
    M2, B2, S = sum(m * m for m in M), sum(b * b for b in B), sum(m * b for m, b in zip(M, B))
    def at(Q):
        v2 = (M2 * Q * Q + S * S * (2 * Q + B2)) / (Q * (Q + B2)) ** 2
        with np.errstate(invalid='ignore'): P = (gamma - 1) / gamma * (Q * (1 - v2) - D * np.sqrt(1 - v2))
        return v2, P
    lo, hi = 0 * D + 1e-300, 4 * (E + D + np.sqrt(M2) + B2)
    for k in range(110):
        Q = 0.5 * (lo + hi); v2, P = at(Q)
        with np.errstate(invalid='ignore'): up = (v2 >= 1) | ~(Q - P + 0.5 * B2 * (1 + v2) - 0.5 * (S / Q) ** 2 >= E)
        lo, hi = np.where(up, Q, lo), np.where(up, hi, Q)
    v2, P = at(hi)
    return dict(d=D * np.sqrt(1 - v2), P=P, V=[(m + S / hi * b) / (hi + B2) for m, b in zip(M, B)], B=B, B2=B2)

def coords(g):
    return [g['minx'][d] + (np.arange(g['gN'][d]) + 0.5) * g['dx'][d] for d in range(3)]

def close(a, b, tol, scale=1.0):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b)) + tol * 1e-2 * scale or (a != a and b != b)

class P16(Out):
    id = 'P16'
    technique = 'deterministic simulation: every record of the history, particle-history and probability files of a simulated run is recomputed from the recorded state of all processes at that moment, over tilings, reduction orders, delivery schedules and stop/restart chains'
    rule = 'a distinct (job, tiling, schedule hash) all of whose summary records equal the values recomputed from the zones of each Domain'
    quick_n, thorough_n = 600, 14000
    def configs(self, tier):
        return ['srm' if c == 'srh' else c for c in QUICK] if tier == 'quick' else Out.configs(self, tier)
    def scenario(self, rng, i, tier):
        j = self.base(rng, i, tier, nlim=rng.randint(2, 6))
        fm = ['hst', 'pdf', 'pdf', 'phst'] if 'particle' in j['blocks'] else ['hst', 'pdf', 'pdf']
        zoo.outputs(rng, j, n=rng.randint(3, 6), fmts=fm + ['tab1'], dts=[1e-9, 0.004, 0.03])
        b = j['blocks']
        if not any(o['out_fmt'] == 'hst' for o in blocks(j).values()):
            b['output%d' % (len(blocks(j)) + 1)] = {'out_fmt': 'hst', 'dt': 1e-9, 'id': 'h'}; b['job']['maxout'] += 1
        ex = ['d', 'M1', 'M2', 'M3', 'V1', 'V2', 'V3', 'P', 'v2'] + ([] if j['config'].split('.')[0] in zoo.ISO else ['E', 'cs2', 'S']) + (['B1c', 'B2c', 'B3c', 'ME'] if j['config'].split('.')[0] in zoo.MHDC else [])
        for o in blocks(j).values():
            if o['out_fmt'] in ('hst', 'phst') and rng.random() < 0.7: o['dat_fmt'] = '%22.14e'
            if o['out_fmt'] == 'pdf':
                o.pop('dmin', None); o.pop('dmax', None); o['out'] = rng.choice(ex); o.pop('usr_expr_flag', None)
                if o['out'] == 'v2': o['usr_expr_flag'] = 1
                if b['job']['num_domains'] > 1 and rng.random() < 0.3: o['domain'] = 0
        b['problem']['userhst'] = rng.choice([0, 1, 2, 2, 3, 7, 30])
        if rng.random() < 0.3:       # widths of unresolved directions are arbitrary
            for d in range(1, b['job']['num_domains'] + 1):
                for k in '23':
                    if b['domain1']['Nx' + k] == 1: b['domain%d' % d]['x%smin' % k] = -0.3; b['domain%d' % d]['x%smax' % k] = 0.95
        n = int(b['time']['nlim'])
        return dict(job=j, seeds=[rng.randint(1, 2**31) for _ in range(3)], restart=rng.random() < 0.3 and n > 1, stop=rng.randint(1, max(1, n - 1)))
    def evaluate(self, ctx, sc):
        j = sc['job']; b = j['blocks']; cfg = j['config'].split('.')[0]
        chain = []
        if sc['restart']:
            k2 = copy.deepcopy(j); k2['blocks']['time']['nlim'] = sc['stop']
            n = len(blocks(j)) + 1; rb = {'out_fmt': 'rst', 'dt': 1e9, 'id': 'r'}
            k2['blocks']['output%d' % n] = dict(rb); k2['blocks']['job']['maxout'] = n + 1
            A = ctx.run('first', self.spec(k2, seed=sc['seeds'][0], obs_out=1, wantio=1, redperm=1))
            if not A.ok: raise Skip('first: %s %s' % (A.status, A.why))
            cp = rst.checkpoints(A)
            fs, name = rst.restart_fs(A, max(cp), keep=True)
            B = ctx.run('second', Spec(j['config'], j['nranks'], ['-r', name, 'time/nlim=%d' % int(b['time']['nlim'])], fs, seed=sc['seeds'][1], obs_out=1, wantio=1, redperm=1))
            if not B.ok: raise Skip('second: %s %s' % (B.status, B.why))
            chain = [A, B]; j = k2
        else:
            A = ctx.run('run', self.spec(j, seed=sc['seeds'][0], obs_out=1, wantio=1, redperm=1))
            if not A.ok: raise Skip('run: %s %s' % (A.status, A.why))
            chain = [A]
        bl = blocks(j)
        last = chain[-1]
        exp = {}; num = {}           # path -> list of expected records
        gm = {}
        for r in chain:
            st = r.outs(); R = rst.rounds(r)
            for k in range(1, len(R[0])):
                D = {}
                for q in range(r.spec.nranks):
                    if k - 1 >= len(st.get(q, [])): raise Violation('output-rounds', 'process %d made %d output rounds, process 0 %d' % (q, len(st.get(q, [])), len(R[0]) - 1))
                    for g in st[q][k - 1]['grids']: D.setdefault((g['level'], g['dom']), []).append((q, g))
                t, dt = st[0][k - 1]['time'], st[0][k - 1]['dt']
                S = Sched(bl) if (r is chain[0] and k == 1) else S
                for n, m in S.round(t, R[0][k]['flag']).items():
                    o = bl[n]
                    for key, gl in sorted(D.items()):
                        pre = '/w/' + ('id0/' if not r.spec.config.endswith('.s') else '') + ('lev%d/' % key[0] if key[0] else '') + 'T' + ('-lev%d' % key[0] if key[0] else '') + ('-dom%d' % key[1] if key[1] else '')
                        if o['out_fmt'] == 'hst': exp.setdefault((n, pre + '.hst'), []).append(self.history(j, gl, t, dt))
                        elif o['out_fmt'] == 'pdf' and o.get('level', key[0]) == key[0] and o.get('domain', key[1]) == key[1]:
                            x = self.pdf(j, o, gl, t)
                            exp.setdefault((n, pre + '.prb_stat.%s.tab' % o['id']), []).append(x['stat'])
                            exp[(n, pre + '.%04d.%s.prb' % (m, o['id']))] = x
                            lo, hi = gm.get((r is last, n), (float('inf'), float('-inf'))); gm[(r is last, n)] = (min(lo, x['stat'][1]), max(hi, x['stat'][2]))
                        elif o['out_fmt'] == 'phst' and key == (0, 0): exp.setdefault((n, '/w/T.phst'), []).append(self.phst(j, gl, t))
        # every expected file, every record
        have = {}
        for p, d in last.fs.items():
            if d is not None: have.setdefault(re.sub(r'/T-id\d+', '/T', p), []).append(p)
        for (n, p), want in exp.items():
            h = have.get(p, [])
            if not h: raise Violation('summary-missing', '%s (output%d) does not exist' % (p, n))
            if len(h) > 1: raise Violation('summary-extra', 'the record of one Domain is spread over %s' % h)
            d = last.fs[h[0]]
            txt = d.decode('latin1'); o = bl[n]; tol = {None: 2e-6, "%18.10e": 2e-10}.get(o.get("dat_fmt"), 1e-11)
            if p.endswith('.hst'):
                self.rows(p, txt, want, tol)
                m = re.search(r'^# .*volume=(\S+)\n#(.*)$', txt, re.M)
                if m:
                    if not close(float(m.group(1)), want[0]['vol'], 1e-5): raise Violation('summary-value', '%s: the volume in the header is %s instead of %g' % (p, m.group(1), want[0]['vol']))
                    if m.group(2).count(']=') != len(want[0]['v']): raise Violation('summary-columns', '%s has %d labels for %d columns' % (p, m.group(2).count(']='), len(want[0]['v'])))
            elif p.endswith('.tab'): self.rows(p, txt, want, 1e-9)
            elif p.endswith('.phst'): self.phrows(p, txt, want, tol if o.get('dat_fmt') else 2e-5, j)
            else: self.prb(p, txt, want)
        known = {p for _, p in exp}
        for p, d in last.fs.items():
            if d is not None and (p.endswith(('.hst', '.phst', '.prb')) or '.prb_stat.' in p) and re.sub(r'/T-id\d+', '/T', p) not in known: raise Violation('summary-extra', '%s is written although no Domain calls for it' % p)
        # what is printed at the end
        for n, o in bl.items():
            if (True, n) not in gm: continue
            lo, hi = gm[(True, n)]
            w = 'Global min/max for %s: %g %g' % (o['out'], lo, hi)
            for q in (0,):
                so = last.out[q].decode('latin1')
                if w not in so:
                    L = [l for l in so.splitlines() if l.startswith('Global min/max for %s:' % o['out'])]
                    if not any(self.approx(l, lo, hi) for l in L): raise Violation('global-minmax', 'process %d prints %s instead of %r' % (q, L[:3], w))
        # quantities that are not recomputed here, against the one-process run
        if (cfg.startswith('sr') or 'particle' in b) and len(chain) == 1 and j['nranks'] > 1:
            sj = zoo.serial(j)
            B = ctx.run('serial', Spec(j['config'], 1, ['-i', 'athinput'], zoo.fs(sj), policy=CALM))
            if not B.ok: raise Skip('serial: %s' % B.why)
            for (n, p) in exp:
                if p.endswith(('.hst', '.phst')): self.same_numbers(p, last.fs[p].decode('latin1'), B.fs.get(p, b'').decode('latin1'), 1e-6 if bl[n].get('dat_fmt') else 3e-5)
        ctx.mark(cfg, j['kind'], 'ranks%d' % j['nranks'], 'dim%d' % j['dim'], 'restart' if len(chain) > 1 else 'whole', *sorted({o['out_fmt'] for o in bl.values()}))
    def approx(self, l, lo, hi):
        a = l.split(':')[1].split()
        return len(a) == 2 and close(float(a[0]), lo, 2e-5, max(abs(lo), abs(hi))) and close(float(a[1]), hi, 2e-5, max(abs(lo), abs(hi)))
    # ---- expected values
    def history(self, j, gl, t, dt):
        b = j['blocks']; cfg = j['config'].split('.')[0]; cyl = cfg.startswith('cyl'); sr = cfg.startswith('sr'); pr = b['problem']
        iso = cfg in zoo.ISO; mhd = cfg in zoo.MHDC
        cols, vol, mag = None, 0.0, None
        for q, g in gl:
            f = fields(j, g, pr['gamma'], pr.get('iso_csound', 1.0)); x1, x2, x3 = coords(g)
            X1, X2 = x1[None, None, :], x2[None, :, None]
            w = np.ones(f['d'].shape) * (X1 if cyl else 1.0)
            qs = [f['d']] + ([] if iso else [f['E']]) + [f['M1'], f['M2'], f['M3']]
            if sr:
                W = sr_prim(f, pr['gamma']); lf = f['d'] / W['d']; vB = sum(v * x for v, x in zip(W['V'], W['B']))
                qs += [lf ** 2] + [(lf * v) ** 2 for v in W['V']] + [W['P']]
                if mhd:
                    bb = [x / lf + lf * vB * v for v, x in zip(W['V'], W['B'])]
                    qs += [(lf * vB) ** 2] + [x * x for x in bb] + [sum(x * x for x in bb) - (lf * vB) ** 2, W['B2'] * (1 - 0.5 / lf ** 2) - 0.5 * vB ** 2]
            else:
                qs += [f['KE1'], f['KE2'], f['KE3']] + ([f['ME1'], f['ME2'], f['ME3']] if mhd else []) + ([f['d'] * f['Phi']] if 'Phi' in f else [])
                qs += [f[k] for k in sorted(f) if re.match(r's\d', k)] + ([X1 * f['M2']] if cyl else [])
            u = [f['d'] ** 2, X1 * f['M2'] + X2 * f['d']]
            qs += [u[m % 2] for m in range(int(pr.get('userhst', 2)))]
            s = np.array([(w * a).sum() for a in qs]); m = np.array([np.abs(w * a).sum() for a in qs])
            cols = s if cols is None else cols + s; mag = m if mag is None else mag + m
            vol += w.sum()
        dx = [g['dx'][0]] + [g['dx'][q] for q in (1, 2) if g['dN'][q] > 1]
        return dict(v=[t, dt] + list(cols / vol), s=[t, dt] + list(mag / vol), loose=range(7, 18 if mhd else 12) if sr else (), vol=vol * float(np.prod(dx)))
    def pdf(self, j, o, gl, t):
        pr = j['blocks']['problem']
        x = np.concatenate([fields(j, g, pr['gamma'], pr.get('iso_csound', 1.0))[o['out']].ravel() for q, g in gl])
        n = x.size; lo, hi = x.min(), x.max(); mean = x.mean(); s = x - mean
        var = (np.sum(s * s) - s.sum() ** 2 / n) / (n - 1); sd = np.sqrt(var)
        sk, ku = (np.sum(s ** 3) / (var * sd * n), np.sum(s ** 4) / (var * var * n) - 3.0) if sd > 0 else (np.sum(s ** 3), np.sum(s ** 4))
        nb = int(np.sqrt(float(n)))
        return dict(stat=[t, lo, hi, mean, var, sd, np.abs(s).mean(), sk, ku], x=x, nb=nb, out=o['out'])
    def phst(self, j, gl, t):
        b = j['blocks']; cfg = j['config'].split('.')[0]; nt = int(b['particle']['partypes'])
        a = np.concatenate([g['part'] for q, g in gl]); a = a[a[:, 7] == 1] if len(a) else np.zeros((0, 10))
        m = b['problem'].get('mpar', 0.02) * (1 + a[:, 6]) if cfg in ('part', 'parts', 'partf') else np.ones(len(a))
        nz = gl[0][1]['dN'][0] * gl[0][1]['dN'][1] * gl[0][1]['dN'][2]
        sc = [t, np.nan, np.nan, np.nan, m.sum() / nz] + [(m * a[:, 3 + q]).sum() / nz for q in range(3)] + [0.5 * (m * a[:, 3 + q] ** 2).sum() / nz for q in range(3)]
        ty = []
        for k in range(nt):
            p = a[a[:, 6] == k]; n = max(1, len(p))
            av = [p[:, q].sum() / n for q in range(6)]
            ty.append(av + [np.sqrt(((p[:, q] - av[q]) ** 2).sum() / max(1, len(p) - 1)) for q in range(6)])
        return dict(sc=sc, ty=ty)
    # ---- comparison
    def rows(self, p, txt, want, tol):
        L = [l.split() for l in txt.splitlines() if l.strip() and l[0] != '#']
        if len(L) != len(want): raise Violation('summary-rows', '%s has %d records instead of %d' % (p, len(L), len(want)))
        for k, (l, w) in enumerate(zip(L, want)):
            v, s = (w['v'], w['s']) if isinstance(w, dict) else (w, None)
            if len(l) != len(v): raise Violation('summary-columns', '%s has %d columns instead of %d' % (p, len(l), len(v)))
            for c, (x, y) in enumerate(zip(l, v)):
                if y != y: continue
                sc = s[c] if s else (max(abs(w[1]), abs(w[2])) if c < 4 else (max(abs(w[1]), abs(w[2])) ** 2 if c == 4 else 1.0 + abs(w[2]) + abs(w[1])))
                if not close(float(x), y, max(tol, 1e-6) if isinstance(w, dict) and c in w['loose'] else tol, 100 * sc): raise Violation('summary-value', '%s record %d (time %s) column %d: %s instead of %.15g' % (p, k, l[0], c + 1, x, y))
    def prb(self, p, txt, w):
        H = dict(re.findall(r'^# ([^=\n]+?) = (.*)$', txt, re.M)); st = w['stat']; sc = max(abs(st[1]), abs(st[2]))
        if H.get('expr') != '"%s"' % w['out']: raise Violation('summary-value', '%s is labelled %s instead of %s' % (p, H.get('expr'), w['out']))
        for nm, y in zip(('Time', 'dmin', 'dmax', 'mean', 'variance', 'std. dev.', 'avg. dev.', 'skewness', 'kurtosis'), st):
            s = sc * sc if nm == 'variance' else (sc if nm in ('dmin', 'dmax', 'mean', 'std. dev.', 'avg. dev.') else 1.0)
            if nm not in H or not close(float(H[nm]), y, 1e-9, 100 * s): raise Violation('summary-value', '%s: %s is %s instead of %.15g' % (p, nm, H.get(nm), y))
        L = [tuple(map(float, l.split())) for l in txt.splitlines() if l.strip() and l[0] != '#']
        lo, hi, x, nb = st[1], st[2], w['x'], w['nb']
        if hi - lo <= 1e-12 * sc: return
        if int(H['Nbin']) != nb or len(L) != nb: raise Violation('summary-rows', '%s has %d bins instead of %d' % (p, len(L), nb))
        u = nb / (hi - lo) * (x - lo); e = 1e-7
        for k, (c, v) in enumerate(L):
            n = v * x.size * (hi - lo) / nb
            least = int(((u > k + e) & (u < k + 1 - e)).sum()); most = int(((u > k - e) & (u < k + 1 + e)).sum())
            if k == nb - 1: least = int((u > k + e).sum()); most = int((u > k - e).sum())
            if k == 0: least = int((u < 1 - e).sum())
            if not close(c, lo + (k + 0.5) * (hi - lo) / nb, 1e-9, 100 * sc): raise Violation('summary-value', '%s bin %d is at %r' % (p, k, c))
            if not least - 1e-3 <= n <= most + 1e-3: raise Violation('summary-value', '%s bin %d holds %.3f zones instead of %d' % (p, k, n, least))
    def phrows(self, p, txt, want, tol, j):
        recs = []; cur = []
        for l in txt.splitlines() + ['']:
            if l.startswith('#'): continue
            if l.strip(): cur.append([float(x) for x in l.split()])
            elif cur: recs.append(cur); cur = []
        if len(recs) != len(want): raise Violation('summary-rows', '%s has %d records instead of %d' % (p, len(recs), len(want)))
        for k, (r, w) in enumerate(zip(recs, want)):
            v = [w['sc']] + w['ty']
            if len(r) != len(v) or any(len(a) != len(c) for a, c in zip(r, v)): raise Violation('summary-columns', '%s record %d has lines of %s numbers' % (p, k, [len(a) for a in r]))
            for a, c in zip(r, v):
                for n, (x, y) in enumerate(zip(a, c)):
                    if y == y and not close(x, y, tol, 100.0 if tol < 1e-9 else 1.0): raise Violation('summary-value', '%s record %d number %d: %r instead of %.15g' % (p, k, n + 1, x, y))
    def same_numbers(self, p, a, b, tol):
        A = [l.split() for l in a.splitlines() if l and l[0] != '#']; B = [l.split() for l in b.splitlines() if l and l[0] != '#']
        if len(A) != len(B): raise Violation('summary-differs', '%s has %d lines, %d on one process' % (p, len(A), len(B)))
        for k, (x, y) in enumerate(zip(A, B)):
            if len(x) != len(y): raise Violation('summary-differs', '%s line %d has %d numbers, %d on one process' % (p, k, len(x), len(y)))
            for n, (u, v) in enumerate(zip(x, y)):
                if not close(float(u), float(v), tol, 100.0): raise Violation('summary-differs', '%s line %d number %d is %s, on one process %s' % (p, k, n + 1, u, v))

# ---------------------------------------------------------------- P15: contents of dumps, slices, images and particle lists
def path(j, q, key, num, oid, ext):
    lev, dom = key
    return '/w/' + ('' if j['config'].endswith('.s') else 'id%d/' % q) + ('lev%d/' % lev if lev else '') + 'T' + ('-id%d' % q if q else '') + ('-lev%d' % lev if lev else '') + ('-dom%d' % dom if dom else '') + '.%04d' % num + ('.' + oid if oid else '') + '.' + ext

class P15(Out):
    id = 'P15'
    technique = 'deterministic simulation: every dump, slice, average, image and particle list a simulated run writes is decoded and compared with the recorded state of the process that wrote it, over tilings, delivery schedules and stop/restart chains'
    rule = 'a distinct (job, tiling, set of outputs, schedule hash) all of whose output files equal the expected files'
    quick_n, thorough_n = 600, 16000
    def scenario(self, rng, i, tier):
        j = self.base(rng, i, tier, nlim=rng.randint(1, 4))
        part = 'particle' in j['blocks']
        zoo.outputs(rng, j, n=rng.randint(4, 9), fmts=['bin', 'vtk', 'tab', 'tab1', 'tab1', 'vtk1', 'vtk1', 'pgm', 'ppm'] + (['lis', 'lis', 'phst', 'tab1', 'tab1'] if part else []), dts=[1e-9, 0.004, 0.03])
        b = j['blocks']; d = b['domain1']; cfg = j['config'].split('.')[0]
        ex = ['d', 'M1', 'M2', 'M3', 'V1', 'V2', 'V3', 'P', 'v2'] + ([] if cfg in zoo.ISO else ['E', 'cs2', 'S']) + (['B1c', 'B2c', 'B3c', 'ME'] if cfg in zoo.MHDC else [])
        for o in blocks(j).values():
            if 'out' in o and o['out'] not in ('cons', 'prim'):
                o['out'] = rng.choice(ex); o.pop('usr_expr_flag', None)
                if o['out'] == 'v2': o['usr_expr_flag'] = 1
            for a in ('x1', 'x2', 'x3'):
                if a in o and rng.random() < 0.35:      # positions on faces of zones, of Grids, of the mesh; open ranges
                    lo, hi, n = d[a + 'min'], d[a + 'max'], d['N' + a]
                    f = lambda k: '%.12g' % (lo + (hi - lo) * k / n)
                    k = rng.choice([0, n // 2, n // 2, n // 4, rng.randint(0, n - 1)])
                    o[a] = rng.choice([f(k), f(k), f(k), f(k) + ':', ':' + f(k), f(k) + ':' + f(rng.randint(k, n))])
            if o['out_fmt'] == 'tab' and rng.random() < 0.4: o['dat_fmt'] = '%22.14e'
            if rng.random() < 0.15 and b['job']['num_domains'] > 1: o['domain'] = 0
            if part and o['out_fmt'] == 'tab' and o.get('out', 'cons') not in ('cons', 'prim') and rng.random() < 0.5:
                o['out'] = rng.choice(['dpar', 'dpar', 'M1par', 'M2par', 'M3par']); o.pop('usr_expr_flag', None); [o.pop('x%d' % k, None) for k in (1, 2, 3)]
                if rng.random() < 0.4: o['par_prop'] = 'odd'
            if part and o['out_fmt'] != 'phst' and o.get('out', 'cons') in ('cons', 'prim') and rng.random() < 0.35: o['par_prop'] = 'odd'
            if part and o['out_fmt'] in ('bin', 'vtk') and o.get('out', 'cons') in ('cons', 'prim') and rng.random() < 0.5: o['pargrid'] = 1
        if part and rng.random() < 0.4:                 # every binned output of the run selects, between outputs that bin all particles
            for o in blocks(j).values():
                if o['out_fmt'] in ('bin', 'vtk') and o.get('out', 'cons') in ('cons', 'prim') or o.get('out') in ('dpar', 'M1par', 'M2par', 'M3par'):
                    o['par_prop'] = 'odd'
                    if o['out_fmt'] in ('bin', 'vtk'): o['pargrid'] = 1
        n = int(b['time']['nlim'])
        return dict(job=j, seeds=[rng.randint(1, 2**31) for _ in range(3)], restart=rng.random() < 0.25 and n > 1, stop=rng.randint(1, max(1, n - 1)))
    # ---- which zones an output selects
    def ranges(self, o, g, a):
        """candidates for the zones [lo, hi] selected along a reduced direction (None: the slice does not meet the Grid); more than one only within round-off of a face"""
        n, x0, dx = g['gN'][a], g['minx'][a], g['dx'][a]; s = str(o['x%d' % (a + 1)])
        if ':' in s: l, u = s.split(':')
        else: l = u = s
        l = float(l) if l.strip() else -1e300; u = float(u) if u.strip() else 1e300
        if n == 1 and g['dN'][a] == 1: return [(0, 0)]
        eps = 1e-9 * dx; out = []
        for dl in (-eps, eps):
            for du in (-eps, eps):
                if (l == u) and dl != du: continue
                L, U = l + dl, u + du
                if U < x0 or L >= x0 + n * dx: c = None
                else:
                    k0 = max(0, int(np.floor((L - x0) / dx))) if L > x0 else 0
                    k1 = min(n - 1, int(np.floor((U - x0) / dx))) if U < x0 + n * dx else n - 1
                    c = (k0, k1)
                if c not in out: out.append(c)
        return out
    def reductions(self, o, g):
        """list of (None | ndarray reducer) candidates"""
        red = [a for a in range(3) if 'x%d' % (a + 1) in o and g['dN'][a] > 1]
        cand = [{}]
        for a in red:
            nc = []
            for c in cand:
                for r in self.ranges(o, g, a): nc.append(None if (c is None or r is None) else {**c, a: r})
            cand = nc
        out = []
        for c in cand:
            if c not in out: out.append(c)
        return out
    def apply(self, c, A):
        """A[k, j, i] reduced over the selected zones, other directions kept (unresolved ones dropped by the caller)"""
        for a, (lo, hi) in c.items():
            ax = 2 - a
            A = A.take(range(lo, hi + 1), axis=ax).mean(axis=ax, keepdims=True)
        return A
    # ---- evaluation
    def evaluate(self, ctx, sc):
        j = sc['job']; b = j['blocks']; cfg = j['config'].split('.')[0]
        if not blocks(j): raise Skip('no outputs')
        kw = dict(obs_out=1, wantio=1)
        if sc['restart']:
            k2 = copy.deepcopy(j); k2['blocks']['time']['nlim'] = sc['stop']
            n = max(blocks(j)) + 1
            k2['blocks']['output%d' % n] = {'out_fmt': 'rst', 'dt': 1e9, 'id': 'r'}; k2['blocks']['job']['maxout'] = n + 1
            A = ctx.run('first', self.spec(k2, seed=sc['seeds'][0], **kw))
            if not A.ok: raise Skip('first: %s %s' % (A.status, A.why))
            fs, name = rst.restart_fs(A, max(rst.checkpoints(A)), keep=True)
            B = ctx.run('second', Spec(j['config'], j['nranks'], ['-r', name, 'time/nlim=%d' % int(b['time']['nlim'])], fs, seed=sc['seeds'][1], **kw))
            if not B.ok: raise Skip('second: %s %s' % (B.status, B.why))
            chain = [A, B]; j = k2
        else:
            A = ctx.run('run', self.spec(j, seed=sc['seeds'][0], **kw))
            if not A.ok: raise Skip('run: %s %s %s' % (A.status, A.why, A.log()[-200:]))
            chain = [A]
        bl = blocks(j); last = chain[-1]; S = Sched(bl); tot = 0
        par = {}; gm = {}; vague = set()
        for r in chain:
            st = r.outs(); R = rst.rounds(r)
            for k in range(1, len(R[0])):
                t, dt = st[0][k - 1]['time'], st[0][k - 1]['dt']
                due = S.round(t, R[0][k]['flag'])
                got = {}
                for q in R:
                    if k >= len(R[q]): raise Violation('output-rounds', 'process %d makes fewer output rounds than process 0' % q)
                    for p in R[q][k]['files']:
                        n, num = block_of(p, bl)
                        if n is not None and num is not None: got.setdefault(n, set()).add(p)
                for n, num in due.items():
                    o = bl[n]
                    if o['out_fmt'] in ('rst', 'hst', 'phst', 'pdf'): continue
                    have = got.get(n, set()); want = set(); pieces = {}; img = []
                    for q in range(r.spec.nranks):
                        for g in st[q][k - 1]['grids']:
                            key = (g['level'], g['dom'])
                            if o.get('level', key[0]) != key[0] or o.get('domain', key[1]) != key[1]: 
                                if o['out_fmt'] != 'lis': continue
                            if o['out_fmt'] == 'lis' and key != (0, 0): continue
                            single = o.get('out', 'cons') not in ('cons', 'prim')
                            p = path(j, q, key, num, o['id'] if single or o['out_fmt'] == 'lis' else None, o['out_fmt'])
                            what = '%s (output%d, %s, time %r)' % (p, n, o.get('out', o['out_fmt']), t)
                            cand = self.reductions(o, g) if single else [{}]
                            ex = p in have
                            if not ex and None not in cand: raise Violation('output-missing', '%s is not written' % what)
                            if ex and cand == [None]: raise Violation('output-extra', '%s is written although the slice does not meet the Grid' % what)
                            if single and cand != [None]: pieces.setdefault(key, []).append((g, cand, ex))
                            if not ex: continue
                            want.add(p); tot += 1
                            data = last.fs.get(p)
                            if data is None: raise Violation('output-missing', '%s is not there at the end of the run' % what)
                            cand = [c for c in cand if c is not None]
                            try:
                                if o['out_fmt'] == 'lis': self.lis(j, o, g, data, t, dt, what, par.setdefault((n, num), {}), q)
                                elif single and o['out'].endswith('par'):
                                    X = self.par_tab(g, data, what); par.setdefault((n, num), {}).setdefault(('px',) + key, []).append((g, X))
                                    if r is last: a, z, sc_ = gm.get(n, (1e300, -1e300, 0.0)); gm[n] = (min(a, float(X.min())), max(z, float(X.max())), max(sc_, float(np.abs(X).max())))
                                elif not single: getattr(self, 'dump_' + o['out_fmt'])(j, o, g, data, t, dt, what, par.setdefault((n, num), {}))
                                else:
                                    A0 = fields(j, g, b['problem']['gamma'], b['problem'].get('iso_csound', 1.0))[o['out']]
                                    err = None
                                    if len(cand) > 1: vague.add(n)        # on a face within round-off
                                    for c in cand:
                                        try:
                                            X = self.apply(c, A0); getattr(self, 'one_' + o['out_fmt'])(j, o, g, X, c, data, t, what, img); err = None
                                            if r is last and (len(cand) == 1 or o['out_fmt'] not in ('pgm', 'ppm')): a, z, sc_ = gm.get(n, (1e300, -1e300, 0.0)); gm[n] = (min(a, float(X.min())), max(z, float(X.max())), max(sc_, self.scale(o, j, g)))
                                            break
                                        except Violation as e: err = err or e
                                    if err: raise err
                            except (ValueError, IndexError, struct.error, KeyError) as e: raise Violation('output-garbled', '%s cannot be decoded: %s %s' % (what, type(e).__name__, e))
                    if have - want: raise Violation('output-extra', 'output%d at time %r also writes %s' % (n, t, sorted(have - want)[:3]))
                    self.deposited(j, o, n, t, par.get((n, num), {}))
                    self.columns(o, n, t, pieces)
                    self.colours(o, n, t, img)
        # the extrema reported at the end of the run
        for n, (lo, hi, sc_) in gm.items():
            if not np.isfinite([lo, hi]).all() or (n in vague and bl[n]['out_fmt'] in ('pgm', 'ppm')): continue
            L = [l for l in last.out[0].decode('latin1').splitlines() if l.startswith('Global min/max for %s:' % bl[n]['out'])]
            if not any(self.extrema(l, lo, hi, sc_) for l in L): raise Violation('global-minmax', 'output%d (%s): process 0 prints %s, the data written in this run lie in [%g, %g]' % (n, bl[n]['out_fmt'], L[:4], lo, hi))
        # particle lists and particle fields against the one-process run
        if par and j['nranks'] > 1 and 'particle' in b and len(chain) == 1:
            sj = zoo.serial(j)
            B = ctx.run('serial', Spec(j['config'], 1, ['-i', 'athinput'], zoo.fs(sj), policy=CALM))
            if not B.ok: raise Skip('serial: %s' % B.why)
            self.binned(j, bl, par, B)
        ctx.mark(cfg, j['kind'], 'ranks%d' % j['nranks'], 'dim%d' % j['dim'], 'restart' if len(chain) > 1 else 'whole', *sorted({o['out_fmt'] + ('1' if o.get('out', 'cons') not in ('cons', 'prim') else '') for o in bl.values()}))
        ctx.mark('files%d' % min(4, tot // 40))
    def extrema(self, l, lo, hi, sc_):
        a = l.split(':')[1].split(); e = 2e-5 * max(abs(lo), abs(hi)) + 1e-12 * sc_
        return len(a) == 2 and abs(float(a[0]) - lo) <= e and abs(float(a[1]) - hi) <= e
    def deposited(self, j, o, n, t, par):
        """the particle fields hold the mass and momentum of all selected particles"""
        d = j['blocks']['domain1']; cfg = j['config'].split('.')[0]
        L = par.get(('pg', 0, 0)); px = par.get(('px', 0, 0))
        if px:
            q = ['dpar', 'M1par', 'M2par', 'M3par'].index(o['out']); L = []
            for g, a in px:
                z = np.zeros(a.shape + (4,)); z[..., q] = a; L.append((g, z))
        if not L or any(d['bc_%sx%d' % (s, k + 1)] != 4 for s in 'io' for k in range(j['dim'])): return
        have = sum(a.reshape(-1, 4).sum(axis=0) for _, a in L); want = np.zeros(4); mag = 0.0
        for g, _ in L:
            W = g['part']
            if not len(W): continue
            if o.get('par_prop') == 'odd': W = W[W[:, 8].astype(int) % 2 == 1]
            m = j['blocks']['problem'].get('mpar', 0.02) * (1 + W[:, 6]) if cfg in ('part', 'parts', 'partf') else np.ones(len(W))
            want += [m.sum()] + [(m * W[:, 3 + q]).sum() for q in range(3)]; mag += m.sum() * (1 + np.abs(W[:, 3:6]).max() if len(W) else 1)
        if px:
            if q and (cfg in ('parts', 'partn', 'partf')): return
            want = np.where(np.arange(4) == q, want, 0.0)
        k = slice(0, 4) if px else slice(0, 1) if cfg in ('parts', 'partn', 'partf') or o.get('out', 'cons') == 'prim' else slice(0, 4)     # velocities shift across the sheared side
        if (np.abs(have - want)[k] > 1e-6 * mag + 1e-12).any(): raise Violation('particle-grid', 'output%d (%s), time %r: the particle fields add up to %s, the selected particles to %s' % (n, o['out_fmt'], t, have[k].tolist(), want[k].tolist()))
    def par_tab(self, g, data, what):
        T = np.array([[float(x) for x in l.split()] for l in data.decode('ascii').splitlines()]); n = g['gN']
        k = sum(x > 1 for x in g['dN'])
        if T.shape != (n[0] * n[1] * n[2], k + 1): raise Violation('output-shape', '%s: %s numbers instead of %s' % (what, T.shape, (n[0] * n[1] * n[2], k + 1)))
        return T[:, -1].reshape(n[2], n[1], n[0])
    def columns(self, o, n, t, pieces):
        """a point of the mesh belongs to exactly one Grid: a point slice is made of exactly one Grid per column"""
        for a in range(3):
            s = o.get('x%d' % (a + 1))
            if s is None or ':' in str(s): continue
            x = float(s)
            for key, L in pieces.items():
                cols = {}
                for g, cand, ex in L:
                    if g['dN'][a] == 1: continue
                    lo = g['minx'][a]; hi = lo + g['gN'][a] * g['dx'][a]; e = 1e-9 * g['dx'][a]
                    if x < lo - e or x > hi + e: continue
                    c = tuple((g['gD'][m], g['gN'][m]) for m in range(3) if m != a)
                    cols.setdefault(c, []).append((ex, lo + e < x < hi - e, g))
                for c, v in cols.items():
                    if len(v) == 2 and sum(e for e, _, _ in v) != 1 and not any('x%d' % (m + 1) in o and m != a for m in range(3)):
                        raise Violation('slice-pieces', 'output%d, x%d=%s, time %r: %d of the two Grids that meet at this position write the slice' % (n, a + 1, s, t, sum(e for e, _, _ in v)))
    def colours(self, o, n, t, img):
        """within one image equal values have equal colours"""
        if not img: return
        x = np.concatenate([a for a, _ in img]); c = np.concatenate([b for _, b in img])
        k = np.argsort(x); x, c = x[k], c[k]
        near = (np.diff(x) < 1e-3) & (x[:-1].astype(int) == x[1:].astype(int))
        bad = near & (np.abs(np.diff(c.astype(int), axis=0)).max(axis=1) > 2)
        if bad.any():
            m = int(np.argmax(bad)); raise Violation('image-colour', 'output%d (%s), time %r: values that map to %.5f and %.5f of the palette are drawn as %s and %s' % (n, o['out'], t, x[m], x[m + 1], list(c[m]), list(c[m + 1])))
    def eq(self, what, name, got, want, tol, scale=None):
        if got.shape != want.shape: raise Violation('output-shape', '%s: %s has shape %s instead of %s' % (what, name, got.shape, want.shape))
        s = (np.abs(want).max() if want.size else 0.0) if scale is None else scale
        with np.errstate(invalid='ignore'): bad = ~((np.abs(got - want) <= tol * np.abs(want) + 1e-13 * s + 1e-30) | (np.isnan(got) & np.isnan(want)))
        if bad.any():
            m = tuple(int(v[0]) for v in np.nonzero(bad)); raise Violation('output-value', '%s: %s at %s is %.15g instead of %.15g (%d of %d differ)' % (what, name, m[::-1], got[m], want[m], bad.sum(), bad.size))
    def scale(self, o, j, g):
        """round-off of derived quantities is relative to the conserved ones"""
        U = np.abs(g['U'])
        s = float(U.max())
        return s * (1e3 if o.get('out') in ('P', 'cs2', 'S', 'prim') else 1.0) * max(1.0, 1.0 / max(1e-3, float(U[..., 0].min())))
    # ---- single variables
    def one_tab(self, j, o, g, A, c, data, t, what, img):
        L = [l.split() for l in data.decode('ascii').splitlines()]
        keep = [a for a in range(3) if g['dN'][a] > 1 and a not in c]
        n = [g['gN'][a] for a in keep]
        A = A.reshape([m for m in n[::-1]])
        T = np.array([[float(x) for x in l] for l in L])
        if T.shape != (A.size, len(keep) + 1): raise Violation('output-shape', '%s: %s numbers instead of %s' % (what, T.shape, (A.size, len(keep) + 1)))
        idx = np.indices(A.shape).reshape(len(keep), -1)[::-1]
        for m in range(len(keep)):
            if (np.rint(T[:, m]) != idx[m]).any(): raise Violation('output-order', '%s: zone indices in direction %d are out of order' % (what, m + 1))
        self.eq(what, o['out'], T[:, -1].reshape(A.shape), A, 1e-12 if o.get('dat_fmt') else 2e-8, self.scale(o, j, g))
    def vtk_head(self, data, what):
        i = data.index(b'CELL_DATA'); e = data.index(b'\n', i) + 1
        h = data[:e].decode('ascii').splitlines()
        if h[0] != '# vtk DataFile Version 2.0' or h[2] != 'BINARY' or h[3] != 'DATASET STRUCTURED_POINTS': raise Violation('output-garbled', '%s has no VTK header' % what)
        f = {l.split()[0]: l.split()[1:] for l in h[4:]}
        return h[1], f, e
    def vtk_arr(self, data, e, name, n, what):
        m = re.compile(rb'\n?(SCALARS|VECTORS) (\S+) float\n(LOOKUP_TABLE default\n)?').match(data, e)
        if not m or m.group(2).decode() != name: raise Violation('output-garbled', '%s: %s expected, found %r' % (what, name, data[e:e + 40]))
        w = 3 if m.group(1) == b'VECTORS' else 1
        a = np.frombuffer(data, '>f4', n * w, m.end()).astype(float)
        return a.reshape(n, w) if w == 3 else a, m.end() + 4 * n * w
    def title(self, what, h, t, g):
        m = re.search(r'time= (\S+), level= (\d+), domain= (\d+)', h)
        if not m or not close(float(m.group(1)), t, 2e-6) or (int(m.group(2)), int(m.group(3))) != (g['level'], g['dom']): raise Violation('output-value', '%s is labelled %r instead of time %.9g, level %d, domain %d' % (what, h, t, g['level'], g['dom']))
    def one_vtk(self, j, o, g, A, c, data, t, what, img):
        h, f, e = self.vtk_head(data, what); self.title(what, h, t, g)
        keep = [a for a in range(3) if g['dN'][a] > 1 and a not in c]; n = [g['gN'][a] for a in keep]
        dims = [m + 1 for m in n] + ([1] if len(n) == 2 else [])
        if [int(x) for x in f['DIMENSIONS']] != dims or int(f['CELL_DATA'][0]) != int(np.prod(n)): raise Violation('output-shape', '%s: DIMENSIONS %s CELL_DATA %s instead of %s' % (what, f['DIMENSIONS'], f['CELL_DATA'], dims))
        if not c:
            for a in range(3):
                if g['dN'][a] > 1 and not close(float(f['ORIGIN'][a]), g['minx'][a], 2e-6, 1e2 * g['dx'][a]): raise Violation('output-value', '%s: ORIGIN %s instead of %s' % (what, f['ORIGIN'], g['minx']))
                if g['dN'][a] > 1 and not close(float(f['SPACING'][a]), g['dx'][a], 2e-6): raise Violation('output-value', '%s: SPACING %s instead of %s' % (what, f['SPACING'], g['dx']))
        a, e = self.vtk_arr(data, e, o['id'], int(np.prod(n)), what)
        if data[e:].strip(): raise Violation('output-garbled', '%s has %d more bytes' % (what, len(data) - e))
        self.eq(what, o['out'], a.reshape(n[::-1]), A.reshape(n[::-1]), 2e-7, self.scale(o, j, g))
    def image(self, g, c, data, what, magic, w):
        m = re.compile(magic + rb'\n(#[^\n]*\n)?(\d+) (\d+)\n255\n').match(data)
        if not m: raise Violation('output-garbled', '%s has no image header' % what)
        keep = [a for a in range(3) if g['dN'][a] > 1 and a not in c]; n = [g['gN'][a] for a in keep]
        if [int(m.group(2)), int(m.group(3))] != n or len(data) - m.end() != n[0] * n[1] * w: raise Violation('output-shape', '%s is an image of %s x %s, %d bytes, instead of %s' % (what, m.group(2), m.group(3), len(data) - m.end(), n))
        return m, n, np.frombuffer(data, 'u1', -1, m.end()).reshape(n[1], n[0], w)[::-1].astype(int)
    def one_pgm(self, j, o, g, A, c, data, t, what, img):
        m, n, P = self.image(g, c, data, what, b'P5', 1); A = A.reshape(n[::-1])
        lo = float(o.get('dmin', A.min())); hi = float(o.get('dmax', A.max()))
        if hi - lo <= 1e-9 * max(abs(hi), abs(lo)): return
        v = 256.0 / ((hi - lo) * (1 + 1.1920929e-07)) * (A - lo)
        w = np.clip(v.astype(int), 0, 255)
        bad = np.abs(P[:, :, 0] - w) > 1
        if bad.any(): k = tuple(int(x[0]) for x in np.nonzero(bad)); raise Violation('image-colour', '%s: pixel %s is %d instead of %d' % (what, k[::-1], P[k][0], w[k]))
    def one_ppm(self, j, o, g, A, c, data, t, what, img):
        m, n, P = self.image(g, c, data, what, b'P6', 3); A = A.reshape(n[::-1])
        h = dict(re.findall(r'(\w+)= ([^,\s]+)', m.group(1).decode())); s = 1e3 * self.scale(o, j, g)
        if not close(float(h['dmin']), A.min(), 2e-7, 1e-5 * s) or not close(float(h['dmax']), A.max(), 2e-7, 1e-5 * s): raise Violation('output-value', '%s: range %s instead of %.8e, %.8e' % (what, h, A.min(), A.max()))
        lo = float(o.get('dmin', A.min())); hi = float(o.get('dmax', A.max()))
        if hi - lo <= 1e-9 * max(abs(hi), abs(lo)): return
        x = np.clip((A - lo) * 255.0 / (hi - lo), 0.0, 255.0)
        img.append((x.ravel(), P.reshape(-1, 3)))
    # ---- dumps
    def vars(self, j, o, g):
        """(name, array) in the order of the structures, None where the value is not recomputed"""
        pr = j['blocks']['problem']; cfg = j['config'].split('.')[0]
        f = fields(j, g, pr['gamma'], pr.get('iso_csound', 1.0)); prim = o.get('out', 'cons') == 'prim'
        sr = cfg.startswith('sr') and prim; iso = cfg in zoo.ISO
        if sr:
            W = sr_prim(f, pr['gamma']); f.update(d=W['d'], P=W['P'], V1=W['V'][0], V2=W['V'][1], V3=W['V'][2])
        V = [('d', f['d'])] + [(('V' if prim else 'M') + k, f[('V' if prim else 'M') + k]) for k in '123']
        if not iso: V.append(('P', f['P']) if prim else ('E', f['E']))
        if cfg in zoo.MHDC: V += [('B%dc' % k, f['B%dc' % k]) for k in (1, 2, 3)]
        sc = [(('r' if prim else 's') + k[1:], f[k] / f['d'] if prim else f[k]) for k in sorted(f) if re.match(r's\d', k)]
        return V, sc, ([('Phi', f['Phi'])] if 'Phi' in f else []), sr
    def compare(self, what, j, o, g, V, got, tol, loose=False):
        s = self.scale(o, j, g)
        for (nm, w), a in zip(V, got):
            if w is not None: self.eq(what, nm, a, w, max(tol, 1e-6) if loose else tol, s * (100 if loose else 1))
    def lorentz(self, what, g, d, v, tol):
        v2 = v[0] ** 2 + v[1] ** 2 + v[2] ** 2
        if (v2 >= 1).any(): raise Violation('output-value', '%s: velocities beyond that of light' % what)
        self.eq(what, 'd times the Lorentz factor', d / np.sqrt(1 - v2), g['U'][..., 0], max(tol * 10, 1e-6))
    def dump_tab(self, j, o, g, data, t, dt, what, par):
        txt = data.decode('ascii'); H = [l for l in txt.splitlines() if l.startswith('#')]; L = [l.split() for l in txt.splitlines() if l.strip() and l[0] != '#']
        tol = 1e-12 if o.get('dat_fmt') else 2e-8
        h = next((l for l in H if 'vars at' in l), ''); kind = 'PRIMITIVE' if o.get('out', 'cons') == 'prim' else 'CONSERVED'
        m = re.search(r'# (\w+) vars at Time ?= (\S+), level= (\d+), domain= (\d+)', h)
        if not m or m.group(1) != kind or not close(float(m.group(2)), t, 2e-5) or (int(m.group(3)), int(m.group(4))) != (g['level'], g['dom']): raise Violation('output-value', '%s is labelled %r' % (what, h))
        res = [a for a in range(3) if g['gN'][a] > 1]; nx = g['gN']
        V, S, G, sr = self.vars(j, o, g)
        np_ = 4 if 'particle' in j['blocks'] else 0
        T = np.array([[float(x) for x in l] for l in L])
        nc = 2 * len(res) + len(V) + len(G) + np_ + len(S)
        if T.shape != (int(np.prod(nx)), nc): raise Violation('output-shape', '%s: %s rows and columns instead of %s' % (what, T.shape, (int(np.prod(nx)), nc)))
        T = T.reshape(nx[2], nx[1], nx[0], nc); X = coords(g)
        for m, a in enumerate(res):
            sh = [1, 1, 1]; sh[2 - a] = nx[a]
            z = np.arange(nx[a]).reshape(sh) + np.zeros((nx[2], nx[1], nx[0])); zi = T[..., m]
            if (zi - zi.flat[0] != z).any(): raise Violation('output-order', '%s: zones are out of order' % what)
            self.eq(what, 'x%d' % (a + 1), T[..., len(res) + m], X[a].reshape(sh) + 0 * z, max(tol, 1e-11), g['dx'][a] * 1e3)
        c0 = 2 * len(res); cols = [T[..., c0 + m] for m in range(nc - c0)]
        self.compare(what, j, o, g, V + G, cols, tol, sr)
        if np_: par.setdefault(('pg', g['level'], g['dom']), []).append((g, np.stack(cols[len(V) + len(G):len(V) + len(G) + 4], -1)))
        self.compare(what, j, o, g, S, cols[len(V) + len(G) + np_:], tol)
        if sr: self.lorentz(what, g, cols[0], cols[1:4], tol)
    def dump_bin(self, j, o, g, data, t, dt, what, par):
        cfg = j['config'].split('.')[0]; pr = j['blocks']['problem']; V, S, G, sr = self.vars(j, o, g); nx = g['gN']
        h = struct.unpack_from('8i', data, 0); part = 'particle' in j['blocks']
        w = (-2 if cfg.startswith('cyl') else -1,) + tuple(nx) + (len(V) + len(S), len(S), len(G), 1 if part else 0)
        if h != w: raise Violation('output-value', '%s: header %s instead of %s' % (what, h, w))
        A = np.frombuffer(data, '<f8', -1, 32)
        e = [0.0, pr.get('iso_csound', 1.0)] if cfg in zoo.ISO else [pr['gamma'] - 1, 0.0]
        for nm, x, y in zip(('gamma-1', 'sound speed', 'time', 'dt'), A[:4], e + [t, dt]):
            if not close(x, y, 1e-13): raise Violation('output-value', '%s: %s is %r instead of %r' % (what, nm, x, y))
        A = A[4:]; n = int(np.prod(nx))
        for a in range(3):
            self.eq(what, 'x%d' % (a + 1), A[:nx[a]], coords(g)[a], 1e-12, g['dx'][a] * 1e2); A = A[nx[a]:]
        pg = 4 if part and (o.get('out', 'cons') == 'cons' or int(o.get('pargrid', 0))) else 0
        nv = len(V) + len(S) + len(G) + pg
        if A.size != n * nv: raise Violation('output-shape', '%s has %d numbers instead of %d x %d' % (what, A.size, nv, n))
        A = [a.reshape(nx[2], nx[1], nx[0]) for a in A.reshape(nv, n)]
        self.compare(what, j, o, g, V + S + G, A, 1e-14 if o.get('out', 'cons') == 'cons' else 1e-12, sr)
        if pg: par.setdefault(('pg', g['level'], g['dom']), []).append((g, np.stack(A[-4:], -1)))
        if sr: self.lorentz(what, g, A[0], A[1:4], 1e-12)
    def dump_vtk(self, j, o, g, data, t, dt, what, par):
        h, f, e = self.vtk_head(data, what); self.title(what, h, t, g); prim = o.get('out', 'cons') == 'prim'
        if not h.startswith('PRIMITIVE' if prim else 'CONSERVED'): raise Violation('output-value', '%s is labelled %r' % (what, h))
        nx = g['gN']; n = int(np.prod(nx)); dims = [m + 1 if m > 1 else 1 for m in nx]
        if [int(x) for x in f['DIMENSIONS']] != dims or int(f['CELL_DATA'][0]) != n: raise Violation('output-shape', '%s: DIMENSIONS %s CELL_DATA %s instead of %s' % (what, f['DIMENSIONS'], f['CELL_DATA'], dims))
        for a in range(3):
            if nx[a] > 1 and (not close(float(f['ORIGIN'][a]), g['minx'][a], 2e-6, 1e2 * g['dx'][a]) or not close(float(f['SPACING'][a]), g['dx'][a], 2e-6)): raise Violation('output-value', '%s: ORIGIN %s SPACING %s instead of %s, %s' % (what, f['ORIGIN'], f['SPACING'], g['minx'], g['dx']))
        V, S, G, sr = self.vars(j, o, g); cfg = j['config'].split('.')[0]
        names = ['density', 'velocity' if prim else 'momentum'] + ([] if cfg in zoo.ISO else ['pressure' if prim else 'total_energy']) + (['cell_centered_B'] if cfg in zoo.MHDC else []) + (['gravitational_potential'] if G else [])
        pg = 'particle' in j['blocks'] and (not prim or int(o.get('pargrid', 0)))
        if pg: names += ['particle_density', 'particle_momentum']
        names += [('specific_scalar[%d]' if prim else 'scalar[%d]') % m for m in range(len(S))]
        A = []
        for nm in names:
            a, e = self.vtk_arr(data, e, nm, n, what)
            A += [a.reshape(nx[2], nx[1], nx[0])] if a.ndim == 1 else [a[:, m].reshape(nx[2], nx[1], nx[0]) for m in range(3)]
        if data[e:].strip(): raise Violation('output-garbled', '%s has %d more bytes' % (what, len(data) - e))
        self.compare(what, j, o, g, V + G, A, 2e-7, sr)
        if pg: par.setdefault(('pg', g['level'], g['dom']), []).append((g, np.stack(A[len(V) + len(G):len(V) + len(G) + 4], -1)))
        self.compare(what, j, o, g, S, A[len(V) + len(G) + (4 if pg else 0):], 2e-7)
        if sr: self.lorentz(what, g, A[0], A[1:4], 2e-7)
    def parse_lis(self, data):
        head = struct.unpack_from('<12f', data, 0); nt, = struct.unpack_from('<i', data, 48); o = 52 + 4 * nt
        t, dt, n = struct.unpack_from('<ffq', data, o); o += 16
        D = np.dtype([('f', '<f4', 7), ('property', '<i4'), ('id', '<i8'), ('init', '<i4')])
        if len(data) - o != n * D.itemsize: raise ValueError('%d bytes for %d particles' % (len(data) - o, n))
        return head, nt, t, dt, np.frombuffer(data, D, n, o)
    def lis(self, j, o, g, data, t, dt, what, par, q):
        head, nt, ft, fdt, P = self.parse_lis(data)
        d = j['blocks']['domain1']
        x = []
        for a in range(3): x += [g['minx'][a], g['minx'][a] + g['gN'][a] * g['dx'][a]]
        x += [v for a in '123' for v in (d['x%smin' % a], d['x%smax' % a])]
        for m in range(12):
            if g['dN'][(m % 6) // 2] > 1 and not close(head[m], x[m], 2e-7, 1.0): raise Violation('output-value', '%s: bounds %s instead of %s' % (what, head, x))
        if nt != int(j['blocks']['particle']['partypes']) or not close(ft, t, 2e-7) or not close(fdt, dt, 2e-7): raise Violation('output-value', '%s: %d types, time %r, dt %r instead of %d, %r, %r' % (what, nt, ft, fdt, int(j['blocks']['particle']['partypes']), t, dt))
        W = g['part']
        W = W[W[:, 7] != 0] if len(W) else np.zeros((0, 10))
        if o.get('par_prop') == 'odd': W = W[W[:, 8].astype(int) % 2 == 1]
        if j['config'].endswith('.s'): W = W.copy(); W[:, 9] = 0          # a build without MPI has no processes to name
        if len(P) != len(W): raise Violation('particle-list', '%s lists %d particles instead of %d' % (what, len(P), len(W)))
        kg = np.lexsort((P['property'], P['init'], P['id'])); kw = np.lexsort((W[:, 6], W[:, 9], W[:, 8])); P, W = P[kg], W[kw]
        if len(P) and ((P['id'] != W[:, 8]).any() or (P['init'] != W[:, 9]).any() or (P['property'] != W[:, 6]).any()): raise Violation('particle-list', '%s lists other particles' % what)
        if len(P):
            bad = np.abs(P['f'][:, :6] - W[:, :6]) > 2e-7 * np.abs(W[:, :6]) + 1e-12
            if bad.any(): m = tuple(int(v[0]) for v in np.nonzero(bad)); raise Violation('particle-list', '%s: particle (%d,%d) number %d is %r instead of %r' % (what, P['id'][m[0]], P['init'][m[0]], m[1], float(P['f'][m]), W[m]))
        for p in P:
            k = (int(p['id']), int(p['init']), int(p['property']))
            par.setdefault('lis', {}).setdefault(k, []).append((q, float(p['f'][6]), [float(v) for v in p['f'][:3]]))
    def binned(self, j, bl, par, B):
        """particles on the grid do not depend on the tiling"""
        for (n, num), v in par.items():
            o = bl[n]
            for key, L in v.items():
                if key == 'lis':
                    dup = [k for k, a in L.items() if len(a) > 1]
                    if dup: raise Violation('particle-list', 'output%d, number %d: particle %s is listed by processes %s' % (n, num, dup[0], [a[0] for a in L[dup[0]]]))
                    continue
                px = key[0] == 'px'
                p = path(j, 0, key[1:], num, o['id'] if px else None, o['out_fmt'])
                if B.fs.get(p) is None: raise Violation('output-missing', '%s is not written on one process' % p)
                dn = L[0][0]['dN']; gg = dict(L[0][0]); gg.update(gN=dn, gD=L[0][0]['dD']); q = {}
                W = self.par_tab(gg, B.fs[p], p)[..., None] if px else self.pargrid(o, B.fs[p], dn)
                s = np.abs(W).max() + 1e-30
                for g, a in L:
                    d = [g['gD'][m] - g['dD'][m] for m in range(3)]
                    w = W[d[2]:d[2] + g['gN'][2], d[1]:d[1] + g['gN'][1], d[0]:d[0] + g['gN'][0]]
                    if px: a = a[..., None]
                    bad = ~(np.abs(a - w) <= 1e-6 * s)
                    if bad.any():
                        m = tuple(int(x[0]) for x in np.nonzero(bad)); raise Violation('particle-grid', 'output%d (%s), number %d: particle field %d at zone (%d,%d,%d) of the Grid at %s is %.9g, on one process %.9g' % (n, o['out_fmt'], num, m[3], m[2], m[1], m[0], g['gD'], a[m], w[m]))
    def pargrid(self, o, data, nx):
        n = int(np.prod(nx)); sh = (nx[2], nx[1], nx[0])
        if o['out_fmt'] == 'bin':
            return np.stack([a.reshape(sh) for a in np.frombuffer(data, '<f8')[-4 * n:].reshape(4, n)] if len(data) % 8 == 0 else [a.reshape(sh) for a in np.frombuffer(data[-32 * n:], '<f8').reshape(4, n)], -1)
        if o['out_fmt'] == 'vtk':
            i = data.index(b'SCALARS particle_density'); A = []
            for nm in ('particle_density', 'particle_momentum'):
                a, i = self.vtk_arr(data, i, nm, n, 'one process'); A += [a.reshape(sh)] if a.ndim == 1 else [a[:, m].reshape(sh) for m in range(3)]
            return np.stack(A, -1)
        txt = data.decode('ascii'); L = np.array([[float(x) for x in l.split()] for l in txt.splitlines() if l.strip() and l[0] != '#'])
        h = [l for l in txt.splitlines() if l.startswith('# [')][0]
        ns = len(re.findall(r'=[sr]\d', h)); L = L[:, -4 - ns:L.shape[1] - ns]
        return np.stack([L[:, m].reshape(sh) for m in range(4)], -1)
