"""P17: conservation and the divergence of the field, watched in every step of every simulated run."""
from fw import *
import zoo, oracle, rst, copy

SH = tuple(zoo.SHEAR) + ('gravs', 'parts', 'partn', 'partf')

def names(j):
    c = j['config'].split('.')[0]
    n = ['d', 'M1', 'M2', 'M3'] + ([] if c in zoo.ISO else ['E']) + (['B1', 'B2', 'B3'] if c in zoo.MHDC else [])
    return n

def conserved(j):
    """which sums over the root Domain may not change: {name}"""
    c = j['config'].split('.')[0]; b = j['blocks']; d = b['domain1']; dim = j['dim']; p = b['problem']
    if p.get('inflow') or p.get('udata'): return set()
    bc = [(d['bc_ix%d' % (k + 1)], d['bc_ox%d' % (k + 1)]) for k in range(dim)]
    if any(x == 2 for q in bc for x in q): return set()
    per = all(q == (4, 4) for q in bc)
    if c.startswith('cyl'): return set()
    if c in SH:     # the flux correction at the shearing sides is for the mass, and the integrators have it in 3D only (in the x-z plane it is not needed)
        return {'d'} if per and (dim == 3 or p.get('xz')) else set()
    if not per: return set() if c in zoo.MHDC or c in zoo.GRAV or p.get('gacc') else {'d', 's'}   # walls: exact by symmetry only without fields and body forces
    s = {'d', 's', 'B1', 'B2', 'B3'}
    if c in zoo.GRAV or p.get('gacc'): return s
    if c == 'part': return s | {'PM1', 'PM2', 'PM3'}
    return s | {'M1', 'M2', 'M3'} | (set() if c == 'cool' else {'E'})

def solenoidal(j):
    """reflecting sides set the normal field of the wall to zero whatever the initial field is"""
    d = j['blocks']['domain1']
    return j['config'].split('.')[0] in zoo.MHDC and not any(d['bc_%sx%d' % (s, k + 1)] == 1 for s in 'io' for k in range(j['dim']))

class P17(Check):
    id = 'P17'
    level = 'exploration'
    technique = 'deterministic simulation: the sums of the conserved variables over the root Domain and the divergence of the face fields are invariants checked in every step of every process, over tilings, message schedules and crash/restart chains'
    rule = 'a distinct (job, tiling, schedule hash, crash point) in which every step kept the sums that its boundaries and sources allow to be constant and kept the discrete divergence at round-off'
    quick_n, thorough_n = 800, 12000
    tol = 1e-11
    QUICK = ['hyd', 'mhd', 'hydvl', 'mhdvl', 'shr', 'shrf', 'shrhf', 'cylm', 'cylf', 'gravm', 'smrh', 'smrm', 'smrv', 'part', 'res', 'ress', 'viscs', 'srm']
    def configs(self, tier):
        return self.QUICK if tier == 'quick' else [c for c in zoo.ALL if c not in ('gravo', 'cylh', 'cylfh')]      # nothing is conserved to round-off there
    def scenario(self, rng, i, tier):
        cf = self.configs(tier); c = cf[i % len(cf)]
        j = zoo.any_(rng, tier, c, need=1 if rng.random() < 0.15 else 2, nlim=rng.randint(3, 9), **({'strong': 0.6} if c in ('hydvl', 'mhdvl') else {}))
        b = j['blocks']
        if rng.random() < 0.7 and not j.get('edge'):
            wall = rng.random() < 0.25
            for n in range(1, b['job']['num_domains'] + 1):
                for k in (1, 2, 3):
                    x = (4, 4)
                    if c.startswith('cyl') and k == 1: x = (2, 2)
                    elif c in SH or c.startswith('grav'): x = (b['domain%d' % n]['bc_ix%d' % k], b['domain%d' % n]['bc_ox%d' % k])
                    elif wall and k == 1: x = (5, 5) if c in zoo.MHDC else (1, 1)
                    b['domain%d' % n]['bc_ix%d' % k], b['domain%d' % n]['bc_ox%d' % k] = x
            b['problem'].pop('inflow', None)
            if rng.random() < 0.7: b['problem'].pop('gacc', None)
        n = int(b['time']['nlim'])
        return dict(job=j, seed=rng.randint(1, 2**31), junk=rng.choice([1, 2]), restart=rng.random() < 0.25 and n > 2, stop=rng.randint(1, max(1, n - 1)), asplit=bool(c in ('smrm', 'smrv') and zoo.smr_flags(j)['asplit']))
    worst = {}
    def note(self, c, n, e):
        if e > self.worst.get((c, n), 0.0): self.worst[(c, n)] = e
    def sums(self, full, j):
        """sums and sums of magnitudes over the root Domain of one full observation"""
        D = oracle.assemble(full)[(0, 0)]; U = D['U']; w = 1.0
        if j['config'].startswith('cyl'):
            g = full[0]['grids'][0]; b = j['blocks']['domain1']; w = (b['x1min'] + (np.arange(U.shape[2]) + 0.5) * g['dx'][0])[None, None, :, None]
        s = (w * U).sum((0, 1, 2)); m = np.abs(w * U).sum((0, 1, 2))
        P = None
        if D['part']:
            a = np.concatenate([x[1] for x in D['part']]); a = a[a[:, 7] != 0]
            ms = j['blocks']['problem'].get('mpar', 0.02) * (1 + a[:, 6])
            P = [(ms * a[:, 3 + q]).sum() for q in range(3)]; Pm = [np.abs(ms * a[:, 3 + q]).sum() for q in range(3)]
            return s, m, P, Pm
        return s, m, None, None
    def evaluate(self, ctx, sc):
        j = sc['job']; b = j['blocks']; c = j['config'].split('.')[0]; nm = names(j); keep = conserved(j)
        sp = lambda k, **kw: Spec(k['config'], k['nranks'], ['-i', 'athinput'], zoo.fs(k), **kw)
        if sc['restart']:
            k2 = copy.deepcopy(j); k2['blocks']['time']['nlim'] = sc['stop']; k2['blocks']['output1'] = {'out_fmt': 'rst', 'dt': 1e9}; k2['blocks']['job']['maxout'] = 1
            A = ctx.run('first', sp(k2, seed=sc['seed'], junk=sc['junk'], obs_out=1, obs_every=1))
            if not A.ok: raise Skip('first: %s %s' % (A.status, A.why))
            fs, name = rst.restart_fs(A, max(rst.checkpoints(A)))
            B = ctx.run('second', Spec(j['config'], j['nranks'], ['-r', name, 'time/nlim=%d' % int(b['time']['nlim'])], fs, seed=sc['seed'] + 1, junk=sc['junk'], obs_every=1))
            if not B.ok: raise Skip('second: %s %s' % (B.status, B.why))
            runs = [('', A), ('after restart: ', B)]
        else:
            A = ctx.run('run', sp(j, seed=sc['seed'], junk=sc['junk'], obs_out=1, obs_every=1))
            if not A.ok: raise Skip('run: %s %s' % (A.status, A.why))
            runs = [('', A)]
        # across the shearing sides the two fluxes of one face come from states that differ by round-off, which HLLD may amplify
        tol = 1e-7 if c in ('shr', 'shrf', 'gravs', 'partn', 'shrd', 'shrv') else 3 * self.tol
        o = A.outs(); first = {q: o[q][0] for q in o}
        s0, m0, P0, Pm0 = self.sums(first, j)
        ns = len(s0) - len(nm); nv = nm + ['s%d' % k for k in range(ns)]
        for what, r in runs:
            F = r.fulls(); S = r.steps()
            for k in range(len(F[0])):
                full = {q: F[q][k] for q in F}
                s, m, P, Pm = self.sums(full, j)
                if not np.isfinite(s).all(): raise Skip('solution is not finite')
                st = full[0]['nstep']
                for v, n in enumerate(nv):
                    if n in keep or (n[0] == 's' and 's' in keep):
                        if n[0] in 'MB': sc_ = max(m0[v], 0.1 * m0[0])
                        else: sc_ = m0[v]
                        e = abs(s[v] - s0[v]) / sc_
                        self.note(c, n, e)
                        if not e <= tol: raise Violation('not-conserved', '%sthe sum of %s over the root Domain changed by %.3g (relative) up to step %d' % (what, n, e, st))
                if P is not None and 'PM1' in keep:
                    for q in range(3):
                        a = s[1 + q] + P[q]; z = s0[1 + q] + P0[q]; e = abs(a - z) / max(m0[1 + q], Pm0[q], 0.1 * m0[0])
                        self.note(c, 'PM', e)
                        if not e <= tol: raise Violation('not-conserved', '%sthe momentum %d of gas and particles changed by %.3g (relative) up to step %d' % (what, q + 1, e, st))
            if solenoidal(j):
                for q in S:
                    for x in S[q]:
                        for g in x['grids']:
                            dx = min((b['domain1']['x%dmax' % k] - b['domain1']['x%dmin' % k]) / b['domain1']['Nx%d' % k] for k in range(1, j['dim'] + 1)) / 2 ** g['level']
                            e = g['divb'] * dx / max(g['bmax'], 1e-2)
                            self.note(c, 'divb', e)
                            if not e <= self.tol: raise Violation('divergence', '%sprocess %d step %d level %d: the divergence of the face field is %.3g (in units of field/zone width)' % (what, q, x['nstep'], g['level'], e))
        ctx.mark(c, j['kind'], 'dim%d' % j['dim'], 'ranks%d' % j['nranks'], 'restart' if len(runs) > 1 else 'whole', *sorted(keep))
