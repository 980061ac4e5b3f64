"""P01-P06: the solution does not depend on how the job is spread over processes."""
import json
from fw import *
import zoo, oracle

class Decomp(Check):
    level = 'exploration'
    technique = 'deterministic simulation: seeded search over jobs, tilings and message schedules, differential oracle against a one-process run'
    rule = 'a distinct (job, tiling, schedule hash) whose job ran on at least two simulated processes and finished; oracle: every conserved variable, face field and potential of every zone and every (time, dt) against one process'
    tol = 1e-9
    refconf = {}
    def job(self, rng, i, tier):
        raise NotImplementedError
    def scenario(self, rng, i, tier):
        j = self.job(rng, i, tier)
        return dict(job=j, seed=rng.randint(1, 2**31), redperm=rng.randint(0, 1), junk=rng.choice([1, 1, 2]), refconf=self.refconf.get(j['config'], j['config']))
    def evaluate(self, ctx, sc):
        j = sc['job']
        ref = ctx.run('ref', self.spec(zoo.serial(j, sc['refconf']), seed=0, policy=CALM, junk=1))
        if not ref.ok or ref.viols:
            if any(v[0] in ('memory-fault', 'hang') for v in ref.viols):
                oracle.must_finish(ref, 'one-process run: ')
            raise Skip('reference run: %s %s %s %s' % (ref.status, ref.why, ref.viols[:2], ref.log()[-200:]))
        par = ctx.run('par', self.spec(j, seed=sc['seed'], junk=sc['junk'], redperm=sc['redperm']))
        oracle.must_finish(par)
        R = oracle.assemble(oracle.final(ref)); A = oracle.assemble(oracle.final(par))
        if not np.isfinite(R[(0, 0)]['U']).all():
            raise Skip('reference solution is not finite')
        oracle.compare_steps(par, ref, self.tol)
        oracle.compare(A, R, self.tol)
        self.extra(ctx, sc, par, ref, A, R)
        ctx.mark(j['config'], j.get('kind'), 'dim%s' % j.get('dim'), 'tiles', j.get('ng'), 'auto' if j.get('auto') else '')
    def extra(self, ctx, sc, par, ref, A, R):
        pass
    def spec(self, j, **kw):
        return Spec(j['config'], j['nranks'], ['-i', 'athinput'] + j.get('args', []), zoo.fs(j), **kw)

class P01(Decomp):
    id = 'P01'
    quick_n, thorough_n = 1400, 6000
    refconf = {'hyd': 'hyd.s', 'mhd': 'mhd.s'}
    def configs(self, tier):
        return zoo.UNIFORM + ['hyd.s', 'mhd.s']
    def job(self, rng, i, tier):
        return zoo.uniform(rng, tier, config=zoo.UNIFORM[i % len(zoo.UNIFORM)], strong=0.02)
    def scenario(self, rng, i, tier):
        sc = Decomp.scenario(self, rng, i, tier)
        # flows so violent that the first-order flux correction acts: see known finding fofc-tile-edges
        sc['strong'] = 'vamp' in sc['job']['blocks']['problem']
        return sc

class P02(Decomp):
    id = 'P02'
    quick_n, thorough_n = 1000, 6000
    refconf = {c: c + '.s' for c in ['shr', 'shrhf']}
    def configs(self, tier):
        return zoo.SHEAR + list(self.refconf.values())
    def job(self, rng, i, tier):
        return zoo.shear(rng, tier, config=zoo.SHEAR[i % len(zoo.SHEAR)])
    def scenario(self, rng, i, tier):
        sc = Decomp.scenario(self, rng, i, tier)
        d = sc['job']['blocks']['domain1']
        # tiles exactly as wide in y as the ghost zones: see known finding shear-b2c-tile-nghost
        sc['tiny_y'] = bool(sc['job']['config'] == 'shr' and (d['Nx3'] > 1 or not sc['job']['blocks']['problem'].get('xz')) and d['NGrid_x2'] > 1 and d['Nx2'] // d['NGrid_x2'] == zoo.NG)
        return sc

class P03(Decomp):
    id = 'P03'
    quick_n, thorough_n = 1200, 5000
    refconf = {c: c + '.s' for c in ['grav', 'gravo', 'gravs']}
    def configs(self, tier):
        return zoo.GRAV + list(self.refconf.values())
    def job(self, rng, i, tier):
        return zoo.grav(rng, tier, config=zoo.GRAV[i % len(zoo.GRAV)])

class P04(Decomp):
    id = 'P04'
    quick_n, thorough_n = 1000, 6000
    refconf = {c: c + '.s' for c in ['smrh', 'smrm']}
    def configs(self, tier):
        return zoo.SMR + list(self.refconf.values())
    def job(self, rng, i, tier):
        return zoo.smr(rng, tier, config=zoo.SMR[i % len(zoo.SMR)], rare=0.05)
    def scenario(self, rng, i, tier):
        sc = Decomp.scenario(self, rng, i, tier)
        # a side of the refined Domain lies on an edge between coarse Grids and the Domain is split along that side: see known finding smr-mhd-touching-split
        f = zoo.smr_flags(sc['job']); mhd = sc['job']['config'] != 'smrh'
        sc['asplit'] = bool(mhd and f['asplit'])
        # a corner of the refined Domain lies on a corner between coarse Grids: see known finding smr-mhd-corner-split
        sc['csplit'] = bool(mhd and f['csplit'])
        return sc
    def extra(self, ctx, sc, par, ref, A, R):
        for what, D in (('', A), ('one-process run: ', R)):
            oracle.restriction(D, sc['job'], 1e-10, what)

class P05(Decomp):
    id = 'P05'
    quick_n, thorough_n = 600, 5000
    refconf = {c: c + '.s' for c in ['part', 'parts']}
    def configs(self, tier):
        return zoo.PART + list(self.refconf.values())
    def job(self, rng, i, tier):
        return zoo.part(rng, tier, config=zoo.PART[i % len(zoo.PART)], out=0.1)
    def scenario(self, rng, i, tier):
        sc = Decomp.scenario(self, rng, i, tier); j = sc['job']
        # particles with feedback and an outflow boundary: see known finding particle-feedback-outflow
        sc['outfb'] = bool(j['config'] == 'part' and 2 in [x for q in j['bc'][:j['dim']] for x in q])
        return sc
    def extra(self, ctx, sc, par, ref, A, R):
        d = sc['job']['blocks']['domain1']
        box = [(d['x%dmin' % k], d['x%dmax' % k]) for k in (1, 2, 3)]
        b = sc['job']['blocks']; n = d['Nx1'] * d['Nx2'] * d['Nx3'] * b['particle']['partypes'] * b['problem'].get('npc', b['particle'].get('parnumcell'))
        out = 2 in [x for q in sc['job']['bc'][:sc['job']['dim']] for x in q]
        oracle.compare_particles(A, R, box, 1e-7, expect=None if out else n)
        if not out:
            for q in A: oracle.owned(A[q])
        if out: oracle.outflow_particles(ref, box, sc['job']['bc'], [(h - l) / d['Nx%d' % (q + 1)] for q, (l, h) in enumerate(box)], n, 'one-process run: ')
    def spec(self, j, **kw):
        if 2 in [x for q in j['bc'][:j['dim']] for x in q]: kw['obs_every'] = 1
        return Decomp.spec(self, j, **kw)

class P06(Decomp):
    id = 'P06'
    quick_n, thorough_n = 1400, 6000
    refconf = {c: c + '.s' for c in ['ress', 'cool']}
    def configs(self, tier):
        return zoo.DIFF + list(self.refconf.values())
    def job(self, rng, i, tier):
        return zoo.diff(rng, tier, config=zoo.DIFF[i % len(zoo.DIFF)])
