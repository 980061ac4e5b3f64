"""P07-P09: message timing, progress and message hygiene, over every kind of job."""
from fw import *
import zoo, oracle

QUICK = ['hyd', 'mhdvl', 'shr', 'shrhf', 'cylf', 'grav', 'gravo', 'gravs', 'smrh', 'smrm', 'part', 'parts', 'ress', 'cool']
PROGRESS = ('deadlock', 'hang', 'collective-mismatch')

class Mpi(Check):
    level = 'exploration'
    def configs(self, tier):
        return QUICK if tier == 'quick' else zoo.ALL
    def base(self, rng, i, tier):
        cf = self.configs(tier)
        j = zoo.any_(rng, tier, cf[i % len(cf)])
        if j['nranks'] > 1 and 'NGrid_x1' in j['blocks']['domain1'] or True:
            zoo.outputs(rng, j)
        return j
    def spec(self, j, **kw):
        return Spec(j['config'], j['nranks'], ['-i', 'athinput'] + j.get('args', []), zoo.fs(j), **kw)
    def calm(self, ctx, j, **kw):
        return ctx.run('calm', self.spec(j, seed=0, policy=CALM, **kw))

class P07(Mpi):
    id = 'P07'
    technique = 'deterministic simulation: one job executed under many seeded schedules, message delays, completion orders and memory fills; bitwise comparison of the state of every step and of every file'
    rule = 'a distinct (job, schedule hash) on at least two simulated processes compared bit by bit with the calm execution of the same job'
    quick_n, thorough_n = 250, 12000
    def scenario(self, rng, i, tier):
        return dict(job=self.base(rng, i, tier), seeds=[rng.randint(1, 2**31) for _ in range(2 if tier == 'quick' else 3)])
    def evaluate(self, ctx, sc):
        j = sc['job']
        ref = self.calm(ctx, j, junk=1, obs_every=2)
        if not ref.ok: raise Skip('calm run: %s %s' % (ref.status, ref.why))
        for n, s in enumerate(sc['seeds']):
            r = ctx.run('run%d' % n, self.spec(j, seed=s, junk=2 if n % 2 == 0 else 0, obs_every=2))
            if not r.ok:
                if r.status in ('deadlock', 'hang', 'budget'): raise Skip('no progress: decided by P08')
                raise Violation('outcome-differs', 'the job ends with %s (%s) under one schedule and normally under another: %s' % (r.status, r.why, r.log()[-200:]))
            for q in range(j['nranks']):
                a, b = ref.steps().get(q, []), r.steps().get(q, [])
                if len(a) != len(b): raise Violation('step-count', 'process %d takes %d steps instead of %d' % (q, len(b), len(a)))
                for x, y in zip(a, b):
                    if x['hash'] != y['hash'] or x['time'] != y['time'] or x['dt'] != y['dt']:
                        raise Violation('solution-depends-on-timing', 'process %d: the state after step %d depends on message timing, scheduling or unwritten memory (dt %r and %r)' % (q, x['nstep'], x['dt'], y['dt']))
                if ref.obs[q] != r.obs[q]: raise Violation('solution-depends-on-timing', 'process %d: particles or potential differ' % q)
            compare_files(ref, r)
        ctx.mark(j['config'], j['kind'], 'ranks%d' % j['nranks'])

def compare_files(a, b, skip=()):
    A = {p: d for p, d in a.fs.items() if d is not None}; B = {p: d for p, d in b.fs.items() if d is not None}
    if set(A) != set(B):
        raise Violation('files-differ', 'files written by only one of the two runs: %s' % sorted(set(A) ^ set(B))[:5])
    for p in A:
        if A[p] != B[p] and not any(s in p for s in skip):
            n = next((k for k, (x, y) in enumerate(zip(A[p], B[p])) if x != y), min(len(A[p]), len(B[p])))
            raise Violation('files-differ', '%s differs from byte %d on (sizes %d and %d)' % (p, n, len(A[p]), len(B[p])))

class P08(Mpi):
    id = 'P08'
    technique = 'deterministic simulation: seeded adversarial MPI progress rules (no buffering, late delivery, starved processes, unsynchronised collectives); deadlock is decided exactly by the simulator'
    rule = 'a distinct (job, schedule hash) on at least two simulated processes run to its end under an adversarial progress policy'
    quick_n, thorough_n = 400, 20000
    def scenario(self, rng, i, tier):
        j = self.base(rng, i, tier)
        # at least half of the runs have synchronous sends only
        pol = [rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2, 3, 4]), rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2]), rng.choice([0, 1, 2]), -1]
        return dict(job=j, seed=rng.randint(1, 2**31), policy=pol)
    def evaluate(self, ctx, sc):
        j = sc['job']
        r = ctx.run('par', self.spec(j, seed=sc['seed'], policy=sc['policy'], junk=1))
        for v in r.viols:
            if v[0] in PROGRESS: raise Violation(v[0], v[1])
        if r.status == 'budget': raise Violation('no-progress', 'the job does not end within %d events: %s' % (r.spec.budget, r.why))
        if not r.ok:
            if r.jobexit and r.status == 'aborted' and not r.viols: raise Skip('refused: ' + r.log()[-150:])
            if r.status in ('segv',): raise Violation('memory-fault', r.why)
            raise Violation('run-' + r.status, r.why)
        ctx.mark(j['config'], j['kind'], 'ranks%d' % j['nranks'])

class P09(Mpi):
    id = 'P09'
    technique = 'deterministic simulation: every message, request and buffer of a job is tracked by the simulated MPI while seeded schedules stretch the life of each communication'
    rule = 'a distinct (job, schedule hash) on at least two simulated processes with every message matched against its receive and every buffer watched while in use'
    quick_n, thorough_n = 400, 20000
    def scenario(self, rng, i, tier):
        return dict(job=self.base(rng, i, tier), seed=rng.randint(1, 2**31), junk=rng.choice([1, 2]))
    def evaluate(self, ctx, sc):
        j = sc['job']
        r = ctx.run('par', self.spec(j, seed=sc['seed'], junk=sc['junk']))
        for v in r.viols:
            if v[0] not in PROGRESS: raise Violation(v[0], v[1])
        if not r.ok: raise Skip('%s %s %s' % (r.status, r.why, r.log()[-150:]))
        ctx.mark(j['config'], j['kind'], 'ranks%d' % j['nranks'])
