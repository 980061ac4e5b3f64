"""Check framework: seeded search over scenarios, minimisation, replay, evidence."""
import os, sys, json, time, random, hashlib, traceback, subprocess, threading
import numpy as np
import build, configs
from engine import Engine, Spec, Result, Infra, CALM, inp

VERIF = build.VERIF
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')

class Violation(Exception):
    """kind: stable class of the failure; msg: what happened in this run"""
    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg)); self.kind, self.msg = kind, msg

class Skip(Exception):
    """the scenario does not exercise the property (e.g. the fault was never reached)"""

class Ctx:
    """Execution context of one scenario: every simulated run goes through run()."""
    def __init__(self, eng, overrides=None, capture=False):
        self.eng, self.over, self.capture = eng, overrides or {}, capture
        self.results, self.specs, self.digests = {}, {}, {}
        self.marks = set()
    def run(self, name, spec):
        if name in self.results:
            raise Infra('run name %s used twice' % name)
        o = self.over.get(name)
        if o:
            spec = spec.but(**{k: ([tuple(x) for x in v] if k in ('dev', 'faults') else v) for k, v in o.items()})
        r = self.eng.run(spec, wantdev=self.capture)
        self.results[name] = r; self.specs[name] = spec; self.digests[name] = r.digest()
        return r
    def mark(self, *a):
        self.marks.add(' '.join(str(x) for x in a))

class Check:
    """Subclasses define: id, level, technique, configs(tier), scenarios(tier, seed) and evaluate(ctx, scenario)."""
    id = ''
    quick_n, thorough_n = 40, 2000
    wall = {'quick': 420, 'thorough': 5400}
    rule = ''
    level_note = 'seeded sampling of jobs, tilings, schedules and faults: evidence, not proof'
    stub = ('MPI library (simulated: matching, delivery, completion, collectives)', 'file system below stdio (in memory)',
            'clock, signals, allocator failures, exit/abort (simulated)')
    real = ('all of /repo/src compiled unmodified for each listed configuration', 'libc stdio buffering and formatting', 'libm', 'FFTW (where configured; planner forced to the deterministic ESTIMATE mode)')
    assumptions = ()
    def configs(self, tier):
        return []
    def scenario(self, rng, i, tier):
        raise NotImplementedError
    def evaluate(self, ctx, sc):
        raise NotImplementedError
    def rng(self, seed, i):
        return random.Random('%s/%s/%d' % (self.id, seed, i))

def load_known():
    try:
        return json.load(open(KNOWN))
    except FileNotFoundError:
        return {'known': [], 'fixed': []}

def known_for(pid, kind, msg, sc):
    """An open finding suppresses only violations of its own class, on its own trigger."""
    for k in load_known().get('known', []):
        if k['property'] == pid and kind in k['kinds'] and k.get('contains', '') in msg and all(sc.get(a) == b for a, b in k.get('scenario', {}).items()):
            return k
    return None

def attempt(chk, eng, sc, overrides=None, capture=False):
    ctx = Ctx(eng, overrides, capture)
    try:
        chk.evaluate(ctx, sc)
        return None, ctx
    except Violation as v:
        return v, ctx

def minimise(chk, eng, sc, v, budget=60.0):
    """Turn a failing scenario into explicit decisions and shrink schedule and faults."""
    t0 = time.time()
    v1, ctx = attempt(chk, eng, sc, None, True)
    if v1 is None or v1.kind != v.kind:
        return None, None, 'not reproduced with the same seed (%s)' % (v1,)
    over = {n: dict(replay=1, dev=[list(d) for d in r.dev], faults=[list(f) for f in ctx.specs[n].faults]) for n, r in ctx.results.items()}
    v2, _ = attempt(chk, eng, sc, over)
    if v2 is None or v2.kind != v.kind:
        return None, None, 'explicit decision list does not reproduce (%s)' % (v2,)
    def still(o):
        try:
            w, _ = attempt(chk, eng, sc, o)
        except (Infra, Skip):
            return False
        return w is not None and w.kind == v.kind
    names = list(over)
    def shrink_list(n, key):
        cur = over[n][key]
        if not cur: return
        o = {**over, n: {**over[n], key: []}}
        if still(o):
            over[n][key] = []; return
        size = max(1, len(cur) // 2)
        while size >= 1 and time.time() - t0 < budget:
            i, shr = 0, False
            while i < len(cur) and time.time() - t0 < budget:
                c2 = cur[:i] + cur[i + size:]
                if still({**over, n: {**over[n], key: c2}}):
                    cur = c2; over[n][key] = cur; shr = True
                else:
                    i += size
            if not shr or size == 1: size //= 2
            else: size = min(size, max(1, len(cur) // 2))
    # all runs calm at once first
    o = {n: {**over[n], 'dev': []} for n in names}
    if still(o):
        over.update(o)
    else:
        for n in names: shrink_list(n, 'dev')
    for n in names: shrink_list(n, 'faults')
    w, ctx = attempt(chk, eng, sc, over)
    return over, ctx, (w.msg if w else v.msg)

def write_replay(chk, sc, over, ctx, v, msg, seed, i, tier):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, '%s-%s-%d.json' % (chk.id, seed, i))
    d = dict(property=chk.id, kind=v.kind, message=msg, seed=seed, index=i, tier=tier, scenario=sc, overrides=over,
             digests=ctx.digests if ctx else {}, schedule_decisions=sum(len(o['dev']) for o in over.values()) if over else None,
             runs={n: dict(config=s.config, nranks=s.nranks, args=s.args, faults=[list(f) for f in s.faults]) for n, s in (ctx.specs if ctx else {}).items()})
    json.dump(d, open(p, 'w'), indent=1, default=_js)
    return p

def _js(x):
    if isinstance(x, (np.integer,)): return int(x)
    if isinstance(x, (np.floating,)): return float(x)
    if isinstance(x, bytes): return x.decode('latin1')
    if isinstance(x, (set, tuple)): return list(x)
    return str(x)

def norm(sc):
    return json.loads(json.dumps(sc, default=_js))

def replay(chk, path):
    d = json.load(open(path))
    eng = Engine(sorted({r['config'] for r in d['runs'].values()} or set(chk.configs('quick'))))
    v, ctx = attempt(chk, eng, d['scenario'], d['overrides'])
    same = ctx.digests == d['digests']
    eng.close()
    if v is None:
        print('REPLAY property=%s: no violation (same execution: %s)' % (chk.id, same)); return 0
    print('REPLAY property=%s reproduced kind=%s exact=%s: %s' % (chk.id, v.kind, same, v.msg))
    print('VIOLATION property=%s replay=%s' % (chk.id, path))
    return 1

def main(chk, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    n = None; only = None
    a = list(argv)
    while a:
        x = a.pop(0)
        if x == '--replay': return replay(chk, a.pop(0))
        elif x in ('quick', 'thorough'): tier = x
        elif x == '--seed': seed = a.pop(0)
        elif x == '-n': n = int(a.pop(0))
        elif x == '--only': only = int(a.pop(0))
    t0 = time.time()
    eng = Engine(chk.configs(tier))
    N = n if n is not None else (chk.quick_n if tier == 'quick' else chk.thorough_n)
    N = int(os.environ.get('ATHSIM_N', N))
    limit = float(os.environ.get('ATHSIM_WALL', chk.wall[tier]))
    idx = range(N) if only is None else [only]
    lock = threading.Lock()
    found, knownhit, marks, sigs, skipped, done, slow = [], {}, set(), set(), [0], [0], []
    stop = [False]
    verbose = os.environ.get('ATHSIM_VERBOSE')
    def one(i):
        if stop[0] or time.time() - t0 > limit:
            return
        sc = norm(chk.scenario(chk.rng(seed, i), i, tier))
        ts = time.time()
        try:
            v, ctx = attempt(chk, eng, sc)
        except Skip as e:
            with lock:
                skipped[0] += 1
                if verbose: print('skip', i, e, json.dumps(sc)[:400], flush=True)
            return
        with lock:
            done[0] += 1
            marks.update(ctx.marks)
            sigs.add(hashlib.sha256((json.dumps(sc, sort_keys=True) + repr(sorted((n, r.hash) for n, r in ctx.results.items()))).encode()).hexdigest()[:16])
            slow.append((time.time() - ts, i))
            if v is not None:
                k = known_for(chk.id, v.kind, v.msg, sc)
                if k:
                    knownhit[k['id']] = (k, v)
                else:
                    found.append((i, sc, v))
                    if verbose: print('FOUND', i, v, json.dumps(sc)[:1500], flush=True)
                    if not verbose and len(found) >= 1: stop[0] = True
            elif verbose and int(verbose) > 1:
                print('ok', i, '%.1fs' % (time.time() - ts), flush=True)
    try:
        # determinism gate: the same seed twice must be the same execution, byte for byte
        gate = determinism_gate(chk, eng, seed, tier, N if only is None else 0)
        eng.map(one, idx)
        if only is None:
            for k in load_known().get('known', []):
                if k['property'] == chk.id and k['id'] not in knownhit: probe_known(chk, eng, k, tier, knownhit)
    except Infra as e:
        print('INFRA property=%s: %s' % (chk.id, e)); eng.close(); return 2
    rc, lines = 0, []
    found.sort(key=lambda f: f[0])
    for i, sc, v in found[:1]:
        over, ctx, msg = minimise(chk, eng, sc, v)
        if over is None:
            print('NONDETERMINISTIC property=%s scenario %d: %s' % (chk.id, i, msg)); 
            eng.close(); return 2
        p = write_replay(chk, sc, over, ctx, v, msg, seed, i, tier)
        print('%s (scenario %d, seed %s): %s' % (v.kind, i, seed, msg))
        for nme, o in over.items():
            s = ctx.specs[nme]
            print('  run %-8s config=%s ranks=%d args=%s decisions=%d faults=%s' % (nme, s.config, s.nranks, ' '.join(s.args), len(o['dev']), o['faults']))
        if only is None or True:
            q = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), chk.id, '--replay', p], stdout=subprocess.PIPE, text=True)
            print('fresh-process replay: ' + (q.stdout.strip().splitlines() or ['(nothing)'])[0])
        print('VIOLATION property=%s replay=%s' % (chk.id, p))
        rc = 1
    for k in {k['what']: k for kid, (k, v) in sorted(knownhit.items())}.values():
        print('KNOWN-FINDING: property=%s %s' % (chk.id, k['what']))
    wall = time.time() - t0
    g = eng.agg
    fired = {k: v for k, v in sorted(g['fired'].items()) if v}
    ev = dict(property=chk.id, tier=tier, seed=int(seed) if str(seed).isdigit() else 0, level=chk.level,
              coverage=dict(evaluations=done[0], distinct_nontrivial=len(sigs), rule=chk.rule, skipped=skipped[0],
                            samples=sorted(marks)[:40], distinct_marks=len(marks),
                            simulated_runs=g['runs'], seeds=done[0], seeds_per_hour=round(3600.0 * done[0] / max(wall, 1e-9)),
                            runs_per_hour=round(3600.0 * g['runs'] / max(wall - eng.build_s, 1e-9)),
                            simulated_seconds=round(g['simtime'], 3), scheduling_points=g['seams'], decisions=g['choices'], nondefault_decisions=g['deviations'],
                            messages=g['messages'], collectives=g['collectives'], distinct_interleavings=len(eng.hashes),
                            interleaving_measure='hash over the sequence of (scheduled rank, seam kind, message matched, delivery and completion decision) of a run',
                            faults_injected=fired, run_outcomes=g['status'], determinism_gate=gate,
                            configurations=sorted(eng.so), components_real=list(chk.real), components_stub=list(chk.stub), build_s=round(eng.build_s, 1)),
              wall_s=round(wall, 2), assumptions=list(chk.assumptions), violations=len(found))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, chk.id + '.json'), 'w'), indent=1, default=_js)
    if verbose:
        slow.sort(reverse=True); print('slowest', [(round(a, 2), b) for a, b in slow[:6]])
    print('%s %s: %d scenarios (%d skipped), %d simulated runs, %d interleavings, %d messages, faults %s, %.0f s (build %.0f s): %s' % (
        chk.id, tier, done[0], skipped[0], g['runs'], len(eng.hashes), g['messages'], fired or '-', wall, eng.build_s, 'VIOLATION' if rc else 'held'))
    eng.close()
    return rc

def probe_known(chk, eng, k, tier, knownhit):
    """an open finding must be shown by every run: look for a scenario with its trigger and execute it"""
    tries = 0
    listed = [k['input']] if 'input' in k else []
    for i in range(-len(listed), 4000):
        sc = norm(listed[i] if i < 0 else chk.scenario(chk.rng('probe', i), i, tier))
        if not all(sc.get(a) == b for a, b in k.get('scenario', {}).items()): continue
        tries += 1
        if tries > 12: return
        try:
            v, ctx = attempt(chk, eng, sc)
        except Skip:
            continue
        if v is not None and known_for(chk.id, v.kind, v.msg, sc) == k:
            knownhit[k['id']] = (k, v); return

def determinism_gate(chk, eng, seed, tier, N):
    if N <= 0: return 'skipped'
    for i in range(min(N, 4)):
        sc = norm(chk.scenario(chk.rng(seed, i), i, tier))
        try:
            ds = []
            for _ in range(2):
                _, c = attempt(chk, eng, sc); ds.append(c.digests)
        except Skip:
            continue
        if ds[0] != ds[1]:
            bad = [n for n in ds[0] if ds[0][n] != ds[1].get(n)]
            raise Infra('determinism gate failed: scenario %d runs %s differ between two executions' % (i, bad))
        return 'scenario %d executed twice: identical' % i
    return 'no scenario applicable'
