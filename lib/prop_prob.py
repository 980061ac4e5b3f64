"""P23: the problems that are shipped with the code, with the inputs that are shipped with it."""
from fw import *
import zoo, oracle, os, copy, re
from configs import PROB
from build import REPO
import prop_restart

def read(path):
    """blocks of a shipped input file"""
    b, cur = {}, None
    for line in open(os.path.join(REPO, 'tst', path), errors='replace'):
        t = line.split('#', 1)[0].strip()
        if t.startswith('<'): cur = b.setdefault(t[1:t.index('>')].strip(), {})
        elif '=' in t and cur is not None: k, v = t.split('=', 1); cur[k.strip()] = v.strip()
    return b

DEFAULTED = {'qhgb': {'Omega': 1.2e-3, 'qshear': 1.4}, 'qhgbf': {'Omega': 1.2e-3, 'qshear': 1.4}, 'qstrat': {'omega': 1.1e-3, 'qshear': 1.4}}

def job(rng, c, need, nlim, maxranks=6):
    """a shipped problem on a small mesh, tiled at random"""
    o, paths, extra = PROB[c]; b = rng.choice([x for x in map(read, paths.split()) if 'domain1' in x])        # some inputs are of an older format
    expr = sorted({x['out'] for k, x in b.items() if k.startswith('output') and x.get('usr_expr_flag') == '1' and 'out' in x})
    for k in [k for k in b if k.startswith('output') or k in ('log', 'comment')]: del b[k]
    d = b['domain1']; n = [int(d.get('Nx%d' % (a + 1), 1)) for a in range(3)]; dim = sum(x > 1 for x in n)
    part = '--with-particles' in o; sh = '--enable-shearing-box' in o or part or 'gravity' in o or '--enable-fargo' in o
    for a in range(3):
        if n[a] > 1: n[a] = rng.choice({1: [24, 30, 40], 2: [12, 16, 20], 3: [10, 12] if not sh else [10, 12, 12]}[dim])
    ng = zoo.factor(rng, n, maxranks, tilemin=5, need=need, even=(0, 1, 2) if sh else ())
    for a in range(3): d['Nx%d' % (a + 1)] = n[a]; d['NGrid_x%d' % (a + 1)] = ng[a]
    d['level'] = 0; d.pop('AutoWithNProc', 0)
    b['job'] = {'problem_id': 'T', 'maxout': 0, 'num_domains': 1}
    b['time'].update(nlim=nlim, tlim=10.0 ** 6 if not b['time'].get('tlim') else b['time']['tlim'])
    for k, v in extra.items(): b.setdefault(k.split('/')[0], {})[k.split('/')[1]] = v
    # half of the jobs: other values of a few parameters of the problem, some that the input leaves to their defaults
    if rng.random() < 0.5:
        pr = b.setdefault('problem', {})
        for k, v in DEFAULTED.get(c, {}).items(): pr.setdefault(k, v)
        num = [k for k in sorted(pr) if re.fullmatch(r'[-+]?\d*\.\d+([eE][-+]?\d+)?|[-+]?\d+\.?[eE][-+]?\d+', str(pr[k])) and float(pr[k]) != 0 and k != 'gamma']
        for k in rng.sample(num, min(len(num), rng.choice([1, 2, 3]))): pr[k] = repr(float('%.6g' % (float(pr[k]) * rng.uniform(0.9, 1.1))))
    return zoo.job(c, b, ng[0] * ng[1] * ng[2], kind='shipped', dim=dim, ng=list(ng), tfrac=0, expr=expr)

# problems that cannot be continued (known findings problems-restart-fails, problems-restart-differs)
NORST = {'q' + x: 'fails' for x in 'cyladvect cylblast cylbphi cylbr cyldiff cylfieldloop cylspiral cylwind cylwindrotb ti_test'.split()}
NORST.update({'q' + x: 'differs' for x in 'cylrayleigh pgflow shkset2d'.split()})
# problems whose shipped inputs do not run on meshes as small as these, or not at all
LARGE = ['q' + x for x in 'cylwindrot hb3 shkset3d'.split()]

class P23(prop_restart.P10):
    id = 'P23'
    technique = 'deterministic simulation: each shipped problem runs to its end and is stopped and restarted from checkpoints of its simulated disk (chains of restarts, schedules varied); state of every later step and every later file compared bit by bit'
    rule = 'a distinct (problem, input, tiling, chain of checkpoints restarted from) whose continuation was compared bit by bit with the uninterrupted run'
    quick_n, thorough_n = 150, 4000
    def configs(self, tier): return [c for c in PROB if c not in NORST and c not in LARGE] + (list(NORST) if tier == 'thorough' else ['qcylblast', 'qcylrayleigh'])
    def scenario(self, rng, i, tier):
        sc = super().scenario(rng, i, tier); sc['norestart'] = NORST.get(sc['job']['config'], '')
        return sc
    def job(self, rng, i, tier):
        cf = [c for c in self.configs(tier) if tier == 'thorough' or c not in NORST]; c = cf[i % len(cf)]
        j = job(rng, c, rng.choice([1, 2, 2]), rng.randint(4, 7)); b = j['blocks']
        outs = [{'out_fmt': 'rst'}, {'out_fmt': 'hst'}, {'out_fmt': rng.choice(['tab', 'vtk', 'bin']), 'out': rng.choice(['cons', 'prim'])}]
        if '--with-particles' in PROB[c][0]: outs = outs[:2] + [{'out_fmt': 'phst'}] + outs[2:]
        for x in j['expr'] if c != 'qlinear_wave' else (): outs.append({'out_fmt': rng.choice(['tab', 'vtk']), 'out': x, 'usr_expr_flag': 1, 'id': x})
        for n, o in enumerate(outs): b['output%d' % (n + 1)] = dict(o, mult=round(rng.uniform(1.05, 2.2), 3), dt=0)
        b['job']['maxout'] = len(outs)
        return j
    def own(self, A, B, what, part):
        """the files of the problem itself: errors reported at its end, and records of the steps after the checkpoint"""
        for p, d in A.fs.items():
            if not p.endswith('.dat') or d is None: continue
            e = B.fs.get(p)
            if e is None and 'error' not in p: continue        # written once, when the run began
            if 'error' in p:
                if d != e: raise Violation('restart-files', '%s: %s differs from that of the uninterrupted run' % (what, p))
                continue
            x, y = [[l.split() for l in f.decode('latin1').splitlines()] for f in (d, e)]
            if len(y) > len(x) or not all(self.row(u, v) for u, v in zip(x[len(x) - len(y):], y)):
                raise Violation('restart-files', '%s: the records in %s differ from those of the uninterrupted run' % (what, p))
    def row(self, u, v):
        try: return len(u) == len(v) and all(abs(float(a) - float(b)) <= 1e-4 * max(1, abs(float(b))) for a, b in zip(u, v))
        except ValueError: return u == v
