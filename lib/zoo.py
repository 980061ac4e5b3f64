"""Generators of simulated jobs.  A Job is JSON-able: config name, input blocks, process count."""
import copy
from engine import inp

NG = 4          # ghost zones in all configurations used

def job(config, blocks, nranks, **meta):
    return dict(config=config, blocks=blocks, nranks=nranks, **meta)

def text(j):
    return inp(j['blocks']).encode()

def fs(j, extra=None):
    d = {'/w': None, '/w/athinput': text(j)}
    if extra: d.update(extra)
    return d

def ndom(j):
    return int(j['blocks']['job']['num_domains'])

def serial(j, config=None):
    """the same job on one process"""
    b = copy.deepcopy(j['blocks'])
    for d in range(1, ndom(j) + 1):
        for k in ('NGrid_x1', 'NGrid_x2', 'NGrid_x3', 'AutoWithNProc'):
            b['domain%d' % d].pop(k, None)
    return dict(j, blocks=b, nranks=1, config=config or j['config'])

def splits(n, tilemin, maxg):
    """numbers of tiles of n zones whose smallest tile has at least tilemin zones"""
    return [g for g in range(1, maxg + 1) if n // g >= tilemin]

def factor(rng, nx, maxranks, tilemin=NG, need=2, only=None, even=()):
    """a random tiling with at least `need` processes; only: directions that may be split; even: directions with equal tiles"""
    opts = []
    for d in range(3):
        s = splits(nx[d], tilemin, maxranks) if nx[d] > 1 and (only is None or d in only) else [1]
        if d in even: s = [g for g in s if nx[d] % g == 0]
        opts.append(s)
    c = [(a, b, e) for a in opts[0] for b in opts[1] for e in opts[2] if need <= a * b * e <= maxranks]
    if not c: return (1, 1, 1)
    # prefer variety: pick the process count first
    n = rng.choice(sorted({a * b * e for a, b, e in c}))
    return rng.choice([x for x in c if x[0] * x[1] * x[2] == n])

def wide(rng, n):
    """now and then more processes, so that tiles with neighbours on all sides occur"""
    r = rng.random()
    return 27 if r < 0.025 else 16 if r < 0.06 else n

def domain(nx, box, bc, ng, level=0, disp=None):
    d = {'level': level}
    for i in range(3):
        k = str(i + 1)
        d['Nx' + k] = nx[i]; d['x%smin' % k] = box[i][0]; d['x%smax' % k] = box[i][1]
        d['bc_ix' + k] = bc[i][0]; d['bc_ox' + k] = bc[i][1]
        d['NGrid_x' + k] = ng[i]
    if disp is not None:
        d['iDisp'], d['jDisp'], d['kDisp'] = disp
    return d

def base(nlim, pid='T', outs=(), cour=0.4, tlim=10.0, **job_):
    b = {'comment': {'problem': 'simulated', 'author': 'x'}, 'job': dict({'problem_id': pid, 'maxout': max(len(outs), 0), 'num_domains': 1}, **job_)}
    for i, o in enumerate(outs):
        b['output%d' % (i + 1)] = dict(o)
    b['time'] = {'cour_no': cour, 'nlim': nlim, 'tlim': tlim}
    return b

def size(rng, dim, lo=10, hi=22, big=40):
    n = [1, 1, 1]
    if dim == 1: n[0] = rng.randint(16, big)
    elif dim == 2: n[0] = rng.randint(lo, 28); n[1] = rng.randint(lo, 28)
    else:
        for d in range(3): n[d] = rng.randint(9, 17)
    if dim < 3 and rng.random() < 0.08:      # now and then a long Grid
        d = rng.randrange(dim); n[d] = rng.randint(100, 400 if dim == 1 else 160)
        if dim == 2: n[1 - d] = rng.randint(8, 12)
    return n

UNIFORM = ['hyd', 'mhd', 'hydvl', 'mhdvl', 'hydhc']
def uniform(rng, tier='quick', maxranks=8, config=None, nlim=None, bcs=None, configs=None, dim=None, need=2, small=False, strong=0.0):
    """hydro/MHD on one level; strong: supersonic noise and deep voids, so that first-order flux correction acts"""
    cfg = config or rng.choice(configs or UNIFORM)
    maxranks = wide(rng, maxranks)
    dim = dim or rng.choice([1, 2, 2, 3, 3, 3])
    nx = size(rng, dim)
    if small: nx = [min(n, 12) for n in nx]
    bc = []
    for d in range(3):
        if bcs: bc.append(bcs[d]); continue
        r = rng.random()
        if r < 0.4: bc.append((4, 4))
        else: bc.append((rng.choice([1, 2, 5]), rng.choice([1, 2, 5])))
    ng = factor(rng, nx, maxranks, need=need)
    auto = rng.random() < 0.15 and dim >= 2
    b = base(nlim or rng.randint(3, 6), cour=0.4 if dim < 3 else 0.3)
    nranks = ng[0] * ng[1] * ng[2]
    box = [(0.0, 1.0), (-0.5, rng.choice([0.5, 1.0])), (0.0, rng.choice([0.7, 1.0]))]
    b['domain1'] = domain(nx, box, bc, ng)
    p = {'gamma': 1.6666666666666667, 'iso_csound': 0.9, 'iseed': rng.randint(1, 10**6), 'amp': 0.05, 'v1': round(rng.uniform(-1, 1), 3), 'v2': round(rng.uniform(-1, 1), 3), 'v3': round(rng.uniform(-1, 1), 3)}
    # a wall makes the normal mass flux exactly zero and the CT upwinding branches on its sign: with MHD keep such runs
    # free of position-dependent arithmetic (gravity), so that they are bitwise independent of the tiling
    walls = any(x in (1, 5) for d in range(dim) for x in bc[d])
    if rng.random() < 0.3 and not ('mhd' in cfg and walls): p['gacc'] = 0.5
    if rng.random() < 0.25 and not (bc[0][0] == 4): p['inflow'] = 1
    if cfg in ('hydvl', 'mhdvl') and rng.random() < strong:
        p.pop('gacc', None); p.update({'amp': 0.75, 'vamp': rng.choice([2.0, 4.0, 8.0])})
    b['problem'] = p
    j = job(cfg, b, nranks, kind='uniform', dim=dim, ng=list(ng), bc=bc)
    if auto:
        g = auto_tiles(nx, nranks)
        if g and all(n // t >= NG for n, t in zip(nx, g) if t > 1):
            for k in '123': del b['domain1']['NGrid_x' + k]
            b['domain1']['AutoWithNProc'] = nranks; j['auto'] = 1
    return j

def auto_tiles(nx, n):
    """true when every factorisation of n over the active directions leaves tiles of NG zones"""
    act = [d for d in range(3) if nx[d] > 1]
    t = [1, 1, 1]
    for d in act: t[d] = n
    return t

def finish(rng, b, cfg, nx, box, bc, ng, kind, dim, p, **kw):
    b['domain1'] = domain(nx, box, bc, ng)
    q = {'gamma': 1.6666666666666667, 'iso_csound': 0.9, 'iseed': rng.randint(1, 10**6), 'amp': 0.05}
    q.update(p); b['problem'] = q
    return job(cfg, b, ng[0] * ng[1] * ng[2], kind=kind, dim=dim, ng=list(ng), bc=bc, **kw)

SHEAR = ['shr', 'shrf', 'shrh', 'shrhf', 'shrd', 'shrv', 'cylf', 'cylfh']
def shear(rng, tier='quick', maxranks=8, config=None, nlim=None, need=2):
    """shearing box with and without orbital advection; cylindrical orbital advection"""
    cfg = config or rng.choice(SHEAR)
    maxranks = wide(rng, maxranks)
    cyl = cfg.startswith('cyl')
    fargo = cfg in ('shrf', 'shrhf', 'cylf', 'cylfh')
    dim = rng.choice([3, 3, 3, 2])
    xz = 0
    if cyl:
        dim = 3 if cfg == 'cylf' else rng.choice([3, 2])
        nx = [rng.randint(9, 14), rng.choice([8, 12, 16]), rng.randint(9, 12) if dim == 3 else 1]
        box = [(1.0, 2.0), (0.0, rng.choice([0.8, 1.5707963267948966])), (-0.3, 0.3)]
        bc = [(2, 2), (4, 4), (4, 4)]
        ng = factor(rng, nx, maxranks, need=need, even=(1,))
        b = base(nlim or rng.randint(3, 7), cour=0.3)
        return finish(rng, b, cfg, nx, box, bc, ng, 'cylfargo', dim, {'b0': 0.1, 'bamp': 0.1, 'iso_csound': 0.3, 'pres': 0.2, 'amp': 0.03})
    if dim == 2 and rng.random() < 0.5:     # x1-x2 plane: sheared like 3D
        nx = [rng.randint(9, 16), rng.choice([8, 12, 16, 20, 24]), 1]
        bc = [(4, 4)] * 3
        ng = factor(rng, nx, maxranks, need=need, even=(1,))
    elif dim == 2:
        xz = 1
        nx = [rng.randint(9, 16), rng.randint(9, 20), 1]
        bc = [(4, 4), rng.choice([(4, 4), (2, 2)]), (4, 4)]
        ng = factor(rng, nx, maxranks, need=need)
    else:
        nx = [rng.randint(9, 14), rng.choice([8, 12, 16]), rng.randint(9, 12)]
        bc = [(4, 4), (4, 4), rng.choice([(4, 4), (2, 2)])]
        ng = factor(rng, nx, maxranks, need=need, even=(1,))
    lx = rng.choice([0.5, 1.0])
    box = [(-lx / 2, lx / 2), (-0.5, rng.choice([0.5, 1.1])), (-0.4, 0.4)]
    far = nlim is None and not xz and rng.random() < 0.2     # long enough for the shear to pass several Grids
    b = base(nlim or (rng.randint(12, 26) if far else rng.randint(3, 8)), cour=0.3)
    om = rng.choice([6.0, 15.0]) if far else rng.choice([1.0, 3.0, 6.0]) if not fargo else rng.choice([1.0, 6.0, 15.0])
    p = {'Omega': om, 'qshear': rng.choice([1.5, 1.2]), 'xz': xz, 'b0': rng.choice([0.0, 0.1, 0.3]), 'v1': round(rng.uniform(-.5, .5), 3), 'v2': round(rng.uniform(-.5, .5), 3)}
    if cfg == 'shrd': p.update({'eta_O': rng.choice([0.0, 0.01]), 'Q_A': 0.01, 'Q_H': rng.choice([0.0, 0.002])})
    return finish(rng, b, cfg, nx, box, bc, ng, 'shear', dim, p)

GRAV = ['grav', 'gravo', 'gravd', 'gravs', 'gravm']
def grav(rng, tier='quick', maxranks=8, config=None, nlim=None, need=2):
    cfg = config or rng.choice(GRAV)
    maxranks = wide(rng, maxranks)
    dim = {'gravo': 3}.get(cfg) or rng.choice([2, 3] if cfg != 'gravs' else [2, 3, 3, 3])
    pw = lambda: rng.choice([8, 8, 16])
    nx = [pw(), pw(), pw() if dim == 3 else 1]
    if rng.random() < 0.5:
        nx = [rng.choice([8, 9, 10, 12, 14, 15, 16]) for _ in range(3)]
        if dim == 2: nx[2] = 1
    if cfg == 'gravo': bc = [(2, 2)] * 3
    elif cfg == 'gravd': bc = [(4, 4), (4, 4), (2, 2) if dim == 3 else (4, 4)]
    else: bc = [(4, 4)] * 3
    box = [(-0.5, 0.5), (-0.5, 0.5), (-0.5, 0.5)]
    ng = factor(rng, nx, maxranks, need=need, even=(1,) if cfg == 'gravs' else ())
    b = base(nlim or rng.randint(2, 5), cour=0.3)
    if cfg == 'gravs' and not nlim and rng.random() < 0.15: b['time']['nlim'] = rng.randint(14, 24)     # the shear crosses whole Grids
    p = {'fpG': rng.choice([1.0, 5.0, 20.0]), 'Omega': rng.choice([1.0, 5.0] if b['time']['nlim'] < 10 else [5.0, 10.0]), 'v1': round(rng.uniform(-.5, .5), 3), 'v3': round(rng.uniform(-.5, .5), 3)}
    return finish(rng, b, cfg, nx, box, bc, ng, 'grav', dim, p)

DIFF = ['visc', 'viscs', 'res', 'ress', 'cool', 'srh', 'srm', 'cylh', 'cylm', 'cylv']
def diff(rng, tier='quick', maxranks=8, config=None, nlim=None, need=2):
    """diffusion, cooling, special relativity, cylindrical coordinates"""
    cfg = config or rng.choice(DIFF)
    maxranks = wide(rng, maxranks)
    dim = rng.choice([1, 2, 3, 3])
    if cfg.startswith('cyl') : dim = rng.choice([2, 3, 3])
    nx = size(rng, dim)
    bc = [(4, 4) if rng.random() < 0.5 else (2, 2) for _ in range(3)]
    box = [(0.0, 1.0), (-0.5, 0.5), (0.0, 0.8)]
    p = {'v1': round(rng.uniform(-.5, .5), 3), 'v2': round(rng.uniform(-.5, .5), 3), 'v3': round(rng.uniform(-.5, .5), 3)}
    if cfg.startswith('cyl'):
        bc[0] = (2, 2); box = [(1.0, 2.0), (0.0, 1.0), (0.0, 0.8)]; p.update({'b0': 0.1, 'bamp': 0.1, 'v1': 0.0, 'v2': 0.0})
    if cfg.startswith('visc'):
        p.update({'nu_iso': rng.choice([0.01, 0.0, 0.03]), 'kappa_iso': rng.choice([0.01, 0.02])})
        if p['nu_iso'] == 0: p['nu_iso'] = 0.005
    if cfg.startswith('res'):
        p.update({'eta_O': rng.choice([0.01, 0.02]), 'Q_H': rng.choice([0.0, 0.005]) if not cfg == 'ress' else 0.0, 'Q_A': rng.choice([0.0, 0.01]), 'kappa_iso': rng.choice([0.0, 0.01]), 'kappa_aniso': rng.choice([0.0, 0.02])})
        if p['kappa_iso'] + p['kappa_aniso'] == 0: p['kappa_aniso'] = 0.01
        if p['Q_H'] and rng.random() < 0.5: p['eta_O'] = 0.01
    if cfg == 'cool':
        f = rng.choice([1.0, 30.0, 100.0, 300.0])      # the denser, the shorter the cooling time
        p.update({'den': f, 'pres': 10.0 * f, 'kappa_iso': 0.01})
    if cfg.startswith('sr'):
        p.update({'b0': 0.2, 'bamp': 0.2, 'gamma': 1.3333333333333333})
    ng = factor(rng, nx, maxranks, need=need)
    b = base(nlim or rng.randint(2, 5), cour=0.3)
    return finish(rng, b, cfg, nx, box, bc, ng, 'diff', dim, p)

PART = ['part', 'parts', 'partn', 'partf', 'partp']
def part(rng, tier='quick', maxranks=8, config=None, nlim=None, need=2, out=0.0):
    cfg = config or rng.choice(PART)
    maxranks = wide(rng, maxranks)
    g = 5
    dim = rng.choice([2, 3, 3]) if cfg == 'part' else rng.choice([2, 3, 3])
    if cfg in ('part', 'partp'):
        nx = [rng.randint(10, 18), rng.randint(10, 18), rng.randint(10, 14) if dim == 3 else 1]
        bc = [rng.choice([(4, 4), (4, 4), (1, 1), (5, 5)] + [(2, 2), (1, 2), (2, 1)] * (cfg == 'partp' or rng.random() < out)) for _ in range(3)]
        ng = factor(rng, nx, maxranks, tilemin=g, need=need)
        xz = 0
    elif dim == 2:
        nx = [rng.randint(10, 16), rng.randint(10, 16), 1]; xz = 1
        bc = [(4, 4), (4, 4), (4, 4)]
        ng = factor(rng, nx, maxranks, tilemin=g, need=need)
    else:
        nx = [rng.randint(10, 14), rng.choice([10, 12, 16, 20]), rng.randint(10, 12)]; xz = 0
        bc = [(4, 4)] * 3
        ng = factor(rng, nx, maxranks, tilemin=g, need=need, even=(1,))
    box = [(-0.5, 0.5), (-0.5, 0.5), (-0.4, 0.4)]
    b = base(nlim or rng.randint(4, 12), cour=0.4)
    b['particle'] = {'partypes': rng.choice([1, 2]), 'parnumcell': rng.choice([1, 1, 2]), 'integrator': rng.choice([1, 2, 3]), 'interp': rng.choice([1, 2, 3]), 'tsmode': rng.choice([1, 2, 3]), 'tshuf': rng.choice([0, 0, 0.01])}
    p = {'Omega': rng.choice([1.0, 4.0, 10.0]), 'xz': xz, 'vpar': rng.choice([0.3, 1.5]), 'tstop': rng.choice([0.05, 0.5]), 'mpar': rng.choice([0.01, 0.1]), 'b0': 0.1, 'v1': round(rng.uniform(-.8, .8), 3), 'v2': round(rng.uniform(-.8, .8), 3), 'v3': round(rng.uniform(-.8, .8), 3)}
    if rng.random() < 0.45:     # all particles start in a small region beside an edge between Grids and cross it together
        for d in range(dim):
            if rng.random() < 0.3: continue
            e = sum(tile_sizes(nx[d], ng[d])[:rng.randrange(ng[d] + 1)]) / nx[d]; w = rng.choice([0.3, 1.0, 3.0]) / nx[d]
            left = rng.random() < 0.5; lo = e - w if left else e
            p['v%d' % (d + 1)] = 0.8 if left else -0.8
            if rng.random() < 0.6: p['vpar'] = 0.05
            p['cl%d' % (d + 1)] = round(min(max(lo, 0.0), 1.0 - w), 6); p['cw%d' % (d + 1)] = round(w, 6)
        p['mpar'] = 0.001
        if rng.random() < 0.7:      # storage for an average process only: everything has to grow
            p['npc'] = b['particle'].pop('parnumcell'); b['particle']['parnumgrid'] = rng.randint(10, 60) if rng.random() < 0.5 else rng.randint(60, 300)
    return finish(rng, b, cfg, nx, box, bc, ng, 'part', dim, p)

SMR = ['smrh', 'smrm', 'smrv']
def smr(rng, tier='quick', maxranks=6, config=None, nlim=None, need=2, maxlev=2, rare=0.0):
    """nested refined domains, randomly tiled so that the number of grids is a multiple of the process count"""
    cfg = config or rng.choice(SMR)
    dim = rng.choice([1, 2, 2, 3]) if cfg == 'smrh' else rng.choice([2, 2, 3])
    if rng.random() < 0.04: maxranks = 12
    rare = rng.random() < rare      # known findings smr-mhd-touching-split, smr-mhd-corner-split: P04 keeps a few
    for _ in range(5000):
        j = _smr(rng, cfg, dim, maxranks, nlim, need, maxlev)
        if not j: continue
        if rare or cfg == 'smrh': return j
        f = smr_flags(j)
        if not f['asplit'] and not f['csplit']: return j
    raise RuntimeError('no refined mesh found')

def tile_sizes(n, g):
    return [n // g + (1 if i < n % g else 0) for i in range(g)]

def _smr(rng, cfg, dim, maxranks, nlim, need, maxlev, edge=None):
    if edge is None: edge = rng.random() < 0.3
    act = range(dim)
    nroot = [1, 1, 1]
    for d in act: nroot[d] = rng.choice([16, 20, 24]) if dim < 3 else rng.choice([12, 16])
    # level-1 regions in root zones (start, length), >= nghost/2 + 2 zones from the root edge unless touching is allowed
    nl1 = rng.choice([1, 2])
    if nl1 == 2:        # room for two Domains of one level beside each other
        d0 = rng.choice(list(act)); nroot[d0] = rng.choice([24, 28, 32]) if dim < 3 else rng.choice([22, 24])
    doms = [dict(level=0, disp=[0, 0, 0], n=list(nroot), lo=[0, 0, 0])]
    regs = []
    for r in range(nl1):
        lo, ln = [0, 0, 0], [1, 1, 1]
        for d in act:
            m = nroot[d]
            ln[d] = rng.choice([6, 8, 10]) if dim < 3 else rng.choice([6, 8])
            if nl1 == 2 and d == d0: ln[d] = rng.choice([6, 6, 8])
            if ln[d] + 4 > m: return None
            if edge and rng.random() < 0.15 and not (nl1 == 2 and d == d0): lo[d], ln[d] = 0, m     # a slab across the root Domain
            elif edge and rng.random() < 0.5: lo[d] = rng.choice([0, m - ln[d], 2, 3])     # at the edge of the root Domain, or as close as allowed
            elif r and d == d0: lo[d] = regs[0][0][d] + regs[0][1][d] + rng.choice([1, 2, 3, 4, 5])   # beside the first, with a gap
            else:
                lo[d] = max(4, rng.randint(2, m - 2 - ln[d]))
                if nl1 == 2 and d == d0: lo[d] = rng.choice([4, 4, 5, 6])
            if not edge and lo[d] + ln[d] > m - 4: return None
            if lo[d] + ln[d] > m or 0 < m - ln[d] - lo[d] < 2: return None
        regs.append((lo, ln))
    if nl1 == 2:
        (a, la), (b_, lb) = regs
        if not any(a[d] + la[d] < b_[d] or b_[d] + lb[d] < a[d] for d in act): return None
        if rng.random() < 0.5: regs.reverse()
    for lo, ln in regs:
        doms.append(dict(level=1, disp=[2 * x if d < dim else 0 for d, x in enumerate(lo)], n=[2 * x if d < dim else 1 for d, x in enumerate(ln)]))
    if maxlev >= 2 and rng.random() < 0.4:
        ps = doms[1:]
        if nl1 == 2 and rng.random() < 0.6: ps = [rng.choice(ps)]
        for p in ps:
            n2, d2 = [1, 1, 1], [0, 0, 0]
            for d in act:
                ln = rng.choice([6, 8]) if dim < 3 else 6
                if p['n'][d] < ln + 4 + 4 * (not edge): return None
                o = rng.randrange(4, p['n'][d] - ln - 4 + 1, 1) if p['n'][d] - ln >= 8 else 2
                if edge and rng.random() < 0.5: o = rng.choice([2, p['n'][d] - ln - 2] + [0] * (p['disp'][d] == 0) + [p['n'][d] - ln] * (p['disp'][d] + p['n'][d] == 2 * nroot[d]))
                n2[d] = 2 * ln; d2[d] = 2 * (p['disp'][d] + o)
                if n2[d] % 4 or d2[d] % 4: return None
            doms.append(dict(level=2, disp=d2, n=n2))
    # tiles
    opts = []
    for D in doms:
        o = []
        for g in _tilings(D['n'], maxranks, NG):
            # tile edges of refined domains must fall on coarse-zone edges
            if D['level'] and any(x % 2 for d in act for x in tile_sizes(D['n'][d], g[d])): continue
            o.append(g)
        opts.append(o)
    for _ in range(30):
        ngs = [rng.choice(o) for o in opts]
        tot = sum(g[0] * g[1] * g[2] for g in ngs)
        mx = max(g[0] * g[1] * g[2] for g in ngs)
        c = [n for n in range(max(mx, need), maxranks + 1) if tot % n == 0]
        if not c: continue
        n = rng.choice(c)
        b = base(nlim or rng.randint(2, 4), cour=0.3, num_domains=len(doms))
        box = [(0.0, 1.0), (-0.5, 0.5), (0.0, 1.0)]
        bc = []
        for d in range(3):
            lo_ = any(D['level'] and D['disp'][d] == 0 for D in doms); hi_ = any(D['level'] and D['disp'][d] + D['n'][d] == nroot[d] << D['level'] for D in doms)
            one = any(D['level'] and (D['disp'][d] == 0) != (D['disp'][d] + D['n'][d] == nroot[d] << D['level']) for D in doms)
            o = [(2, 2)] if d < dim and one else [(4, 4), (2, 2)]      # a Domain at one side only of a periodic direction is refused
            if cfg == 'smrh' and rng.random() < 0.3: o = [(1, 1), (1, 2), (5, 1), (2, 5)]
            bc.append(rng.choice(o))
        for i, (D, g) in enumerate(zip(doms, ngs)):
            b['domain%d' % (i + 1)] = domain(D['n'], box, bc, g, D['level'], D['disp'])
        b['problem'] = {'gamma': 1.6666666666666667, 'iseed': rng.randint(1, 10**6), 'amp': 0.05, 'v1': round(rng.uniform(-1, 1), 3), 'v2': round(rng.uniform(-1, 1), 3)}
        return job(cfg, b, n, kind='smr', dim=dim, ng=[list(g) for g in ngs], bc=bc, ndom=len(doms), edge=int(edge))
    return None

def _tilings(n, maxg, tilemin):
    o = [splits(n[d], tilemin, maxg) if n[d] > 1 else [1] for d in range(3)]
    return [(a, b, c) for a in o[0] for b in o[1] for c in o[2] if a * b * c <= maxg]

def smr_flags(j):
    """geometry of fine Grids against the Grids of the next coarser level, in coarse zones"""
    def edges(b, d):
        k = str(d + 1); n, g = b['Nx' + k], b.get('NGrid_x' + k, 1)
        disp = b[('iDisp', 'jDisp', 'kDisp')[d]]; e = [disp]
        for t in tile_sizes(n, g): e.append(e[-1] + t)
        return e
    doms = [j['blocks']['domain%d' % (i + 1)] for i in range(ndom(j))]
    one = aligned = near = odd = asplit = csplit = False
    for c in doms:
        if c['level'] == 0: continue
        for p in doms:
            if p['level'] != c['level'] - 1: continue
            hit = True
            for d in range(3):
                if c['Nx%d' % (d + 1)] == 1: continue
                ce = [x / 2 for x in edges(c, d)]; pe = edges(p, d)
                if ce[-1] <= pe[0] or ce[0] >= pe[-1]: hit = False
            if not hit: continue
            on = 0
            for d in range(3):
                if c['Nx%d' % (d + 1)] == 1: continue
                ce = [x / 2 for x in edges(c, d)]; pe = edges(p, d)
                if any(x in (ce[0], ce[-1]) for x in pe[1:-1]): on += 1
                if any(x % 1 for x in ce): odd = True
                for a, b in zip(ce, ce[1:]):
                    for s, t in zip(pe, pe[1:]):
                        o = min(b, t) - max(a, s)
                        if o == 1: one = True
                for x in pe[1:-1]:
                    if x in (ce[0], ce[-1]):
                        aligned = True
                        if any(c.get('NGrid_x%d' % (e + 1), 1) > 1 for e in range(3) if e != d): asplit = True
                    if abs(x - ce[0]) == 1 or abs(x - ce[-1]) == 1: near = True
            if on > 1: csplit = True
    return dict(one=one, aligned=aligned, near=near, odd=odd, asplit=asplit, csplit=csplit)

# ---------------------------------------------------------------- outputs
DTS = [1e-9, 0.004, 0.011, 0.03, 10.0]
def outputs(rng, j, n=None, fmts=None, dts=None):
    """random <outputN> blocks for a job (in place): dumps, slices, averages, images, histories, histograms, checkpoints"""
    b = j['blocks']; d = b['domain1']; nx = [d['Nx1'], d['Nx2'], d['Nx3']]; dim = sum(x > 1 for x in nx)
    part = 'particle' in b; iso = j['config'].split('.')[0] in ISO; mhd = j['config'].split('.')[0] in MHDC; smrj = ndom(j) > 1
    pool = fmts or (['hst', 'hst', 'rst', 'bin', 'vtk', 'vtk1', 'tab', 'tab1', 'pdf', 'pgm', 'ppm'] + (['phst', 'lis'] if part else []))
    n = n if n is not None else rng.randint(2, 6)
    outs, have = [], set()
    for _ in range(n):
        f = rng.choice(pool)
        if f in ('hst', 'rst', 'phst', 'lis', 'bin', 'vtk', 'tab') and f in have: continue     # these file names carry no id: one block of each
        have.add(f)
        o = output(rng, f, nx, dim, d, iso, mhd, dts or DTS)
        if o is None: continue
        o['id'] = 'o%d' % (len(outs) + 1)
        if smrj and rng.random() < 0.2 and f not in ('rst',): o['level'] = rng.randint(0, max(b['domain%d' % (i + 1)]['level'] for i in range(ndom(j))))
        outs.append(o)
    for k in [k for k in b if k.startswith('output')]: del b[k]
    for i, o in enumerate(outs): b['output%d' % (i + 1)] = o
    b['job']['maxout'] = max(len(outs), 1)
    return j

def output(rng, f, nx, dim, d, iso, mhd, dts):
    o = {'dt': rng.choice(dts)}
    if f in ('hst', 'rst', 'phst', 'lis', 'bin', 'vtk', 'tab'):
        o['out_fmt'] = f
        if f == 'hst' and rng.random() < 0.4: o['dat_fmt'] = '%18.10e'
        if f in ('bin', 'vtk', 'tab') and rng.random() < 0.4: o['out'] = 'prim'
        if f == 'lis' : pass
        return o
    exprs = ['d', 'M1', 'V2', 'V3'] + ([] if iso else ['E', 'P']) + (['B1c', 'ME'] if mhd else [])
    o['out'] = rng.choice(exprs + ['v2'])
    if o['out'] == 'v2': o['usr_expr_flag'] = 1
    o['out_fmt'] = f[:3]
    ax = ['x1', 'x2', 'x3'][:dim]
    red = 0
    if f in ('pgm', 'ppm'):
        if dim == 1: return None
        red = dim - 2
        if rng.random() < 0.5: o['dmin'], o['dmax'] = 0.2, 2.0
        if f == 'ppm' and rng.random() < 0.5: o['palette'] = rng.choice(['jh_colors', 'idl1', 'step8', 'heat'])
    elif f in ('vtk1', 'tab1'):
        red = rng.randint(0, dim - (2 if f == 'vtk1' else 1)) if dim > 1 else 0
        if f == 'vtk1' and dim == 1: return None
    for a in rng.sample(ax, red):
        k = a[1]; lo, hi = d['x%smin' % k], d['x%smax' % k]
        r = rng.random()
        if r < 0.4: o[a] = ':'
        elif r < 0.7: o[a] = '%.6f' % (lo + (hi - lo) * rng.uniform(0.02, 0.98))
        else:
            u = sorted([rng.uniform(0.02, 0.98), rng.uniform(0.02, 0.98)])
            o[a] = '%.6f:%.6f' % (lo + (hi - lo) * u[0], lo + (hi - lo) * u[1])
    if f == 'pdf' and rng.random() < 0.4: o['dmin'], o['dmax'] = 0.5, 1.5
    return o

ISO = ('hydvl', 'shrf', 'shrd', 'gravo', 'gravd', 'gravs', 'part', 'parts', 'partn', 'partf', 'partp', 'cylf', 'cylfh')
MHDC = ('mhd', 'mhdvl', 'shr', 'shrf', 'shrd', 'shrv', 'gravs', 'gravm', 'smrm', 'smrv', 'partn', 'res', 'ress', 'srm', 'cylm', 'cylv', 'cylf')

GEN = {}
for _l, _f in ((UNIFORM, uniform), (SHEAR, shear), (GRAV, grav), (SMR, smr), (PART, part), (DIFF, diff)):
    for _c in _l: GEN[_c] = _f
ALL = list(GEN)
def any_(rng, tier, config, **kw):
    return GEN[config](rng, tier, config=config, **kw)
