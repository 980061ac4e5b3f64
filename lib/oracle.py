"""Comparison of simulated runs."""
import numpy as np
from fw import Violation

def assemble(full_by_rank):
    """{(level,dom): dict(U=..., B1=..., ...)} from one full observation of each rank; checks that grids tile each domain exactly."""
    doms = {}
    for r, f in full_by_rank.items():
        for g in f['grids']:
            key = (g['level'], g['dom'])
            d = doms.get(key)
            N = g['dN']; off = [g['gD'][i] - g['dD'][i] for i in range(3)]
            if d is None:
                d = doms[key] = dict(N=N, nv=g['nv'], cover=np.zeros((N[2], N[1], N[0]), int), U=np.full((N[2], N[1], N[0], g['nv']), np.nan), part=[], ranks=0, fc={})
                for nm, ax in (('B1', 2), ('B2', 1), ('B3', 0)):
                    if nm in g:
                        s = [N[2], N[1], N[0]]; s[ax] += 1 if s[ax] > 1 else 0
                        d['fc'][nm] = (np.full(s, np.nan), [])
                if 'Phi' in g: d['Phi'] = np.full((N[2], N[1], N[0]), np.nan)
            d['ranks'] += 1
            G = g['gN']
            if any(off[i] < 0 or off[i] + G[i] > N[i] for i in range(3)):
                raise Violation('tiling', 'grid of rank %d at %s size %s sticks out of domain %s' % (r, off, G, N))
            sl = tuple(slice(off[i], off[i] + G[i]) for i in (2, 1, 0))
            d['cover'][sl] += 1
            d['U'][sl] = g['U']
            for nm, ax in (('B1', 0), ('B2', 1), ('B3', 2)):
                if nm in g:
                    a, chk = d['fc'][nm]
                    s2 = [slice(off[i], off[i] + g[nm].shape[2 - i]) for i in (2, 1, 0)]
                    s2 = tuple(s2)
                    old = a[s2]
                    both = ~np.isnan(old)
                    if both.any():
                        chk.append(float(np.max(np.abs(old[both] - g[nm][both]))))
                    a[s2] = g[nm]
            if 'Phi' in g: d['Phi'][sl] = g['Phi']
            if len(g['part']):
                d['part'].append((r, g['part'], g))
    for key, d in doms.items():
        if (d['cover'] != 1).any():
            raise Violation('tiling', 'level %d domain %d: %d zones owned by no process, %d by several' % (key + ((d['cover'] == 0).sum(), (d['cover'] > 1).sum())))
    return doms

def final(res):
    fl = res.fulls()
    if not all(fl.get(r) for r in range(res.spec.nranks)):
        raise Violation('incomplete', 'a process ended without reaching the end of the run: status %s, %s' % (res.status, res.why))
    return {r: v[-1] for r, v in fl.items()}

def reldiff(a, b, scale=None):
    if a.shape != b.shape:
        raise Violation('shape', 'arrays differ in shape %s %s' % (a.shape, b.shape))
    bad = np.isnan(a) != np.isnan(b)
    if bad.any(): return float('inf'), tuple(int(x) for x in np.argwhere(bad)[0])
    d = np.abs(np.nan_to_num(a) - np.nan_to_num(b))
    s = scale if scale is not None else max(np.nanmax(np.abs(b)) if b.size else 0, 1e-3)
    i = np.unravel_index(np.argmax(d), d.shape) if d.size else ()
    return float(d.max() / s) if d.size else 0.0, tuple(int(x) for x in i)

def compare(doms, ref, tol, what='', names=None):
    worst = 0.0
    if set(doms) != set(ref):
        raise Violation('domains', 'domains differ: %s %s' % (sorted(doms), sorted(ref)))
    for key in sorted(ref):
        a, b = doms[key], ref[key]
        for v in range(b['nv']):
            # momenta share one scale, fields another: a component may be tiny
            e, i = reldiff(a['U'][..., v], b['U'][..., v], scale(b, v))
            worst = max(worst, e)
            if not e <= tol:
                raise Violation('solution-differs', '%slevel %d domain %d, conserved variable %d differs by %.3g (relative) at zone (k,j,i)=%s: %r instead of %r' % (what, key[0], key[1], v, e, i, float(a['U'][..., v][i]), float(b['U'][..., v][i])))
        for nm in b['fc']:
            e, i = reldiff(a['fc'][nm][0], b['fc'][nm][0], max(np.nanmax(np.abs(b['fc'][nm][0])), 1e-2))
            worst = max(worst, e)
            if not e <= tol:
                raise Violation('field-differs', '%slevel %d domain %d, face field %s differs by %.3g at %s' % (what, key[0], key[1], nm, e, i))
            for c in a['fc'][nm][1]:
                if c > tol * max(np.nanmax(np.abs(b['fc'][nm][0])), 1e-2):
                    raise Violation('field-differs', '%stwo processes disagree on the shared faces of %s by %.3g' % (what, nm, c))
        if 'Phi' in b:
            e, i = reldiff(a['Phi'], b['Phi'], max(np.nanmax(np.abs(b['Phi'])), 1e-6))
            worst = max(worst, e)
            if not e <= tol * 10:
                raise Violation('potential-differs', '%slevel %d domain %d: gravitational potential differs by %.3g at %s' % (what, key[0], key[1], e, i))
    return worst

def scale(d, v):
    a = np.nanmax(np.abs(d['U'][..., v]))
    return max(float(a), 1e-2)

def compare_steps(res, ref, tol, what=''):
    """time and time step of every step on every rank against rank 0 of the reference"""
    s0 = ref.steps()[0]
    for r in range(res.spec.nranks):
        s = res.steps().get(r, [])
        if len(s) != len(s0):
            raise Violation('step-count', '%sprocess %d took %d steps, reference %d' % (what, r, len(s), len(s0)))
        for a, b in zip(s, s0):
            if a['nstep'] != b['nstep'] or not abs(a['time'] - b['time']) <= tol * max(abs(b['time']), 1e-3) or not abs(a['dt'] - b['dt']) <= tol * abs(b['dt']):
                raise Violation('time-step-differs', '%sprocess %d step %d: time %r dt %r, reference time %r dt %r' % (what, r, a['nstep'], a['time'], a['dt'], b['time'], b['dt']))

def must_finish(res, what=''):
    if res.viols:
        raise Violation('sim-' + res.viols[0][0], what + ' '.join(res.viols[0]))
    if not res.ok:
        raise Violation('run-' + res.status, '%sstatus %s exit %s: %s; %s' % (what, res.status, res.jobexit, res.why, res.log()[-300:].replace('\n', ' | ')))

def particles(dom, what='', ident=True):
    """{my_id: row} of one domain; every particle must exist exactly once"""
    out = {}
    for r, a, g in dom['part']:
        for row in a:
            k = int(row[8]) if ident else (int(row[8]), int(row[9]))
            if k in out:
                raise Violation('particle-duplicated', '%sparticle %s exists twice (second copy on process %d at x=%s)' % (what, k, r, row[:3]))
            if ident and int(row[9]) not in (k % 89 + 1, -1):
                raise Violation('particle-differs', '%sparticle %d changed its identity (made by process %d, now %d)' % (what, k, k % 89 + 1, int(row[9])))
            out[k] = row
    return out

def owned(dom, what=''):
    """every particle lies inside the Grid of the process that holds it"""
    for r, a, g in dom['part']:
        lo = np.array(g['minx'][:3]); n = np.array(g['gN'][:3]); hi = lo + n * np.array(g['dx'][:3]); x = a[:, :3]
        bad = ((x < lo - 1e-9) | (x > hi + 1e-9)) & (n > 1)
        if bad.any():
            i = int(np.argmax(bad.any(1)))
            raise Violation('particle-misplaced', '%sprocess %d holds particle %d at %s outside its Grid [%s, %s]' % (what, r, int(a[i][8]), x[i].tolist(), lo.tolist(), hi.tolist()))

def compare_particles(A, R, box, tol, expect=None, what='', ident=True):
    """identity, place and velocity of every particle, positions modulo the box"""
    L = np.array([hi - lo for lo, hi in box])
    for key in R:
        b = particles(R[key], 'one-process run: ', ident); a = particles(A[key], what, ident)
        if expect is not None and len(b) != expect:
            raise Violation('particle-lost', 'one-process run: %d particles instead of %d' % (len(b), expect))
        if set(a) != set(b):
            lost = sorted(set(b) - set(a)); new = sorted(set(a) - set(b))
            raise Violation('particle-lost', '%s%d particles lost (%s...), %d invented' % (what, len(lost), [(i, [round(float(x), 4) for x in b[i][:3]]) for i in lost[:3]], len(new)))
        ids = sorted(b)
        if not ids: continue
        pa = np.array([a[i] for i in ids]); pb = np.array([b[i] for i in ids])
        if (pa[:, 6] != pb[:, 6]).any():
            raise Violation('particle-differs', what + 'a particle changed its type')
        edge = np.zeros(len(ids), bool)
        for d, (lo, hi) in enumerate(box):
            edge |= (np.abs(pb[:, d] - lo) < 1e-6) | (np.abs(pb[:, d] - hi) < 1e-6)
        dx = np.abs(pa[:, :3] - pb[:, :3]); dx = np.minimum(dx, np.abs(dx - L))
        dv = np.abs(pa[:, 3:6] - pb[:, 3:6])
        vs = max(1.0, float(np.abs(pb[:, 3:6]).max()))
        for m, nm, sc_ in ((dx, 'position', 1.0), (dv, 'velocity', vs)):
            m = np.where(edge[:, None], 0.0, m) / sc_
            if not m.max() <= tol:
                i = int(np.argmax(m.max(1)))
                raise Violation('particle-differs', '%s%s of particle %d differs by %.3g: %s instead of %s' % (what, nm, ids[i], m.max(), pa[i][:6].tolist(), pb[i][:6].tolist()))

def outflow_particles(r, box, bc, dx, n, what=''):
    """a particle disappears only after it has left the Domain through an outflow boundary"""
    last = None; f = r.fulls()
    for s in range(min(len(f[q]) for q in f)):
        now = {}
        for D in assemble({q: f[q][s] for q in f}).values(): now.update(particles(D, what))
        if last is None and len(now) != n: raise Violation('particle-lost', '%s%d of %d particles at the first observation' % (what, len(now), n))
        for i in (set(last) - set(now)) if last is not None else ():
            x = last[i][:3]
            if not any((bc[d][0] == 2 and x[d] < box[d][0] - dx[d]) or (bc[d][1] == 2 and x[d] > box[d][1] + dx[d]) for d in range(3)):
                raise Violation('particle-lost', '%sparticle %d at %s disappeared inside the Domain' % (what, i, [round(float(v), 4) for v in x]))
        last = now

def restriction(D, j, tol, what=''):
    """the coarse solution under a refined region equals the restriction of the fine solution (conserved variables, face fields on the region's faces)"""
    b = j['blocks']; doms = {}
    cnt = {}
    for i in range(1, int(b['job']['num_domains']) + 1):
        d = b['domain%d' % i]; l = d['level']; k = (l, cnt.get(l, 0)); cnt[l] = k[1] + 1
        doms[k] = dict(disp=[d.get(x, 0) for x in ('iDisp', 'jDisp', 'kDisp')], n=[d['Nx%d' % (q + 1)] for q in range(3)])
    for (l, n), c in doms.items():
        if l == 0: continue
        for (m, q), p in doms.items():
            if m != l - 1: continue
            lo, hi = [0] * 3, [1] * 3; clo = [0] * 3; ok = True
            for d in range(3):
                if c['n'][d] == 1: continue
                s, e = c['disp'][d] // 2, (c['disp'][d] + c['n'][d]) // 2
                s, e = max(s, p['disp'][d]), min(e, p['disp'][d] + p['n'][d])
                if e <= s: ok = False; break
                lo[d], hi[d] = s - p['disp'][d], e - p['disp'][d]; clo[d] = 2 * s - c['disp'][d]
            if not ok: continue
            F, C = D[(l, n)], D[(m, q)]
            r = [2 if c['n'][d] > 1 else 1 for d in range(3)]
            fs = tuple(slice(clo[d], clo[d] + r[d] * (hi[d] - lo[d])) for d in (2, 1, 0))
            cs = tuple(slice(lo[d], hi[d]) for d in (2, 1, 0))
            f = F['U'][fs]; g = C['U'][cs]
            z, y, x, v = g.shape
            a = f.reshape(z, r[2], y, r[1], x, r[0], v).mean((1, 3, 5))
            nb = 5 if F['fc'] else v          # cell-centred fields follow from the face fields, which are checked below
            for w in [w for w in range(v) if not (nb <= w < nb + 3 and c['n'][w - nb] > 1)]:
                e, i = reldiff(g[..., w], a[..., w], scale(C, w))
                if not e <= tol:
                    raise Violation('not-restricted', '%slevel %d domain %d: conserved variable %d under the refined domain %d is not the restriction of the fine solution (%.3g at %s)' % (what, m, q, w, n, e, i))
            for nm, ax in (('B1', 0), ('B2', 1), ('B3', 2)):
                if nm not in F['fc'] or c['n'][ax] == 1: continue
                ff, cc = F['fc'][nm][0], C['fc'][nm][0]
                fsl, csl = list(fs), list(cs); k = 2 - ax
                if c['n'][ax] > 1: fsl[k] = slice(clo[ax], clo[ax] + 2 * (hi[ax] - lo[ax]) + 1, 2)
                if c['n'][ax] > 1: csl[k] = slice(lo[ax], hi[ax] + 1)
                f, g = ff[tuple(fsl)], cc[tuple(csl)]
                sh = []; red = []
                for kk, d in enumerate((2, 1, 0)):
                    if d == ax: sh.append(g.shape[kk])
                    else: sh += [g.shape[kk], r[d]]; red.append(len(sh) - 1)
                a = f.reshape(sh).mean(tuple(red))
                e, i = reldiff(g, a, max(np.nanmax(np.abs(cc)), 1e-2))
                if not e <= tol:
                    raise Violation('not-restricted', '%slevel %d domain %d: face field %s under the refined domain %d is not the restriction of the fine field (%.3g at %s)' % (what, m, q, nm, n, e, i))
