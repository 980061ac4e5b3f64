"""P12, P18, P19: disk errors, fatal errors, memory exhaustion."""
from fw import *
import zoo, oracle, rst, copy, re, errno
from prop_mpi import Mpi, PROGRESS

CONF = ['hyd', 'mhdvl', 'shrhf', 'grav', 'smrh', 'smrm', 'part', 'parts', 'ress', 'srh', 'hyd.s', 'part.s', 'smrm.s']
BAD = ('segv', 'hang', 'deadlock', 'budget')

def errtext(r):
    """everything the job said on its error streams (including error logs it keeps in files)"""
    t = b''.join(r.err.get(q, b'') for q in sorted(r.err))
    return t + b''.join(d for p, d in sorted(r.fs.items()) if d and p.endswith('.err'))

def hygiene(r, what):
    for v in r.viols: raise Violation('fault-' + v[0], '%s: %s' % (what, v[1]))
    if r.status in BAD: raise Violation('fault-' + r.status, '%s: %s' % (what, r.why))

class P12(Mpi):
    id = 'P12'
    technique = 'deterministic simulation with disk-fault injection: seeded failures (open, write, short write, full disk, close, mkdir, chdir; transient or lasting) on the simulated disk of a running job; error streams, exit status, solution and files compared with the run on a healthy disk'
    rule = 'a distinct (job, fault list) in which at least one disk operation of the job failed'
    quick_n, thorough_n = 900, 30000
    def configs(self, tier):
        return CONF if tier == 'quick' else zoo.ALL + [c + '.s' for c in zoo.ALL]
    def scenario(self, rng, i, tier):
        cf = self.configs(tier); c = cf[i % len(cf)]; s = c.endswith('.s')
        j = zoo.any_(rng, tier, c[:-2] if s else c, nlim=rng.randint(2, 4))
        if s: j = zoo.serial(j, c)
        zoo.outputs(rng, j, n=rng.randint(2, 7))
        if rng.random() < 0.3: j['blocks']['log'] = {'file_open': 1, 'lazy': rng.choice([0, 1]), 'iflush': rng.choice([0, 0, 1, 2])}
        args = ['-d', 'run'] if rng.random() < 0.3 else []
        fmts = [o['out_fmt'] for k, o in j['blocks'].items() if k.startswith('output')]
        ext = {'hst': '.hst', 'rst': '.rst', 'phst': '.phst', 'lis': '.lis', 'bin': '.bin', 'vtk': '.vtk', 'tab': '.tab', 'pdf': '.prb', 'pgm': '.pgm', 'ppm': '.ppm'}
        pats = ['*'] + [ext.get(f, '*') for f in fmts] * 2
        faults = []
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(['open_fail', 'open_fail', 'write_fail', 'write_fail', 'write_fail', 'disk_full', 'close_fail', 'mkdir_fail', 'chdir_fail'])
            pat = rng.choice(pats)
            q = rng.choice([-1, rng.randrange(j['nranks'])])
            if kind == 'open_fail': f = [kind, q, rng.choice([1, 1, 2, 3, 5]), rng.choice([errno.EACCES, errno.ENOSPC, errno.EMFILE]), rng.choice([0, 0, 1]), pat]
            elif kind == 'write_fail': f = [kind, q, rng.choice([1, 1, 2, 3, 4, 6]), rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT]), rng.choice([0, 0, 1]), pat]
            elif kind == 'disk_full': f = [kind, -1, rng.choice([0, 100, 1000, 5000, 20000]) + rng.randrange(3000), 0, 0, '*']
            elif kind == 'close_fail': f = [kind, q, rng.choice([1, 1, 2, 3, 5]), errno.EIO, rng.choice([0, 0, 1]), pat]
            elif kind == 'mkdir_fail': f = [kind, q, rng.choice([1, 1, 2, 3]), rng.choice([errno.EACCES, errno.ENOSPC]), rng.choice([0, 1]), '*']
            else: f = [kind, q, 1, errno.EACCES, rng.choice([0, 1]), '*']
            faults.append(f)
        return dict(job=j, args=args, faults=faults, seed=rng.randint(1, 2**31), bufsize=rng.choice([256, 1024, 4096, 65536]))
    def evaluate(self, ctx, sc):
        j = dict(sc['job'], args=sc['args'])
        A = ctx.run('calm', self.spec(j, seed=0, policy=CALM, bufsize=sc['bufsize'], wantio=1))
        if not A.ok: raise Skip('healthy run: %s %s %s' % (A.status, A.why, A.log()[-150:]))
        F = ctx.run('fault', self.spec(j, seed=sc['seed'], bufsize=sc['bufsize'], wantio=1, faults=[tuple(f) for f in sc['faults']]))
        if not sum(F.fired.values()): raise Skip('no fault reached')
        hit = {l.split(' ')[2] for l in F.io if l.startswith('e ')}
        what = 'disk fault on %s' % sorted(hit)[:3]
        hygiene(F, what)
        ctx.mark(*sorted({f[0] for f in sc['faults']}), j['config'], F.status)
        if not F.ok:
            if F.status == 'crashed': raise Violation('fault-crash', '%s: %s' % (what, F.why))
            return
        for q in A.steps():
            if [s['hash'] for s in A.steps()[q]] != [s['hash'] for s in F.steps()[q]]: raise Violation('solution-changed', '%s changes the solution of process %d' % (what, q))
        a = {p: d for p, d in A.fs.items() if d is not None}; b = {p: d for p, d in F.fs.items() if d is not None}
        logs = ('.out', '.err')
        miss = sorted(p for p in a if b.get(p) != a[p] and not p.endswith(logs))
        if (miss or any(p.endswith(logs) for p in hit)) and errtext(F) == errtext(A):
            raise Violation('failure-not-reported', '%s: the job ends as if all output had been written (exit status 0, no message), but %s' % (what, '%s is incomplete' % miss[0] if miss else 'a log file is incomplete'))
        dirs = [p + '/' for p in hit if A.fs.get(p, b'') is None]
        other = [p for p in miss if p not in hit and not any(p.startswith(d) for d in dirs)]
        if other: raise Violation('other-output-changed', '%s changes or removes the other file %s' % (what, other[0]))
        new = sorted(p for p in b if p not in a and p not in hit and not p.endswith(logs))
        if new: raise Violation('other-output-changed', '%s makes the job write %s' % (what, new[0]))

def fatal_said(r):
    return b'### Fatal error' in errtext(r)

def sane(p):
    try:
        if not 0 < float(p.get('time/cour_no', '0.4')) < 1: return False
        for k, v in p.items():
            if re.search(r'/(x[123](min|max)|gamma|iso_csound|den|pres|amp)$', k) and not abs(float(v)) < 1e3: return False
    except ValueError: pass
    return True

class P18(Mpi):
    id = 'P18'
    technique = 'deterministic simulation with fault injection: impossible parameters, missing files, wrong process counts, unusable directories, read errors, damaged inputs and failures of user code on one process, under seeded schedules; the job must end everywhere with a message and a failure status, never hang, crash or carry on'
    rule = 'a distinct (job, defect) that was reached, under a distinct schedule'
    quick_n, thorough_n = 7000, 90000
    def configs(self, tier):
        return CONF if tier == 'quick' else zoo.ALL + [c + '.s' for c in zoo.ALL]
    def scenario(self, rng, i, tier):
        cf = self.configs(tier); c = cf[i % len(cf)]; s = c.endswith('.s')
        j = zoo.any_(rng, tier, c[:-2] if s else c, nlim=rng.randint(2, 4))
        if s: j = zoo.serial(j, c)
        zoo.outputs(rng, j, n=rng.randint(1, 4))
        b = j['blocks']; nd = zoo.ndom(j); d = 'domain%d' % rng.randint(1, nd); smr = nd > 1; nr = j['nranks']
        iso = j['config'].split('.')[0] in zoo.ISO
        rec = dict(job=j, args=[], faults=[], must=1, seed=rng.randint(1, 2**31), kind='', fs=0)
        act = [k for k in range(3) if b['domain1']['Nx%d' % (k + 1)] > 1]
        k = str(rng.choice(act) + 1)
        if 'output1' not in b: b['output1'] = {'out_fmt': 'hst', 'dt': 0.01}; b['job']['maxout'] = 1
        on = rng.choice([x for x in b if x.startswith('output')])
        def setp(blk, key, v): b.setdefault(blk, {})[key] = v
        def delp(blk, key): b.get(blk, {}).pop(key, None)
        kinds = ['del', 'del', 'del', 'range', 'nx0', 'bc', 'noinput', 'rundir', 'user', 'user', 'user', 'rstmiss', 'rstmiss', 'palette', 'outdt', 'outfmt', 'slice', 'readerr', 'readerr', 'rsterr', 'rsterr', 'garble', 'garble', 'garblerst', 'garblerst', 'number', 'logs']
        cfg = j['config'].split('.')[0]
        kinds += ['cmd', 'badline', 'badline', 'slices', 'rstsect', 'rstsect']
        kinds += ['smr'] * 3 + ['geom'] * 20 if smr else ['domains']
        if len(act) == 3: kinds += ['cour']
        kinds += ['nan'] * 2 + (['partpar'] * 2 if 'particle' in b else [])
        if cfg in zoo.GRAV: kinds += ['gravbc'] * 2
        if nr > 1: kinds += ['nproc', 'nproc', 'ngrid', 'ngrid']
        kind = rec['kind'] = rng.choice(kinds)
        if kind == 'del':
            o = [('job', 'num_domains'), ('job', 'problem_id'), (d, 'level'), (d, 'Nx' + k), (d, 'Nx1'), ('domain1', 'x%smin' % k), ('domain1', 'x%smax' % k), ('time', 'cour_no'), ('time', 'tlim'), ('problem', 'iso_csound' if iso else 'gamma')]
            x = rng.choice(o); delp(*x); rec['what'] = '%s/%s is missing' % x
        elif kind == 'range': setp('domain1', 'x%smax' % k, b['domain1']['x%smin' % k] - 0.5); rec['what'] = 'x%smax < x%smin' % (k, k)
        elif kind == 'nx0': setp('domain1', 'Nx' + k, rng.choice([0, -3])); rec['what'] = 'Nx%s <= 0' % k
        elif kind == 'bc': delp('problem', 'inflow'); setp('domain1', rng.choice(['bc_ix', 'bc_ox']) + k, rng.choice([7, 99, -5])); rec['what'] = 'unknown boundary code in x' + k
        elif kind == 'noinput': rec['args'] = ['-i', 'nosuchfile']; rec['what'] = 'the input file does not exist'
        elif kind == 'rundir':
            rec['args'] = ['-d', 'run']; q = rng.randrange(nr); e = rng.choice([errno.EACCES, errno.ENOENT])
            rec['faults'] = [['chdir_fail', q, rng.choice([1, 2]), e, rng.choice([0, 1]), '*']]; rec['what'] = 'process %d cannot enter its run directory' % q
        elif kind == 'user': q = rng.randrange(nr); setp('problem', 'fail_rank', q); setp('problem', 'fail_step', rng.randint(1, b['time']['nlim'])); rec['what'] = 'user code on process %d reports a fatal error' % q
        elif kind == 'rstmiss': rec['q'] = rng.randrange(nr); rec['what'] = 'the restart file of process %d is missing' % rec['q']
        elif kind == 'palette': delp(on, 'usr_expr_flag'); setp(on, 'out_fmt', 'ppm'); setp(on, 'out', 'd'); setp(on, 'palette', 'nosuchpalette'); [delp(on, 'x%d' % z) for z in (1, 2, 3)]; [setp(on, 'x%d' % (z + 1), ':') for z in act[2:]]; rec['what'] = 'unknown palette'
        elif kind == 'outdt': delp(on, 'dt'); rec['what'] = '%s/dt is missing' % on
        elif kind == 'outfmt': setp(on, 'out_fmt', 'xyz'); setp(on, 'out', rng.choice(['cons', 'prim'])); rec['what'] = 'unknown output format'
        elif kind == 'slice': delp(on, 'usr_expr_flag'); setp(on, 'out_fmt', 'tab'); setp(on, 'out', 'd'); setp(on, 'x' + k, '0.9:0.1'); rec['what'] = 'reversed slice limits'
        elif kind == 'readerr': rec['faults'] = [['read_fail', 0, rng.choice([1, 1, 2, 3]), errno.EIO, rng.choice([0, 1]), 'athinput']]; rec['what'] = 'a read error on the input file'
        elif kind == 'rsterr': q = rng.randrange(nr); rec['q'] = q; rec['faults'] = [['read_fail', q, rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 11]), errno.EIO, rng.choice([0, 1]), '.rst']]; rec['what'] = 'a read error on the restart file of process %d' % q
        elif kind == 'nproc': rec['nranks'] = max(1, nr + rng.choice([-1, 1])) ; rec['must'] = int(not smr); rec['what'] = '%d processes for %d Grids' % (rec['nranks'], nr)
        elif kind == 'ngrid': v = rng.choice([0, 500]); setp('domain1', 'NGrid_x' + k, v); delp('domain1', 'AutoWithNProc'); rec['what'] = 'NGrid_x%s = %d' % (k, v)
        elif kind == 'domains': setp('job', 'num_domains', 2); rec['what'] = 'two domains without mesh refinement'
        elif kind == 'smr':
            dd = b['domain%d' % nd]; z = rng.choice(['oddn', 'oddd', 'past', 'gap', 'nodisp', 'dim', 'nolev'])
            kk = rng.choice(act); ks = str(kk + 1); dn = ['iDisp', 'jDisp', 'kDisp'][kk]
            if z == 'oddn': dd['Nx' + ks] += 1
            elif z == 'oddd': dd[dn] += 1
            elif z == 'past': dd[dn] = 100000
            elif z == 'gap': dd['level'] += 2
            elif z == 'nodisp': del dd[dn]
            elif z == 'dim' : dd['Nx%d' % (act[-1] + 1)] = 1
            elif z == 'nolev': dd['level'] = -1
            rec['what'] = 'impossible refined domain (%s)' % z
        elif kind == 'geom': rec['what'] = 'impossible refined domain (%s)' % self.geom(rng, j, act)
        elif kind == 'cmd':
            x = rng.choice(['nosuch/cour_no=0.1', 'time/nosuch=1', 'output77/dt=0.1', 'tim/tlim=1', 'time/tli=1', 'time/tlimit=1']); rec['args'] = [x]; rec['what'] = 'command line %s names no parameter' % x
        elif kind == 'badline': rec['line'] = [rng.choice(['tlim 1.0', 'this is no parameter', '<time', '<unfinished']), rng.random()]; rec['what'] = 'input file line %r' % rec['line'][0]
        elif kind == 'slices': delp(on, 'usr_expr_flag'); setp(on, 'out_fmt', 'tab'); setp(on, 'out', 'd'); [setp(on, 'x%d' % (z + 1), rng.choice([':', '0.01'])) for z in act]; rec['what'] = 'an output reduced in every direction'
        elif kind == 'cour': setp('time', 'cour_no', rng.choice([0.51, 0.8, 5.0])); rec['what'] = 'cour_no = %g in three dimensions' % b['time']['cour_no']
        elif kind == 'partpar': x = rng.choice([('interp', 0), ('interp', 4), ('tsmode', 0), ('tsmode', 4), ('partypes', -1)]); setp('particle', *x); rec['what'] = 'particle/%s = %d' % x
        elif kind == 'nan':
            rec['must'] = 0; zoo.outputs(rng, j, n=rng.randint(3, 8), dts=[1e-9])
            b['problem'].update(nan_rank=rng.randrange(nr), nan_step=rng.randint(1, b['time']['nlim']), nan_what=rng.randint(0, 4)); rec['what'] = 'the solution on process %d becomes undefined' % b['problem']['nan_rank']
        elif kind == 'gravbc': setp('domain1', rng.choice(['bc_ix', 'bc_ox']) + k, 2); rec['what'] = 'outflow boundary with self-gravity'
        elif kind == 'rstsect': rec['q'] = rng.randrange(nr); rec['label'] = [rng.randint(0, 40), rng.choice('XZ_')]; rec['what'] = 'a section of the restart file of process %d has another name' % rec['q']
        elif kind == 'number': rec['must'] = 0; bl = rng.choice([d, 'time', 'job', on]); key = rng.choice(sorted(x for x in b[bl] if x not in ('nlim', 'cour_no') and not re.match(r'x[123]m', x))); setp(bl, key, rng.choice(['-1', '0', '', 'abc', '-7.5', '99999999999', '0x10'])); rec['what'] = '%s/%s = %r' % (bl, key, b[bl][key]); 
        elif kind == 'garble': rec['must'] = 0; rec['what'] = 'a damaged input file'; rec['cut'] = [rng.choice(['cut', 'flip', 'drop', 'nul', 'long']), rng.random(), rng.randint(1, 255)]
        elif kind == 'garblerst': rec['must'] = 0; rec['q'] = rng.randrange(nr); rec['what'] = 'a damaged restart file of process %d' % rec['q']; rec['cut'] = [rng.choice(['cut', 'cut', 'flip', 'drop'] if 'particle' not in b else ['cut']), rng.random(), rng.randint(1, 255)]; rec['must'] = int(rec['cut'][0] == 'cut')
        elif kind == 'logs': b['log'] = {'file_open': 1, 'lazy': 0}; rec['faults'] = [['open_fail', rng.randrange(nr), 1, errno.EACCES, 1, rng.choice(['.out', '.err'])]]; rec['what'] = 'a log file cannot be opened'
        return rec
    def geom(self, rng, j, act):
        """one refined Domain (and those that hold it) on one process, moved or resized so that it cannot be: everything else about the job stays possible"""
        b = j['blocks']; n = zoo.ndom(j); doms = [b['domain%d' % (i + 1)] for i in range(n)]; D = ('iDisp', 'jDisp', 'kDisp')
        inside = lambda c, p: all(2 * p.get(D[d], 0) <= c[D[d]] and c[D[d]] + c['Nx%d' % (d + 1)] <= 2 * (p.get(D[d], 0) + p['Nx%d' % (d + 1)]) for d in act)
        par = lambda c: next(p for p in doms if p['level'] == c['level'] - 1 and inside(c, p))
        top = max(x['level'] for x in doms); ask = rng.random() < 0.2
        c = rng.choice([x for x in doms if x['level'] == (1 if ask else top if rng.random() < 0.6 else x['level'] or top)]); keep = [c]
        while keep[-1]['level']: keep.append(par(keep[-1]))
        p = keep[1]; keep.reverse()
        for i in range(n): del b['domain%d' % (i + 1)]
        j['nranks'] = 1
        for i, x in enumerate(keep):
            b['domain%d' % (i + 1)] = x
            for k in '123': x.pop('NGrid_x' + k, None)
            x.pop('AutoWithNProc', None)
        b['job']['num_domains'] = len(keep)
        for o in b:
            if o.startswith('output'): b[o].pop('level', None); b[o].pop('domain', None)
        d = rng.choice(act); k = str(d + 1); dn = D[d]; u = 2 ** c['level']; lo, hi = p.get(dn, 0), p.get(dn, 0) + p['Nx' + k]
        z = ['past', 'past', 'twin', 'twin', 'outside', 'oddn', 'oddd'] + (['near'] * 3 if c['level'] == 1 else []) + (['touch'] * 3 if c['level'] > 1 else [])
        z = 'per' if ask else rng.choice(z); right = rng.random() < 0.5
        if z == 'near': c[dn] = 2 * (hi - 1) - c['Nx' + k] if right else 2 * (lo + 1)
        elif z == 'touch':
            right = rng.random() < 0.5 if lo and hi != keep[0]['Nx' + k] * 2 ** p['level'] else not lo
            if right and hi == keep[0]['Nx' + k] * 2 ** p['level'] or not right and not lo: z = 'past'
            else: c[dn] = 2 * hi - c['Nx' + k] if right else 2 * lo
        elif z == 'per': b['problem'].pop('inflow', None); keep[0]['bc_ix' + k] = keep[0]['bc_ox' + k] = 4; c[dn] = 2 * hi - c['Nx' + k] if right else 2 * lo; z = 'per' if c['Nx' + k] < 2 * (hi - lo) else 'past'
        elif z == 'outside':
            if c['level'] == 1: z = 'past'
            else: c[dn] = 2 * (hi + 2) if right or 2 * lo < c['Nx' + k] + 8 else 2 * lo - c['Nx' + k] - 8; c[dn] -= c[dn] % u
        elif z == 'twin':
            t = copy.deepcopy(c); g = rng.choice([0, c['Nx' + k] // 2 // u * u, c['Nx' + k]]); t[dn] += g if t[dn] + g + t['Nx' + k] <= 2 * hi - 4 else -g
            if rng.random() < 0.5: b['domain%d' % len(keep)], t = t, c
            b['domain%d' % (len(keep) + 1)] = t; b['job']['num_domains'] += 1
            z = 'twin displaced by %d of %d zones' % (g, c['Nx' + k])
        if z == 'past': c[dn] = 2 * hi - c['Nx' + k] + u * rng.choice([1, 2]) if right or lo == 0 else 2 * lo - u * rng.choice([1, 2])
        if z in ('oddn', 'oddd'): c['Nx' + k if z == 'oddn' else dn] += rng.randint(1, u - 1)
        return z
    def damage(self, data, cut):
        how, x, v = cut; n = int(x * len(data))
        if how == 'cut': return data[:n]
        if how == 'flip': return data[:n] + bytes([data[n] ^ v]) + data[n + 1:] if n < len(data) else data
        if how == 'drop': return data[:n] + data[n + v:]
        if how == 'nul': return data[:n] + b'\0' * v + data[n:]
        return data[:n] + b'# ' + b'x' * (20 * v) + data[n:]
    def evaluate(self, ctx, sc):
        j = sc['job']; k = sc['kind']; fs = zoo.fs(j); a = sc['args']
        args = a if '-i' in a else ['-i', 'athinput'] + a
        nr = sc.get('nranks', j['nranks'])
        if 'rst' in k:
            jj = copy.deepcopy(j); b = jj['blocks']
            for o in [o for o in b if o.startswith('output')]: del b[o]
            b['output1'] = {'out_fmt': 'rst', 'dt': 1e-9}; b['job']['maxout'] = 1
            A = ctx.run('make', self.spec(jj, seed=0, policy=CALM))
            if not A.ok: raise Skip('the run that writes the restart files: %s %s' % (A.status, A.log()[-200:]))
            cp = rst.checkpoints(A)
            if not cp: raise Skip('no checkpoint')
            n = sorted(cp)[-1]; fs, name = rst.restart_fs(A, n); p = '/w/rs/' + cp[n][sc['q']].rsplit('/', 1)[1]
            if k == 'rstmiss': del fs[p]
            elif k == 'rstsect':
                L = [m for m in re.finditer(rb'\n(N_STEP|TIME|TIME_STEP|DENSITY|[123]-MOMENTUM|ENERGY|[123]-FIELD|SCALAR 0|PARTICLE LIST|PARTICLE [XV][123]|PARTICLE PROPERTY|PARTICLE MY_ID|PARTICLE INIT_ID|USER_DATA)\n', fs[p])]
                m = L[sc['label'][0] % len(L)]; fs[p] = fs[p][:m.start(1)] + sc['label'][1].encode() + fs[p][m.start(1) + 1:]
            elif k == 'garblerst': fs[p] = self.damage(fs[p], sc['cut'])
            args = ['-r', name]
        if k == 'badline':
            L = fs['/w/athinput'].split(b'\n'); n = int(sc['line'][1] * len(L)); L.insert(n, sc['line'][0].encode()); fs['/w/athinput'] = b'\n'.join(L)
        if k == 'garble':
            fs['/w/athinput'] = self.damage(fs['/w/athinput'], sc['cut'])
            if not sane(rst.params(fs['/w/athinput'].decode('latin1'))): raise Skip('still a well-formed input, of no physical meaning')
        F = ctx.run('fault', Spec(j['config'], nr, args, fs, seed=sc['seed'], faults=[tuple(f) for f in sc['faults']], wantio=1, cpu=20, budget=3000000))
        if sc['faults'] and not sum(F.fired.values()): raise Skip('fault not reached')
        if k == 'garble' and F.status in ('budget', 'hang'): raise Skip('a well-formed input of a longer run')
        hygiene(F, sc['what'])
        ctx.mark(k, j['config'], F.status)
        if fatal_said(F) and F.jobexit == 0: raise Violation('failure-status', '%s: a fatal error is reported but the exit status is 0' % sc['what'])
        if F.jobexit and not errtext(F).strip(): raise Violation('no-message', '%s: the job fails without a message' % sc['what'])
        if sc['must'] and F.jobexit == 0: raise Violation('carries-on', '%s: the job ends as if nothing were wrong' % sc['what'])

class P19(Mpi):
    id = 'P19'
    technique = 'deterministic simulation with fault injection: the k-th memory allocation of one simulated process fails (once or from then on), k drawn from all allocations the healthy run makes; the job must report it and end everywhere, or carry on with the same solution and a report of what it could not write'
    rule = 'a distinct (job, process, allocation number) that failed'
    quick_n, thorough_n = 2000, 60000
    def configs(self, tier):
        return CONF if tier == 'quick' else zoo.ALL + [c + '.s' for c in zoo.ALL]
    def scenario(self, rng, i, tier):
        cf = self.configs(tier); c = cf[i % len(cf)]; s = c.endswith('.s')
        j = zoo.any_(rng, tier, c[:-2] if s else c, nlim=rng.randint(1, 3))
        if s: j = zoo.serial(j, c)
        zoo.outputs(rng, j, n=rng.randint(2, 6))
        if rng.random() < 0.2: j['blocks']['log'] = {'file_open': 1, 'lazy': rng.choice([0, 1])}
        if rng.random() < 0.3: j['blocks']['problem']['udata'] = 3
        return dict(job=j, q=rng.randrange(j['nranks']), x=[[rng.choice([0, 1, 2]), rng.random(), rng.choice([0, 0, 1])] for _ in range(5)], rst=int(rng.random() < 0.25), seed=rng.randint(1, 2**31))
    def evaluate(self, ctx, sc):
        j = sc['job']; fs = zoo.fs(j); args = ['-i', 'athinput']; q = sc['q']
        if sc['rst']:
            jj = copy.deepcopy(j); b = jj['blocks']; n = 1 + max([int(o[6:]) for o in b if o.startswith('output')] + [0])
            for o in [o for o in b if o.startswith('output')]: 
                if b[o]['out_fmt'] == 'rst': del b[o]
            b['output%d' % n] = {'out_fmt': 'rst', 'dt': 1e-9}; b['job']['maxout'] = n; b['time']['nlim'] = 1
            M = ctx.run('make', self.spec(jj, seed=0, policy=CALM))
            cp = rst.checkpoints(M)
            if not M.ok or not cp: raise Skip('the run that writes the restart files: %s %s' % (M.status, M.log()[-200:]))
            fs, name = rst.restart_fs(M, sorted(cp)[0]); args = ['-r', name]
        A = ctx.run('calm', Spec(j['config'], j['nranks'], args, fs, seed=0, policy=CALM))
        if not A.ok: raise Skip('healthy run: %s %s %s' % (A.status, A.why, A.log()[-150:]))
        n = A.ralloc[q]
        for i, (where, x, v) in enumerate(sc['x']):
            k = 1 + int(x * n) if where else max(1, n - int(x * min(n, 60)))
            if where == 1: k = 1 + int(x * x * n)
            F = ctx.run('fault%d' % i, Spec(j['config'], j['nranks'], args, fs, seed=sc['seed'] + i, faults=[('alloc_fail', q, k, v, 0, '*')]))
            if not sum(F.fired.values()): continue
            what = 'allocation %d of %d of process %d fails' % (k, n, q)
            hygiene(F, what)
            ctx.mark(j['config'], k, F.status)
            if F.status == 'crashed': raise Violation('alloc-crash', '%s: %s' % (what, F.why))
            if not F.ok:
                if not errtext(F).strip(): raise Violation('no-message', '%s: the job fails without a message' % what)
                continue
            for p in A.steps():
                if [s['hash'] for s in A.steps()[p]] != [s['hash'] for s in F.steps()[p]]: raise Violation('solution-changed', '%s: the solution of process %d changes' % (what, p))
            a = {p: d for p, d in A.fs.items() if d is not None}; b = {p: d for p, d in F.fs.items() if d is not None}
            miss = sorted(p for p in a if b.get(p) != a[p] and not p.endswith(('.out', '.err')))
            if miss and errtext(F) == errtext(A): raise Violation('failure-not-reported', '%s: exit status 0 and no message, but %s is incomplete' % (what, miss[0]))
