"""P20: parameters of all processes."""
from fw import *
import zoo, oracle, rst, copy, re
from prop_mpi import Mpi
WS = ' \t\n\v\f\r'

def parse(text, found=False):
    """executable model of the parameter file format: {block: {name: [value, comment]}} in order;
    found: what looking a parameter up in a printed list finds (the first block and the first name)"""
    B = {}; cur = None
    for line in text.split('\n'):
        t = line.lstrip(WS)
        if not t or t[0] == '#': continue
        if t.startswith('<par_end>'): break
        if t[0] == '<':
            k = t[1:t.index('>')].strip(WS)
            if found and k in B: cur = {}
            else: cur = B.setdefault(k, {})
            continue
        h = t.find('#'); com = None
        if h >= 0: com = t[h + 1:].strip(WS) or None; t = t[:h]
        n, v = t.split('=', 1); n = n.strip(WS); v = v.strip(WS)
        if n in cur:
            if found: continue
            cur[n][0] = v
            if com is not None: cur[n][1] = com
        else: cur[n] = [v, com]
    return B

def override(B, args):
    for a in args:
        b, r = a.split('/', 1); n, v = r.split('=', 1); B[b][n][0] = v

def word(rng, n, chars):
    return ''.join(rng.choice(chars) for _ in range(n))
ALNUM = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_'
VAL = ALNUM + '.+-*/=<>()[]{}:;,!?"\'%$&@~|\\^ \t'
def length(rng): return rng.choice([1, 2, 3, 5, 8, 13, 30, 60, 77, 78, 79, 80, 81, 120, 200, 240, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 700, 1500])
def value(rng):
    if rng.random() < 0.08: return ''
    n = length(rng)
    if n == 1: return word(rng, 1, ALNUM)
    return word(rng, 1, ALNUM) + word(rng, n - 2, VAL) + word(rng, 1, ALNUM)
def junk(rng):
    """text of some blocks nobody asks for: [(block, [line...])]"""
    out = []
    names = [word(rng, length(rng) if rng.random() < 0.2 else rng.randint(1, 12), ALNUM) for _ in range(rng.randint(1, 4))]
    for _ in range(rng.randint(1, 6)):
        L = []
        for _ in range(rng.randint(0, 6)):
            r = rng.random()
            if r < 0.1: L.append('  # ' + value(rng)); continue
            if r < 0.2: L.append(rng.choice(['', '   ', '\t'])); continue
            n = rng.choice(['a', 'b', 'c', 'dd', 'Nx1', 'x1min', word(rng, rng.randint(1, 10), ALNUM), word(rng, length(rng), ALNUM)])
            s = rng.choice(['', ' ', '   ', '\t'])
            c = rng.choice(['', '', '#', ' # ' + value(rng).replace('#', ''), '#' + value(rng), ' # ' + value(rng) + ' # more'])
            L.append(rng.choice(['', ' ', '\t']) + n + s + '=' + rng.choice(['', ' ', '  ']) + value(rng) + s + c + rng.choice(['', '', ' ', '\r']))
        out.append((rng.choice(['<%s>', ' <%s>', '< %s >', '<%s> trailing']) % rng.choice(names), L))
    return out

class P20(Mpi):
    id = 'P20'
    technique = 'deterministic simulation: seeded parameter files (any order, repeated blocks and names, lengths around every internal limit, empty values, comments) and command lines, on many simulated processes and schedules; the parameter dump of every process and every checkpoint header compared with an executable model of the format'
    rule = 'a distinct (parameter text, command line, process count, schedule)'
    quick_n, thorough_n = 3000, 100000
    CF = ['hyd', 'smrm', 'part', 'hyd.s', 'mhdvl']
    def configs(self, tier):
        return self.CF if tier == 'quick' else zoo.ALL + [c + '.s' for c in zoo.ALL]
    def scenario(self, rng, i, tier):
        cf = self.configs(tier); c = cf[i % len(cf)]; s = c.endswith('.s')
        j = zoo.any_(rng, tier, c[:-2] if s else c, nlim=rng.randint(1, 3))
        if s: j = zoo.serial(j, c)
        b = j['blocks']
        for o in [o for o in b if o.startswith('output')]: del b[o]
        b['output1'] = {'out_fmt': 'rst', 'dt': 1e-9}; b['output2'] = {'out_fmt': 'hst', 'dt': rng.choice([1e-3, 10.0])}; b['job']['maxout'] = 2
        if rng.random() < 0.3: b['job']['problem_id'] = word(rng, rng.choice([1, 3, 20, 60, 100, 150]), ALNUM)
        parts = []
        for k in b:
            it = list(b[k].items()); rng.shuffle(it); cut = rng.randint(0, len(it)) if rng.random() < 0.5 else 0
            for piece in (it[:cut], it[cut:]):
                if piece: parts.append((k, piece))
        rng.shuffle(parts); text_ = []
        for k, piece in parts:      # an earlier definition of some parameters, which the later one replaces
            L = []
            if rng.random() < 0.3:
                L += ['%s = %s%s' % (n, value(rng).replace('#', ''), rng.choice(['', ' # ' + value(rng)])) for n, v in piece if rng.random() < 0.3]
            text_.append(('<%s>' % k, L + ['%s = %s' % (n, v) for n, v in piece]))
        for h, L in junk(rng): text_.insert(rng.randint(0, len(text_)), (h, L))
        parts = text_
        text = '\n'.join(h + '\n' + '\n'.join(L) for h, L in parts) + '\n'
        B = parse(text)
        def ov(n):
            L = []
            for _ in range(n):
                k = rng.choice([k for k in B if B[k]] ); m = rng.choice(list(B[k]))
                if '/' in k or '=' in m: continue
                if k in b and m in b[k]: v = B[k][m][0] if rng.random() < 0.7 else {'nlim': '2', 'cour_no': '0.25', 'tlim': '5.0', 'dt': '0.5', 'amp': '0.04', 'iseed': '77'}.get(m, B[k][m][0])
                else: v = value(rng)
                L.append('%s/%s=%s' % (k, m, v))
            return L
        return dict(job=j, text=text, args=ov(rng.choice([0, 0, 1, 2, 5])), args2=ov(rng.choice([0, 1, 3])), full=int(rng.random() < 0.35), n=rng.choice([j['nranks'], rng.randint(1, 8)]), seed=rng.randint(1, 2**31), seed2=rng.randint(1, 2**31))
    def dumps(self, r, want, what):
        nr = r.spec.nranks; first = None
        for q in range(nr):
            out = r.out[q].decode('latin1'); i = out.find('# --------------------- PAR_DUMP')
            if i < 0: raise Violation('no-dump', '%s: process %d prints no parameters' % (what, q))
            try: got = parse(out[i:], True)
            except (ValueError, TypeError): raise Violation('parameters', '%s: the parameters printed by process %d are not well formed' % (what, q))
            for b in want:
                if b not in got: raise Violation('parameters', '%s: process %d has no block %r' % (what, q, b[:60]))
                for n, (v, c) in want[b].items():
                    if n not in got[b]: raise Violation('parameters', '%s: process %d has no %s/%s' % (what, q, b[:60], n[:60]))
                    w = v + '-id%d' % q if q and (b, n) == ('job', 'problem_id') else v
                    if got[b][n][0] != w: raise Violation('parameters', '%s: process %d has %s/%s = %r instead of %r' % (what, q, b[:60], n[:60], got[b][n][0][:80], w[:80]))
                    if got[b][n][1] != c: raise Violation('parameters', '%s: process %d has another comment for %s/%s' % (what, q, b[:60], n[:60]))
                more = [n for n in got[b] if n not in want[b]]
                if more: raise Violation('parameters', '%s: process %d has %s/%s, which nobody set' % (what, q, b[:60], more[0][:60]))
            k = {b: {n: v for n, v in got[b].items() if (b, n) != ('job', 'problem_id')} for b in got}
            if first is None: first = k
            elif k != first: raise Violation('parameters', '%s: processes 0 and %d have different parameters' % (what, q))
    def evaluate(self, ctx, sc):
        j = sc['job']; fs = {'/w': None, '/w/athinput': sc['text'].encode('latin1')}
        ser = j['config'].endswith('.s'); n = 1 if ser else sc['n']
        B = parse(sc['text']); override(B, sc['args'])
        r = ctx.run('dump', Spec(j['config'], n, ['-i', 'athinput', '-n'] + sc['args'], fs, seed=sc['seed']))
        for v in r.viols: raise Violation('par-' + v[0], v[1])
        if not r.ok: raise Violation('par-run', 'printing the parameters fails: %s %s' % (r.status, (r.why or '') + r.log()[-200:]))
        self.dumps(r, B, 'input file')
        ctx.mark('dump', n, len(sc['text']) // 500)
        if not sc['full']: return
        A = ctx.run('make', Spec(j['config'], j['nranks'], ['-i', 'athinput'] + sc['args'], fs, seed=sc['seed']))
        for v in A.viols: raise Violation('par-' + v[0], v[1])
        if not A.ok: raise Skip('run: %s %s' % (A.status, A.log()[-200:]))
        cp = rst.checkpoints(A)
        if not cp: raise Skip('no checkpoint')
        k = sorted(cp)[-1]; heads = {}
        for q, p in cp[k].items():
            d = A.fs[p]; e = d.find(b'<par_end>')
            if e < 0: raise Violation('header', 'checkpoint %s has no parameters' % p)
            heads[q] = H = parse(d[:e].decode('latin1'))
            for b in B:
                for m, (v, c) in B[b].items():
                    w = v + '-id%d' % q if q and (b, m) == ('job', 'problem_id') else v
                    if b not in H or m not in H[b]: raise Violation('header', 'checkpoint %s does not hold %s/%s' % (p, b[:60], m[:60]))
                    if H[b][m][0] != w: raise Violation('header', 'checkpoint %s holds %s/%s = %r instead of %r' % (p, b[:60], m[:60], H[b][m][0][:80], w[:80]))
        # what the run did is what the plain list of these parameters makes it do
        plain = ''.join('<%s>\n' % k + ''.join('%s = %s\n' % (m, B[k][m][0]) for m in B[k]) for k in B if k in j['blocks'])
        P = ctx.run('plain', Spec(j['config'], j['nranks'], ['-i', 'athinput'], {'/w': None, '/w/athinput': plain.encode('latin1')}, seed=sc['seed2']))
        if not P.ok: raise Violation('plain', 'the plain parameters fail where the scattered ones worked: %s' % P.status)
        def body(R): return {p: (d[d.find(b'<par_end>'):] if p.endswith('.rst') else d) for p, d in R.fs.items() if d is not None and not p.endswith('athinput')}
        x, y = body(A), body(P)
        if sorted(x) != sorted(y): raise Violation('plain', 'the same parameters, written plainly, give other files: %s' % sorted(set(x) ^ set(y))[:4])
        for p in sorted(x):
            if x[p] != y[p]: raise Violation('plain', 'the same parameters, written plainly, give another %s' % p)
        fs2, name = rst.restart_fs(A, k)
        want = copy.deepcopy(heads[0]); override(want, sc['args2'])
        r = ctx.run('redump', Spec(j['config'], j['nranks'], ['-r', name, '-n'] + sc['args2'], fs2, seed=sc['seed2']))
        for v in r.viols: raise Violation('par-' + v[0], v[1])
        if not r.ok: raise Violation('par-run', 'reading the parameters of a checkpoint back fails: %s %s' % (r.status, (r.why or '') + r.log()[-200:]))
        self.dumps(r, want, 'restart file')
        ctx.mark('restart', j['config'])
