"""Checkpoints, output rounds and files of a simulated run."""
import os, re

def rounds(r):
    """per process, the rounds of the output driver: step, flag (1: everything), time and the files written, from the I/O history.
    Round 0 collects what was written before the first one."""
    out = {q: [dict(nstep=-1, flag=-1, t=0.0, dt=0.0, files={}, closed=set())] for q in range(r.spec.nranks)}
    for line in r.io:
        a = line.split(' ')
        if a[0] == 'k':
            out[int(a[1])].append(dict(nstep=int(a[2]), flag=int(a[3]), t=float.fromhex(a[4]), dt=float.fromhex(a[5]), clock=float.fromhex(a[6]), files={}, closed=set()))
        elif a[0] in 'owc' and len(a) > 3 and not a[2].endswith(('.out', '.err', '.dat')):       # the message logs are opened when there is something to say; .dat: files of the problem itself
            f = out[int(a[1])][-1]['files']
            if a[0] == 'o':
                if a[3][0] != 'r': f.setdefault(a[2], [a[3][0], 0])
            elif a[0] == 'w':
                f.setdefault(a[2], ['?', 0])[1] += int(a[3])
            elif a[2] in f: out[int(a[1])][-1]['closed'].add(a[2])
    return out

def rank_of(path):
    m = re.match(r'/w(?:/run)?/id(\d+)/', path)
    return int(m.group(1)) if m else 0

def base0(path):
    """restart file of process 0 -> base name used by all processes"""
    return os.path.basename(path)

def checkpoints(r):
    """complete checkpoint sets on the disk of a run: {number: {rank: path}}"""
    sets = {}
    for p, d in r.fs.items():
        m = re.search(r'\.(\d+)\.rst$', p)
        if m and d is not None and '/rs/' not in p: sets.setdefault(int(m.group(1)), {})[rank_of(p)] = p
    return {n: s for n, s in sets.items() if len(s) == r.spec.nranks}

def restart_fs(r, number, keep=False):
    """a disk with the files of checkpoint `number` of all processes side by side (as a restart needs them), and the name to give to -r"""
    s = checkpoints(r)[number]
    fs = dict(r.fs) if keep else {'/w': None}
    fs['/w/rs'] = None
    for q, p in s.items(): fs['/w/rs/' + os.path.basename(p)] = r.fs[p]
    return fs, 'rs/' + os.path.basename(s[0])

def split(data):
    """parameters (block/name -> value) and binary part of a restart file"""
    i = data.find(b'<par_end>')
    if i < 0: return None, None
    return params(data[:i].decode('latin1')), data[i:]

def params(text):
    d, b = {}, ''
    for line in text.splitlines():
        t = line.strip()
        if not t or t[0] == '#': continue
        if t[0] == '<':
            b = t[1:t.find('>')]; continue
        if '=' not in t: continue
        k, v = t.split('=', 1)
        v = v.split('#', 1)[0].strip()
        d[b + '/' + k.strip()] = v
    return d
