#!/usr/bin/env python3
"""Which basic blocks of the code under test did simulated runs reach?  Development aid, not a check.
   ATHSIM_COV=1 ATHSIM_BUILD=<dir> ATHSIM_COVOUT=<covdir> python3-vt check.py P01 quick ; tools/cov.py <builddir> <covdir> [file.c ...]"""
import sys, os, glob, re, subprocess, collections
bd, cd = sys.argv[1:3]; want = sys.argv[3:]
hit, all_ = collections.defaultdict(set), collections.defaultdict(set)
for c in glob.glob(cd + '/*.cov'):
    so = glob.glob(bd + '/*/' + os.path.basename(c)[:-4])
    if not so: continue
    d = subprocess.run(['objdump', '-d', '--no-show-raw-insn', so[0]], capture_output=True, text=True).stdout.splitlines()
    pts = []
    for i, l in enumerate(d):
        if 'call' in l and 'sanitizer_cov_trace_pc' in l and i + 1 < len(d):
            m = re.match(r'\s*([0-9a-f]+):', d[i + 1])
            if m: pts.append(int(m.group(1), 16))
    o = subprocess.run(['addr2line', '-e', so[0]], input='\n'.join(hex(p - 1) for p in pts), capture_output=True, text=True).stdout.splitlines()
    m = open(c, 'rb').read()
    for p, l in zip(pts, o):
        f, n = l.split(' ')[0].rsplit(':', 1)
        k = '/'.join(f.split('/src/')[-1:]) if '/src/' in f else os.path.basename(f)
        k = os.path.basename(k); n = int(n) if n.isdigit() else 0
        all_[k].add(n)
        if m[p]: hit[k].add(n)
for k in sorted(all_):
    if want and k not in want: continue
    miss = sorted(all_[k] - hit[k])
    print('%-28s %4d of %4d lines with blocks not reached' % (k, len(miss), len(all_[k])), miss if want else '')
