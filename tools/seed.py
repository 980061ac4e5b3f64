#!/usr/bin/env python3
"""seed.py ID [PROP ...]: completes seeded/ID (copies the laboratory beside demo.py, writes demo.sh), then
confirms demo (0 on /repo, nonzero on a patched copy) and reports which checks catch the patch."""
import os, sys, json, shutil, subprocess, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    sid = sys.argv[1]; props = sys.argv[2:]; D = V + '/seeded/' + sid
    meta = json.load(open(D + '/meta.json')); props = props or [meta['property']]
    K = D + '/kit'
    if os.path.exists(D + '/demo.py'):
        shutil.rmtree(K, ignore_errors=True); os.makedirs(K + '/lib'); os.makedirs(K + '/sim')
        for f in ('build', 'configs', 'engine', 'fw', 'oracle', 'rst', 'zoo'): shutil.copy(V + '/lib/%s.py' % f, K + '/lib/')
        for f in ('mpi.h', 'sim.c', 'observer.c', 'simprob.c'): shutil.copy(V + '/sim/' + f, K + '/sim/')
        shutil.copy(V + '/tools/kit/demolib.py', K)
        open(D + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository; files beside this script only\nexport ATHSIM_REPO="$PWD"\nexec python3-vt "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    R = os.environ.get('SEED_REPO', '/repo'); W = '/tmp/bugwt'
    subprocess.run(['rm', '-rf', W]); subprocess.check_call(['git', 'clone', '-q', R, W])
    subprocess.check_call(['git', '-C', W, 'apply', D + '/patch.diff'])
    t = time.time()
    needbuild = not os.path.exists(D + '/demo.py')
    a = subprocess.run(['bash', D + '/demo.sh'], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print('demo on /repo: %d (%.0f s)' % (a.returncode, time.time() - t)); print(a.stdout[-600:] if a.returncode else '')
    b = subprocess.run(['bash', D + '/demo.sh'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print('demo patched: %d' % b.returncode); print(b.stdout[-500:])
    for p in props:
        c = subprocess.run(['python3-vt', V + '/check.py', p, 'quick'], env=dict(os.environ, ATHSIM_REPO=W, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('check %s: rc %d\n   %s' % (p, c.returncode, '\n   '.join(c.stdout.strip().splitlines()[-6:])[:900]))
    subprocess.run(['rm', '-rf', W])
main()
