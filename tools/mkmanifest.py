#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from the registered checks."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib'); sys.dont_write_bytecode = True
import checks
NA = {
 'P21': 'convergence order is a pure function of the input: no schedule, message, clock, file or fault is involved (decided by the repository\'s own error-norm tests, not by simulation)',
 'P22': 'symmetry of the numerical scheme is a pure function of the input: no schedule, message, clock, file or fault is involved',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
cs = []
for p in ids:
    if p not in checks.CHECKS: continue
    c = checks.CHECKS[p]
    cs.append(dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p, technique=c.technique, level=c.level, level_note=c.level_note, evidence_file='evidence/%s.json' % p))
m = dict(version=1, setup_cmd='python3-vt -c "import numpy"', hooks=dict(guard='none', enable='no hook in /repo: the checks compile /repo/src unmodified and interpose at link time (--wrap) and through a simulated mpi.h', source_commits=[]),
         checks=cs, not_applicable=[dict(property=p, reason=NA.get(p, 'check not built yet')) for p in ids if p not in checks.CHECKS],
         notes='Every check is one process tree under /verif/check.py; VERIF_SEED and VERIF_TIER are honoured; replay with: python3-vt check.py <id> --replay <file>')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print([c['property'] for c in cs], [n['property'] for n in m['not_applicable']])
