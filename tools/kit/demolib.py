"""Small laboratory for demonstrations: builds the code in the current directory's
tree (unmodified) against a simulated MPI/disk and runs jobs with it.  Everything
happens in memory and in a temporary directory that is removed at the end."""
import os, sys, tempfile, shutil, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
_tmp = tempfile.mkdtemp(prefix='demo.'); atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
os.environ['ATHSIM_BUILD'] = _tmp; os.environ.setdefault('ATHSIM_REPO', os.getcwd()); os.environ['ATHSIM_JOBS'] = '4'
os.environ['CCACHE_DISABLE'] = '1'
sys.path.insert(0, os.path.join(HERE, 'lib'))
import numpy as np
import zoo, oracle, rst, random
from fw import Violation
from engine import Engine, Spec, CALM, inp
BAD = []
def expect(cond, msg):
    print(('ok   ' if cond else 'FAIL ') + msg, flush=True)
    if not cond: BAD.append(msg)
def finish():
    print('demonstration: ' + ('property broken' if BAD else 'property holds')); sys.stdout.flush()
    sys.exit(1 if BAD else 0)
_eng = {}
def run(j, fs=None, args=None, **kw):
    c = j['config']
    if c not in _eng: _eng[c] = Engine([c], 4)
    a = ['-i', 'athinput'] + j.get('args', []) if args is None else args
    return _eng[c].run(Spec(c, j['nranks'], a, fs if fs is not None else zoo.fs(j), **kw))
def uniform(config, nx, ng, nlim=4, bc=((4, 4),) * 3, box=((0., 1.), (-.5, .5), (0., 1.)), outs=(), **p):
    b = zoo.base(nlim, outs=outs, cour=0.3)
    j = zoo.finish(random.Random(7), b, config, list(nx), list(box), list(bc), list(ng), 'demo', sum(n > 1 for n in nx), p)
    return j
def same(par, ref, tol=1e-9):
    """the two runs have the same solution"""
    try:
        if not (par.ok and ref.ok): raise Violation('run', '%s %s / %s %s %s' % (par.status, par.why, ref.status, ref.why, par.viols[:2]))
        oracle.compare_steps(par, ref, tol); oracle.compare(oracle.assemble(oracle.final(par)), oracle.assemble(oracle.final(ref)), tol); return True
    except Violation as v:
        print('     ' + str(v)[:300]); return False
