#!/usr/bin/env -S python3-vt
"""dbg.py CONTRACT UNIT [script]: explore one unit and print its obligations (path conditions)"""
import sys, os, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from pyvc import build, loader
d = tempfile.mkdtemp(prefix='pyvc-dbg-'); os.environ['PYVC_SCRATCH'] = d
build.scratch_build(d)
lits = loader.contract_literals(sys.argv[1])
loader.install(d + '/lib', {m: set(q) for m, q in lits.get('LOOPS', {}).items()})
from pyvc import harness, spec
from pyvc.engine import Engine
from pyvc.solve import discharge
import z3
z3.set_option(max_args=100000, max_lines=100000, max_depth=100000)
mod = loader.load_contracts(sys.argv[1], 'contracts_mod', True)
u = [u for u in harness.UNITS if u.name == sys.argv[2]][0]
eng = Engine(u.name, **u.kw.get('engine', {}))
t = time.time(); eng.explore(u.fn)
print('paths', eng.paths, 'completed', eng.completed, 'limits', eng.limits, time.time() - t)
show = sys.argv[3] if len(sys.argv) > 3 else None
for i, o in enumerate(eng.obls):
    if show is None:
        print(i, o.name, o.status, o.reason[:100])
    elif show == 'all' or str(i) in show.split(','):
        discharge(o, 20, u.kw.get('fuel', 2))
        print('====', i, o.name, o.status, round(o.time, 1), o.reason, o.model)
        if show != 'all':
            for p in o.pc: print('   ', p)
            print('  GOAL', o.goal)
import shutil; shutil.rmtree(d)
os._exit(0)
