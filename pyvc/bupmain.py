"""Stands for the bup executable in a scratch build: bup's own main, in the interpreter that runs the checks."""
import os, sys, types
lib = sys.argv[1]
sys.argv[1:2] = []
sys.argv[0] = 'bup'
sys.path[:0] = [lib]
sys.dont_write_bytecode = True
m = types.ModuleType('bup_main')
m.env_pythonpath = os.fsencode(lib)
sys.modules['bup_main'] = m
if os.environb.get(b'PYVC_OPHOOK'):
    import importlib.util
    spec = importlib.util.spec_from_file_location('pyvc_ophook', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ophook.py'))
    ophook = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(ophook)
    ophook.install()
from bup.main import main
main()
