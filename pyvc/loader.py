"""Import hook: bup modules are loaded from the scratch copy, instrumented."""
import ast, importlib.abc, importlib.machinery, importlib.util, os, sys
from .instrument import instrument_source
from . import engine

loop_keys = {}
native_modules = {'bup.compat', 'bup.options', 'bup.pwdgrp', 'bup.config', 'bup.io', 'bup.version',
                  'bup.checkout_info', 'bup.source_info', 'bup.main', 'bup.ssh'}
loaded = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        return None

    def exec_module(self, module):
        path = self.path
        with open(path, 'rb') as f:
            src = f.read().decode('utf-8', 'surrogateescape')
        name = module.__name__
        code, ins = instrument_source(src, name, path, loop_keys.get(name, ()))
        loaded[name] = ins
        module.__dict__['_vc_'] = engine.dispatch
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, lib):
        self.lib = lib

    def find_spec(self, name, path=None, target=None):
        if not name.startswith('bup.') or name in native_modules:
            return None
        base = os.path.join(self.lib, *name.split('.'))
        for p, pkg in ((base + '/__init__.py', True), (base + '.py', False)):
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=_Loader(name, p),
                    submodule_search_locations=[base] if pkg else None)
        return None


def install(lib, keys):
    loop_keys.update(keys)
    sys.meta_path.insert(0, Finder(lib))
    sys.path.insert(0, lib)
    sys.dont_write_bytecode = True


def contract_literals(path):
    """top-level literal assignments of a contract file (LOOPS and the like)"""
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    res = {}
    for s in tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                res[s.targets[0].id] = ast.literal_eval(s.value)
            except ValueError:
                pass
    return res


def load_contracts(path, name, symbolic):
    with open(path) as f:
        src = f.read()
    ns = {'__name__': name, '__file__': path}
    if symbolic:
        code, _ = instrument_source(src, name, path, (), spec=True)
        ns['_vc_'] = engine.dispatch_spec
    else:
        code = compile(src, path, 'exec', dont_inherit=True)
    import types
    mod = types.ModuleType(name)
    mod.__dict__.update(ns)
    sys.modules[name] = mod
    exec(code, mod.__dict__)
    return mod
