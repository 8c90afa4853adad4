import sys, types


def load(path, name='contracts_mod'):
    with open(path) as f:
        src = f.read()
    mod = types.ModuleType(name)
    mod.__file__ = path
    sys.modules[name] = mod
    exec(compile(src, path, 'exec', dont_inherit=True), mod.__dict__)
    return mod
