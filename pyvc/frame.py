"""What a cut loop may change.

A loop replaced by its invariant is sound only if everything its body changes
is made arbitrary first.  Locals are (their names are read off the code); for
everything else reachable from the locals, the stand-ins and the invariant,
this records which cells the contract makes arbitrary and which the body
changes, and reports any cell of the second kind that is not of the first."""
import io, types
from .values import Sym, VDict, VList, VSet

SKIP = (type, types.ModuleType, types.BuiltinFunctionType, str, bytes, int, float, bool, type(None))
LIMIT = 4000


class Seen:
    def __init__(self):
        self.cells = {}         # name -> (read, value)
        self.objs = set()
        self.keep = []


def value(v):
    """a comparable snapshot of one cell's value"""
    if isinstance(v, tuple):
        return ('t', tuple(value(x) for x in v))
    if isinstance(v, Sym):
        try:
            return ('e', v.e.get_id())
        except AttributeError:
            return ('o', id(v))
    if type(v) in (int, bytes, str, bool, float, type(None)):
        return (type(v).__name__, v)
    return ('o', id(v))


def contents(o):
    if isinstance(o, VList):
        if o.sym is not None:
            return ('s', value(o.sym))
        return ('l', tuple(value(x) for x in list.__iter__(o)))
    if isinstance(o, list):
        return ('l', tuple(value(x) for x in o))
    if isinstance(o, (VDict, VSet)):
        return tuple((k, tuple(value(x) for x in v) if k == 'items_' else id(v)) for k, v in vars(o).items()
                     if k not in ('kt', 'vt'))
    if isinstance(o, dict):
        return ('d', tuple((value(k), value(v)) for k, v in o.items()))
    if isinstance(o, (set, frozenset)):
        return ('S', tuple(sorted(map(repr, o))))
    if isinstance(o, bytearray):
        return ('b', bytes(o))
    if isinstance(o, io.BytesIO):
        return ('io', o.getvalue(), o.tell())


def walk(roots):
    s = Seen()
    todo = [(n, o) for n, o in roots]
    k = 0
    while k < len(todo) and len(s.objs) < LIMIT:
        name, o = todo[k]
        k += 1
        if isinstance(o, SKIP) or id(o) in s.objs:
            continue
        if isinstance(o, tuple):
            todo += [(f'{name}.{i}', x) for i, x in enumerate(o)]
            continue
        if isinstance(o, types.MethodType):
            todo += [(name, o.__self__), (name, o.__func__)]
            continue
        s.objs.add(id(o))
        s.keep.append(o)
        if isinstance(o, types.FunctionType):
            for n, c in zip(o.__code__.co_freevars, o.__closure__ or ()):
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if id(c) in s.objs:
                    continue
                s.objs.add(id(c))
                s.keep += [c, v]
                s.cells[f'{n}'if n not in s.cells else f'{name}.{n}'] = (lambda c=c: value(c.cell_contents), value(v))
                todo.append((n, v))
            for i, v in enumerate(o.__defaults__ or ()):
                todo.append((f'{name}.{i}', v))
            continue
        if isinstance(o, (list, dict, set, VDict, VSet, bytearray, io.BytesIO)):
            s.cells[name + '[]'] = (lambda o=o: contents(o), contents(o))
            if isinstance(o, VList):
                todo += [(f'{name}[].{i}', x) for i, x in enumerate(list.__iter__(o))] if o.sym is None else []
            elif isinstance(o, list):
                todo += [(f'{name}[].{i}', x) for i, x in enumerate(o)]
            elif isinstance(o, dict):
                todo += [(f'{name}[].{i}', x) for i, x in enumerate(o.values())]
            elif isinstance(o, VDict):
                todo += [(f'{name}[].{i}', x[1]) for i, x in enumerate(o.items_)]
            continue
        mod = type(o).__module__ or ''
        if isinstance(o, Sym) or mod.startswith(('pyvc.', 'z3', 'builtins')) and type(o).__name__ not in ('VIter', 'FnSeq'):
            continue
        d = getattr(o, '__dict__', None)
        names = list(d) if isinstance(d, dict) else []
        for c in type(o).__mro__:
            sl = c.__dict__.get('__slots__', ())
            names += [sl] if isinstance(sl, str) else list(sl)
        for n in names:
            if n.startswith('__'):
                continue
            try:
                v = getattr(o, n)
            except Exception:
                continue
            s.keep.append(v)
            s.cells[f'{name}.{n}'] = (lambda o=o, n=n: value(getattr(o, n, None)), value(v))
            todo.append((f'{name}.{n}', v))
    return s


def changed(s):
    """the cells of a walk that have another value now"""
    out = set()
    for n, (read, v) in s.cells.items():
        try:
            if read() != v:
                out.add(n)
        except Exception:
            out.add(n)
    return out


class Record:
    """per loop: what the contract makes arbitrary, what the body changes"""
    def __init__(self):
        self.free, self.changed = set(), set()

    def bad(self):
        out = set()
        for n in self.changed:
            m = n.replace('[]', '')
            ok = False
            for f in self.free:
                g = f.replace('[]', '')
                if m == g or m.startswith(g + '.'):
                    ok = True
            if not ok:
                out.add(n)
        return out
