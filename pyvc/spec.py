"""Specification helpers with a symbolic and a concrete reading.

Contract files do `from pyvc.spec import *`.  In the proving process the names
below build solver terms; in the native process (no z3) they compute."""
import os, sys

NATIVE = os.environ.get('PYVC_NATIVE') == '1'

if NATIVE:
    class Type:
        def __init__(self, *a, **k): self.a, self.k = a, k
    class _T(Type):
        def __init__(self, n): self.name = n
        def __repr__(self): return self.name
    Int, Nat, Bool, Bytes, Str, Byte256 = map(_T, ('Int', 'Nat', 'Bool', 'Bytes', 'Str', 'Byte256'))
    class Seq(Type):
        def __init__(self, elt): self.elt = elt
    class FixedBytes(Type):
        def __init__(self, n): self.n = n
    class Opaque(Type):
        def __init__(self, name): self.name = name
    class Tup(Type):
        def __init__(self, *ts, cls=None): self.ts, self.cls = ts, cls
    class Opt(Type):
        def __init__(self, t): self.t = t

    def rec(*params, ret=None, fuel=2):
        return lambda f: f

    def forall(lo, hi, f):
        return all(f(i) for i in range(lo, hi))

    def exists(lo, hi, f):
        return any(f(i) for i in range(lo, hi))

    def implies(a, b):
        return (not a) or bool(b)

    def ite(c, a, b):
        return a if c else b

    def unknown(what):
        raise NotImplementedError(what)

    def VIter(x):
        return iter(list(x))

    FnSeq = None

    def ufn(name, params, ret):
        def f(*a):
            raise NotImplementedError(name)
        f.raw = f
        return f

    def byte(x):
        return bytes([x])

    class lemma:
        def __init__(self, name, params, statement, **k): self.statement = statement
else:
    import z3
    from .values import *
    from .values import Raw, VC as _VC, mkbool as _mkbool, bool_e as _bool_e, int_e as _int_e
    from .engine import RecFn as _RecFn, dispatch_spec as _ds, merge as _merge, axiom_gen, uf, FnSeq
    from .models import VIter

    def rec(*params, ret=None, fuel=2):
        return lambda f: _RecFn(f, params, ret, fuel)

    def byte(x):
        from .engine import byte_of
        return bytes([x]) if isinstance(x, int) else byte_of(x)

    def ufn(name, params, ret):
        """an uninterpreted function: anything that depends on its arguments alone"""
        f = uf(name, *[t.sort() for t in params], ret.sort())

        def call(*a):
            e = f(*[t.unwrap(x) for t, x in zip(params, a)])
            VC = _VC[0]
            if VC is not None:
                VC.facts(ret.facts(e))
            return ret.wrap(e)
        call.raw = lambda *a: Raw(f(*[t.unwrap(x) for t, x in zip(params, a)]))
        return call

    _qn = [0]

    def _quant(lo, hi, f, all_):
        if not has_sym((lo, hi)) and hi - lo <= 64:
            xs = [_ds.tobool(f(i)) for i in range(lo, hi)]
            es = [_bool_e(x) for x in xs]
            if not es:
                return all_
            return _mkbool(z3.And(*es) if all_ else z3.Or(*es))
        _qn[0] += 1
        i = z3.Int(f'q!{_qn[0]}')
        body = _bool_e(_ds.tobool(f(SInt(i))))
        rng = z3.And(i >= _int_e(lo), i < _int_e(hi))
        if all_:
            return SBool(z3.ForAll([i], z3.Implies(rng, body)))
        return SBool(z3.Exists([i], z3.And(rng, body)))

    def forall(lo, hi, f):
        return _quant(lo, hi, f, True)

    def exists(lo, hi, f):
        return _quant(lo, hi, f, False)

    def implies(a, b):
        a = _ds.tobool(a)
        b = _ds.tobool(b)
        return _mkbool(z3.Implies(_bool_e(a), _bool_e(b)))

    def ite(c, a, b):
        c = _ds.tobool(c)
        if isinstance(c, bool):
            return a if c else b
        return _merge(c.e, a, b)

    def unknown(what):
        """this stand-in cannot tell: the unit is undecided"""
        from .values import ToolLimit
        raise ToolLimit(what)

    _lemmas = []

    class lemma:
        """A statement proved once (by induction when `ih` is given) and then
        instantiated with h.use(lemma, args)."""
        def __init__(self, name, params, statement, requires=None, measure=None, ih=None,
                     uses=None):
            self.name, self.params, self.stmt = name, params, statement
            self.requires, self.measure, self.ih, self.uses = requires, measure, ih, uses
            _lemmas.append(self)

        def statement(self, *args):
            s = _bool_e(_ds.tobool(self.stmt(*args)))
            if self.requires is not None:
                s = z3.Implies(_bool_e(_ds.tobool(self.requires(*args))), s)
            return _mkbool(s)

        def prove(self, h):
            args = [h.input(f'{self.name}_{i}', t) for i, t in enumerate(self.params)]
            if self.requires is not None:
                h.assume(self.requires(*args))
            if self.ih is not None:
                m = _int_e(self.measure(*args))
                for cond, ia in self.ih(*args):
                    c = _bool_e(_ds.tobool(cond))
                    mi = _int_e(self.measure(*ia))
                    h.check(_mkbool(z3.Implies(c, z3.And(m >= 0, mi >= 0, mi < m))),
                            f'lemma {self.name}: induction is well founded', 'lemma')
                    h.assume(_mkbool(z3.Implies(c, _bool_e(self.statement(*ia)))))
            if self.uses is not None:
                for l, la in self.uses(*args):
                    h.use(l, *la)
            h.check(self.stmt(*args), f'lemma {self.name}', 'lemma')
