"""Sorts and symbolic values."""
import z3

_sorts = {}


class Type:
    def fresh(self, name):
        return self.wrap(z3.Const(name, self.sort()))

    def facts(self, e):
        return []

    def key(self):
        return repr(self)

    def __eq__(self, o):
        return isinstance(o, Type) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


class _Int(Type):
    def sort(self): return z3.IntSort()
    def wrap(self, e): return mkint(e)
    def unwrap(self, v): return int_e(v)
    def __repr__(self): return 'Int'


class _Nat(_Int):
    def facts(self, e): return [e >= 0]
    def __repr__(self): return 'Nat'


class _Bool(Type):
    def sort(self): return z3.BoolSort()
    def wrap(self, e): return mkbool(e)
    def unwrap(self, v): return bool_e(v)
    def __repr__(self): return 'Bool'


class _Bytes(Type):
    def sort(self): return z3.StringSort()
    def wrap(self, e): return SBytes(e)
    def unwrap(self, v): return str_e(v)
    def __repr__(self): return 'Bytes'


class _Byte256(_Bytes):
    def facts(self, e):
        return [z3.InRe(e, BYTES_RE())]
    def __repr__(self): return 'Bytes'


class FixedBytes(_Bytes):
    def __init__(self, n): self.n = n
    def facts(self, e): return [z3.Length(e) == self.n]
    def __repr__(self): return 'Bytes'


class _Str(Type):
    def sort(self): return z3.StringSort()
    def wrap(self, e): return SStr(e)
    def unwrap(self, v): return str_e(v)
    def __repr__(self): return 'Str'


class Opaque(Type):
    def __init__(self, name): self.name = name
    def sort(self):
        if self.name not in _sorts:
            _sorts[self.name] = z3.DeclareSort(self.name)
        return _sorts[self.name]
    def wrap(self, e): return SOpaque(e, self)
    def unwrap(self, v):
        if isinstance(v, SOpaque):
            return v.e
        raise TypeMismatch(f'{v!r} is not {self}')
    def __repr__(self): return f'Opaque({self.name})'


class Seq(Type):
    def __init__(self, elt): self.elt = elt
    def sort(self): return z3.SeqSort(self.elt.sort())
    def wrap(self, e): return SSeq(e, self.elt)
    def unwrap(self, v):
        if isinstance(v, SSeq):
            if v.elt != self.elt and v.elt.sort() != self.elt.sort():
                raise TypeMismatch(f'{v.elt} vs {self.elt}')
            return v.e
        if isinstance(v, VList):
            if v.sym is not None:
                return v.sym.e
            return seq_of(list.__iter__(v), self.elt)
        if isinstance(v, (list, tuple)):
            return seq_of(v, self.elt)
        raise TypeMismatch(f'{v!r} is not {self}')
    def __repr__(self): return f'Seq({self.elt!r})'


_nth = {}


def has_nth(e):
    i = e.get_id()
    r = _nth.get(i)
    if r is None:
        if z3.is_quantifier(e):
            v = has_nth(e.body())
        elif z3.is_app(e):
            v = e.decl().kind() == z3.Z3_OP_SEQ_NTH or any(has_nth(c) for c in e.children())
        else:
            v = False
        _nth[i] = r = (e, v)
    return r[1]


def simp(e):
    """z3's simplifier turns nth into unusable terms: leave those alone"""
    if not has_nth(e):
        return z3.simplify(e)
    if e.sort() == z3.IntSort():
        return linear(e)
    if z3.is_not(e):
        x = simp(e.arg(0))
        return z3.BoolVal(False) if z3.is_true(x) else z3.BoolVal(True) if z3.is_false(x) else e
    if z3.is_app(e) and e.num_args() == 2 and e.arg(0).sort() == z3.IntSort() and \
            e.decl().kind() in _CMP:
        d = linear(e.arg(0) - e.arg(1))
        if z3.is_int_value(d):
            return z3.BoolVal(_CMP[e.decl().kind()](d.as_long()))
    return e


_CMP = {z3.Z3_OP_LE: lambda v: v <= 0, z3.Z3_OP_LT: lambda v: v < 0, z3.Z3_OP_GE: lambda v: v >= 0,
        z3.Z3_OP_GT: lambda v: v > 0, z3.Z3_OP_EQ: lambda v: v == 0}


def linear(e):
    """normal form of a sum, with everything that is not arithmetic as an atom"""
    atoms, const = {}, 0
    todo = [(e, 1)]
    while todo:
        x, k = todo.pop()
        if z3.is_int_value(x):
            const += k * x.as_long()
        elif z3.is_add(x):
            todo += [(c, k) for c in reversed(x.children())]
        elif z3.is_sub(x):
            cs = x.children()
            todo += [(c, -k) for c in reversed(cs[1:])] + [(cs[0], k)]
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
            todo.append((x.arg(0), -k))
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            todo.append((x.arg(1), k * x.arg(0).as_long()))
        else:
            if not has_nth(x):
                y = z3.simplify(x)
                if not y.eq(x):
                    todo.append((y, k))
                    continue
            o = atoms.get(x.get_id())
            atoms[x.get_id()] = (x, k + (o[1] if o else 0))
    ts = [x if k == 1 else z3.IntVal(k) * x for x, k in atoms.values() if k]
    if const or not ts:
        ts.append(z3.IntVal(const))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def seq_of(items, elt):
    us = [z3.Unit(elt.unwrap(x)) for x in items]
    if not us:
        return z3.Empty(z3.SeqSort(elt.sort()))
    if len(us) == 1:
        return us[0]
    return z3.Concat(*us)


class Raw:
    """a term of any type, for specification functions to pass on"""
    def __init__(self, e): self.e = e


class Tup(Type):
    def __init__(self, *ts, cls=None):
        self.ts = ts
        self.cls = cls
    def _dt(self):
        k = repr(self)
        if k not in _sorts:
            name = 'T_' + ''.join(c if c.isalnum() else '_' for c in k)
            d = z3.Datatype(name)
            d.declare('mk_' + name, *[(f'{name}_{i}', t.sort()) for i, t in enumerate(self.ts)])
            _sorts[k] = d.create()
        return _sorts[k]
    def sort(self): return self._dt()
    def wrap(self, e):
        dt = self._dt()
        if z3.is_app(e) and e.decl().eq(dt.constructor(0)):
            vals = [t.wrap(e.arg(i)) for i, t in enumerate(self.ts)]
        else:
            vals = [t.wrap(dt.accessor(0, i)(e)) for i, t in enumerate(self.ts)]
        if self.cls is not None:
            return self.cls(*vals)
        return tuple(vals)
    def unwrap(self, v):
        dt = self._dt()
        if isinstance(v, Raw):
            return v.e
        v = tuple(v)
        if len(v) != len(self.ts):
            raise TypeMismatch(f'{v!r} is not {self}')
        es = [t.unwrap(x) for t, x in zip(self.ts, v)]
        # mk(x.0, x.1, ...) is x
        b = es[0].arg(0) if es and z3.is_app(es[0]) and es[0].num_args() == 1 else None
        if b is not None and b.sort() == dt and \
                all(e.eq(dt.accessor(0, i)(b)) for i, e in enumerate(es)):
            return b
        return dt.constructor(0)(*es)
    def facts(self, e):
        dt = self._dt()
        r = []
        for i, t in enumerate(self.ts):
            r += t.facts(dt.accessor(0, i)(e))
        return r
    def __repr__(self): return 'Tup(' + ','.join(map(repr, self.ts)) + ')'


class Opt(Type):
    def __init__(self, t): self.t = t
    def _dt(self):
        k = repr(self)
        if k not in _sorts:
            name = 'O_' + ''.join(c if c.isalnum() else '_' for c in k)
            d = z3.Datatype(name)
            d.declare('none_' + name)
            d.declare('some_' + name, ('val_' + name, self.t.sort()))
            _sorts[k] = d.create()
        return _sorts[k]
    def sort(self): return self._dt()
    def wrap(self, e):
        dt = self._dt()
        if VC[0].fork(dt.recognizer(0)(e)):
            return None
        return self.t.wrap(dt.accessor(1, 0)(e))
    def unwrap(self, v):
        dt = self._dt()
        if isinstance(v, Raw):
            return v.e
        if v is None:
            return dt.constructor(0)()
        return dt.constructor(1)(self.t.unwrap(v))
    def __repr__(self): return f'Opt({self.t!r})'


Int, Nat, Bool, Bytes, Str = _Int(), _Nat(), _Bool(), _Bytes(), _Str()
Byte256 = _Byte256()

VC = [None]


class ToolLimit(Exception):
    """Outside the translated subset."""


class TypeMismatch(ToolLimit):
    pass


_bre = []


def BYTES_RE():
    if not _bre:
        _bre.append(z3.Star(z3.Range(z3.StringVal('\\u{0}'), z3.StringVal('\\u{ff}'))))
    return _bre[0]


class Sym:
    __slots__ = ()
    def __bool__(self):
        raise ToolLimit('native truth test of a symbolic value')
    def __hash__(self):
        raise ToolLimit('native hash of a symbolic value')
    def __iter__(self):
        raise ToolLimit('native iteration over a symbolic value')
    def __eq__(self, o):
        if self is o:
            return True
        raise ToolLimit('native comparison of a symbolic value')
    def __ne__(self, o):
        return not self == o


class SInt(Sym):
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return f'SInt({self.e})'
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return SymMethod(self, name)


class SBool(Sym):
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return f'SBool({self.e})'


class SStrBase(Sym):
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return f'{type(self).__name__}({self.e})'
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return SymMethod(self, name)


class SBytes(SStrBase):
    __slots__ = ()


class SStr(SStrBase):
    __slots__ = ()


class SOpaque(Sym):
    __slots__ = ('e', 't')
    def __init__(self, e, t): self.e, self.t = e, t
    def __repr__(self): return f'SOpaque({self.e})'


class SSeq(Sym):
    """Immutable symbolic sequence."""
    __slots__ = ('e', 'elt')
    def __init__(self, e, elt): self.e, self.elt = e, elt
    def __repr__(self): return f'SSeq({self.e})'
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return SymMethod(self, name)


class SRange(Sym):
    __slots__ = ('start', 'stop', 'step')
    def __init__(self, start, stop, step): self.start, self.stop, self.step = start, stop, step


class SymMethod:
    __slots__ = ('obj', 'name')
    def __init__(self, obj, name): self.obj, self.name = obj, name


class Undef(Sym):
    """Value of a variable that a cut loop may or may not have assigned."""
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __getattr__(self, n):
        raise ToolLimit(f'use of havocked untyped variable {self.name}')


class VList(list):
    """A list created by instrumented code; may turn symbolic."""
    __slots__ = ('sym',)
    def __init__(self, *a):
        list.__init__(self, *a)
        self.sym = None
    def _c(self):
        if self.sym is not None:
            raise ToolLimit('native use of a symbolic list')
    def __iter__(self): self._c(); return list.__iter__(self)
    def __len__(self): self._c(); return list.__len__(self)
    def __getitem__(self, i): self._c(); return list.__getitem__(self, i)
    def __bool__(self): self._c(); return list.__len__(self) > 0
    def __eq__(self, o): self._c(); return list.__eq__(self, o)
    def __contains__(self, o): self._c(); return list.__contains__(self, o)
    __hash__ = None


class VDict:
    """Mapping with possibly symbolic keys: association list over an optional
    symbolic base map (domain array, value array)."""
    def __init__(self, kt=None, vt=None):
        self.items_ = []       # (key, value) newest last; concrete distinct keys
        self.kt, self.vt = kt, vt
        self.dom = None        # z3 Array K->Bool
        self.val = None        # z3 Array K->V


class VSet:
    def __init__(self, kt=None):
        self.items_ = []
        self.kt = kt
        self.dom = None


def mkint(e):
    e = simp(e) if not z3.is_const(e) else e
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkbool(e):
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    s = simp(e)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return SBool(e)


def int_e(v):
    if isinstance(v, SInt): return v.e
    if isinstance(v, SBool): return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, int)): return z3.IntVal(int(v))
    raise TypeMismatch(f'{v!r} is not an int')


def bool_e(v):
    if isinstance(v, SBool): return v.e
    if isinstance(v, bool): return z3.BoolVal(v)
    raise TypeMismatch(f'{v!r} is not a bool')


def lit(b):
    """z3 string literal for concrete bytes/str."""
    if isinstance(b, str):
        cs = [ord(c) for c in b]
    else:
        cs = list(b)
    return z3.StringVal(''.join(chr(c) if 32 <= c < 127 and c != 92 else '\\u{%x}' % c
                                for c in cs))


def str_e(v):
    if isinstance(v, SStrBase): return v.e
    if isinstance(v, (bytes, bytearray, str)): return lit(v)
    raise TypeMismatch(f'{v!r} is not bytes/str')


def has_sym(v, depth=6):
    if isinstance(v, (Sym, VDict, VSet)):
        return True
    if isinstance(v, VList):
        return v.sym is not None or (depth and any(has_sym(x, depth - 1)
                                                   for x in list.__iter__(v)))
    if isinstance(v, slice):
        return isinstance(v.start, Sym) or isinstance(v.stop, Sym)
    if depth and isinstance(v, (tuple, list, set, frozenset)):
        return any(has_sym(x, depth - 1) for x in v)
    if depth and isinstance(v, dict):
        return any(has_sym(x, depth - 1) for kv in v.items() for x in kv)
    return False


def guess_type(v):
    if isinstance(v, bool) or isinstance(v, SBool): return Bool
    if isinstance(v, (int, SInt)): return Int
    if isinstance(v, (bytes, SBytes)): return Bytes
    if isinstance(v, (str, SStr)): return Str
    if isinstance(v, SSeq): return Seq(v.elt)
    if isinstance(v, SOpaque): return v.t
    if isinstance(v, tuple) and v:
        ts = [guess_type(x) for x in v]
        if all(ts):
            return Tup(*ts)
    if isinstance(v, VList):
        if v.sym is not None: return Seq(v.sym.elt)
        if list.__len__(v):
            t = guess_type(list.__getitem__(v, 0))
            return Seq(t) if t else None
    return None
