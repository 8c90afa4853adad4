"""Models of builtins and of bytes/str methods on symbolic values.

These are part of the trusted base: each states the documented meaning of the
builtin (CPython cross-checks in pyvc/selftest.py compare them with CPython on
concrete values)."""
import builtins, itertools, operator, re, stat, struct, types
import z3
from . import ropes
from . import values as V
from .values import *
from .values import Sym
from .engine import (axiom_gen, uf, SEnum, is_symlist, symlist, dispatch_spec, byte_of, PathAbort,
                     mkint, INTLIKE, merge)

S = z3.StringSort()
I = z3.IntSort()


def _re_digits():
    return z3.Plus(z3.Range('0', '9'))


def _re_oct():
    return z3.Plus(z3.Range('0', '7'))


def fmt_o(e):
    return uf('fmt_oct', I, S)(e)


def parse_o(s):
    if z3.is_app(s) and s.decl().name() == 'fmt_oct' and VC[0].provable(s.arg(0) >= 0):
        return s.arg(0)
    return uf('parse_oct', S, I)(s)


@axiom_gen('fmt_oct')
def _ax_oct(app):
    n = app.arg(0)
    return [z3.Implies(n >= 0, uf('parse_oct', S, I)(app) == n),
            z3.Implies(n >= 0, z3.InRe(app, _re_oct())),
            z3.Implies(n >= 0, z3.And(z3.Length(app) > 0, *[z3.Not(z3.Contains(app, z3.StringVal(c)))
                                                            for c in (' ', '\\u{0}', '/', '\\u{a}')])),
            z3.Implies(n > 0, z3.Not(z3.PrefixOf(z3.StringVal('0'), app)))]


@axiom_gen('join')
def _ax_join(app):
    sep, s = app.arg(0), app.arg(1)
    j = uf('join', S, z3.SeqSort(S), S)
    n = z3.Length(s)
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT and s.num_args() >= 2:
        last = s.arg(s.num_args() - 1)
        if last.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            rest = s.children()[:-1]
            rest = z3.Concat(*rest) if len(rest) > 1 else rest[0]
            x = last.arg(0)
            return [app == z3.If(z3.Length(rest) == 0, x, z3.Concat(j(sep, rest), sep, x))]
        if z3.is_string_value(sep) and not sep.as_string():
            return [app == z3.Concat(*[j(sep, c) for c in s.children()])]
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_UNIT:
        return [app == s.arg(0)]
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
        return [app == z3.StringVal('')]
    init = z3.SubSeq(s, z3.IntVal(0), n - 1)
    return [z3.Implies(n == 0, app == z3.StringVal('')),
            z3.Implies(n == 1, app == s[0]),
            z3.Implies(n > 1, app == z3.Concat(j(sep, init), sep, s[n - 1]))]


def fmt_x(e):
    return uf('fmt_hex', I, S)(e)


@axiom_gen('fmt_hex')
def _ax_hex(app):
    n = app.arg(0)
    return [z3.Implies(n >= 0, uf('parse_hex', S, I)(app) == n),
            z3.Implies(n >= 0, z3.InRe(app, z3.Plus(z3.Union(z3.Range('0', '9'),
                                                             z3.Range('a', 'f')))))]


def dec(e):
    """decimal representation of an integer"""
    return z3.If(e >= 0, z3.IntToStr(e), z3.Concat(z3.StringVal('-'), z3.IntToStr(-e)))


def dec_of(v):
    e = int_e(v)
    if VC[0].provable(e >= 0):
        return z3.IntToStr(e)
    return dec(e)


def format_model(d, f, args):
    by = isinstance(f, bytes)
    cls = SBytes if by else SStr
    s = f.decode('latin-1') if by else f
    vals = list(args) if isinstance(args, tuple) else [args]
    if isinstance(args, dict):
        raise ToolLimit('%(name) format')
    out = []
    i = 0
    vi = 0
    buf = ''
    while i < len(s):
        c = s[i]
        if c != '%':
            buf += c
            i += 1
            continue
        j = i + 1
        flags = ''
        while s[j] in '0123456789.-+ #':
            flags += s[j]
            j += 1
        conv = s[j]
        i = j + 1
        if conv == '%':
            buf += '%'
            continue
        if vi >= len(vals):
            raise TypeError('not enough arguments for format string')
        v = vals[vi]
        vi += 1
        if not has_sym(v):
            t = ('%' + flags + conv)
            r = (t.encode() % (v,)) if by else t % (v,)
            buf += r.decode('latin-1') if by else r
            continue
        if buf:
            out.append(lit(buf.encode('latin-1') if by else buf))
            buf = ''
        if conv in 'sb' and not flags and isinstance(v, SStrBase):
            out.append(v.e)
        elif conv == 's' and isinstance(v, (SInt,)) and not by and not flags:
            out.append(dec_of(v))
        elif conv in 'di' and not flags and isinstance(v, (SInt, SBool)):
            out.append(dec_of(v))
        elif conv == 'o' and not flags and isinstance(v, SInt):
            out.append(fmt_o(v.e))
        elif conv == 'x' and not flags and isinstance(v, SInt):
            out.append(fmt_x(v.e))
        elif conv in 'dxo' and isinstance(v, SInt):
            t = uf(f'fmt_{flags}{conv}', I, S)(v.e)
            out.append(t)
        elif conv == 'r':
            out.append(uf('repr_any', I, S)(z3.IntVal(0)) if not isinstance(v, SStrBase)
                       else uf('repr_str', S, S)(v.e))
        elif conv == 'c' and isinstance(v, SInt):
            out.append(z3.StrFromCode(v.e))
        else:
            raise ToolLimit(f'format %{flags}{conv} of {type(v).__name__}')
    if vi != len(vals):
        raise TypeError('not all arguments converted')
    if buf:
        out.append(lit(buf.encode('latin-1') if by else buf))
    return cls(z3.Concat(*out) if len(out) > 1 else out[0])


# ---------------------------------------------------------------- builtins

def m_len(d, a, k):
    x = a[0]
    if isinstance(x, SStrBase):
        return mkint(z3.Length(x.e))
    if is_symlist(x):
        return mkint(z3.Length(symlist(x).e))
    if isinstance(x, SRange):
        return mkint(z3.If(x.stop > x.start, x.stop - x.start, 0))
    if isinstance(x, VList):
        return list.__len__(x)
    if isinstance(x, VDict):
        return x.length(d)
    if isinstance(x, VSet):
        return x.length(d)
    if isinstance(x, (SInt, SBool)):
        raise TypeError("object of type 'int' has no len()")
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    if type(x).__name__ == 'FnSeq':
        return x.n
    if isinstance(x, (Sym,)):
        raise ToolLimit('len of ' + type(x).__name__)
    return NotImplemented


def m_range(d, a, k):
    if not has_sym(a):
        return NotImplemented
    a = [int_e(x) for x in a]
    if len(a) == 1:
        return SRange(z3.IntVal(0), a[0], z3.IntVal(1))
    if len(a) == 2:
        return SRange(a[0], a[1], z3.IntVal(1))
    return SRange(a[0], a[1], a[2])


def m_isinstance(d, a, k):
    x, t = a
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, (SBool,)):
        return bool in ts or int in ts or object in ts
    if isinstance(x, SInt):
        import numbers
        return any(q in (int, object) or q.__module__ == 'numbers' for q in ts)
    if isinstance(x, SBytes):
        return bytes in ts or object in ts
    if isinstance(x, SStr):
        return str in ts or object in ts
    if isinstance(x, SSeq):
        return list in ts or tuple in ts or object in ts
    if isinstance(x, VDict):
        return dict in ts or object in ts
    if isinstance(x, VSet):
        return set in ts or object in ts
    if isinstance(x, SOpaque):
        return x.t.name in [getattr(q, '__name__', '') for q in ts]
    if isinstance(x, Undef):
        raise ToolLimit('use of havocked untyped variable')
    return NotImplemented


def _nat_str(d, s, base):
    return None


def m_int(d, a, k):
    if not has_sym(a):
        return NotImplemented
    x = a[0]
    if isinstance(x, (SInt, SBool)) and len(a) == 1:
        return mkint(int_e(x))
    if isinstance(x, SStrBase):
        base = a[1] if len(a) > 1 else 10
        eng = VC[0]
        if base == 10:
            if eng.fork(z3.InRe(x.e, _re_digits())):
                return mkint(z3.StrToInt(x.e))
            if eng.choose(2) == 0:
                raise ValueError('invalid literal for int()')
            return eng.fresh('int', Int)
        if base == 8:
            if eng.fork(z3.InRe(x.e, _re_oct())):
                r = parse_o(x.e)
                eng.facts([r >= 0])
                return mkint(r)
            if eng.choose(2) == 0:
                raise ValueError('invalid literal for int()')
            return eng.fresh('int', Int)
    raise ToolLimit('int() of ' + type(x).__name__)


def m_bool(d, a, k):
    if a and (isinstance(a[0], (Sym, VList, VDict, VSet))):
        return d.tobool(a[0])
    return NotImplemented


def m_ord(d, a, k):
    x = a[0]
    if isinstance(x, SStrBase):
        if not d.spec and not VC[0].fork(z3.Length(x.e) == 1):
            raise TypeError('ord() expected a character')
        c = z3.StrToCode(x.e)
        VC[0].facts([c >= 0] + ([c <= 255] if isinstance(x, SBytes) else []))
        return mkint(c)
    return NotImplemented


def m_chr(d, a, k):
    if isinstance(a[0], SInt):
        return SStr(z3.StrFromCode(a[0].e))
    return NotImplemented


def m_bytes(d, a, k):
    if not a:
        return NotImplemented
    x = a[0]
    if isinstance(x, SBytes):
        return x
    if isinstance(x, SStrBase):
        raise TypeError('string argument without an encoding')
    if is_symlist(x):
        raise ToolLimit('bytes(symbolic list)')
    if isinstance(x, (tuple, list)) and has_sym(x):
        parts = []
        for y in list(x):
            if isinstance(y, SInt):
                if not VC[0].fork(z3.And(y.e >= 0, y.e <= 255)):
                    raise ValueError('bytes must be in range(0, 256)')
                parts.append(z3.StrFromCode(y.e))
            else:
                parts.append(lit(bytes([y])))
        return SBytes(z3.Concat(*parts) if len(parts) > 1 else parts[0])
    if isinstance(x, Sym):
        raise ToolLimit('bytes() of ' + type(x).__name__)
    return NotImplemented


def m_str(d, a, k):
    if a and isinstance(a[0], SStr):
        return a[0]
    if a and isinstance(a[0], SInt):
        return SStr(dec_of(a[0]))
    if a and isinstance(a[0], Sym):
        return SStr(uf('str_any', I, S)(z3.IntVal(0)))
    return NotImplemented


def m_repr(d, a, k):
    if has_sym(a[0]):
        return SStr(uf('repr_any', I, S)(z3.IntVal(0)))
    return NotImplemented


def _minmax(op):
    def m(d, a, k):
        if k and not set(k) <= {'key', 'default'}:
            return NotImplemented
        if k.get('key'):
            if has_sym(a):
                raise ToolLimit('min/max key')
            return NotImplemented
        xs = list(a) if len(a) > 1 else None
        if xs is None:
            if not has_sym(a[0]):
                return NotImplemented
            xs = list(d.iter(a[0]))
        if not has_sym(xs):
            return NotImplemented if len(a) > 1 else (min if op == '<' else max)(xs, **k)
        if not xs:
            if 'default' in k:
                return k['default']
            raise ValueError('empty sequence')
        r = xs[0]
        for y in xs[1:]:
            if isinstance(r, INTLIKE) and isinstance(y, INTLIKE):
                c = d.cmp(op, y, r)
                r = d.ite(c, lambda y=y: y, lambda r=r: r)
            else:
                r = y if d.truth(d.cmp(op, y, r)) else r
        return r
    return m


def m_sum(d, a, k):
    x = a[0]
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    if is_symlist(x):
        raise ToolLimit('sum of a symbolic list')
    if isinstance(x, (list, tuple)) and not has_sym(x):
        return NotImplemented
    for y in d.iter(x):
        acc = d.binop('+', acc, y)
    return acc


def m_abs(d, a, k):
    if isinstance(a[0], SInt):
        return mkint(z3.If(a[0].e >= 0, a[0].e, -a[0].e))
    return NotImplemented


def m_divmod(d, a, k):
    if has_sym(a):
        return (d.binop('//', *a), d.binop('%', *a))
    return NotImplemented


def m_enumerate(d, a, k):
    x = a[0]
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(x, SStrBase) or is_symlist(x):
        return SEnum(symlist(x) if is_symlist(x) else x, start)
    return NotImplemented


def m_list(d, a, k):
    if not a:
        return VList()
    x = a[0]
    if is_symlist(x):
        v = VList()
        v.sym = symlist(x)
        return v
    if isinstance(x, (list, tuple)):
        return VList(list(x))
    return VList(list(d.iter(x)))


def m_tuple(d, a, k):
    if not a:
        return ()
    x = a[0]
    if is_symlist(x):
        return symlist(x)
    return tuple(list(d.iter(x)))


def m_set(d, a, k):
    if not a:
        return NotImplemented
    if isinstance(a[0], VSet):
        v = VSet(a[0].kt)
        v.items_ = list(a[0].items_)
        v.dom = a[0].dom
        return v
    if has_sym(a[0]):
        return d.mkset(*list(d.iter(a[0])))
    return NotImplemented


def m_any(d, a, k):
    for x in d.iter(a[0]):
        if d.truth(x):
            return True
    return False


def m_all(d, a, k):
    for x in d.iter(a[0]):
        if not d.truth(x):
            return False
    return True


def m_next(d, a, k):
    it = a[0]
    f = getattr(type(it), '__next__', None)
    if isinstance(it, VIter):
        if it.more():
            return it.take()
        if len(a) > 1:
            return a[1]
        raise StopIteration
    return NotImplemented


def m_iter(d, a, k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, VIter):
            return x
        if is_symlist(x) or isinstance(x, (SStrBase, SRange)):
            return d.iter(x)
    return NotImplemented


class VIter:
    """An iterator over a symbolic sequence, with a ghost position."""
    def __init__(self, seq):
        self.seq = symlist(seq) if is_symlist(seq) else seq
        self.pos = 0

    def more(self):
        return VC[0].fork(int_e(self.pos) < z3.Length(self.seq.e))

    def take(self):
        x = dispatch_spec.getitem(self.seq, self.pos)
        VC[0].facts(self.seq.elt.facts(self.seq.e[int_e(self.pos)]))
        self.pos = mkint(int_e(self.pos) + 1)
        return x

    def __iter__(self):
        return self

    def __next__(self):
        if self.more():
            return self.take()
        raise StopIteration


def sym_sorted(d, xs, key=None, reverse=False):
    """insertion sort with forks: bounded by the (concrete) list length"""
    ks = [key(x) if key else x for x in xs]
    out = []
    for x, kx in zip(xs, ks):
        i = len(out)
        while i > 0:
            y, ky = out[i - 1]
            if reverse:
                less = d.truth(d.cmp('<', ky, kx))
            else:
                less = d.truth(d.cmp('<', kx, ky))
            if not less:
                break
            i -= 1
        out.insert(i, (x, kx))
    return [x for x, _ in out]


def m_sorted(d, a, k):
    xs = a[0]
    if is_symlist(xs):
        raise ToolLimit('sorted() of a symbolic list')
    xs = list(d.iter(xs))
    if not has_sym(xs) and not k.get('key'):
        return VList(sorted(xs, **k))
    return VList(sym_sorted(d, xs, **k))


def m_reversed(d, a, k):
    x = a[0]
    if is_symlist(x):
        raise ToolLimit('reversed() of a symbolic list')
    return NotImplemented


def m_hash(d, a, k):
    if has_sym(a):
        raise ToolLimit('hash of symbolic')
    return NotImplemented


def m_memoryview(d, a, k):
    if isinstance(a[0], SBytes):
        return a[0]
    return NotImplemented


def m_getattr(d, a, k):
    return NotImplemented


# struct ------------------------------------------------------------------

_SIZES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True),
          'I': (4, False), 'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def _parse_fmt(f):
    if isinstance(f, bytes):
        f = f.decode()
    if f[0] not in '!><':
        raise ToolLimit('native struct format ' + f)
    big = f[0] in '!>'
    items = []
    n = ''
    for c in f[1:]:
        if c.isdigit():
            n += c
        elif c == 's':
            items.append(('s', int(n or 1)))
            n = ''
        elif c == 'x':
            items.append(('x', int(n or 1)))
            n = ''
        else:
            items += [(c, 1)] * int(n or 1)
            n = ''
    return big, items


def be_str(e, w):
    """big endian bytes of a w byte unsigned value"""
    return z3.Concat(*[z3.StrFromCode((e / z3.IntVal(256 ** (w - 1 - i))) % 256)
                       for i in range(w)]) if w > 1 else z3.StrFromCode(e % 256)


def be_int(s, off, w):
    return z3.Sum([z3.StrToCode(z3.SubString(s, off + i, 1)) * (256 ** (w - 1 - i))
                   for i in range(w)])


def pack_uf(w):
    return uf(f'be{w}', I, S)


def unpack_uf(w):
    return uf(f'unbe{w}', S, I)


def _be_ax(w):
    def ax(app):
        n = app.arg(0)
        return [z3.Length(app) == w, z3.Implies(z3.And(n >= 0, n < 256 ** w),
                                                unpack_uf(w)(app) == n)]
    return ax


def _unbe_ax(w):
    def ax(app):
        s = app.arg(0)
        return [app >= 0, app < 256 ** w,
                z3.Implies(z3.Length(s) == w, pack_uf(w)(app) == s)]
    return ax


for _w in (1, 2, 4, 8):
    axiom_gen(f'be{_w}')(_be_ax(_w))
    axiom_gen(f'unbe{_w}')(_unbe_ax(_w))


def m_struct_pack(d, f, vals):
    big, items = _parse_fmt(f)
    if not big:
        raise ToolLimit('little endian')
    out = []
    vi = 0
    eng = VC[0]
    for c, n in items:
        if c == 'x':
            out.append(lit(b'\0' * n))
            continue
        v = vals[vi]
        vi += 1
        if c == 's':
            if isinstance(v, bytes):
                out.append(lit(struct.pack(f'{n}s', v)))
                continue
            if eng.provable(z3.Length(v.e) == n):
                out.append(v.e)
            else:
                t = uf(f'pad_{n}', S, S)(v.e)
                eng.facts([z3.Length(t) == n,
                           z3.Implies(z3.Length(v.e) == n, t == v.e)])
                out.append(t)
            continue
        w, signed = _SIZES[c]
        if not isinstance(v, INTLIKE):
            raise struct.error('required argument is not an integer')
        e = int_e(v)
        lo, hi = (-(256 ** w) // 2, 256 ** w // 2) if signed else (0, 256 ** w)
        if not eng.fork(z3.And(e >= lo, e < hi)):
            raise struct.error('argument out of range')
        if signed:
            e = z3.If(e < 0, e + 256 ** w, e)
        out.append(pack_uf(w)(V.simp(e)))
    if vi != len(vals):
        raise struct.error('pack expected %d items' % vi)
    return SBytes(z3.Concat(*out) if len(out) > 1 else out[0])


def _iv(o):
    return z3.IntVal(o) if isinstance(o, int) else o


def m_struct_unpack(d, f, s, off=None):
    big, items = _parse_fmt(f)
    size = struct.calcsize(f)
    eng = VC[0]
    se = str_e(s)
    if off is None:
        if not eng.fork(z3.Length(se) == size):
            raise struct.error('unpack requires a buffer of %d bytes' % size)
        o = 0
    else:
        o = int_e(off)
        if not eng.fork(z3.And(o >= 0, o + size <= z3.Length(se))):
            raise struct.error('unpack_from requires a larger buffer')
    res = []
    for c, n in items:
        if c == 'x':
            o = o + n
            continue
        if c == 's':
            res.append(SBytes(ropes.substr(eng, se, _iv(o), z3.IntVal(n))))
            o = o + n
            continue
        w, signed = _SIZES[c]
        u = unpack_uf(w)(V.simp(ropes.substr(eng, se, _iv(o), z3.IntVal(w))))
        if signed:
            u = z3.If(u >= 256 ** w // 2, u - 256 ** w, u)
        res.append(mkint(u))
        o = o + w
    return tuple(res)


def _struct_pack(d, a, k):
    if has_sym(a[1:]):
        return m_struct_pack(d, a[0], a[1:])
    return NotImplemented


def _struct_unpack(d, a, k):
    if isinstance(a[1], SBytes):
        return m_struct_unpack(d, a[0], a[1])
    return NotImplemented


def _struct_unpack_from(d, a, k):
    off = a[2] if len(a) > 2 else k.get('offset', 0)
    if isinstance(a[1], SBytes) or isinstance(off, SInt):
        return m_struct_unpack(d, a[0], a[1], off)
    return NotImplemented


def m_identity(d, a, k):
    return NotImplemented


_MODELS = {}


def _init():
    _MODELS.update({
        len: m_len, range: m_range, isinstance: m_isinstance, int: m_int, bool: m_bool,
        ord: m_ord, chr: m_chr, bytes: m_bytes, str: m_str, repr: m_repr,
        min: _minmax('<'), max: _minmax('>'), sum: m_sum, abs: m_abs, divmod: m_divmod,
        enumerate: m_enumerate, list: m_list, tuple: m_tuple, set: m_set, any: m_any, all: m_all,
        operator.eq: lambda d, a, k: d.eq(a[0], a[1]), operator.ne: lambda d, a, k: d.cmp('!=', a[0], a[1]),
        operator.lt: lambda d, a, k: d.cmp('<', a[0], a[1]), operator.le: lambda d, a, k: d.cmp('<=', a[0], a[1]),
        operator.gt: lambda d, a, k: d.cmp('>', a[0], a[1]), operator.ge: lambda d, a, k: d.cmp('>=', a[0], a[1]),
        next: m_next, iter: m_iter, sorted: m_sorted, reversed: m_reversed, hash: m_hash,
        memoryview: m_memoryview, struct.pack: _struct_pack, struct.unpack: _struct_unpack,
        struct.unpack_from: _struct_unpack_from,
        bytearray: m_bytes,
        stat.S_IFMT: lambda d, a, k: mkint((a[0].e / 4096 % 16) * 4096) if isinstance(a[0], SInt)
        else NotImplemented,
        stat.S_IMODE: lambda d, a, k: mkint(a[0].e % 4096) if isinstance(a[0], SInt)
        else NotImplemented,
    })
    for n, v in (('S_ISREG', 8), ('S_ISDIR', 4), ('S_ISLNK', 10), ('S_ISFIFO', 1), ('S_ISSOCK', 12),
                 ('S_ISCHR', 2), ('S_ISBLK', 6)):
        _MODELS[getattr(stat, n)] = _is_fmt(v)


def _is_fmt(v):
    # the C functions fail outside the range of mode_t; such modes are not modelled
    return lambda d, a, k: mkbool(a[0].e / 4096 % 16 == v) if isinstance(a[0], SInt) \
        else NotImplemented


_init()


def builtin_model(f):
    try:
        m = _MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m
    s = getattr(f, '__self__', None)
    if isinstance(s, struct.Struct):
        n = f.__name__
        if n == 'pack':
            return lambda d, a, k: m_struct_pack(d, s.format, a) if has_sym(a) else NotImplemented
        if n == 'unpack':
            return lambda d, a, k: m_struct_unpack(d, s.format, a[0]) \
                if isinstance(a[0], SBytes) else NotImplemented
        if n == 'unpack_from':
            def g(d, a, k):
                off = a[1] if len(a) > 1 else k.get('offset', 0)
                if isinstance(a[0], SBytes) or isinstance(off, SInt):
                    return m_struct_unpack(d, s.format, a[0], off)
                return NotImplemented
            return g
    if isinstance(s, re.Pattern) or f in (re.match, re.search, re.fullmatch):
        from .regex import method
        return method(f)
    if f is bytes.join or f is str.join:
        return lambda d, a, k: sym_method(d, a[0], 'join', a[1:], k)
    return None


# ---------------------------------------------------------------- methods

def _cls(o):
    return SBytes if isinstance(o, (SBytes, bytes, bytearray)) else SStr


def _empty(o):
    return b'' if _cls(o) is SBytes else ''


WS = b' \t\n\r\x0b\x0c'


def _ws_re(chars):
    u = [z3.StringVal(chr(c) if 32 <= c < 127 else '\\u{%x}' % c) for c in chars]
    return z3.Union(*[z3.Re(x) for x in u]) if len(u) > 1 else z3.Re(u[0])


def int_method(d, o, name, a, k):
    eng = VC[0]
    if name == 'to_bytes':
        n = a[0] if a else k.get('length', 1)
        order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
        if isinstance(n, int) and order == 'big' and not k.get('signed'):
            if not eng.fork(z3.And(o.e >= 0, o.e < 256 ** n)):
                raise OverflowError('int too big to convert')
            if n == 1:
                return SBytes(z3.StrFromCode(o.e))
            if n in (2, 4, 8):
                return SBytes(pack_uf(n)(o.e))
    if name == 'bit_length':
        r = uf('bit_length', I, I)(o.e)
        return mkint(r)
    raise ToolLimit(f'int.{name}')


def sym_method(d, o, name, a, k):
    eng = VC[0]
    if isinstance(o, SInt):
        return int_method(d, o, name, a, k)
    if isinstance(o, SSeq):
        if name == 'index' and len(a) == 1:
            r = z3.IndexOf(o.e, z3.Unit(o.elt.unwrap(a[0])), z3.IntVal(0))
            if not eng.fork(r >= 0):
                raise ValueError('not in list')
            return mkint(r)
        if name == 'copy':
            return o
        raise ToolLimit(f'method {name} of a symbolic sequence')
    if name in eng.on_method and not d.spec:
        r = eng.on_method[name](o, *a, **k)
        if r is not NotImplemented:
            return r
    s = str_e(o)
    cls = _cls(o)
    n = z3.Length(s)
    if name in ('startswith', 'endswith'):
        p = a[0]
        fn = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
        if isinstance(p, tuple):
            return mkbool(z3.Or(*[fn(str_e(x), s) for x in p]))
        if len(a) > 1:
            s = str_e(d.getitem(o, slice(a[1], a[2] if len(a) > 2 else None)))
        return mkbool(fn(str_e(p), s))
    if name in ('find', 'index'):
        p = a[0]
        if isinstance(p, INTLIKE):
            p = byte_of(p)
        start = a[1] if len(a) > 1 else 0
        if len(a) > 2:
            raise ToolLimit('find with end')
        st = d._bound(start, n, z3.IntVal(0))
        r = ropes.find(eng, s, str_e(p), st)
        if name == 'index' and not d.spec and not eng.fork(r >= 0):
            raise ValueError('subsection not found')
        return mkint(r)
    if name in ('rfind', 'rindex'):
        if len(a) != 1 or not isinstance(a[0], (bytes, str)) or len(a[0]) != 1:
            raise ToolLimit('rfind')
        r = z3.LastIndexOf(s, str_e(a[0]))
        if name == 'rindex' and not eng.fork(r >= 0):
            raise ValueError('subsection not found')
        return mkint(r)
    if name == 'decode' or name == 'encode':
        enc = (a[0] if a else k.get('encoding', 'utf-8')).lower()
        other = SStr if cls is SBytes else SBytes
        if enc in ('latin-1', 'latin1', 'iso-8859-1') or enc == 'ascii':
            if enc == 'ascii':
                if not eng.fork(z3.InRe(s, z3.Star(z3.Range('\x00', '\x7f')))):
                    raise UnicodeDecodeError('ascii', b'', 0, 1, 'symbolic')
            return other(s)
        raise ToolLimit(f'{name} {enc}')
    if name == 'join':
        xs = a[0]
        if is_symlist(xs):
            f = uf('join', S, z3.SeqSort(S), S)
            return cls(f(s, symlist(xs).e))
        xs = list(d.iter(xs))
        if not xs:
            return _empty(o)
        r = xs[0]
        for x in xs[1:]:
            r = d.binop('+', d.binop('+', r, o), x)
        return r
    if name == 'partition':
        p = str_e(a[0])
        i = z3.IndexOf(s, p, z3.IntVal(0))
        if eng.fork(i >= 0):
            return (cls(z3.SubString(s, z3.IntVal(0), i)), a[0],
                    cls(z3.SubString(s, i + z3.Length(p), n)))
        return (o, _empty(o), _empty(o))
    if name == 'split' and a and a[0] is not None:
        p = str_e(a[0])
        mx = a[1] if len(a) > 1 else k.get('maxsplit', -1)
        if isinstance(mx, int) and mx > 0:
            out = []
            cur = s
            for _ in range(mx):
                i = z3.IndexOf(cur, p, z3.IntVal(0))
                if not eng.fork(i >= 0):
                    break
                out.append(cls(z3.SubString(cur, z3.IntVal(0), i)))
                cur = z3.SubString(cur, i + z3.Length(p), z3.Length(cur))
            out.append(cls(cur))
            return VList(out)
        out = []
        cur = s
        c = 0
        while True:
            i = z3.IndexOf(cur, p, z3.IntVal(0))
            if not eng.fork(i >= 0):
                break
            if c >= eng.cap:
                from .engine import Capped
                eng.bounded.append('split unrolled to %d parts' % eng.cap)
                eng.dead = True
                raise Capped()
            out.append(cls(z3.SubString(cur, z3.IntVal(0), i)))
            cur = z3.SubString(cur, i + z3.Length(p), z3.Length(cur))
            c += 1
        out.append(cls(cur))
        return VList(out)
    if name in ('rsplit',) and len(a) == 2 and a[1] == 1 and len(a[0]) == 1:
        i = z3.LastIndexOf(s, str_e(a[0]))
        if eng.fork(i >= 0):
            return VList([cls(z3.SubString(s, z3.IntVal(0), i)), cls(z3.SubString(s, i + 1, n))])
        return VList([o])
    if name == 'rpartition' and len(a[0]) == 1:
        i = z3.LastIndexOf(s, str_e(a[0]))
        if eng.fork(i >= 0):
            return (cls(z3.SubString(s, z3.IntVal(0), i)), a[0], cls(z3.SubString(s, i + 1, n)))
        return (_empty(o), _empty(o), o)
    if name in ('strip', 'lstrip', 'rstrip'):
        chars = a[0] if a else WS
        if isinstance(chars, str):
            chars = chars.encode()
        if isinstance(chars, Sym):
            raise ToolLimit('strip of symbolic chars')
        w = _ws_re(chars)
        body = eng.fresh('strip', Bytes).e
        left = eng.fresh('lstrip', Bytes).e
        right = eng.fresh('rstrip', Bytes).e
        if name == 'rstrip':
            eng.facts([left == z3.StringVal('')])
        if name == 'lstrip':
            eng.facts([right == z3.StringVal('')])
        eng.facts([s == z3.Concat(left, body, right), z3.InRe(left, z3.Star(w)),
                   z3.InRe(right, z3.Star(w))])
        if name != 'rstrip':
            eng.facts([z3.Or(z3.Length(body) == 0,
                             z3.Not(z3.InRe(z3.SubString(body, 0, 1), w)))])
        if name != 'lstrip':
            eng.facts([z3.Or(z3.Length(body) == 0, z3.Not(z3.InRe(
                z3.SubString(body, z3.Length(body) - 1, 1), w)))])
        if name == 'strip':
            eng.facts([z3.Implies(z3.Length(body) == 0, z3.Length(right) == 0)])
        return cls(body)
    if name == 'isdigit':
        return mkbool(z3.InRe(s, _re_digits()))
    if name == 'hex':
        return SStr(uf('hexlify', S, S)(s))
    if name == 'replace' and len(a) == 2:
        return cls(uf('replace_all', S, S, S, S)(s, str_e(a[0]), str_e(a[1])))
    if name == 'count' and len(a) == 1:
        r = uf('str_count', S, S, I)(s, str_e(a[0]))
        eng.facts([r >= 0, (r == 0) == z3.Not(z3.Contains(s, str_e(a[0])))])
        return mkint(r)
    if name in ('lower', 'upper'):
        r = uf('str_' + name, S, S)(s)
        ascii_ = z3.BoolVal(True) if cls is SBytes else z3.InRe(s, z3.Star(z3.Range(chr(0), chr(127))))
        lo, hi, by = (65, 90, 32) if name == 'lower' else (97, 122, -32)
        eng.facts([z3.Implies(ascii_, z3.Length(r) == n)])
        for i in range(4):      # the first characters; of the others only how many there are
            c = z3.StrToCode(z3.SubString(s, i, 1))
            eng.facts([z3.Implies(z3.And(ascii_, n > i), z3.StrToCode(z3.SubString(r, i, 1)) ==
                                  z3.If(z3.And(c >= lo, c <= hi), c + by, c))])
        return cls(r)
    if name in ('tobytes', '__bytes__'):
        return o
    if name in ('release',):
        return None
    raise ToolLimit(f'method {name} of symbolic bytes')


def native_method(d, s, name, a, k):
    if isinstance(s, dict):
        if name == 'get':
            for kk, v in list(s.items()):
                if d.truth(d.eq(kk, a[0])):
                    return v
            return a[1] if len(a) > 1 else None
        if name in ('update', 'values', 'items', 'keys'):
            return getattr(s, name)(*a, **k)
    if isinstance(s, set) and not has_sym(a):
        return getattr(s, name)(*a, **k)
    if isinstance(s, dict) and name in ('setdefault', 'pop'):
        for kk in list(s):
            if d.truth(d.eq(kk, a[0])):
                return getattr(s, name)(kk, *a[1:])
    raise ToolLimit(f'{type(s).__name__}.{name} with a symbolic key')


# -------------------------------------------------- maps with symbolic keys
# association lists: keys are compared by case split, so a store and a lookup
# are decided exactly; `base` gives the unknown initial content.

class _Base:
    pass


def _find(self, d, key):
    for i in range(len(self.items_) - 1, -1, -1):
        k, v = self.items_[i]
        if d.truth(d.eq(k, key)):
            return i
    return None


def vd_has(self, d, key):
    i = _find(self, d, key)
    if i is not None:
        return True
    if self.dom is not None:
        b = self.dom(key)
        return b
    return False


def vd_get(self, d, key):
    i = _find(self, d, key)
    if i is not None:
        return self.items_[i][1]
    if self.dom is not None and d.truth(self.dom(key)):
        v = self.val(key)
        self.items_.append((key, v))
        return v
    raise KeyError(key)


def vd_set(self, d, key, v):
    i = _find(self, d, key)
    if i is not None:
        self.items_[i] = (self.items_[i][0], v)
    else:
        self.items_.append((key, v))


def vd_delete(self, d, key):
    i = _find(self, d, key)
    if i is None:
        raise KeyError(key)
    if self.dom is not None:
        raise ToolLimit('delete from a partly unknown map')
    del self.items_[i]


def vd_getm(self, key, default=None):
    try:
        return vd_get(self, dispatch_ns(), key)
    except KeyError:
        return default


def dispatch_ns():
    from .engine import dispatch
    return dispatch


def vd_length(self, d):
    if self.dom is not None:
        raise ToolLimit('len of a partly unknown map')
    return len(self.items_)


VDict.has, VDict.get_, VDict.set, VDict.delete, VDict.length = \
    vd_has, vd_get, vd_set, vd_delete, vd_length


def _vd_get_dual(self, *a):
    # d.get(key[, default]) from instrumented code, or get(dispatch, key)
    from .engine import Dispatch
    if a and isinstance(a[0], Dispatch):
        return vd_get(self, a[0], a[1])
    return vd_getm(self, *a)


VDict.get = _vd_get_dual
VDict.keys_list = lambda self: [k for k, _ in self.items_]
VDict.items = lambda self: list(self.items_)
VDict.keys = lambda self: [k for k, _ in self.items_]
VDict.values = lambda self: [v for _, v in self.items_]


def _vd_pop(self, key, *default):
    d = dispatch_ns()
    try:
        v = vd_get(self, d, key)
    except KeyError:
        if default:
            return default[0]
        raise
    vd_delete(self, d, key)
    return v


def _vd_setdefault(self, key, default=None):
    d = dispatch_ns()
    try:
        return vd_get(self, d, key)
    except KeyError:
        vd_set(self, d, key, default)
        return default


VDict.pop, VDict.setdefault = _vd_pop, _vd_setdefault


def vs_has(self, d, key):
    for k in self.items_:
        if d.truth(d.eq(k, key)):
            return True
    if self.dom is not None:
        return self.dom(key)
    return False


def vs_add(self, *a):
    from .engine import Dispatch
    d, x = a if len(a) == 2 else (dispatch_ns(), a[0])
    for k in self.items_:
        if d.truth(d.eq(k, x)):
            return
    self.items_.append(x)


VSet.has, VSet.add = vs_has, vs_add
VSet.keys_list = lambda self: list(self.items_)
VSet.length = lambda self, d: len(self.items_)
VSet.update = lambda self, xs: [self.add(x) for x in xs] and None


def _vs_discard(self, x):
    d = dispatch_ns()
    for i, k in enumerate(self.items_):
        if d.truth(d.eq(k, x)):
            del self.items_[i]
            return True
    return False


VSet.discard = lambda self, x: (_vs_discard(self, x), None)[1]


def _vs_remove(self, x):
    if not _vs_discard(self, x):
        raise KeyError(x)


VSet.remove = _vs_remove
