"""Structured reading of byte strings.

When the path condition says that a string (or the rest of a string from some
offset) is a concatenation of known pieces, slices, searches and indexing that
provably fall on piece boundaries are resolved to those pieces instead of
becoming nested substring terms.  Every step is justified by an entailment check
against the path condition; when one is not proved the plain term is used."""
import z3
from . import values as V

STR = z3.StringSort()


def flatten(e, out=None):
    out = [] if out is None else out
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        for c in e.children():
            flatten(c, out)
    elif z3.is_string_value(e) and e.as_string() == '':
        pass
    else:
        out.append(e)
    return out


def join(ps):
    if not ps:
        return z3.StringVal('')
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def tail_form(e):
    """(s, offset) when e is s[offset:]"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and e.num_args() == 3:
        s, a, n = e.children()
        if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_SEQ_LENGTH and n.arg(0).eq(s):
            return s, a
    return None


def note(eng, e):
    for c in _conj(e):
        if z3.is_eq(c) and c.arg(0).sort() == STR:
            a, b = c.arg(0), c.arg(1)
            for x, y in ((a, b), (b, a)):
                t = tail_form(x)
                if t is not None:
                    eng.tails.append((t[0], t[1], y))
                elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                        (z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SEQ_CONCAT):
                    eng.tails.append((x, z3.IntVal(0), y))


def _conj(e):
    if z3.is_and(e):
        return [x for c in e.children() for x in _conj(c)]
    return [e]


def lit_len(p):
    if z3.is_string_value(p):
        # every character is one element; as_string escapes
        from .solve import zstr
        return len(zstr(p))
    return None


def is_int(e, v):
    return z3.is_int_value(e) and e.as_long() == v


def seq_tail(s, a):
    """(base, offset) with s[a:] == base[offset:], looking through one tail;
    the offset of a tail term is non-negative by construction (Dispatch._bound)"""
    if z3.is_int_value(a) and a.as_long() >= 0:
        t = tail_form(s)
        if t is not None and not (z3.is_app(t[1]) and t[1].decl().kind() == z3.Z3_OP_ITE):
            return t[0], z3.simplify(t[1] + a)
    return s, a


def length(p):
    n = lit_len(p)
    return z3.IntVal(n) if n is not None else z3.Length(p)


def expand(eng, p):
    """the pieces of p, or None"""
    from .engine import _rec_by_decl, _axiom_gens
    if not z3.is_app(p):
        return None
    if p.decl().kind() == z3.Z3_OP_ITE:
        c = p.arg(0)
        if eng.provable(c):
            return flatten(p.arg(1))
        if eng.provable(z3.Not(c)):
            return flatten(p.arg(2))
        return None
    if p.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return None
    r = _rec_by_decl.get(p.decl().name())
    if r is not None and p.num_args():
        eqs = r.unfold(p)
        eng.facts(eqs)
        body = eqs[0].arg(1)
        for _ in range(4):
            if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE:
                c = body.arg(0)
                if eng.provable(c):
                    body = body.arg(1)
                elif eng.provable(z3.Not(c)):
                    body = body.arg(2)
                else:
                    return None
            else:
                break
        else:
            return None
        ps = flatten(body)
        for q in ps:
            axioms(eng, q)
        return ps
    for s, o, t in reversed(eng.tails):
        if s.eq(p) and z3.is_int_value(o) and o.as_long() == 0:
            ps = flatten(t)
            if not any(q.eq(p) for q in ps):
                return ps
    return None


def axioms(eng, q):
    from .engine import _axiom_gens
    if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED and q.num_args():
        g = _axiom_gens.get(q.decl().name())
        if g:
            eng.facts(g(q))


def zero(eng, e):
    """is e provably 0?  (quick syntactic test first)"""
    e = V.simp(e)
    if z3.is_int_value(e):
        return e.as_long() == 0
    return eng.provable(e == 0)


def active(eng, s):
    if eng is None or not hasattr(eng, 'tails'):
        return False
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return True
    return any(t[0].eq(s) for t in eng.tails)


def drop(eng, s, off):
    """the pieces of s[off:], or None"""
    cands = [(o, t) for x, o, t in reversed(eng.tails) if x.eq(s)]
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        cands.append((z3.IntVal(0), s))
    for o, t in cands[:4]:
        r = _advance(eng, flatten(t), V.simp(off - o))
        if r is not None:
            return r[1]
    return None


def mentions(d, p):
    """does the (simplified) sum d contain len(p) positively?"""
    todo = [d]
    while todo:
        x = todo.pop()
        if z3.is_add(x):
            todo += x.children()
        elif z3.is_mul(x):
            cs = x.children()
            if len(cs) == 2 and z3.is_int_value(cs[0]) and cs[0].as_long() > 0:
                todo.append(cs[1])
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_LENGTH and x.arg(0).eq(p):
            return True
    return False


def _advance(eng, ps, d):
    """split ps at distance d -> (before, after) or None.  A split is exact: it is
    accepted only where d minus the lengths of the pieces before is provably 0."""
    from .solve import zstr
    before = []
    ps = list(ps)
    asked = 0
    for _ in range(40):
        d = V.simp(d)
        if z3.is_int_value(d):
            dv = d.as_long()
            if dv == 0:
                return before, ps
            if dv < 0:
                return None
        if not ps:
            return (before, ps) if asked < 3 and eng.provable(d == 0) else None
        p = ps[0]
        n = lit_len(p)
        if n is not None:
            if z3.is_int_value(d) and dv < n:
                cs = zstr(p)
                return before + [V.lit(bytes(cs[:dv]))], [V.lit(bytes(cs[dv:]))] + ps[1:]
        elif not mentions(d, p):
            x = expand(eng, p)
            if x is not None:
                ps[:1] = x
                continue
            if asked >= 3:
                return None
            asked += 1
            if z3.is_int_value(d):
                if eng.provable(z3.Length(p) == d):
                    return before + [p], ps[1:]
                if not eng.provable(z3.Length(p) <= d):
                    return None
            else:
                if eng.provable(d == 0):
                    return before, ps
                if not eng.provable(d >= z3.Length(p)):
                    return None
        before.append(p)
        d = d - length(p)
        ps = ps[1:]
    return None


def substr(eng, s, a, n):
    """s[a:a+n] as a term"""
    plain = z3.SubString(s, a, n)
    if not active(eng, s):
        return plain
    ps = drop(eng, s, a)
    if ps is None:
        return plain
    r = _advance(eng, ps, n)
    if r is None:
        return z3.SubString(join(ps), z3.IntVal(0), n)
    t = join(r[0])
    return t


def tail(eng, s, a):
    plain = z3.SubString(s, a, z3.Length(s))
    if not active(eng, s):
        return plain
    ps = drop(eng, s, a)
    return plain if ps is None else join(ps)


def find(eng, s, p, off):
    """IndexOf(s, p, off) for a one-character literal p"""
    plain = z3.IndexOf(s, p, off)
    if not z3.is_string_value(p) or lit_len(p) != 1 or not active(eng, s):
        return plain
    from .solve import zstr
    c = zstr(p)[0]
    ps = drop(eng, s, off)
    if ps is None:
        return plain
    pos = off
    ps = list(ps)
    for _ in range(24):
        if not ps:
            return z3.IntVal(-1)
        q = ps[0]
        n = lit_len(q)
        if n is not None:
            cs = zstr(q)
            if c in cs:
                return V.simp(pos + cs.index(c))
            pos = pos + n
            ps = ps[1:]
            continue
        x = expand(eng, q)
        if x is not None:
            ps[:1] = x
            continue
        axioms(eng, q)
        if not eng.provable(z3.Not(z3.Contains(q, p))):
            return plain
        pos = pos + z3.Length(q)
        ps = ps[1:]
    return plain
