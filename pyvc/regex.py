"""Regular expressions applied to symbolic text.

The pattern of the code under proof is parsed by Python's own parser and translated to the solver's regular
languages.  Whether it matches is decided exactly; how a matching text divides into groups is left open to every
division the pattern allows (the one Python picks is among them), so what is proved holds for each."""
import re
from re import _parser as P, _constants as C
import z3
from .values import SBytes, SStr, ToolLimit, VC, Bytes, Str, str_e, mkint, Sym

_NO = z3.ReSort(z3.StringSort())


def _ch(c):
    return z3.StringVal(chr(c) if 32 <= c < 127 and c != 92 else '\\u{%x}' % c)


def _rng(lo, hi):
    return z3.Re(_ch(lo)) if lo == hi else z3.Range(_ch(lo), _ch(hi))


CATS = {C.CATEGORY_DIGIT: [(48, 57)], C.CATEGORY_WORD: [(48, 57), (65, 90), (95, 95), (97, 122)],
        C.CATEGORY_SPACE: [(9, 13), (32, 32)]}
# str.isspace and \s of text patterns also take these
USPACE = [(28, 31)]
NEG = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD,
       C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE}


class Rx:
    def __init__(self, pattern, flags):
        self.text = isinstance(pattern, str)
        tree = P.parse(pattern, flags)
        self.flags = tree.state.flags
        if self.flags & (re.IGNORECASE | re.MULTILINE | re.LOCALE):
            raise ToolLimit('regular expression flags')
        self.names = dict(tree.state.groupdict)
        self.ngroups = tree.state.groups - 1
        self.tree = tree
        self.top = 127 if self.text else 255

    def cat(self, c):
        return CATS[c] + (USPACE if self.text and c == C.CATEGORY_SPACE else [])

    def chars(self, items):
        neg, rs = False, []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                rs.append((av, av))
            elif op is C.RANGE:
                rs.append(av)
            elif op is C.CATEGORY and av in CATS:
                rs += self.cat(av)
            elif op is C.CATEGORY and av in NEG:
                rs += self.compl(self.cat(NEG[av]))
            else:
                raise ToolLimit(f'regular expression: {op}')
        return self.compl(rs) if neg else sorted(rs)

    def compl(self, rs):
        out, at = [], 0
        for lo, hi in sorted(rs):
            if lo > at:
                out.append((at, lo - 1))
            at = max(at, hi + 1)
        if at <= self.top:
            out.append((at, self.top))
        return out

    def cls(self, rs):
        # (what lies above 255 is no byte: including it makes "any byte" the solver's "any character")
        rs = [_rng(max(lo, 0), min(hi, self.top) if self.text or hi < 255 else 0x2ffff) for lo, hi in rs if lo <= self.top]
        if not rs:
            return z3.Empty(_NO)
        return z3.Union(*rs) if len(rs) > 1 else rs[0]

    def one(self, op, av):
        """the language of one node"""
        if op is C.LITERAL:
            return z3.Re(_ch(av))
        if op is C.NOT_LITERAL:
            return self.cls(self.compl([(av, av)]))
        if op is C.IN:
            return self.cls(self.chars(av))
        if op is C.ANY:
            return self.cls([(0, self.top)] if self.flags & re.DOTALL else self.compl([(10, 10)]))
        if op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise ToolLimit('regular expression: local flags')
            return self.seq(av[3])
        if op is C.BRANCH:
            return z3.Union(*[self.seq(x) for x in av[1]])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            r = self.seq(sub)
            if hi is C.MAXREPEAT or hi == C.MAXREPEAT:
                return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else \
                    z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            if (lo, hi) == (0, 1):
                return z3.Option(r)
            return z3.Loop(r, lo, hi)
        raise ToolLimit(f'regular expression: {op}')

    def seq(self, items):
        rs = [self.one(op, av) for op, av in items]
        return self.cat_(rs)

    @staticmethod
    def cat_(rs):
        if not rs:
            return z3.Re(z3.StringVal(''))
        return z3.Concat(*rs) if len(rs) > 1 else rs[0]

    def parts(self, how):
        """(nodes, language before, language after) of what is matched against the whole text"""
        items = list(self.tree)
        star = z3.Star(self.cls([(0, self.top)]))
        pre = post = None
        anchored = False
        while items and items[0][0] is C.AT and items[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            items.pop(0)
            anchored = True
        if how == 'search' and not anchored:
            pre = star
        if items and items[-1][0] is C.AT and items[-1][1] is C.AT_END_STRING:
            items.pop()
        elif items and items[-1][0] is C.AT and items[-1][1] is C.AT_END:
            items.pop()
            if how != 'fullmatch':
                post = z3.Option(z3.Re(_ch(10)))
        elif how != 'fullmatch':
            post = star
        return items, pre, post


_cache = {}


def rx(pattern, flags):
    k = (pattern, flags)
    if k not in _cache:
        _cache[k] = Rx(pattern, flags)
    return _cache[k]


class SymMatch:
    def __init__(self, r, s, groups, span):
        self.r, self.string, self.gs, self.sp = r, s, groups, span

    def _g(self, k):
        return self.gs.get(self.r.names[k] if isinstance(k, str) else k)

    def group(self, *ks):
        ks = ks or (0,)
        return self._g(ks[0]) if len(ks) == 1 else tuple(self._g(k) for k in ks)

    def __getitem__(self, k): return self._g(k)

    def groups(self, default=None):
        return tuple(default if self.gs.get(i) is None else self.gs[i] for i in range(1, self.r.ngroups + 1))

    def groupdict(self, default=None):
        return {n: default if self.gs.get(i) is None else self.gs[i] for n, i in self.r.names.items()}

    def start(self, g=0):
        if g: raise ToolLimit('start of a group')
        return self.sp[0]

    def end(self, g=0):
        if g: raise ToolLimit('end of a group')
        return self.sp[1]

    def span(self, g=0): return self.start(g), self.end(g)


def has_group(items):
    for op, av in items:
        if op is C.SUBPATTERN:
            if av[0] is not None or has_group(av[3]):
                return True
        elif op is C.BRANCH:
            if any(has_group(x) for x in av[1]):
                return True
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            if has_group(av[2]):
                return True
    return False


def all_in(e, star):
    """e is in a language closed under division into pieces"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return z3.And(*[all_in(c, star) for c in e.children()])
    return z3.InRe(e, star)


def pieces(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in e.children() for x in pieces(c)]
    return [e]


def known(eng, e, top):
    """a language that e is in, by what the path says of its pieces"""
    facts = {}
    for f in eng.pc:
        for g in (f.children() if z3.is_and(f) else [f]):
            if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_SEQ_IN_RE:
                facts.setdefault(g.arg(0).get_id(), []).append(g.arg(1))
            elif z3.is_not(g) and z3.is_app(g.arg(0)) and g.arg(0).decl().kind() == z3.Z3_OP_SEQ_IN_RE:
                facts.setdefault(g.arg(0).arg(0).get_id(), []).append(z3.Complement(g.arg(0).arg(1)))
    out = []
    for p in pieces(e):
        ls = facts.get(p.get_id(), [])
        if z3.is_string_value(p):
            out.append(z3.Re(p))
        elif ls:
            out.append(z3.Intersect(*ls) if len(ls) > 1 else ls[0])
        else:
            out.append(z3.Full(_NO))
    return z3.Concat(*out) if len(out) > 1 else out[0]


def empty(lang):
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(z3.InRe(z3.String('any text'), lang))
    return s.check() == z3.unsat


def decide(eng, e, lang):
    """does e match?  by the languages of its pieces where that settles it"""
    if len(pieces(e)) > 1:
        k = known(eng, e, None)
        if empty(z3.Intersect(k, z3.Complement(lang))):
            eng.facts([z3.InRe(e, lang)])
            return True
        if empty(z3.Intersect(k, lang)):
            eng.facts([z3.Not(z3.InRe(e, lang))])
            return False
    return eng.fork(z3.InRe(e, lang))


def matching(eng, r, s, how):
    cls = SStr if r.text else SBytes
    e = str_e(s)
    if r.text and not isinstance(s, SBytes):
        # \d and the like know more characters than these: text is taken to be ASCII or not handled
        if not eng.fork(all_in(e, z3.Star(z3.Range(_ch(0), _ch(127))))):
            raise ToolLimit('regular expression applied to text beyond ASCII')
    items, pre, post = r.parts(how)
    whole = [x for x in (pre, r.seq(items), post) if x is not None]
    if not decide(eng, e, r.cat_(whole)):
        return None
    T = Str if r.text else Bytes
    groups = {}

    def fresh():
        return eng.fresh('rx', T).e

    greedy = []

    def walk(its, top=False):
        """the pieces that the nodes match, in order; facts are added on the way"""
        out = []
        run = []

        def flush():
            if run:
                v = fresh()
                eng.facts([z3.InRe(v, r.seq(run))])
                out.append(v)
                run.clear()
        for j, (op, av) in enumerate(its):
            g = longest(op, av) if top else None
            if g is not None:
                ps = walk([(op, av)])
                out += ps
                greedy.append((len(out), g, its[j + 1:]))
                continue
            if not has_group([(op, av)]):
                if op is C.LITERAL:
                    flush()
                    out.append(_ch(av))
                else:
                    flush()
                    run.append((op, av))
                    flush()
                continue
            flush()
            if op is C.SUBPATTERN:
                ps = walk(av[3])
                v = cat(ps)
                if av[0] is not None:
                    groups[av[0]] = cls(v)
                out.append(v)
            elif op is C.BRANCH:
                k = eng.choose(len(av[1]))
                out.append(cat(walk(av[1][k])))
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, sub = av
                if lo > 1:
                    raise ToolLimit('group under a repeat')
                if lo == 1 or eng.choose(2):
                    if hi != 1:
                        v = fresh()         # all but the last iteration
                        eng.facts([z3.InRe(v, z3.Star(r.seq(sub)))])
                        out.append(v)
                    out.append(cat(walk(sub)))
            else:
                raise ToolLimit(f'regular expression: {op}')
        flush()
        return out

    def longest(op, av):
        """the class of characters, if this is as many of them as can be"""
        if op is C.SUBPATTERN and not av[1] and not av[2] and len(av[3]) == 1:
            return longest(*av[3][0])
        if op is C.MAX_REPEAT and av[1] == C.MAXREPEAT and len(av[2]) == 1 and av[2][0][0] in (C.LITERAL, C.IN, C.NOT_LITERAL):
            return r.one(*av[2][0])
        return None

    def cat(ps):
        if not ps:
            return z3.StringVal('')
        return z3.Concat(*ps) if len(ps) > 1 else ps[0]
    if r.ngroups == 0 and pre is None and post is None:
        mid = e
        start, end = z3.IntVal(0), z3.Length(e)
    else:
        its = walk(items, True)
        mid = cat(its)
        ps = []
        tail = [] if post is None else [fresh()]
        for at, g, rest in greedy:
            # one more of these characters and the rest would not match
            eng.facts([z3.Not(z3.InRe(cat(its[at:] + tail), r.cat_([g, r.seq(rest)] + ([post] if post is not None else []))))])
        start = z3.IntVal(0)
        if pre is not None:
            v = fresh()
            ps.append(v)
            start = z3.Length(v)
        ps.append(mid)
        end = start + z3.Length(mid)
        if post is not None:
            v = tail[0]
            eng.facts([z3.InRe(v, post)])
            ps.append(v)
        eng.facts([e == cat(ps)])
    groups[0] = cls(mid)
    return SymMatch(r, s, groups, (mkint(start), mkint(end)))


def method(f):
    """a model for a method of a compiled pattern, or a function of re, applied to symbolic text"""
    p = getattr(f, '__self__', None)
    how = getattr(f, '__name__', '')
    if isinstance(p, re.Pattern):
        def m(d, a, k):
            if not a or not isinstance(a[0], Sym):
                return NotImplemented
            if how not in ('match', 'search', 'fullmatch') or len(a) > 1 or k:
                raise ToolLimit(f'{how} of a regular expression')
            if isinstance(a[0], SBytes) != isinstance(p.pattern, bytes):
                raise TypeError('cannot use a pattern on this type')
            return matching(VC[0], rx(p.pattern, p.flags & ~re.UNICODE if isinstance(p.pattern, str) else p.flags), a[0], how)
        return m
    if f in (re.match, re.search, re.fullmatch):
        def g(d, a, k):
            if isinstance(a[0], Sym):
                raise ToolLimit('symbolic pattern')
            if len(a) < 2 or not isinstance(a[1], Sym):
                return NotImplemented
            pat = a[0] if isinstance(a[0], re.Pattern) else re.compile(a[0], *a[2:], **k)
            return method(getattr(pat, how))(d, a[1:2], {})
        return g
    return None
