"""Path exploration, obligations and the symbolic dispatcher."""
import builtins, operator, os, sys, time, types, functools, itertools
import z3
from . import values as V
from . import ropes, frame
from .values import (Type, Int, Nat, Bool, Bytes, Str, Seq, Tup, Opt, Opaque, Sym, SInt, SBool,
                     SBytes, SStr, SStrBase, SOpaque, SSeq, SRange, SymMethod, Undef, VList,
                     VDict, VSet, ToolLimit, TypeMismatch, mkint, mkbool, int_e, bool_e, lit,
                     str_e, has_sym, guess_type, VC)


class PathAbort(BaseException):
    """This execution path is finished or infeasible."""


class Capped(PathAbort):
    pass


class Obligation:
    __slots__ = ('name', 'unit', 'pc', 'goal', 'havoc', 'inputs', 'status', 'backend', 'time',
                 'model', 'reason', 'kind')

    def __init__(self, name, unit, pc, goal, havoc, inputs, kind='post'):
        self.name, self.unit, self.pc, self.goal = name, unit, pc, goal
        self.havoc, self.inputs, self.kind = havoc, inputs, kind
        self.status = None
        self.backend = ''
        self.time = 0.0
        self.model = None
        self.reason = ''


_pow2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
_ufs = {}


def uf(name, *sorts):
    if name not in _ufs:
        _ufs[name] = z3.Function(name, *sorts)
    return _ufs[name]


def pow2_term(e):
    """pow2(e), normalised so that pow2(b + c) is 2^c * pow2(b)."""
    e = V.simp(e)
    if z3.is_int_value(e):
        v = e.as_long()
        return z3.IntVal(1 << v) if v >= 0 else _pow2(e)
    if z3.is_add(e):
        consts = [a for a in e.children() if z3.is_int_value(a)]
        c = sum(a.as_long() for a in consts)
        if c > 0:
            rest = V.simp(z3.Sum([a for a in e.children() if not z3.is_int_value(a)]))
            return z3.IntVal(1 << c) * _pow2(rest)
    return _pow2(e)


class RecFn:
    """A recursive specification function."""
    def __init__(self, fn, params, ret, fuel=2):
        self.fn, self.params, self.ret, self.fuel = fn, params, ret, fuel
        self.name = fn.__name__
        functools.update_wrapper(self, fn)
        self.decl = None
        self._cache = {}

    def _decl(self):
        if self.decl is None:
            self.decl = z3.Function('spec_' + self.name, *[t.sort() for t in self.params],
                                    self.ret.sort())
            _rec_by_decl[self.decl.name()] = self
        return self.decl

    def __call__(self, *args):
        if any(has_sym(a) for a in args):
            return self.ret.wrap(self._decl()(*[t.unwrap(a) for t, a in zip(self.params, args)]))
        return self.fn(*args)

    def unfold(self, app):
        k = app.get_id()
        if k not in self._cache:
            args = [t.wrap(app.arg(i)) for i, t in enumerate(self.params)]
            body = self.fn(*args)
            eqs = [app == self.ret.unwrap(body)]
            eqs += self.ret.facts(app)
            self._cache[k] = (app, eqs)
        return self._cache[k][1]


_rec_by_decl = {}


def collect_apps(exprs, seen, out, pows, extra):
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen[i] = e
        if z3.is_quantifier(e):
            continue                      # bound variables: no unfolding below
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity():
                n = d.name()
                r = _rec_by_decl.get(n)
                if r is not None:
                    out.append((r, e))
                elif n == 'pow2':
                    pows.append(e)
                elif n in _axiom_gens:
                    extra.append((n, e))
            stack.extend(e.children())


_axiom_gens = {}


def axiom_gen(name):
    def deco(f):
        _axiom_gens[name] = f
        return f
    return deco


def close(exprs, fuel=2):
    """exprs plus definitional instances for the recursive functions in them."""
    res = list(exprs)
    seen, done = {}, set()
    frontier = list(exprs)
    for depth in range(fuel + 1):
        apps, pows, extra = [], [], []
        collect_apps(frontier, seen, apps, pows, extra)
        new = []
        for p in pows:
            a = p.arg(0)
            new += [z3.Implies(a >= 0, p >= 1), z3.Implies(a == 0, p == 1),
                    z3.Implies(a > 0, p >= 2)]
        for n, e in extra:
            new += _axiom_gens[n](e)
        if depth < fuel:
            for r, app in apps:
                if app.get_id() not in done:
                    done.add(app.get_id())
                    new += r.unfold(app)
        elif apps:
            for r, app in apps:
                new += r.ret.facts(app)
        if not new:
            break
        res += new
        frontier = new
    return res


class Engine:
    symbolic = True

    def __init__(self, name, timeout_feas=150, max_paths=4000, cap=4, deadline=None, fuel=2):
        self.name = name
        self.tf = timeout_feas
        self.max_paths = max_paths
        self.cap = cap
        self.fuel = fuel
        self.obls = []
        self.bounded = []       # reasons
        self.limits = []        # ToolLimit messages
        self.frames = {}        # per cut loop, what it changes
        self.paths = 0
        self.completed = 0
        self.deadline = deadline
        self.stubs = {}
        self.loop_specs = {}
        self.covers = {}

    # ---- exploration
    def explore(self, fn):
        stack = [[]]
        VC[0] = self
        try:
            while stack:
                if self.paths >= self.max_paths or \
                        (self.deadline and time.time() > self.deadline):
                    self.limits.append('path budget exhausted')
                    break
                self.dec = stack.pop()
                self.prefix = len(self.dec)
                self.idx = 0
                self.pc = []
                self.tails = []
                self.solver = z3.Solver()
                self.solver.set('timeout', self.tf)
                self.counter = 0
                self.havoc = []
                self.inputs = []
                self.dead = False
                self.stack = stack
                self.out = None
                self.ticks = {}
                self.on_sort = None     # what a contract knows of a sorted list
                self.on_method = {}     # ... and of what a method of symbolic text gives
                self.active_loops = []
                unpatch_all()
                self.stubs = {}
                self.loop_specs = {}
                self.paths += 1
                try:
                    fn(self)
                    self.completed += 1
                except Capped:
                    pass
                except PathAbort:
                    pass
                except ToolLimit as ex:
                    self.limits.append(f'{type(ex).__name__}: {ex}' + _where(ex))
                except RecursionError as ex:
                    self.limits.append('recursion limit')
                except z3.Z3Exception as ex:
                    self.limits.append(f'z3: {ex}' + _where(ex))
                except Exception as ex:
                    if isinstance(ex, (TypeError, AttributeError)) and _symbolic_err(ex):
                        self.limits.append(f'native use of a symbolic value: {ex}' + _where(ex))
                    else:
                        self.record(z3.BoolVal(False),
                                    f'no-unexpected-exception:{type(ex).__name__}', 'exc',
                                    reason=str(ex)[:200] + _where(ex))
        finally:
            VC[0] = None
        for label, r in self.frames.items():
            bad = r.bad()
            if bad:
                self.limits.append(f'the body of {label} changes what its contract keeps: ' + ', '.join(sorted(bad))[:300])
        return self

    def alive(self):
        if self.dead:
            raise PathAbort()

    def abort(self):
        self.dead = True
        raise PathAbort()

    def assume_e(self, e):
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)
        ropes.note(self, e)

    def facts(self, es):
        for e in es:
            self.assume_e(e)

    def _sat(self, e):
        """could e hold here?  (unknown counts as yes)"""
        self.solver.push()
        try:
            self.solver.add(e)
            return self.solver.check() != z3.unsat
        except z3.Z3Exception:
            return True
        finally:
            self.solver.pop()

    def provable(self, e):
        e = V.simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.solver.push()
        try:
            self.solver.add(z3.Not(e))
            return self.solver.check() == z3.unsat
        except z3.Z3Exception:
            return False
        finally:
            self.solver.pop()

    def choose(self, n, guards=None):
        """Pick one of n alternatives (all are explored)."""
        self.alive()
        if self.idx < len(self.dec):
            k = self.dec[self.idx]
            self.idx += 1
        else:
            opts = [i for i in range(n) if guards is None or self._sat(guards[i])]
            if not opts:
                self.abort()
            k = opts[0]
            for o in reversed(opts[1:]):
                self.stack.append(self.dec[:self.idx] + [o])
            self.dec = self.dec[:self.idx] + [k]
            self.idx += 1
            # the prefix grows: obligations from here on are new
        if guards is not None:
            self.assume_e(guards[k])
        return k

    def fork(self, e):
        e = V.simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.choose(2, [e, z3.Not(e)]) == 0

    def record(self, goal, name, kind='post', reason=''):
        if self.idx < self.prefix:
            return
        o = Obligation(name, self.name, list(self.pc), goal, list(self.havoc), list(self.inputs),
                       kind)
        o.reason = reason
        g = V.simp(goal)
        if z3.is_true(g):
            o.status, o.backend = 'proved', 'simplifier'
        self.obls.append(o)

    # ---- harness interface
    def check(self, cond, name, kind='post'):
        self.alive()
        if isinstance(cond, (Sym, VList)) or not isinstance(cond, bool):
            cond = dispatch_spec.tobool(cond)
        e = bool_e(cond)
        parts = conjuncts(e)
        for i, c in enumerate(parts):
            self.record(c, name if len(parts) == 1 else f'{name} [{i}]', kind)
            self.assume_e(c)
        if z3.is_false(e):
            self.abort()

    def assume(self, cond):
        self.alive()
        e = bool_e(dispatch_spec.tobool(cond))
        self.assume_e(e)
        if z3.is_false(e) or not self._sat(z3.BoolVal(True)):
            self.abort()

    def name_(self, base):
        self.counter += 1
        return f'{base}!{self.counter}'

    def fresh(self, base, t):
        self.alive()
        e = z3.Const(self.name_(base), t.sort())
        self.facts(t.facts(e))
        return t.wrap(e)

    def input(self, name, t, gen=None):
        e = z3.Const(name, t.sort())
        self.inputs.append((name, t, e))
        self.facts(t.facts(e))
        return t.wrap(e)

    def choice(self, name, options, weights=None):
        k = self.choose(len(options))
        self.inputs.append((name, 'choice', k))
        return options[k]

    def cover(self, name):
        """This point must be reachable (vacuity guard)."""
        self.alive()
        if not self.covers.get(name):
            self.covers[name] = self._sat(z3.BoolVal(True))

    def raises(self, fn, *a, **k):
        try:
            return None, dispatch.call(fn, *a, **k)
        except PathAbort:
            raise
        except ToolLimit:
            raise
        except z3.Z3Exception:
            raise
        except Exception as ex:
            if isinstance(ex, (TypeError, AttributeError)) and _symbolic_err(ex):
                raise ToolLimit(f'native use of a symbolic value: {ex}' + _where(ex))
            return ex, None

    def gen(self, g, elt):
        """Everything a generator yields."""
        out = VList()
        out_prev, self.out = self.out, out
        self.out_elt = elt
        try:
            for x in dispatch.iter(g):
                if isinstance(x, Many):
                    dispatch.extend(out, x.seq)
                else:
                    dispatch.append(out, x)
        finally:
            self.out = out_prev
        return out

    def loop(self, key, k=0, **kw):
        self.loop_specs[(key, k)] = LoopSpec(**kw)

    def stub(self, fn, impl):
        self.stubs[getattr(fn, '__func__', fn)] = impl

    def body(self, fn):
        """the function itself, although calls of it are replaced by its contract"""
        return lambda *a, **k: fn(*a, **k)

    # ---- memory of mutable attributes changed by the harness
    def patch(self, obj, **attrs):
        for k, v in attrs.items():
            _patched.setdefault(id(obj), (obj, {}))[1].setdefault(k, getattr(obj, k, _MISSING))
            setattr(obj, k, v)

    def use(self, lemma, *args):
        """Assume a lemma that has its own proof obligation."""
        self.assume(lemma.statement(*args))


_MISSING = object()
_patched = {}


def unpatch_all():
    for obj, d in _patched.values():
        for k, v in d.items():
            if v is _MISSING:
                delattr(obj, k)
            else:
                setattr(obj, k, v)
    _patched.clear()


def conjuncts(e):
    if z3.is_and(e):
        return [x for c in e.children() for x in conjuncts(c)]
    return [e]


def _where(ex):
    tb = ex.__traceback__
    best = ''
    while tb is not None:
        f = tb.tb_frame.f_code
        if 'pyvc/' not in f.co_filename:
            best = f' at {os.path.basename(f.co_filename)}:{tb.tb_lineno}'
        tb = tb.tb_next
    return best


def _symbolic_err(ex):
    m = str(ex)
    return any(s in m for s in ('SInt', 'SBool', 'SBytes', 'SStr', 'SSeq', 'SOpaque', 'SRange',
                                'SymMethod', 'Undef', 'VList', 'VDict', 'VSet', 'PowerOfTwo'))


class LoopSpec:
    def __init__(self, inv=None, types=None, havoc=None, out=None, decreases=None, name='',
                 keep=(), ghost=None):
        self.inv, self.types, self.havoc = inv, types or {}, havoc or {}
        self.out, self.decreases, self.name, self.keep = out, decreases, name, keep
        self.ghost = ghost or {}


class Env:
    """What an invariant can see: the locals, the loop's ghost state."""
    def __init__(self, loc, L):
        self._loc, self._L = loc, L

    def __getattr__(self, n):
        if n in self._loc:
            return self._loc[n]
        if n in self._L.ghost:
            return self._L.ghost[n]
        if n in ('i', 'idx'): return self._L.i
        if n == 'seq': return self._L.seqval()
        if n == 'done': return dispatch_spec.getitem(self._L.seqval(), slice(0, self._L.i))
        if n == 'rest': return dispatch_spec.getitem(self._L.seqval(), slice(self._L.i, None))
        if n == 'out': return self._L.eng.out
        if n == 'entry': return Env(self._L.entry, self._L)
        if n == 'entry_out': return self._L.entry_out
        raise ToolLimit(f'invariant mentions unknown variable {n}')

    def has(self, n):
        return n in self._loc and not isinstance(self._loc[n], Undef)


class Loop:
    def __init__(self, eng, key, k, kind, it):
        self.eng = eng
        self.spec = eng.loop_specs.get((key, k)) if eng else None
        self.label = f'{key}#{k}'
        self.kind = kind
        self.it = it
        self.arrivals = 0
        self.i = 0
        self.vals = {}
        self.ghost = {}
        self.cut = self.spec is not None
        self.n = 0
        if kind == 'for':
            if self.cut:
                self._setup_seq(it)
            else:
                self.native = builtins.iter(dispatch.iter(it))
                self.pending = None

    def _setup_seq(self, it):
        if isinstance(it, SRange):
            self.len_e = z3.If(it.stop > it.start, it.stop - it.start, z3.IntVal(0))
            if not (z3.is_int_value(it.step) and it.step.as_long() == 1):
                st = it.step
                self.len_e = z3.If(it.stop > it.start, (it.stop - it.start + st - 1) / st,
                                   z3.IntVal(0))
            self.at = lambda i: mkint(it.start + int_e(i) * it.step)
            self._seq = None
        elif isinstance(it, range):
            self._setup_seq(SRange(z3.IntVal(it.start), z3.IntVal(it.stop), z3.IntVal(it.step)))
        elif isinstance(it, FnSeq):
            self.len_e = int_e(it.n)
            self.at = it.f
            self._seq = None
        elif is_kept(it):
            self._setup_seq(it.as_fnseq())
        elif isinstance(it, VList) and is_kept(it.sym):
            self._setup_seq(it.sym.as_fnseq())
        elif isinstance(it, SEnum):
            self._setup_seq(it.seq)
            at = self.at
            self.at = lambda i: (mkint(int_e(i) + int_e(it.start)), at(i))
        elif isinstance(it, SStrBase):
            self.len_e = z3.Length(it.e)
            self.at = lambda i: dispatch_spec.getitem(it, i)
            self._seq = it
        else:
            if isinstance(it, SSeq):
                s = it
            elif isinstance(it, VList) and it.sym is not None:
                s = it.sym
            elif isinstance(it, (list, tuple)):
                s = None
                ts = [guess_type(x) for x in list(it)]
                if not it or any(t is None for t in ts):
                    self.cut = False
                    self.native = builtins.iter(dispatch.iter(it))
                    self.pending = None
                    return
                s = SSeq(V.seq_of(it, ts[0]), ts[0])
            else:
                self.cut = False
                self.native = builtins.iter(dispatch.iter(it))
                self.pending = None
                return
            self.len_e = z3.Length(s.e)
            self.at = lambda i: dispatch_spec.getitem(s, i)
            self._seq = s

    def seqval(self):
        return self._seq

    def head(self, loc):
        if not self.cut:
            if self.kind == 'while' and self.eng:
                dispatch.tick_n(self)
            return True
        eng, sp = self.eng, self.spec
        eng.alive()
        self.arrivals += 1
        if self.arrivals == 1:
            loc = dict(loc)
            self.entry = {k: snapshot(v) for k, v in loc.items()}
            self.entry_out = snapshot(eng.out)
            for g, (t, init, step) in sp.ghost.items():
                self.ghost[g] = init(Env(loc, self))
            eng.check(sp.inv(Env(loc, self)), f'inv-entry {self.label}', 'inv')
            eng.havoc.append(self.label)
            self.frame = eng.frames.setdefault(self.label, frame.Record())
            self.before = frame.walk(self.roots(loc))
            if self.kind == 'for':
                self.i = eng.fresh('i', Int)
                eng.facts([int_e(self.i) >= 0, int_e(self.i) <= self.len_e])
            self.loc = loc
            self.newvals = {}
            for path, t in sp.havoc.items():
                havoc_path(eng, loc, path, t)
            if sp.out is not None:
                e = z3.Const(eng.name_('out'), z3.SeqSort(sp.out.sort()))
                eng.out.sym = SSeq(e, sp.out)
            for g, (t, init, step) in sp.ghost.items():
                self.ghost[g] = eng.fresh(g, t)
            self.pending_inv = True
            return True
        self.frame.changed |= frame.changed(self.start)
        if self.kind == 'for':
            self.i = mkint(int_e(self.i) + 1)
        new = {g: step(Env(loc, self)) for g, (t, init, step) in sp.ghost.items()}
        self.ghost.update(new)
        eng.check(sp.inv(Env(loc, self)), f'inv-step {self.label}', 'inv')
        if sp.decreases is not None:
            d = sp.decreases(Env(loc, self))
            eng.check(mkbool(z3.And(int_e(self.dec0) >= 0, int_e(d) < int_e(self.dec0))),
                      f'decreases {self.label}', 'inv')
        eng.abort()

    def get(self, name):
        sp, eng = self.spec, self.eng
        if name in self.newvals:
            return self.newvals[name]
        if name in sp.keep:
            v = self.loc.get(name, Undef(name))
        else:
            t = sp.types.get(name)
            old = self.loc.get(name)
            if t is None and name in self.loc and name not in sp.types:
                if isinstance(old, (VList,)) and name not in sp.types:
                    t = guess_type(old)
                else:
                    t = guess_type(old)
            if t is None:
                v = Undef(name)
            elif callable(t) and not isinstance(t, Type):
                v = t(eng)
            elif isinstance(t, Seq):
                v = VList()
                v.sym = SSeq(z3.Const(eng.name_(name), t.sort()), t.elt)
            else:
                v = eng.fresh(name, t)
        self.newvals[name] = v
        return v

    def roots(self, loc):
        r = [(n, v) for n, v in loc.items()] + [('yielded', self.eng.out)]
        r += [('stand-in', f) for f in self.eng.stubs.values()]
        return r + [('invariant', self.spec.inv)]

    # called by instrumented code after the havocked names were rebound
    def _assume_inv(self):
        if self.pending_inv:
            self.pending_inv = False
            for n, t in self.spec.types.items():
                # names the body does not rebind: a list it may change in place
                if n not in self.newvals and isinstance(self.loc.get(n), list):
                    havoc_list(self.eng, n, self.loc[n], t)
            loc = dict(self.loc)
            loc.update(self.newvals)
            self.frame.free |= frame.changed(self.before) | set(self.newvals)
            if self.spec.out is not None:
                self.frame.free.add('yielded')
            self.before = None
            self.start = frame.walk(self.roots(loc))
            self.eng.assume(self.spec.inv(Env(loc, self)))
            if self.spec.decreases is not None:
                self.dec0 = self.spec.decreases(Env(loc, self))

    @property
    def ready(self):
        if self.cut:
            self._assume_inv()
        return True

    def more(self):
        if self.cut:
            return self.eng.fork(int_e(self.i) < self.len_e)
        try:
            self.pending = next(self.native)
            return True
        except StopIteration:
            return False

    def cur(self):
        if self.cut:
            return self.at(self.i)
        return self.pending


class Many:
    """what `yield from` a symbolic sequence hands to the consumer at once"""
    def __init__(self, seq): self.seq = seq


def snapshot(v):
    if isinstance(v, VList):
        if v.sym is not None:
            return v.sym
        return list(list.__iter__(v))
    return v


def is_kept(x):
    """a contract's stand-in for a list of any length: append(), sort(), as_fnseq()"""
    return hasattr(type(x), 'as_fnseq')


def havoc_list(eng, name, v, t):
    if not isinstance(v, VList):
        raise ToolLimit(f'cannot havoc {name} in place')
    if callable(t) and not isinstance(t, Type):
        new = t(eng)
        if is_kept(new):
            v.sym = new
            list.clear(v)
            return
        v.sym = getattr(new, 'sym', None)
        list.__setitem__(v, slice(None), list.__iter__(new))
    else:
        v.sym = SSeq(z3.Const(eng.name_(name), t.sort()), t.elt)


def havoc_path(eng, loc, path, t):
    parts = path.split('.')
    if parts[0] not in loc:
        if isinstance(t, tuple) and t[0] == 'obj':
            setattr(t[1], t[2], eng.fresh(path, t[3]))
            return
        raise ToolLimit(f'loop spec names unknown variable {path}')
    o = loc[parts[0]]
    for p in parts[1:-1]:
        o = getattr(o, p)
    if len(parts) == 1:
        v = o
    else:
        v = getattr(o, parts[-1])
    if isinstance(v, VList):
        v.sym = SSeq(z3.Const(eng.name_(path), t.sort()), t.elt)
        return
    if len(parts) == 1:
        raise ToolLimit(f'cannot havoc {path} in place')
    if callable(t) and not isinstance(t, Type):
        setattr(o, parts[-1], t(eng))
        return
    setattr(o, parts[-1], eng.fresh(path, t))


class FnSeq(Sym):
    """n elements, element i being f(i): for cut loops"""
    def __init__(self, n, f): self.n, self.f = n, f


class SEnum(Sym):
    __slots__ = ('seq', 'start')
    def __init__(self, seq, start): self.seq, self.start = seq, start


OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
       '//': operator.floordiv, '%': operator.mod, '<<': operator.lshift, '>>': operator.rshift,
       '|': operator.or_, '&': operator.and_, '^': operator.xor, '**': operator.pow,
       '@': operator.matmul}
IOPS = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv,
        '//': operator.ifloordiv, '%': operator.imod, '<<': operator.ilshift,
        '>>': operator.irshift, '|': operator.ior, '&': operator.iand, '^': operator.ixor,
        '**': operator.ipow, '@': operator.imatmul}
CMPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
        '>': operator.gt, '>=': operator.ge, 'in': lambda a, b: a in b,
        'not in': lambda a, b: a not in b, 'is': operator.is_, 'is not': operator.is_not}

INTLIKE = (SInt, SBool, int)
STRLIKE = (SBytes, SStr)
_OPAQUE = {'path_msg', 'log', 'debug1', 'debug2', 'progress', 'qprogress'}


def is_symlist(v):
    return isinstance(v, SSeq) or (isinstance(v, VList) and v.sym is not None)


def symlist(v):
    v = v if isinstance(v, SSeq) else v.sym
    if is_kept(v):
        raise ToolLimit(f'use of a stand-in list {type(v).__name__}')
    return v


def standin(v):
    """the contract's stand-in for a list that it changed in place"""
    return v.sym if isinstance(v, VList) and is_kept(v.sym) else v


def mask_and(e, m):
    """e & m for a constant m >= 0, e any integer."""
    terms = []
    bit = 0
    while m >> bit:
        if not (m >> bit) & 1:
            bit += 1
            continue
        lo = bit
        while (m >> bit) & 1:
            bit += 1
        w = bit - lo
        t = e if lo == 0 else e / z3.IntVal(1 << lo)
        t = t % z3.IntVal(1 << w)
        terms.append(t if lo == 0 else t * z3.IntVal(1 << lo))
    if not terms:
        return z3.IntVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


class Dispatch:
    def __init__(self, spec=False):
        self.spec = spec

    # ---- truth and control
    def tobool(self, v):
        """bool or SBool, no forking"""
        if isinstance(v, (bool, SBool)):
            return v
        if isinstance(v, SInt):
            return mkbool(v.e != 0)
        if isinstance(v, SStrBase):
            return mkbool(z3.Length(v.e) > 0)
        v = standin(v)
        if is_symlist(v):
            return mkbool(z3.Length(symlist(v).e) > 0)
        if isinstance(v, VSet):
            return v.truth() if hasattr(v, 'truth') else True
        if isinstance(v, VDict):
            return mkbool(z3.BoolVal(len(v.items_) > 0)) if v.dom is None else True
        if isinstance(v, (SOpaque,)):
            return True
        if isinstance(v, SRange):
            return mkbool(v.stop > v.start)
        if isinstance(v, Undef):
            raise ToolLimit(f'use of havocked untyped variable {v.name}')
        t = type(v)
        if t.__module__ and (VC[0] is not None) and not isinstance(v, (list, dict, tuple)):
            b = getattr(t, '__bool__', None)
            if b is not None and isinstance(b, types.FunctionType):
                return self.tobool(b(v))
            ln = getattr(t, '__len__', None)
            if b is None and isinstance(ln, types.FunctionType):
                return self.tobool(ln(v))
        return bool(v)

    def truth(self, v):
        if v is True or v is False or v is None:
            if VC[0] is not None and VC[0].dead:
                raise PathAbort()
            return bool(v)
        b = self.tobool(v)
        if isinstance(b, bool):
            return b
        return VC[0].fork(b.e)

    def not_(self, v):
        b = self.tobool(v)
        if isinstance(b, bool):
            return not b
        return mkbool(z3.Not(b.e))

    def sc(self, op, *lams):
        v = None
        for i, l in enumerate(lams):
            v = l()
            if i == len(lams) - 1:
                return v
            t = self.truth(v)
            if (op == 'and') != t:
                return v
        return v

    def land(self, *lams):
        acc = []
        last = None
        for l in lams:
            v = l()
            b = self.tobool(v)
            if b is False:
                return v if not acc else False
            last = v
            if b is not True:
                acc.append(b.e)
        if not acc:
            return last
        b = self.tobool(last)
        if len(acc) == 1 and not isinstance(b, bool):
            return b
        return mkbool(z3.And(*acc))

    def lor(self, *lams):
        acc = []
        last = None
        for l in lams:
            v = l()
            b = self.tobool(v)
            if b is True:
                return v if not acc else True
            last = v
            if b is not False:
                acc.append(b.e)
        if not acc:
            return last
        return mkbool(z3.Or(*acc))

    def ite(self, c, a, b):
        c = self.tobool(c)
        if c is True:
            return a()
        if c is False:
            return b()
        return merge(c.e, a(), b())

    # ---- arithmetic
    def unop(self, op, v):
        if isinstance(v, (SInt, SBool)):
            e = int_e(v)
            return mkint(-e) if op == '-' else mkint(-e - 1) if op == '~' else mkint(e)
        return {'-': operator.neg, '+': operator.pos, '~': operator.invert}[op](v)

    def binop(self, op, l, r):
        if not (isinstance(l, Sym) or isinstance(r, Sym)):
            if op == '%' and isinstance(l, (bytes, str)):
                if has_sym(r):
                    return fmt(self, l, r)
                return l % r
            if isinstance(l, VList) or isinstance(r, VList):
                return self.listop(op, l, r)
            return OPS[op](l, r)
        if op == '%' and isinstance(l, (bytes, str)):
            return fmt(self, l, r)
        if isinstance(l, INTLIKE) and isinstance(r, INTLIKE):
            return self.intop(op, l, r)
        if isinstance(l, (SStrBase, bytes, str)) and isinstance(r, (SStrBase, bytes, str)) \
                and op == '+':
            bl = isinstance(l, (SBytes, bytes))
            if bl != isinstance(r, (SBytes, bytes)):
                raise TypeError('bytes + str')
            if isinstance(l, (bytes, str)) and not l: return r
            if isinstance(r, (bytes, str)) and not r: return l
            return (SBytes if bl else SStr)(z3.Concat(str_e(l), str_e(r)))
        if isinstance(l, (SSeq, VList, list, tuple)) and isinstance(r, (SSeq, VList, list, tuple)):
            return self.listop(op, l, r)
        if op == '*' and isinstance(l, (bytes, str)) and isinstance(r, SInt):
            return rep(l, r)
        if isinstance(l, (VSet,)) or isinstance(r, VSet):
            raise ToolLimit('set operator')
        # user classes
        meth = {'+': '__add__', '-': '__sub__'}.get(op)
        if meth and hasattr(type(l), meth):
            return getattr(l, meth)(r)
        meth = {'+': '__radd__', '-': '__rsub__', '*': '__rmul__', '/': '__rtruediv__'}.get(op)
        if meth and isinstance(getattr(type(r), meth, None), types.FunctionType):
            return getattr(r, meth)(l)
        raise ToolLimit(f'{op} on {type(l).__name__}, {type(r).__name__}')

    def listop(self, op, l, r):
        if op == '+':
            if is_symlist(l) or is_symlist(r):
                elt = symlist(l).elt if is_symlist(l) else symlist(r).elt
                t = Seq(elt)
                le, re_ = t.unwrap(l), t.unwrap(r)
                res = SSeq(z3.Concat(le, re_), elt)
                if isinstance(l, (VList, list)) and not self.spec:
                    v = VList(); v.sym = res
                    return v
                return res
            if isinstance(l, tuple):
                return l + r
            return VList(list(l) + list(r))
        if op == '*' and isinstance(l, VList):
            if is_symlist(l) or isinstance(r, Sym):
                raise ToolLimit('list repetition')
            return VList(list(l) * r)
        return OPS[op](l, r)

    def intop(self, op, l, r):
        a, b = int_e(l), int_e(r)
        bc = r if isinstance(r, int) else None
        ac = l if isinstance(l, int) else None
        if op == '+': return mkint(a + b)
        if op == '-': return mkint(a - b)
        if op == '*': return mkint(a * b)
        if op in ('//', '%'):
            if not self.spec:
                if bc == 0 or (bc is None and VC[0].fork(b == 0)):
                    raise ZeroDivisionError('integer division or modulo by zero')
            if bc is not None and bc > 0 or VC[0].provable(b > 0):
                return mkint(a / b) if op == '//' else mkint(a % b)
            # python floors; SMT rounds so that the remainder is non-negative
            q = z3.If(b > 0, a / b, -(a / (-b)))
            q = z3.If(b > 0, a / b, z3.If(a % b == 0, a / b, a / b - 1))
            return mkint(q) if op == '//' else mkint(a - q * b)
        if op == '<<':
            if bc is not None:
                return mkint(a * z3.IntVal(1 << bc))
            res = mkint(a * pow2_term(b))
            if isinstance(res, SInt):
                _shl[res.e.get_id()] = (res.e, a, pow2_term(b))
            return res
        if op == '>>':
            if bc is not None:
                return mkint(a / z3.IntVal(1 << bc))
            return mkint(a / pow2_term(b))
        if op == '&':
            if bc is not None or ac is not None:
                m, e = (bc, a) if bc is not None else (ac, b)
                if m >= 0:
                    return mkint(mask_and(e, m))
                return mkint(e - mask_and(e, ~m))
            return SInt(uf('band', z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b))
        if op == '|':
            if isinstance(l, (bool, SBool)) and isinstance(r, (bool, SBool)):
                return mkbool(z3.Or(bool_e(l), bool_e(r)))
            if bc is not None or ac is not None:
                m, e = (bc, a) if bc is not None else (ac, b)
                if m >= 0:
                    return mkint(e + z3.IntVal(m) - mask_and(e, m))
                raise ToolLimit('| with a negative constant')
            for x, y in ((a, b), (b, a)):
                s = _shl.get(y.get_id())
                if s is not None and VC[0].provable(z3.And(x >= 0, x < s[2])):
                    return mkint(x + y)
                # constant shift: y is k * 2^c syntactically
                c = const_factor(y)
                if c > 1 and VC[0].provable(z3.And(x >= 0, x < c)):
                    return mkint(x + y)
            return SInt(uf('bor', z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b))
        if op == '^':
            if bc is not None and bc >= 0:
                return mkint(a + bc - 2 * mask_and(a, bc))
            return SInt(uf('bxor', z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b))
        if op == '**':
            if ac == 2: return mkint(pow2_term(b))
            if bc is not None and 0 <= bc < 8:
                x = z3.IntVal(1)
                for _ in range(bc): x = x * a
                return mkint(x)
        if op == '/':
            raise ToolLimit('float division')
        raise ToolLimit(f'int {op}')

    def iop(self, op, x, v):
        if isinstance(x, VList):
            if op == '+':
                self.extend(x, v)
                return x
        if isinstance(x, Sym) or isinstance(v, Sym):
            return self.binop(op, x, v)
        if isinstance(x, (bytes, str)) and op == '%':
            return self.binop(op, x, v)
        return IOPS[op](x, v)

    def augattr(self, o, attr, op, v):
        setattr(o, attr, self.iop(op, getattr(o, attr), v))

    def augitem(self, o, i, op, v):
        self.setitem(o, i, self.iop(op, self.getitem(o, i), v))

    # ---- comparison
    def cmp(self, op, l, r):
        if op in ('is', 'is not'):
            if isinstance(l, SBool) and isinstance(r, bool) or \
                    isinstance(r, SBool) and isinstance(l, bool):
                e = bool_e(l) == bool_e(r)
                return mkbool(e if op == 'is' else z3.Not(e))
            if isinstance(l, Undef) or isinstance(r, Undef):
                raise ToolLimit('use of havocked untyped variable')
            return (l is r) == (op == 'is')
        if op in ('in', 'not in'):
            res = self.contains(l, r)
            return self.not_(res) if op == 'not in' else res
        if op == '==':
            return self.eq(l, r)
        if op == '!=':
            return self.not_(self.eq(l, r))
        if isinstance(l, INTLIKE) and isinstance(r, INTLIKE) and \
                (isinstance(l, Sym) or isinstance(r, Sym)):
            a, b = int_e(l), int_e(r)
            return mkbool({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])
        if isinstance(l, (SStrBase, bytes, str)) and isinstance(r, (SStrBase, bytes, str)) and \
                (isinstance(l, Sym) or isinstance(r, Sym)):
            a, b = str_e(l), str_e(r)
            return mkbool({'<': lambda: a < b, '<=': lambda: a <= b,
                           '>': lambda: b < a, '>=': lambda: b <= a}[op]())
        if isinstance(l, tuple) and isinstance(r, tuple) and (has_sym(l) or has_sym(r)):
            return self.tuple_lt(op, l, r)
        if isinstance(l, Sym) or isinstance(r, Sym):
            if isinstance(l, Undef) or isinstance(r, Undef):
                raise ToolLimit('use of havocked untyped variable')
            if l is None or r is None or isinstance(l, SStrBase) != isinstance(r, SStrBase):
                raise TypeError(f"'{op}' not supported")
            if isinstance(l, SInt) and type(r) is float and r in (float('inf'), float('-inf')):
                return CMPS[op](0.0, r)
            if isinstance(r, SInt) and type(l) is float and l in (float('inf'), float('-inf')):
                return CMPS[op](l, 0.0)
            meth = {'<': '__gt__', '<=': '__ge__', '>': '__lt__', '>=': '__le__'}[op]
            if isinstance(getattr(type(r), meth, None), types.FunctionType):
                return getattr(r, meth)(l)
            raise ToolLimit(f'{op} on {type(l).__name__}, {type(r).__name__}')
        return CMPS[op](l, r)

    def tuple_lt(self, op, l, r):
        strict = op in ('<', '>')
        if op in ('>', '>='):
            l, r = r, l
        if not l or not r:
            if len(l) == len(r): return not strict
            return len(l) < len(r)
        head_lt = self.cmp('<', l[0], r[0])
        head_eq = self.eq(l[0], r[0])
        tail = self.tuple_lt('<' if strict else '<=', l[1:], r[1:])
        return mkbool(z3.Or(bool_e(self.tobool(head_lt)),
                            z3.And(bool_e(self.tobool(head_eq)), bool_e(self.tobool(tail)))))

    def eq(self, l, r):
        if not (has_sym(l) or has_sym(r)):
            if isinstance(l, VList): l = list(l)
            if isinstance(r, VList): r = list(r)
            f = getattr(type(l), '__eq__', None)
            if isinstance(f, types.FunctionType):
                return l.__eq__(r)
            return l == r
        if isinstance(l, Undef) or isinstance(r, Undef):
            raise ToolLimit('use of havocked untyped variable')
        if l is None or r is None:
            return l is r
        if isinstance(l, INTLIKE) and isinstance(r, INTLIKE):
            if isinstance(l, (SBool, bool)) and isinstance(r, (SBool, bool)):
                return mkbool(bool_e(l) == bool_e(r))
            return mkbool(int_e(l) == int_e(r))
        if isinstance(l, (SBytes, bytes, bytearray)) and isinstance(r, (SBytes, bytes, bytearray)):
            return mkbool(str_e(l) == str_e(r))
        if isinstance(l, (SStr, str)) and isinstance(r, (SStr, str)):
            return mkbool(str_e(l) == str_e(r))
        if isinstance(l, SOpaque) and isinstance(r, SOpaque):
            return mkbool(l.e == r.e) if l.t == r.t else False
        if is_symlist(l) or is_symlist(r):
            if isinstance(l, (list, tuple, SSeq)) and isinstance(r, (list, tuple, SSeq)):
                elt = symlist(l).elt if is_symlist(l) else symlist(r).elt
                t = Seq(elt)
                return mkbool(t.unwrap(l) == t.unwrap(r))
            return False
        if isinstance(l, tuple) and isinstance(r, tuple) or \
                isinstance(l, list) and isinstance(r, list):
            l, r = list(l), list(r)
            if len(l) != len(r):
                return False
            es = [bool_e(self.tobool(self.eq(a, b))) for a, b in zip(l, r)]
            return mkbool(z3.And(*es)) if es else True
        if isinstance(l, Sym) and isinstance(r, Sym) or isinstance(l, (int, bytes, str)) \
                or isinstance(r, (int, bytes, str)):
            return False
        if isinstance(l, (VDict, VSet, dict)) or isinstance(r, (VDict, VSet, dict)):
            raise ToolLimit('== on symbolic containers')
        return False

    def contains(self, x, c):
        c = standin(c)
        if not (has_sym(x) or has_sym(c)):
            f = getattr(type(c), '__contains__', None)
            if isinstance(c, (dict, set, frozenset)):
                return x in c
            if isinstance(f, types.FunctionType) and not isinstance(c, VList):
                return f(c, x)
            return x in c
        if isinstance(c, (SStrBase, bytes, str)):
            if isinstance(x, (SInt, int)):
                x = byte_of(x)
            return mkbool(z3.Contains(str_e(c), str_e(x)))
        if isinstance(c, VDict):
            return c.has(self, x)
        if isinstance(c, VSet):
            return c.has(self, x)
        if is_symlist(c):
            s = symlist(c)
            return mkbool(z3.Contains(s.e, z3.Unit(s.elt.unwrap(x))))
        if isinstance(c, SRange):
            return mkbool(z3.And(int_e(x) >= c.start, int_e(x) < c.stop))
        if isinstance(c, range) and c.step == 1:
            return mkbool(z3.And(int_e(x) >= c.start, int_e(x) < c.stop))
        if isinstance(c, (list, tuple, set, frozenset, dict)):
            es = [self.tobool(self.eq(x, y)) for y in list(c)]
            if any(e is True for e in es):
                return True
            es = [e.e for e in es if not isinstance(e, bool)]
            return mkbool(z3.Or(*es)) if es else False
        f = getattr(type(c), '__contains__', None)
        if isinstance(f, types.FunctionType):
            return f(c, x)
        raise ToolLimit(f'in on {type(c).__name__}')

    # ---- subscripts
    def _nonneg(self, i):
        """(expr, known non-negative) for a slice bound"""
        e = int_e(i)
        if isinstance(i, int):
            return e
        return e

    def _bound(self, i, n, default):
        if i is None:
            return default
        if isinstance(i, int):
            if i >= 0:
                return z3.IntVal(i)
            return z3.If(n + i < 0, z3.IntVal(0), n + i)
        e = int_e(i)
        if VC[0].provable(e >= 0):
            return e
        return z3.If(e < 0, z3.If(n + e < 0, z3.IntVal(0), n + e), e)

    def getitem(self, o, i):
        o = standin(o)
        if isinstance(o, SStrBase) or (isinstance(o, (bytes, str)) and has_sym(i)):
            return self.str_get(o, i)
        if is_symlist(o) or (isinstance(o, (list, tuple, VList)) and has_sym(i)):
            return self.seq_get(o, i)
        if isinstance(o, (VDict,)):
            return o.get(self, i)
        if isinstance(o, VList):
            if isinstance(i, slice):
                return VList(list.__getitem__(o, i))
            return list.__getitem__(o, i)
        if isinstance(o, SRange):
            return mkint(o.start + int_e(i) * o.step)
        if isinstance(o, (range,)) and isinstance(i, Sym):
            return mkint(z3.IntVal(o.start) + int_e(i) * z3.IntVal(o.step))
        if isinstance(o, Undef):
            raise ToolLimit('use of havocked untyped variable')
        if isinstance(o, dict) and has_sym(i):
            return dict_get(self, o, i)
        if isinstance(o, memoryview) and has_sym(i):
            return self.str_get(bytes(o), i)
        return o[i]

    def str_get(self, o, i):
        by = isinstance(o, (SBytes, bytes, bytearray))
        cls = SBytes if by else SStr
        s = str_e(o)
        n = z3.Length(s)
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                raise ToolLimit('slice step')
            a = self._bound(i.start, n, z3.IntVal(0))
            if i.stop is None:
                if z3.is_int_value(a) and a.as_long() == 0:
                    return o
                return cls(ropes.tail(VC[0], s, a))   # clamped by the semantics of substr
            b = self._bound(i.stop, n, n)
            return cls(ropes.substr(VC[0], s, a, V.simp(b - a)))
        e = int_e(i)
        if not self.spec:
            if not VC[0].fork(z3.And(e >= -n, e < n)):
                raise IndexError('index out of range')
        if isinstance(i, int):
            k = z3.IntVal(i) if i >= 0 else n + i
        elif VC[0].provable(e >= 0):
            k = e
        else:
            k = z3.If(e < 0, n + e, e)
        if by:
            c = V.simp(z3.StrToCode(ropes.substr(VC[0], s, k, z3.IntVal(1))))
            if not self.spec:
                VC[0].facts([c >= 0, c <= 255])
            return mkint(c)
        return SStr(z3.SubString(s, k, z3.IntVal(1)))

    def seq_get(self, o, i):
        if not is_symlist(o):
            # concrete list, symbolic index
            if isinstance(i, slice):
                t = guess_type(o[0]) if len(o) else None
                if t is None:
                    raise ToolLimit('symbolic slice of a concrete list')
                o = SSeq(V.seq_of(list(o), t), t)
            else:
                n = len(o)
                e = int_e(i)
                for k in range(n):
                    if VC[0].fork(z3.Or(e == k, e == k - n)):
                        return list(o)[k]
                raise IndexError('list index out of range')
        s = symlist(o)
        n = z3.Length(s.e)
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                raise ToolLimit('slice step')
            a = self._bound(i.start, n, z3.IntVal(0))
            if i.stop is None:
                if ropes.is_int(a, 0):
                    r = s
                else:
                    b, o2 = ropes.seq_tail(s.e, a)
                    r = SSeq(z3.SubSeq(b, o2, z3.Length(b)), s.elt)
            else:
                b = self._bound(i.stop, n, n)
                r = SSeq(z3.SubSeq(s.e, a, V.simp(b - a)), s.elt)
                p = V.linear(b - 1)
                if ropes.is_int(a, 0) and not z3.is_add(p) and not z3.is_int_value(p):
                    # s[:p + 1] is s[:p] and the element at p
                    VC[0].facts([z3.Implies(z3.And(p >= 0, p < n), r.e == z3.Concat(
                        z3.SubSeq(s.e, z3.IntVal(0), p), z3.Unit(s.e[p])))])
            if isinstance(o, VList):
                v = VList(); v.sym = r
                return v
            return r
        e = int_e(i)
        if not self.spec and not VC[0].fork(z3.And(e >= -n, e < n)):
            raise IndexError('list index out of range')
        if isinstance(i, int):
            k = z3.IntVal(i) if i >= 0 else n + i
        elif VC[0].provable(e >= 0):
            k = e
        else:
            k = z3.If(e < 0, n + e, e)
        b, k = ropes.seq_tail(s.e, k)
        x = b[k]
        if not self.spec:
            VC[0].facts(s.elt.facts(x))
        return s.elt.wrap(x)

    def setitem(self, o, i, v):
        if isinstance(o, VDict):
            return o.set(self, i, v)
        if is_symlist(o):
            s = symlist(o)
            if isinstance(i, slice):
                raise ToolLimit('slice assignment')
            n = z3.Length(s.e)
            e = int_e(i)
            if not VC[0].fork(z3.And(e >= -n, e < n)):
                raise IndexError('list assignment index out of range')
            k = z3.If(e < 0, n + e, e) if not VC[0].provable(e >= 0) else e
            o.sym = SSeq(V.simp(z3.Concat(z3.SubSeq(s.e, z3.IntVal(0), k),
                                               z3.Unit(s.elt.unwrap(v)),
                                               z3.SubSeq(s.e, k + 1, n))), s.elt)
            return
        if isinstance(o, VList) and isinstance(i, Sym):
            n = list.__len__(o)
            e = int_e(i)
            for k in range(n):
                if VC[0].fork(z3.Or(e == k, e == k - n)):
                    list.__setitem__(o, k, v)
                    return
            raise IndexError('list assignment index out of range')
        if isinstance(o, dict) and has_sym(i):
            return dict_set(self, o, i, v)
        o[i] = v

    def delitem(self, o, i):
        if is_symlist(o) and not isinstance(i, slice):
            s = symlist(o)
            n = z3.Length(s.e)
            e = int_e(i)
            if not VC[0].fork(z3.And(e >= -n, e < n)):
                raise IndexError('list index out of range')
            k = z3.If(e < 0, n + e, e)
            o.sym = SSeq(V.simp(z3.Concat(z3.SubSeq(s.e, z3.IntVal(0), k),
                                               z3.SubSeq(s.e, k + 1, n))), s.elt)
            return
        if isinstance(o, VDict):
            return o.delete(self, i)
        del o[i]

    # ---- containers
    def mklist(self, l):
        if VC[0] is None:
            return l
        return l if isinstance(l, VList) else VList(l)

    def mkdict(self, *pairs):
        if VC[0] is not None and any(has_sym(k) for k, _ in pairs):
            d = VDict()
            for k, v in pairs:
                d.set(self, k, v)
            return d
        return dict(pairs)

    def mkset(self, *elts):
        if VC[0] is not None and any(has_sym(k) for k in elts):
            s = VSet()
            for x in elts:
                s.add(self, x)
            return s
        return set(elts)

    def mkset_from(self, g):
        return self.mkset(*list(g))

    def mkdict_from(self, g):
        return self.mkdict(*list(g))

    def star(self, v):
        return list(self.iter(v)) if not isinstance(v, (list, tuple)) else \
            list(self.iter(v))

    def iter(self, v):
        if isinstance(v, Sym) or is_symlist(v):
            return self._unroll(v)
        if isinstance(v, (VDict, VSet)):
            return iter([k for k in v.keys_list()])
        f = getattr(type(v), '__iter__', None)
        return v

    yfiter = iter

    def yfiter(self, v):
        eng = VC[0]
        if eng is not None and eng.out is not None and is_symlist(v):
            return builtins.iter([Many(symlist(v))])
        return builtins.iter(self.iter(v))

    def _unroll(self, v):
        """symbolic iteration without an invariant: bounded"""
        if isinstance(v, SRange):
            n = z3.If(v.stop > v.start, (v.stop - v.start + v.step - 1) / v.step, z3.IntVal(0))
            at = lambda i: mkint(v.start + i * v.step)
        elif isinstance(v, SEnum):
            s = v.seq
            n = z3.Length(s.e if isinstance(s, (SStrBase, SSeq)) else symlist(s).e)
            at = lambda i: (mkint(int_e(v.start) + i), dispatch_spec.getitem(s, i))
        elif isinstance(v, SStrBase):
            n = z3.Length(v.e)
            at = lambda i: dispatch_spec.getitem(v, i)
        elif is_symlist(v):
            n = z3.Length(symlist(v).e)
            at = lambda i: dispatch_spec.getitem(v, i)
        elif isinstance(v, Undef):
            raise ToolLimit('use of havocked untyped variable')
        else:
            raise TypeError(f'{type(v).__name__} object is not iterable')
        i = 0
        while VC[0].fork(n > i):
            if i >= VC[0].cap:
                VC[0].bounded.append('iteration unrolled to %d' % VC[0].cap)
                VC[0].dead = True
                raise Capped()
            yield at(i)
            i += 1

    def unpack(self, v, n):
        if isinstance(v, (Sym,)) or is_symlist(v):
            if is_symlist(v):
                s = symlist(v)
                if not VC[0].fork(z3.Length(s.e) == n):
                    raise ValueError('wrong number of values to unpack')
                return tuple(dispatch_spec.getitem(s, i) for i in range(n))
            if isinstance(v, SStrBase):
                if not VC[0].fork(z3.Length(v.e) == n):
                    raise ValueError('wrong number of values to unpack')
                return tuple(self.getitem(v, i) for i in range(n))
            raise ToolLimit(f'unpack of {type(v).__name__}')
        return v

    def tick(self):
        eng = VC[0]
        if eng is None:
            return
        eng.alive()
        f = sys._getframe(1)
        k = (f.f_code.co_filename, f.f_lineno)
        c = eng.ticks.get(k, 0) + 1
        eng.ticks[k] = c
        if c > 400:
            raise ToolLimit('loop without invariant does not finish')

    def tick_n(self, L):
        L.n += 1
        if L.n > 400:
            raise ToolLimit('loop without invariant does not finish')

    def loop(self, key, k, kind, it):
        return Loop(VC[0], key, k, kind, it)

    def fstring(self, *parts):
        vals = []
        sym = False
        for p in parts:
            if isinstance(p, tuple):
                v, conv, spec = p
                if has_sym(v):
                    sym = True
                    vals.append(SStr(uf('fmtany', z3.IntSort(), z3.StringSort())(
                        z3.IntVal(id(v) % 100003))))
                    continue
                if conv == 114: v = repr(v)
                elif conv == 115: v = str(v)
                elif conv == 97: v = ascii(v)
                vals.append(format(v, spec))
            else:
                vals.append(p)
        if not sym:
            return ''.join(vals)
        acc = ''
        for v in vals:
            acc = self.binop('+', acc, v)
        return acc

    # ---- calls
    def call(self, f, /, *a, **k):
        eng = VC[0]
        if eng is None:
            return f(*a, **k)
        if eng.dead:
            raise PathAbort()
        if isinstance(f, SymMethod):
            from .models import sym_method
            return sym_method(self, f.obj, f.name, a, k)
        if isinstance(f, Undef):
            raise ToolLimit('use of havocked untyped variable')
        if getattr(f, '__name__', '') in _OPAQUE and \
                getattr(f, '__module__', '') in ('bup.io', 'bup.helpers', 'bup.compat') and \
                (has_sym(a) or has_sym(k)):
            # messages for people: their text is not modelled
            return SStr(z3.String(eng.name_('msg'))) if 'msg' in f.__name__ else None
        key = getattr(f, '__func__', f)
        try:
            st = eng.stubs.get(key)
        except TypeError:
            st = None
        if st is not None:
            if isinstance(f, types.MethodType):
                return st(f.__self__, *a, **k)
            return st(*a, **k)
        from .models import builtin_model, native_method
        m = builtin_model(f)
        if m is not None:
            r = m(self, a, k)
            if r is not NotImplemented:
                return r
        s = getattr(f, '__self__', None)
        if isinstance(s, (bytes, str, bytearray)) and isinstance(f, types.BuiltinMethodType):
            if any(has_sym(x) for x in a):
                from .models import sym_method
                return sym_method(self, s, f.__name__, a, k)
        elif isinstance(s, VList):
            r = self.vlist_method(s, f.__name__, a, k)
            if r is not NotImplemented:
                return r
        elif isinstance(s, (dict, set)) and isinstance(f, types.BuiltinMethodType) and \
                any(has_sym(x) for x in a):
            return native_method(self, s, f.__name__, a, k)
        return f(*a, **k)

    def append(self, l, x):
        if isinstance(l, VList) and is_kept(l.sym):
            return l.sym.append(x)
        if isinstance(l, VList) and l.sym is not None:
            l.sym = SSeq(z3.Concat(l.sym.e, z3.Unit(l.sym.elt.unwrap(x))), l.sym.elt)
        else:
            list.append(l, x)

    def extend(self, l, xs):
        if is_symlist(xs) and l.sym is None:
            elt = symlist(xs).elt
            l.sym = SSeq(V.seq_of(list.__iter__(l), elt), elt)
        if l.sym is not None and (is_symlist(xs) or isinstance(xs, (list, tuple))):
            t = Seq(l.sym.elt)
            l.sym = SSeq(z3.Concat(l.sym.e, t.unwrap(xs)), l.sym.elt)
            return
        for x in self.iter(xs):
            self.append(l, x)

    def vlist_method(self, l, name, a, k):
        if is_kept(l.sym):
            return getattr(l.sym, name)(*a, **k)
        if name == 'append':
            self.append(l, a[0]); return None
        if name == 'extend':
            self.extend(l, a[0]); return None
        if l.sym is None:
            if name in ('index', 'count', 'remove') and (has_sym(a) or has_sym(l)):
                if name == 'index' and len(a) == 1:
                    for i, y in enumerate(list(l)):
                        if self.truth(self.eq(a[0], y)):
                            return i
                    raise ValueError('not in list')
                raise ToolLimit('list.' + name)
            if name == 'sort' and has_sym(l):
                from .models import sym_sorted
                r = sym_sorted(self, list(l), **k)
                list.__setitem__(l, slice(None), r)
                return None
            if name == 'copy':
                return VList(l)
            if name == 'pop' and a and isinstance(a[0], Sym):
                raise ToolLimit('list.pop(symbolic)')
            return NotImplemented
        s = l.sym
        n = z3.Length(s.e)
        if name == 'pop':
            if VC[0].fork(n == 0):
                raise IndexError('pop from empty list')
            if not a or a[0] == -1:
                x = s.e[n - 1]
                l.sym = SSeq(z3.SubSeq(s.e, z3.IntVal(0), n - 1), s.elt)
                return s.elt.wrap(x)
            if isinstance(a[0], int) and a[0] == 0:
                x = s.e[0]
                l.sym = SSeq(z3.SubSeq(s.e, z3.IntVal(1), n - 1), s.elt)
                return s.elt.wrap(x)
        if name == 'remove':
            u = z3.Unit(s.elt.unwrap(a[0]))
            if not VC[0].fork(z3.Contains(s.e, u)):
                raise ValueError('list.remove(x): x not in list')
            i = z3.IndexOf(s.e, u, z3.IntVal(0))
            l.sym = SSeq(z3.Concat(z3.SubSeq(s.e, z3.IntVal(0), i), z3.SubSeq(s.e, i + 1, n - i - 1)), s.elt)
            return None
        if name == 'clear':
            l.sym = None
            list.clear(l)
            return None
        if name == 'copy':
            v = VList(); v.sym = s
            return v
        if name == 'sort' and VC[0] is not None and VC[0].on_sort and 'key' not in k:
            old = s
            new = SSeq(z3.Const(VC[0].name_('sorted'), s.e.sort()), s.elt)
            VC[0].facts([z3.Length(new.e) == n])
            VC[0].on_sort(old, new, k.get('reverse', False))
            l.sym = new
            return None
        if name == 'insert' and isinstance(a[0], int) and a[0] == 0:
            l.sym = SSeq(z3.Concat(z3.Unit(s.elt.unwrap(a[1])), s.e), s.elt)
            return None
        raise ToolLimit('list.' + name + ' on a symbolic list')


def const_factor(e):
    """a power-of-two constant that syntactically divides e"""
    e = V.simp(e)
    if z3.is_mul(e):
        for c in e.children():
            if z3.is_int_value(c):
                v = c.as_long()
                return v & -v if v > 0 else 1
    if z3.is_add(e):
        fs = []
        for c in e.children():
            if z3.is_int_value(c):
                v = c.as_long()
                fs.append(v & -v if v else 0)
            else:
                fs.append(const_factor(c))
        fs = [f for f in fs if f]
        return min(fs) if fs else 1
    return 1


_shl = {}


def merge(c, a, b):
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(c, bool_e(a), bool_e(b)))
    if isinstance(a, INTLIKE) and isinstance(b, INTLIKE):
        return mkint(z3.If(c, int_e(a), int_e(b)))
    if isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes)):
        return SBytes(z3.If(c, str_e(a), str_e(b)))
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        return SStr(z3.If(c, str_e(a), str_e(b)))
    if isinstance(a, SOpaque) and isinstance(b, SOpaque):
        return SOpaque(z3.If(c, a.e, b.e), a.t)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (SSeq, list)) and isinstance(b, (SSeq, list)):
        if is_symlist(a) or is_symlist(b):
            elt = symlist(a).elt if is_symlist(a) else symlist(b).elt
        else:
            x = (list(a) or list(b))[0]
            elt = guess_type(x)
        t = Seq(elt)
        return SSeq(z3.If(c, t.unwrap(a), t.unwrap(b)), elt)
    raise ToolLimit(f'cannot merge {type(a).__name__} and {type(b).__name__}')


def byte_of(x):
    return SBytes(z3.StrFromCode(int_e(x)))


def rep(l, r):
    c = l if isinstance(l, bytes) else l.encode()
    f = uf('rep_' + c.hex(), z3.IntSort(), z3.StringSort())
    t = f(int_e(r))
    VC[0].facts([z3.Length(t) == z3.If(int_e(r) > 0, int_e(r) * len(l), 0)])
    return (SBytes if isinstance(l, bytes) else SStr)(t)


def dict_get(d, o, i):
    """concrete-key dict, symbolic key: case split"""
    for k, v in list(o.items()):
        if d.truth(d.eq(k, i)):
            return v
    raise KeyError(i)


def dict_set(d, o, i, v):
    for k in list(o):
        if d.truth(d.eq(k, i)):
            o[k] = v
            return
    raise ToolLimit('symbolic key stored in a native dict')


def fmt(d, f, args):
    from .models import format_model
    return format_model(d, f, args)


dispatch = Dispatch(False)
dispatch_spec = Dispatch(True)
