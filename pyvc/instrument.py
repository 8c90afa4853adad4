"""Mechanical instrumentation of the real bup source.

The verified text is the text of /repo: each module is read from the working
tree, parsed, and every primitive operation (operator, subscript, call,
truth test, literal container, unpacking) is replaced by a call of the
dispatcher _vc_, which performs the ordinary Python operation when the
operands are concrete and builds a solver term when they are symbolic.
Control flow, scoping, closures, generators, exceptions, context managers and
classes are left alone: they are executed by CPython itself.  What the
extraction drops: type annotations on assignments inside functions are kept;
comments and docstring text have no effect; nothing else is dropped.

Functions named in `loop_keys` additionally have every for/while loop turned
into the equivalent while/else form with a loop-head hook, so that a loop can
be cut by an invariant.
"""
import ast

VC = '_vc_'
_SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'dir'}
_BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
        ast.Mod: '%', ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|',
        ast.BitAnd: '&', ast.BitXor: '^', ast.Pow: '**', ast.MatMult: '@'}
_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
        ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}


def _n(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


def _vc(fn, *args, keywords=()):
    return ast.Call(func=ast.Attribute(value=_n(VC), attr=fn, ctx=ast.Load()),
                    args=list(args), keywords=list(keywords))


def _s(x):
    return ast.Constant(value=x)


class _Assigned(ast.NodeVisitor):
    """Names (re)bound in a list of statements, not entering nested scopes."""
    def __init__(self):
        self.names = []

    def _add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self._add(node.id)

    def visit_FunctionDef(self, node):
        self._add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self._add(node.name)

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        # walrus inside comprehensions binds outside; targets do not
        for sub in ast.walk(node):
            if isinstance(sub, ast.NamedExpr):
                self._add(sub.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, node):
        if node.name:
            self._add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self._add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import


def assigned_names(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


def nonlocal_assigned(fn):
    """Names that functions nested in fn rebind through nonlocal."""
    res = set()
    for sub in ast.walk(fn):
        if isinstance(sub, ast.Nonlocal):
            res.update(sub.names)
    return res


class Instrument(ast.NodeTransformer):
    def __init__(self, modname, loop_keys=(), spec=False):
        self.modname = modname
        self.loop_keys = set(loop_keys)
        self.spec = spec
        self.scope = []          # qualname parts
        self.loop_n = []         # loop counters per function
        self.fn_nodes = []
        self.tmp = 0
        self.loops_seen = {}
        self.no_walrus = False

    def fresh(self):
        self.tmp += 1
        return f'_vct{self.tmp}'

    # -- scopes
    def _visit_fn(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.scope.append(node.name)
        self.fn_nodes.append(node)
        self.loop_n.append(0)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        q = '.'.join(self.scope)
        self.loops_seen[q] = self.loop_n.pop()
        self.fn_nodes.pop()
        self.scope.pop()
        node.returns = None
        return node

    def visit_FunctionDef(self, node):
        return self._visit_fn(node)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        # base classes and decorators stay native
        self.scope.append(node.name)
        self.fn_nodes.append(None)
        body = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                body.append(self.visit(s))
            else:
                body.append(s)      # class level statements: native
        node.body = body
        self.fn_nodes.pop()
        self.scope.pop()
        return node

    def visit_arguments(self, node):
        for a in node.posonlyargs + node.args + node.kwonlyargs + \
                [x for x in (node.vararg, node.kwarg) if x]:
            a.annotation = None
        return node              # defaults native

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        return node

    # -- tests
    def test(self, e):
        return _vc('truth', self.visit(e))

    def visit_If(self, node):
        node.test = self.test(node.test)
        node.body = self.stmts(node.body)
        node.orelse = self.stmts(node.orelse)
        return node

    def visit_Assert(self, node):
        node.test = self.test(node.test)
        if node.msg is not None:
            node.msg = _s('')
        return node

    def visit_IfExp(self, node):
        if self.spec:
            return _vc('ite', self.visit(node.test),
                       self._lam(self.visit(node.body)), self._lam(self.visit(node.orelse)))
        node.test = self.test(node.test)
        node.body = self.visit(node.body)
        node.orelse = self.visit(node.orelse)
        return node

    def _lam(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                             kw_defaults=[], defaults=[]), body=e)

    def visit_BoolOp(self, node):
        vals = [self.visit(v) for v in node.values]
        if self.no_walrus and not self.spec:
            return _vc('sc', _s('and' if isinstance(node.op, ast.And) else 'or'),
                       *[self._lam(v) for v in vals])
        if self.spec:
            fn = 'land' if isinstance(node.op, ast.And) else 'lor'
            return _vc(fn, *[self._lam(v) for v in vals])
        # a and b  ->  b if truth(t := a) else t
        res = vals[-1]
        for v in reversed(vals[:-1]):
            t = self.fresh()
            test = _vc('truth', ast.NamedExpr(target=_n(t, ast.Store()), value=v))
            if isinstance(node.op, ast.And):
                res = ast.IfExp(test=test, body=res, orelse=_n(t))
            else:
                res = ast.IfExp(test=test, body=_n(t), orelse=res)
        return res

    def visit_UnaryOp(self, node):
        v = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            return _vc('not_', v)
        if isinstance(node.op, ast.USub) and isinstance(v, ast.Constant):
            node.operand = v
            return node
        return _vc('unop', _s({ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(node.op)]), v)

    def visit_BinOp(self, node):
        return _vc('binop', _s(_BIN[type(node.op)]), self.visit(node.left), self.visit(node.right))

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            return _vc('cmp', _s(_CMP[type(node.ops[0])]), self.visit(node.left),
                       self.visit(node.comparators[0]))
        # chain
        parts = []
        left = self.visit(node.left)
        for i, (op, c) in enumerate(zip(node.ops, node.comparators)):
            right = self.visit(c)
            if i < len(node.ops) - 1 and not self.spec and not self.no_walrus:
                t = self.fresh()
                parts.append(_vc('cmp', _s(_CMP[type(op)]), left,
                                 ast.NamedExpr(target=_n(t, ast.Store()), value=right)))
                left = _n(t)
            else:
                parts.append(_vc('cmp', _s(_CMP[type(op)]), left, right))
                left = right
        if self.spec:
            return _vc('land', *[self._lam(p) for p in parts])
        if self.no_walrus:
            return _vc('sc', _s('and'), *[self._lam(v) for v in parts])
        res = parts[-1]
        for v in reversed(parts[:-1]):
            t = self.fresh()
            res = ast.IfExp(test=_vc('truth', ast.NamedExpr(target=_n(t, ast.Store()), value=v)),
                            body=res, orelse=_n(t))
        return res

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in _SKIP_CALLS:
            node.args = [self.visit(a) for a in node.args]
            return node
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.Call(func=ast.Attribute(value=_n(VC), attr='call', ctx=ast.Load()),
                        args=[f] + args, keywords=kws)

    def visit_Starred(self, node):
        if isinstance(node.ctx, ast.Load):
            node.value = _vc('star', self.visit(node.value))
        return node

    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        return node

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return _vc('getitem', self.visit(node.value), self._slice(node.slice))
        node.value = self.visit(node.value)
        node.slice = self._slice(node.slice)
        return node

    def _slice(self, sl):
        if isinstance(sl, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else _s(None)
            return ast.Call(func=_n('slice'), args=[f(sl.lower), f(sl.upper), f(sl.step)],
                            keywords=[])
        return self.visit(sl)

    def visit_JoinedStr(self, node):
        if self.spec:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                sp = _s('')
                if spec is not None:
                    if all(isinstance(x, ast.Constant) for x in spec.values):
                        sp = _s(''.join(x.value for x in spec.values))
                    else:
                        return _s('<fstring>')
                parts.append(ast.Tuple(elts=[self.visit(v.value), _s(v.conversion), sp],
                                       ctx=ast.Load()))
        return _vc('fstring', *parts)

    # -- displays
    def visit_List(self, node):
        if isinstance(node.ctx, ast.Load):
            node.elts = [self.visit(e) for e in node.elts]
            return _vc('mklist', node)
        return node

    def visit_Dict(self, node):
        node.keys = [self.visit(k) if k is not None else None for k in node.keys]
        node.values = [self.visit(v) for v in node.values]
        if any(k is None for k in node.keys):
            return node
        return _vc('mkdict', *[ast.Tuple(elts=[k, v], ctx=ast.Load())
                               for k, v in zip(node.keys, node.values)])

    def visit_Set(self, node):
        node.elts = [self.visit(e) for e in node.elts]
        return _vc('mkset', *node.elts)

    def _gens(self, gens):
        for g in gens:
            old, self.no_walrus = self.no_walrus, True
            g.iter = _vc('iter', self.visit(g.iter))
            self.no_walrus = old
            g.ifs = [self.test(i) for i in g.ifs]

    def visit_ListComp(self, node):
        self._gens(node.generators)
        node.elt = self.visit(node.elt)
        return _vc('mklist', node)

    def visit_GeneratorExp(self, node):
        self._gens(node.generators)
        node.elt = self.visit(node.elt)
        return node

    def visit_SetComp(self, node):
        self._gens(node.generators)
        node.elt = self.visit(node.elt)
        return _vc('mkset_from', ast.GeneratorExp(elt=node.elt, generators=node.generators))

    def visit_DictComp(self, node):
        self._gens(node.generators)
        kv = ast.Tuple(elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load())
        return _vc('mkdict_from', ast.GeneratorExp(elt=kv, generators=node.generators))

    def visit_YieldFrom(self, node):
        node.value = _vc('yfiter', self.visit(node.value))
        return node

    # -- statements
    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _unpack_value(self, target, value):
        if isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in target.elts):
                return value
            return _vc('unpack', value, _s(len(target.elts)))
        return value

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Subscript):
                return ast.Expr(value=_vc('setitem', self.visit(t.value),
                                          self._slice(t.slice), value))
            node.value = self._unpack_value(t, value)
            node.targets = [self._tgt(t)]
            return node
        tmp = self.fresh()
        out = [ast.Assign(targets=[_n(tmp, ast.Store())], value=value)]
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(value=_vc('setitem', self.visit(t.value),
                                              self._slice(t.slice), _n(tmp))))
            else:
                out.append(ast.Assign(targets=[self._tgt(t)],
                                      value=self._unpack_value(t, _n(tmp))))
        return out

    def _tgt(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._tgt(e) for e in t.elts]
            return t
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
            return t
        if isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self._slice(t.slice)
            return t
        return t

    def visit_AugAssign(self, node):
        op = _s(_BIN[type(node.op)])
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.Assign(targets=[t], value=_vc('iop', op, _n(t.id), v))
        if isinstance(t, ast.Attribute):
            return ast.Expr(value=_vc('augattr', self.visit(t.value), _s(t.attr), op, v))
        return ast.Expr(value=_vc('augitem', self.visit(t.value), self._slice(t.slice), op, v))

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(value=_vc('delitem', self.visit(t.value),
                                              self._slice(t.slice))))
            else:
                out.append(ast.Delete(targets=[self._tgt(t)]))
        return out

    # -- loops
    def _loop_cut(self):
        return '.'.join(self.scope) in self.loop_keys

    def _head(self, L, names, fn):
        """ L.head(locals()) and (not L.cut or (x := L.get('x'), ..., True)) """
        gets = [ast.NamedExpr(target=_n(x, ast.Store()), value=ast.Call(
            func=ast.Attribute(value=_n(L), attr='get', ctx=ast.Load()), args=[_s(x)], keywords=[]))
            for x in names]
        return ast.BoolOp(op=ast.And(), values=[
            ast.Call(func=ast.Attribute(value=_n(L), attr='head', ctx=ast.Load()),
                     args=[ast.Call(func=_n('locals'), args=[], keywords=[])], keywords=[]),
            ast.BoolOp(op=ast.Or(), values=[
                ast.UnaryOp(op=ast.Not(), operand=ast.Attribute(value=_n(L), attr='cut',
                                                                 ctx=ast.Load())),
                ast.Tuple(elts=gets + [_s(True)], ctx=ast.Load())]),
            ast.Attribute(value=_n(L), attr='ready', ctx=ast.Load())])

    def visit_For(self, node):
        if not self._loop_cut():
            node.iter = _vc('iter', self.visit(node.iter))
            tgt_unpack = isinstance(node.target, (ast.Tuple, ast.List))
            node.body = self.stmts(node.body)
            node.orelse = self.stmts(node.orelse)
            if tgt_unpack:
                t = self.fresh()
                node.body.insert(0, ast.Assign(targets=[self._tgt(node.target)],
                                               value=self._unpack_value(node.target, _n(t))))
                node.target = _n(t, ast.Store())
            elif not isinstance(node.target, ast.Name):
                node.target = self._tgt(node.target)
            return node
        k = self.loop_n[-1]
        self.loop_n[-1] += 1
        fn = self.fn_nodes[-1]
        names = assigned_names([node])
        for x in nonlocal_assigned(fn):
            if x not in names:
                names.append(x)
        names = [x for x in names if x not in _declared_global(fn)]
        L = self.fresh()
        it = self.visit(node.iter)
        body = self.stmts(node.body)
        orelse = self.stmts(node.orelse)
        enter = ast.Assign(targets=[_n(L, ast.Store())],
                           value=_vc('loop', _s(self.modname + ':' + '.'.join(self.scope)), _s(k),
                                     _s('for'), it))
        test = self._head(L, names, fn)
        test.values.append(ast.Call(func=ast.Attribute(value=_n(L), attr='more', ctx=ast.Load()),
                                    args=[], keywords=[]))
        cur = ast.Call(func=ast.Attribute(value=_n(L), attr='cur', ctx=ast.Load()), args=[],
                       keywords=[])
        first = ast.Assign(targets=[self._tgt(node.target)],
                           value=self._unpack_value(node.target, cur))
        return [enter, ast.While(test=test, body=[first] + body, orelse=orelse)]

    def visit_While(self, node):
        if not self._loop_cut():
            node.test = _vc('truth', self.visit(node.test))
            node.body = [ast.Expr(value=_vc('tick'))] + self.stmts(node.body)
            node.orelse = self.stmts(node.orelse)
            return node
        k = self.loop_n[-1]
        self.loop_n[-1] += 1
        fn = self.fn_nodes[-1]
        names = assigned_names([node])
        for x in nonlocal_assigned(fn):
            if x not in names:
                names.append(x)
        names = [x for x in names if x not in _declared_global(fn)]
        L = self.fresh()
        t = _vc('truth', self.visit(node.test))
        body = self.stmts(node.body)
        orelse = self.stmts(node.orelse)
        enter = ast.Assign(targets=[_n(L, ast.Store())],
                           value=_vc('loop', _s(self.modname + ':' + '.'.join(self.scope)), _s(k),
                                     _s('while'), _s(None)))
        test = self._head(L, names, fn)
        test.values.append(t)
        return [enter, ast.While(test=test, body=body, orelse=orelse)]

    def visit_Match(self, node):
        return node


def _declared_global(fn):
    res = set()
    if fn is None:
        return res
    for sub in ast.walk(fn):
        if isinstance(sub, ast.Global):
            res.update(sub.names)
    return res


def _defs_in(s, ins):
    """instrument the functions and classes that a module level if, try or with defines"""
    for field in ('body', 'orelse', 'finalbody', 'handlers'):
        l = getattr(s, field, None)
        if not isinstance(l, list):
            continue
        for i, x in enumerate(l):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                l[i] = ins.visit(x)
            elif isinstance(x, (ast.stmt, ast.excepthandler)):
                _defs_in(x, ins)


def instrument_source(src, modname, filename, loop_keys=(), spec=False):
    tree = ast.parse(src, filename)
    ins = Instrument(modname, loop_keys, spec)
    new_body = []
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            r = ins.visit(s)
            new_body.append(r)
        elif spec:
            r = ins.visit(s)
            new_body.extend(r if isinstance(r, list) else [r])
        else:
            _defs_in(s, ins)
            new_body.append(s)      # module level statements run natively
    tree.body = new_body
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True), ins
