"""Mechanical instrumentation of the source under verification.

The code of the packages named in PACKAGES is read from disk on every run, parsed, transformed by `Instrument` and
executed as the module of the same name.  Nothing is dropped: every statement of the original is in the transformed
text; only *function bodies* are changed, as follows (`_vc_` is the verifier's runtime):

  f(a, *b, **c)            ->  _vc_.call(f, a) / _vc_.callx(f, [...])          (super() is left alone)
  a == b, a in b, a is b   ->  _vc_.cmp("==", a, b) ...
  a % b, a - b, ...        ->  _vc_.binop("%", a, b)
  a[b], a[b] = c, del a[b] ->  _vc_.getitem / setitem / delitem
  a.b = c                  ->  _vc_.setattr(a, "b", c)
  [..], {..}, {k: v}       ->  _vc_.mklist / mkset / mkdict
  f"..."                   ->  _vc_.fmt(...)
  x, y = e                 ->  x, y = _vc_.unpack(e, 2)
  for t in e: ...          ->  L = _vc_.loop(e, variables of the loop only); try: while L.more(): t = L.elem(); ... finally: L.leave()
  yield from e             ->  for x in e: yield x
  comprehensions           ->  local functions with the equivalent for-loops
  variables assigned in a loop or declared nonlocal by an inner function -> _vc_.Cell objects (get/set)

Module and class level statements run natively.  The transformed code keeps the original file name and line numbers.
"""
from __future__ import annotations
import ast, collections, copy

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&",
       ast.BitOr: "|", ast.BitXor: "^", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
RT = "_vc_"


def _vc(name):
    return ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load())


def _call(fn, *args):
    return ast.Call(fn if isinstance(fn, ast.AST) else _vc(fn), list(args), [])


def _const(v):
    return ast.Constant(v)


RESERVED = frozenset(dir(object)) | {
    "__module__", "__dict__", "__slots__", "__weakref__", "__bool__", "__call__", "__getattr__", "__iter__", "__len__", "__next__", "__annotations__",
    "t", "cls", "x", "n", "at", "at_", "trig", "f", "key", "value", "frame", "dead", "P", "k", "upper", "paths", "entries", "serial", "uid",
    "frozen", "native", "base", "other", "keep", "acc", "kind", "keyed", "seq", "pos", "sv", "l", "event", "snapshot", "concrete", "vcall"}
RESERVED -= {"key", "value"}        # of no symbolic object


class _Hoist:
    """Turns comprehensions (and lambdas containing them) inside function bodies into local functions."""

    def __init__(self):
        self.n = 0

    def fresh(self, kind):
        self.n += 1
        return f"__{kind}_{self.n}"

    def block(self, stmts):
        out = []
        for s in stmts:
            pre = []
            s = self.stmt(s, pre)
            out.extend(pre)
            out.append(s)
        return out

    def stmt(self, s, pre):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s.body = self.block(s.body)
            return s
        if isinstance(s, ast.ClassDef):
            for x in s.body:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    x.body = self.block(x.body)
            return s
        for field, value in ast.iter_fields(s):
            if isinstance(value, list) and value and isinstance(value[0], ast.stmt):
                setattr(s, field, self.block(value))
            elif isinstance(value, list) and value and isinstance(value[0], ast.ExceptHandler):
                for h in value:
                    h.body = self.block(h.body)
            elif isinstance(value, ast.expr):
                setattr(s, field, self.expr(value, pre))
            elif isinstance(value, list):
                setattr(s, field, [self.expr(v, pre) if isinstance(v, ast.expr) else v for v in value])
                if isinstance(s, (ast.With, ast.AsyncWith)):
                    for it in s.items:
                        it.context_expr = self.expr(it.context_expr, pre)
        return s

    def expr(self, e, pre):
        if isinstance(e, ast.Lambda):
            if any(isinstance(x, COMPS) for x in ast.walk(e.body)):
                name = self.fresh("lam")
                fn = ast.FunctionDef(name, e.args, [ast.Return(e.body)], [], None)
                ast.copy_location(fn, e)
                fn.body = self.block(fn.body)
                pre.append(fn)
                return ast.copy_location(ast.Name(name, ast.Load()), e)
            return e
        if isinstance(e, COMPS):
            it0 = self.expr(e.generators[0].iter, pre)
            name = self.fresh("comp")
            if isinstance(e, ast.GeneratorExp):
                inner, head, tail = [ast.Expr(ast.Yield(e.elt))], [], []
            else:
                res = ast.Name("__res", ast.Load())
                mk = {ast.ListComp: "mklist", ast.SetComp: "mkset", ast.DictComp: "mkdict"}[type(e)]
                head = [ast.Assign([ast.Name("__res", ast.Store())], _call(mk))]
                tail = [ast.Return(ast.Name("__res", ast.Load()))]
                if isinstance(e, ast.DictComp):
                    inner = [ast.Expr(_call("setitem", res, e.key, e.value))]
                else:
                    meth = "append" if isinstance(e, ast.ListComp) else "add"
                    inner = [ast.Expr(_call(ast.Attribute(res, meth, ast.Load()), e.elt))]
            for i, g in reversed(list(enumerate(e.generators))):
                for c in reversed(g.ifs):
                    inner = [ast.If(c, inner, [])]
                inner = [ast.For(g.target, ast.Name("__it", ast.Load()) if i == 0 else g.iter, inner, [])]
            args = ast.arguments([], [ast.arg("__it")], None, [], [], None, [])
            fn = ast.FunctionDef(name, args, head + inner + tail, [], None)
            ast.copy_location(fn, e)
            for x in ast.walk(fn):
                if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, "lineno"):
                    ast.copy_location(x, e)
            fn.body = self.block(fn.body)
            pre.append(fn)
            return ast.copy_location(_call(ast.Name(name, ast.Load()), it0), e)
        for field, value in ast.iter_fields(e):
            if isinstance(value, ast.expr):
                setattr(e, field, self.expr(value, pre))
            elif isinstance(value, list):
                new = []
                for v in value:
                    if isinstance(v, ast.expr):
                        v = self.expr(v, pre)
                    elif isinstance(v, ast.keyword):
                        v.value = self.expr(v.value, pre)
                    new.append(v)
                setattr(e, field, new)
        return e


class Scope:
    def __init__(self, node, parent):
        self.node, self.parent = node, parent
        self.bound, self.nonlocals, self.globals, self.cells = set(), set(), set(), set()
        self.params = []
        self.exc = set()

    def resolve(self, name):
        s = self
        while s is not None:
            if name in s.globals:
                return None
            if name in s.bound:
                return s
            s = s.parent
        return None


def _analyze(fn, parent, scopes):
    sc = Scope(fn, parent)
    scopes[fn] = sc
    a = fn.args
    sc.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        sc.params.append(a.vararg.arg)
    if a.kwarg:
        sc.params.append(a.kwarg.arg)
    sc.bound.update(sc.params)
    inner = []
    loop_assigned = set()

    def visit(n, in_loop):
        if isinstance(n, FUNCS):
            inner.append(n)
            if not isinstance(n, ast.Lambda):
                sc.bound.add(n.name)
                for d in n.decorator_list:
                    visit(d, in_loop)
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                visit(d, in_loop)
            return
        if isinstance(n, ast.ClassDef):
            sc.bound.add(n.name)
            for x in n.body:
                if isinstance(x, FUNCS):
                    inner.append(x)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            sc.bound.add(n.id)
            if in_loop:
                loop_assigned.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                sc.bound.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.Nonlocal):
            sc.nonlocals.update(n.names)
        elif isinstance(n, ast.Global):
            sc.globals.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            sc.bound.add(n.name)
            sc.exc.add(n.name)
        if isinstance(n, (ast.For, ast.While)):
            if isinstance(n, ast.For):
                visit(n.iter, in_loop)
                visit(n.target, True)
            else:
                visit(n.test, True)
            for x in n.body:
                visit(x, True)
            for x in n.orelse:
                visit(x, in_loop)
            return
        for c in ast.iter_child_nodes(n):
            visit(c, in_loop)

    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        visit(s, False)
    sc.bound -= sc.nonlocals | sc.globals
    sc.cells |= {n for n in loop_assigned if n in sc.bound and n not in sc.exc}
    for n in loop_assigned:
        if n in sc.nonlocals:
            pass  # made a cell below
    for n in sc.nonlocals:
        o = parent.resolve(n) if parent else None
        if o is None:
            raise SyntaxError(f"nonlocal {n} not found")
        o.cells.add(n)
    for f in inner:
        _analyze(f, sc, scopes)


def _names(n):
    """How often variables occur (those of inner functions are not considered)."""
    if isinstance(n, ast.Name):
        return collections.Counter([n.id])
    if isinstance(n, FUNCS):
        parts = n.args.defaults + [d for d in n.args.kw_defaults if d] + getattr(n, "decorator_list", [])
    else:
        parts = ast.iter_child_nodes(n)
    return sum((_names(x) for x in parts), collections.Counter())


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.scopes, self.every = {}, {}
        self.scope = None
        self.n = 0

    def tmp(self, k):
        self.n += 1
        return f"__{k}{self.n}"

    # entry points -------------------------------------------------------------------------------------------
    def function(self, fn):
        """Instrument an outermost function (module or class level)."""
        hoist = _Hoist()
        fn.body = hoist.block(fn.body)
        _analyze(fn, None, self.scopes)
        return self._function(fn)

    def _function(self, fn):
        saved = self.scope
        self.scope = sc = self.scopes[fn]
        self.every[fn] = sum((_names(x) for x in (fn.body if isinstance(fn.body, list) else [fn.body])), collections.Counter())
        if isinstance(fn, ast.Lambda):
            if any(p in sc.cells for p in sc.params):
                raise SyntaxError("lambda parameter used as nonlocal")
            fn.body = self.visit(fn.body)
        else:
            body = []
            for s in fn.body:
                r = self.visit(s)
                body.extend(r if isinstance(r, list) else [r])
            head = []
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                head, body = body[:1], body[1:]
            for name in sorted(sc.cells):
                args = [ast.Name(name, ast.Load())] if name in sc.params else []
                head.append(ast.Assign([ast.Name(name, ast.Store())], _call("Cell", *args)))
            fn.body = head + body or [ast.Pass()]
        self.scope = saved
        return fn

    def _outer_parts(self, fn):
        # decorators and defaults belong to the enclosing scope
        fn.args.defaults = [self.visit(d) for d in fn.args.defaults]
        fn.args.kw_defaults = [d and self.visit(d) for d in fn.args.kw_defaults]
        if not isinstance(fn, ast.Lambda):
            fn.decorator_list = [self.visit(d) for d in fn.decorator_list]
            fn.returns = None
            for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
                a.annotation = None
            if fn.args.vararg:
                fn.args.vararg.annotation = None
            if fn.args.kwarg:
                fn.args.kwarg.annotation = None

    # nested scopes ------------------------------------------------------------------------------------------
    def visit_FunctionDef(self, n):
        self._outer_parts(n)
        n = self._function(n)
        if self._is_cell(n.name):
            raise SyntaxError("function name used as nonlocal")
        return n

    def visit_Lambda(self, n):
        self._outer_parts(n)
        return self._function(n)

    def visit_ClassDef(self, n):
        for i, x in enumerate(n.body):
            if isinstance(x, FUNCS):
                n.body[i] = self._function(x)
        return n

    # names --------------------------------------------------------------------------------------------------
    def _is_cell(self, name):
        o = self.scope.resolve(name) if self.scope else None
        return o is not None and name in o.cells

    def visit_Nonlocal(self, n):
        return ast.Pass()

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and self._is_cell(n.id):
            return ast.copy_location(_call(ast.Attribute(ast.Name(n.id, ast.Load()), "get", ast.Load())), n)
        return n

    # statements ---------------------------------------------------------------------------------------------
    def _store(self, target, value):
        """Statements that store the (already instrumented) expression *value* in *target*."""
        if isinstance(target, ast.Name):
            if self._is_cell(target.id):
                return [ast.Expr(_call(ast.Attribute(ast.Name(target.id, ast.Load()), "set", ast.Load()), value))]
            return [ast.Assign([ast.Name(target.id, ast.Store())], value)]
        if isinstance(target, ast.Subscript):
            return [ast.Expr(_call("setitem", self.visit(target.value), self.visit(target.slice), value))]
        if isinstance(target, ast.Attribute):
            return [ast.Expr(_call("setattr", self.visit(target.value), _const(target.attr), value))]
        if isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in target.elts):
                raise SyntaxError("starred assignment")
            tmp = self.tmp("u")
            out = [ast.Assign([ast.Name(tmp, ast.Store())], _call("unpack", value, _const(len(target.elts))))]
            for i, x in enumerate(target.elts):
                out += self._store(x, ast.Subscript(ast.Name(tmp, ast.Load()), _const(i), ast.Load()))
            return out
        raise SyntaxError(f"assignment target {type(target).__name__}")

    def visit_Assign(self, n):
        v = self.visit(n.value)
        if len(n.targets) == 1:
            return self._store(n.targets[0], v)
        tmp = self.tmp("a")
        out = [ast.Assign([ast.Name(tmp, ast.Store())], v)]
        for t in n.targets:
            out += self._store(t, ast.Name(tmp, ast.Load()))
        return out

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        return self._store(n.target, self.visit(n.value))

    def visit_AugAssign(self, n):
        op, v = BIN[type(n.op)], self.visit(n.value)
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.visit(ast.Name(t.id, ast.Load()))
            return self._store(t, _call("augop", _const(op), cur, v))
        o = self.tmp("o")
        out = [ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value))]
        on = ast.Name(o, ast.Load())
        if isinstance(t, ast.Attribute):
            cur = ast.Attribute(on, t.attr, ast.Load())
            return out + [ast.Expr(_call("setattr", on, _const(t.attr), _call("augop", _const(op), cur, v)))]
        i = self.tmp("i")
        out.append(ast.Assign([ast.Name(i, ast.Store())], self.visit(t.slice)))
        in_ = ast.Name(i, ast.Load())
        return out + [ast.Expr(_call("setitem", on, in_, _call("augop", _const(op), _call("getitem", on, in_), v)))]

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call("delitem", self.visit(t.value), self.visit(t.slice))))
            elif isinstance(t, ast.Name) and not self._is_cell(t.id):
                out.append(ast.Delete([t]))
            else:
                raise SyntaxError("del target")
        return out

    def visit_Import(self, n):
        for al in n.names:
            if self._is_cell((al.asname or al.name).split(".")[0]):
                raise SyntaxError("import into a loop variable")
        return n

    visit_ImportFrom = visit_Import

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_ExceptHandler(self, n):
        n = self.generic_visit(n)
        n.body.insert(0, ast.Expr(_call("caught")))
        return n

    def _loop_locals(self, loop):
        """The variables that occur in the loop only: what they are in one iteration does not matter to the next ones."""
        if self.scope is None or isinstance(self.scope.node, ast.Lambda):
            return []
        inside, captured = collections.Counter(), set()
        for x in [loop.target, *loop.body]:
            inside += _names(x)
        for x in ast.walk(self.scope.node):
            if isinstance(x, FUNCS) and x is not self.scope.node and x in self.scopes:
                names = {y.id for y in ast.walk(x) if isinstance(y, ast.Name)} | {y for z in ast.walk(x) if isinstance(z, ast.Nonlocal) for y in z.names}
                captured |= {y for y in names if self.scopes[x].resolve(y) is self.scope}
        every = self.every[self.scope.node]
        return sorted(v for v in self.scope.cells if v not in self.scope.params and v not in captured and inside[v] == every[v])

    def visit_For(self, n):
        local = self._loop_locals(n)
        it = self.visit(n.iter)
        L = self.tmp("L")
        ln = ast.Name(L, ast.Load())
        body = self._store(n.target, _call(ast.Attribute(ln, "elem", ast.Load()))) + self._block(n.body)
        loop = ast.While(_call(ast.Attribute(ln, "more", ast.Load())), body, self._block(n.orelse))
        return [ast.Assign([ast.Name(L, ast.Store())], _call("loop", it, *[ast.Name(v, ast.Load()) for v in local])),
                ast.Try([loop], [], [], [ast.Expr(_call(ast.Attribute(ln, "leave", ast.Load())))])]

    def visit_While(self, n):
        n.test = _call("whiletest", self.visit(n.test))
        n.body = self._block(n.body)
        n.orelse = self._block(n.orelse)
        return n

    # expressions --------------------------------------------------------------------------------------------
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return n
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == RT:
            n.args = [self.visit(a) for a in n.args]
            return n
        f = self.visit(n.func)
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            parts = []
            for a in n.args:
                if isinstance(a, ast.Starred):
                    parts.append(ast.Tuple([_const("*"), self.visit(a.value)], ast.Load()))
                else:
                    parts.append(ast.Tuple([_const("p"), self.visit(a)], ast.Load()))
            for k in n.keywords:
                parts.append(ast.Tuple([_const("**") if k.arg is None else ast.Tuple([_const("k"), _const(k.arg)], ast.Load()),
                                        self.visit(k.value)], ast.Load()))
            return ast.copy_location(_call("callx", f, ast.List(parts, ast.Load())), n)
        return ast.copy_location(ast.Call(_vc("call"), [f] + [self.visit(a) for a in n.args],
                                          [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]), n)

    def visit_Attribute(self, n):
        # attributes that the symbolic objects have themselves
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and n.attr in RESERVED and not (isinstance(n.value, ast.Name) and n.value.id == RT):
            return ast.copy_location(_call("attr", n.value, _const(n.attr)), n)
        return n

    def visit_Compare(self, n):
        left = self.visit(n.left)
        if len(n.ops) == 1:
            return ast.copy_location(_call("cmp", _const(CMP[type(n.ops[0])]), left, self.visit(n.comparators[0])), n)
        parts = []
        cur = left
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            c = self.visit(c)
            if i < len(n.ops) - 1:
                t = self.tmp("c")
                c2 = ast.NamedExpr(ast.Name(t, ast.Store()), c)
                parts.append(_call("cmp", _const(CMP[type(op)]), cur, c2))
                cur = ast.Name(t, ast.Load())
            else:
                parts.append(_call("cmp", _const(CMP[type(op)]), cur, c))
        return ast.copy_location(ast.BoolOp(ast.And(), parts), n)

    def visit_UnaryOp(self, n):
        n.operand = self.visit(n.operand)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(_call("not_", n.operand), n)
        return n

    def visit_BinOp(self, n):
        return ast.copy_location(_call("binop", _const(BIN[type(n.op)]), self.visit(n.left), self.visit(n.right)), n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call("getitem", self.visit(n.value), self.visit(n.slice)), n)
        raise SyntaxError("subscript target")

    def visit_List(self, n):
        return ast.copy_location(self._display("mklist", n), n)

    def visit_Set(self, n):
        return ast.copy_location(self._display("mkset", n), n)

    def _display(self, mk, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            parts = [ast.Tuple([_const("*" if isinstance(e, ast.Starred) else "p"),
                                self.visit(e.value if isinstance(e, ast.Starred) else e)], ast.Load()) for e in n.elts]
            return _call(mk + "x", ast.List(parts, ast.Load()))
        return _call(mk, *[self.visit(e) for e in n.elts])

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return _call("mktuplex", self._display("mklist", n))
        n.elts = [self.visit(e) for e in n.elts]
        return n

    def visit_Dict(self, n):
        parts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                parts.append(ast.Tuple([_const("**"), self.visit(v)], ast.Load()))
            else:
                parts.append(ast.Tuple([_const("k"), self.visit(k), self.visit(v)], ast.Load()))
        return ast.copy_location(_call("mkdictx", ast.List(parts, ast.Load())), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else _const(None)
                parts.append(ast.Tuple([self.visit(v.value), _const(v.conversion), spec], ast.Load()))
        return ast.copy_location(_call("fmt", *parts), n)

    def visit_YieldFrom(self, n):
        raise SyntaxError("yield from as an expression")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.YieldFrom):
            L = self.tmp("L")
            ln = ast.Name(L, ast.Load())
            loop = ast.While(_call(ast.Attribute(ln, "more", ast.Load())),
                             [ast.Expr(ast.Yield(_call(ast.Attribute(ln, "elem", ast.Load()))))], [])
            return [ast.Assign([ast.Name(L, ast.Store())], _call("loop", self.visit(n.value.value))),
                    ast.Try([loop], [], [], [ast.Expr(_call(ast.Attribute(ln, "leave", ast.Load())))])]
        n.value = self.visit(n.value)
        return n

    def visit_NamedExpr(self, n):
        n.value = self.visit(n.value)
        if self._is_cell(n.target.id):
            return ast.copy_location(_call(ast.Attribute(ast.Name(n.target.id, ast.Load()), "setx", ast.Load()), n.value), n)
        return n

    def generic_visit(self, n):
        for field, old in ast.iter_fields(n):
            if isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        r = self.visit(v)
                        if isinstance(r, list):
                            new.extend(r)
                            continue
                        v = r
                    new.append(v)
                setattr(n, field, new)
            elif isinstance(old, ast.AST):
                r = self.visit(old)
                setattr(n, field, r)
        return n


def instrument_module(source: str, filename: str, stats=None) -> ast.Module:
    tree = ast.parse(source, filename)
    skipped, done = [], []

    def walk(body, prefix):
        for i, n in enumerate(body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                orig = copy.deepcopy(n)
                try:
                    if isinstance(n, ast.AsyncFunctionDef):
                        raise SyntaxError("async")
                    Instrument().function(n)
                except SyntaxError as exc:
                    # left as it is; the runtime refuses to run it symbolically
                    skipped.append((prefix + n.name, str(exc)))
                    body[i] = orig
                else:
                    done.append(prefix + n.name)
            elif isinstance(n, ast.ClassDef):
                walk(n.body, prefix + n.name + ".")
            elif isinstance(n, (ast.If, ast.Try)):
                walk(n.body, prefix)
                walk(n.orelse, prefix)
                for h in getattr(n, "handlers", []):
                    walk(h.body, prefix)
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.Expr, ast.Return)):
                # lambdas in module and class level expressions
                class LT(ast.NodeTransformer):
                    def visit_Lambda(self, l):
                        if any(isinstance(x, COMPS) for x in ast.walk(l.body)):
                            skipped.append((prefix + "<lambda>", "comprehension"))
                            return l
                        ins = Instrument()
                        _analyze(l, None, ins.scopes)
                        return ins._function(l)

                    def visit_FunctionDef(self, f):
                        return f
                body[i] = LT().visit(n)

    walk(tree.body, "")
    ast.fix_missing_locations(tree)
    if stats is not None:
        stats["skipped"] = skipped
        stats["functions"] = done
    return tree
