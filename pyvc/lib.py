"""What the contracts are written with: type hints, contexts, settings and callees as arbitrary objects obeying a contract.

Everything here is either an *assumption about a dependency* (class Assume lists them; they end up in the evidence) or a
*contract of a callee* that is proved elsewhere (CALLEES)."""
from __future__ import annotations
import base64, collections.abc, dataclasses, os, sys, traceback, types, typing
import z3
from . import runtime as R
from .engine import (Acc, Control, IdxSeq, PathFn, Int, Item, NOTHING, Rec, SB, SI, SV, Sym, Unsupported, V, PathEnd, VDict, VList, VSet, engine_fault, refuse_fault)
from .runtime import AND, FALSE, FnStub, NOT, OR, SetView, StarSeq, Stub, TRUE, TupleOf, VMethod

Bool = z3.BoolSort()
HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = []


class Contract:
    def __init__(self, name, fn, functions, pids, also, weak_paths):
        self.name, self.fn, self.functions, self.pids, self.also, self.weak_paths = name, fn, functions, pids, also, weak_paths


def contract(name, functions, *pids, also=(), weak_paths=False):
    """Registers a contract: *fn(c)* runs the real code on arbitrary arguments and states the postconditions.  *pids*: the
    properties its obligations belong to; *also*: properties to which only the obligations tagged so belong; *weak_paths*: how
    loops whose iterations depend on earlier ones are given to the solver (SymLoop._weak)."""
    def deco(fn):
        CONTRACTS.append(Contract(name, fn, functions, pids, tuple(also), weak_paths))
        return fn
    return deco


class Fault(RuntimeError, ValueError, KeyError, IndexError, ArithmeticError, AssertionError):
    """An exception of a constructor of the user's; TypeErrors mean that a type cannot be instantiated."""


class Leak(RuntimeError, ValueError, TypeError, KeyError, IndexError, ArithmeticError, AssertionError):
    """Stands for an exception of an arbitrary class that a callee (user code) may raise: whatever the code catches by mistake,
    it catches this one."""


def one_tuple(f):
    """The function with its *args as an ordinary parameter (for the tuple itself): an arbitrary number of arguments."""
    code = f.__code__
    if not code.co_flags & 0x04 or code.co_kwonlyargcount or code.co_flags & 0x08:
        raise Unsupported("a signature without *args")
    code = code.replace(co_argcount=code.co_argcount + 1, co_flags=code.co_flags & ~0x04)
    return types.FunctionType(code, f.__globals__, f.__name__, f.__defaults__, f.__closure__)


# -------------------------------------------------------------------------------------------------------- exceptions
class Outcome:
    """What a call did: `ret` (value), or `exc` (exception)."""

    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    @property
    def ret(self):
        return self.kind == "ret"

    def raised(self, *cls):
        return self.kind == "exc" and isinstance(self.value, cls)

    def __repr__(self):
        return f"{self.kind}: {self.value!r}"


def typeapi():
    import typeapi
    return typeapi


class Nested:
    def __init__(self, n, emit):
        self.n, self.emit = n, emit


class C:
    """A contract's view of the engine."""
    _leaf_ = True

    def __init__(self, e, name, pid=None, con=None):
        self.e, self.rt, self.name, self.pid, self.con = e, e.rt, name, pid, con
        # P19 is about the library and not about user code, so that user code fails as documented only
        self.leaks = pid != "P19"
        self.protected = {}
        self.calls = []         # the conversions that were made outside of loops: (value, hint, context, outcome)
        install(e.rt)
        e.rt.contract = self

    def mine(self, tag):
        if self.pid is None:
            return True
        if tag is None:
            return self.pid in self.con.pids
        return self.pid == tag

    def protect(self, o, what):
        """The code must not write to this object."""
        self.protected[id(o)] = (o, what)
        return o

    def no_write(self, what):
        self.e.prove(f"{self.name}: does not modify {what}", FALSE) if self.mine("P24") else None

    # -- arbitrary values
    def value(self, name="v", cls=None, **x):
        return SV(z3.Const(name, V), cls, **x)

    def stub(self, f, handler):
        """Calls of the function *f* are checked against its contract: handler(*args)."""
        self.rt._stubs.append((f, self.rt.opaque.get(id(f))))
        self.rt.opaque[id(f)] = lambda rt, *a, **k: handler(*a, **k)

    def bool(self, name):
        return SV(self.e.fn("b_" + name, V)(), bool) if False else SV(z3.If(z3.Bool(name), self.e.const(True), self.e.const(False)), bool)

    def choose(self, *names):
        """One of the given cases (all are checked)."""
        i = self.e.choose([TRUE] * len(names))
        return names[i]

    def assume(self, f):
        f = f.f if isinstance(f, SB) else f
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.e.add(f)

    def hint(self, name="hint", kind="class", **x):
        return hint_sv(self.rt, z3.Const(name, V), kind, **x)

    def any_hint(self, kinds, name="hint"):
        """A hint of one of the kinds, possibly wrapped in Annotated; returns (hint, unwrapped hint, kind)."""
        kind = kinds[self.e.choose([TRUE] * len(kinds))]
        if self.choose("plain", "annotated") == "plain":
            h = self.hint(name, kind)
            return h, h, kind
        h = self.hint(name, "annotated")
        inner = hint_sv(self.rt, self.e.fn("hint_item", V, Int, V)(h.t, z3.IntVal(0)), kind)
        h.x["inner_kind"] = kind
        return h, inner, kind

    def context(self, value, hint, direction, settings=None, convert=None, parent=None, key=NOTHING):
        from databind.core.context import Context, Location
        loc = object.__new__(Location)
        for n in ("filename", "line", "column"):
            object.__setattr__(loc, n, SV(z3.Const("loc_" + n, V)))
        ctx = object.__new__(Context)
        ctx.__dict__.update(parent=parent if parent is not None else ParentCtx(), direction=direction, value=value, datatype=hint,
                            settings=settings if settings is not None else SettingsStub(self), key=SV(z3.Const("key0", V)) if key is NOTHING else key,
                            location=loc, convert_func=convert if convert is not None else ConvertStub(self, self.leaks))
        self.ctx = self.protect(ctx, "the context")
        return ctx

    def direction(self):
        from databind.core.context import Direction
        return Direction.SERIALIZE if self.choose("dump", "load") == "dump" else Direction.DESERIALIZE

    def spawned(self, ctx):
        """P20: what every context that is handed to the dispatcher has to be like.  Contracts add where the value is found."""
        if not self.mine("P20"):
            return
        p = self.ctx
        if ctx is p:
            return self.never("a sub-conversion has a context of its own", "", "P20")
        self.prove("a sub-conversion's context is a child of the context",
                   ctx.parent is p and ctx.settings is p.settings and ctx.convert_func is p.convert_func and ctx.direction is p.direction, "P20")
        self.prove("a sub-conversion's context inherits the file name", self.same(ctx.location.filename, p.location.filename), "P20")
        if self.place is not None:
            self.prove("a sub-conversion's key is the place of its value", self.place(ctx), "P20")

    thorough = False
    place = None
    payload = None          # gives the term of a dictionary that the code made and converts

    def same_ctx(self, ctx):
        return z3.BoolVal(ctx is self.ctx)

    # -- running the code
    def run(self, f, *a, **k):
        try:
            return Outcome("ret", self.rt.call(f, *a, **k))
        except Control:
            raise
        except RecursionError:
            raise Unsupported("recursion limit")
        except BaseException as exc:
            if self.e.trace and engine_fault(exc):
                traceback.print_exc()
            refuse_fault(exc)
            return Outcome("exc", exc)

    def converted(self, o, d, v, h):
        """The outcome is that of converting the value by the type hint: same value or same error."""
        e = self.e
        out = e.fn("conv_outcome_" + d.name, V, V, Int)(v, h)
        from databind.core.converter import ConversionError
        if o.ret:
            return AND(out == 0, self.same(o.value, SV(e.fn("conv_" + d.name, V, V, V)(v, h))))
        x = o.value
        if not (x.args and isinstance(x.args[0], SV)):
            return FALSE
        if isinstance(x, ConversionError):
            return AND(out == 1, self.same(x.args[0], SV(e.fn("conv_error_" + d.name, V, V, V)(v, h))))
        return AND(out != 0, out != 1, self.same(x.args[0], SV(e.fn("conv_leak_" + d.name, V, V, V)(v, h))))

    steps = None

    def look_at(self, j):
        """Makes the solver consider the j-th step of the log that is being compared."""
        if self.steps is not None:
            self.assume(self.e.fn("look_at", Int, Bool)(self.steps(j)))

    def tobool(self, r):
        return r.f if isinstance(r, SB) else z3.BoolVal(bool(r))

    # -- formulas
    def isa(self, x, cls):
        f = self.rt.isinst_f(x, cls)
        return z3.BoolVal(f) if isinstance(f, bool) else f

    def isa_type(self, T, cls):
        f = self.rt.sub_f(T, cls)
        return z3.BoolVal(f) if isinstance(f, bool) else f

    def typ(self, x):
        return self.rt.typeof(x) if isinstance(x, SV) else self.e.const(self.rt.pyclass(x))

    def is_type(self, x, cls):
        return self.typ(x) == self.e.const(cls)

    def same(self, a, b):
        r = self.rt.same(a, b)
        return r.f if isinstance(r, SB) else z3.BoolVal(r)

    def eq(self, a, b):
        r = self.rt.eq(a, b)
        return r.f if isinstance(r, SB) else z3.BoolVal(r)

    def len(self, x):
        n = self.rt.call(len, x)
        return n.t if isinstance(n, SI) else n

    def truthy(self, x):
        if isinstance(x, SB):
            return x.f
        if isinstance(x, SV) and x.cls is bool:
            return x.t == self.e.const(True)
        return z3.BoolVal(bool(x)) if not isinstance(x, Sym) else self.e.truthy(x.t)

    # -- arbitrary containers, and comparison of containers with a specification
    def listobj(self, seq):
        """A list object with the elements of the sequence."""
        l = VList()
        if self.e.bounded is not None:
            n = self.e.choose([seq.n == i for i in range(self.e.bounded + 1)])
            l.entries.extend([Item(None, seq.at(z3.IntVal(i))) for i in range(n)])
            return l
        e = self.e
        e.counter += 1
        f = e.fn(f"list!{e.counter}", Int, Int)
        k, j = z3.Int(f"lk!{e.counter}"), z3.Int("j!")
        pats = [f(j)] + ([seq.trig(j)] if seq.trig is not None else [])
        e.add(z3.ForAll([j], f(j) == 0, patterns=pats))
        l.entries.append(Rec(PathFn(f, []), k, seq.n, [(0, [], [Item(None, seq.at(k))])]))
        return l

    def log_is(self, what, entries, n, emit):
        """The log has been written exactly by: for j in range(n): for (key, value) in emit(j): write.  *emit* may fork; it
        gives pairs (key, value), compared by identity of terms (None: not compared; a function: gives the formula), or
        Nested(n, emit)."""
        e = self.e
        entries = [x for x in entries if isinstance(x, Item) or any(p[2] for p in x.paths)]
        nv = z3.simplify(n) if not isinstance(n, int) else z3.IntVal(n)
        if e.bounded is not None or z3.is_int_value(nv):
            want = self._unroll(nv, emit)
            if not any(isinstance(x, Rec) for x in entries):
                return self._same_items(what, entries, want)
        if not entries:
            j = e.fresh("spec", Int)
            self.assume(AND(0 <= j, j < n))
            w = emit(j)
            if isinstance(w, Nested):
                return self.log_is(what, [], w.n, w.emit)
            if w:
                self.never(what + ": nothing is missing")
            return
        if len(entries) != 1 or not isinstance(entries[0], Rec):
            raise Unsupported(f"{what}: the result is built in {len(entries)} parts")
        r = entries[0]
        if self.choose("number", "steps") == "number":
            return self.prove(what + ": one step per element", r.upper == n)
        j = e.fresh("spec", Int)
        self.assume(AND(0 <= j, j < n))
        k = e.choose([AND([r.P(j) == pid] + e.subst_f(conds, [(r.k, j)])) for pid, conds, _ in r.paths])
        ents = e.subst_entries(r.paths[k][2], [(r.k, j)])
        self.steps = r.P
        w = emit(j)
        if isinstance(w, Nested):
            return self.log_is(what, ents, w.n, w.emit)
        if any(isinstance(x, Rec) for x in ents):
            raise Unsupported(f"{what}: nested steps")
        self._same_items(what, ents, w)

    def _unroll(self, n, emit):
        n = z3.simplify(n)
        m = n.as_long() if z3.is_int_value(n) else self.e.choose([n == i for i in range(self.e.bounded + 1)])
        want = []
        for j in range(m):
            w = emit(z3.IntVal(j))
            want += self._unroll(w.n, w.emit) if isinstance(w, Nested) else w
        return want

    def _same_items(self, what, ents, want):
        if len(ents) != len(want):
            return self.never(what + ": as many entries as specified", f"{ents!r} instead of {want!r}")
        fs = []
        for x, (k, v) in zip(ents, want):
            if isinstance(x, Rec):
                raise Unsupported(what)
            if k is not None:
                fs.append(self.same(x.key, k))
            if v is not None:
                fs.append(self.same(x.value, v) if not callable(v) or isinstance(v, Sym) else v(x.value))
        self.prove(what, AND(fs) if fs else TRUE)

    # -- obligations
    def text_is(self, x, *pieces):
        """The text is the concatenation of these pieces."""
        want = self.rt.text(list(pieces))
        if not isinstance(x, SV):
            return z3.BoolVal(False) if isinstance(want, SV) else z3.BoolVal(x == want)
        if isinstance(want, SV) and not x.t.eq(want.t):
            got = self.rt.text_parts(x.t)
            if any(not isinstance(p, str) and not any(isinstance(q, SV) and p.eq(q.t) for q in pieces) for p in got):
                raise Unsupported("a text that is put together in another way")
            return FALSE
        return self.same(x, want)

    def mentions(self, x, v):
        """The text contains the value's repr or str."""
        if not isinstance(x, SV):
            return FALSE
        e = self.e
        got = self.rt.text_parts(x.t)
        t = self.rt.lift(v)
        ways = [(p, y) for p in got if not isinstance(p, str) for y in (t, e.fn("repr", V, V)(t), e.fn("str", V, V)(t))]
        if any(p.eq(y) for p, y in ways):
            return TRUE
        ways = [p == y for p, y in ways if z3.is_app(p) and p.decl().eq(y.decl())]
        if ways and e.check(NOT(OR(ways))) == z3.unsat:
            return TRUE
        raise Unsupported("a text that does not mention the value as such")

    def prove(self, what, f, tag=None):
        if not self.mine(tag):
            return True
        return self.e.prove(f"{self.name}: {what}", f)

    def never(self, what, detail="", tag=None):
        if not self.mine(tag):
            return True
        return self.e.fail(f"{self.name}: {what}", detail)

    def well_behaved(self, o):
        """P19, for converters: no exception other than ConversionError (or NotImplementedError: not applicable)."""
        from databind.core.converter import ConversionError
        if self.mine("P19"):
            if o.ret or o.raised(ConversionError, NotImplementedError):
                self.prove("raises only ConversionError", TRUE, "P19")
            else:
                self.never("raises only ConversionError", repr(o), "P19")
        self.prove("writes to nothing but new objects", TRUE, "P24")

    def cover(self, what):
        self.e.cover(f"{self.name}: {what}")


class ParentCtx:
    """The context above the one under consideration (nothing is known about it)."""
    _leaf_ = True


# ------------------------------------------------------------------------------------------------------------- hints
KINDS = {"class": "ClassTypeHint", "annotated": "AnnotatedTypeHint", "union": "UnionTypeHint", "tuple": "TupleTypeHint",
         "literal": "LiteralTypeHint", "typevar": "TypeVarTypeHint", "forward": "ForwardRefTypeHint", "any": None, "other": None}
KINDS3 = ["class", "tuple", "other"]      # other: neither a class hint nor Annotated
ALL_KINDS = ["class", "union", "tuple", "literal", "typevar"]


def hint_sv(rt, t, kind="any", **x):
    cls = getattr(typeapi(), KINDS[kind]) if KINDS[kind] else None
    x.setdefault("shape", "hint")
    if cls is None:
        x.setdefault("isa", typeapi().TypeHint)
    if kind == "other":
        for k in ("ClassTypeHint", "AnnotatedTypeHint"):
            rt.e.add_once(NOT(rt.e.subclass(rt.e.typeof(t), getattr(typeapi(), k))))
    return SV(t, cls, truthy=True if kind in ("class", "any", "other") else None, item=hint_item, iterseq=hint_seq, **x) if kind not in ("tuple", "union", "annotated", "literal") \
        else SV(t, cls, item=hint_item, iterseq=hint_seq, **x)


def hint_item(rt, h, i):
    if h.cls is typeapi().AnnotatedTypeHint:
        if i != 0:
            raise Unsupported("item of an annotated hint")
        return hint_sv(rt, rt.e.fn("hint_item", V, Int, V)(h.t, z3.IntVal(0)), h.x.get("inner_kind", "any"))
    s = hint_seq(rt, h)
    return rt.getitem(s, i)


def hint_seq(rt, h):
    e = rt.e
    at = e.fn("hint_item", V, Int, V)
    n = e.fn("hint_len", V, Int)(h.t)
    e.add_once(n >= 0)
    e.add_once(z3.Implies(e.subclass(e.typeof(h.t), typeapi().AnnotatedTypeHint), n == 1))
    k = h.x.get("item_kind", "any")
    return IdxSeq(n, lambda j: hint_sv(rt, at(h.t, j), k), None, lambda j: at(h.t, j))


def type_sv(t, **x):
    x.setdefault("call", type_call)
    return SV(t, type, shape="pytype", **x)


def t_annotations(rt, T):
    if not rt.e.fork(rt.e.fn("has_annotations", V, Bool)(T.t)):
        raise AttributeError("__annotations__")
    return SV(rt.e.fn("annotations", V, V)(T.t), dict, key=str_elem)


def t_fields(rt, T):
    if not rt.e.fork(rt.e.fn("has__fields", V, Bool)(T.t)):
        raise AttributeError("_fields")
    return SV(rt.e.fn("_fields", V, V)(T.t), tuple)


def type_call(rt, T, args, kw):
    """Instantiating a type of the user's: a new object, a TypeError or another exception."""
    e = rt.e
    if e.frame is not None:
        raise Unsupported("instantiation in a summarised loop")
    e.log.append(("construct", T, args, kw))
    n = sum(x[0] == "construct" for x in e.log)
    out = z3.Int(f"construct_{n}")
    k = e.choose([out == 0, out == 1, out >= 2] if rt.contract.leaks else [out == 0, out != 0])
    if k == 0:
        r = SV(z3.Const(f"constructed_{n}", V))
        e.add(e.sub(e.typeof(r.t), T.t))
        return r
    if k == 1:
        raise TypeError("cannot be instantiated")
    raise Fault()


def a_type(rt, h):
    if h.cls is typeapi().TupleTypeHint:
        rt.e.add_once(rt.e.fn("hint_type", V, V)(h.t) == rt.e.const(tuple))
        return tuple
    return type_sv(rt.e.fn("hint_type", V, V)(h.t), **rt.type_x)


def a_args(rt, h):
    return SV(rt.e.fn("hint_args", V, V)(h.t), tuple)


def a_metadata(rt, h):
    return SV(rt.e.fn("hint_metadata", V, V)(h.t), tuple)


def a_values(rt, h):
    return SV(rt.e.fn("hint_values", V, V)(h.t), tuple)


def a_repeated(rt, h):
    return SV(z3.If(rt.e.fn("hint_repeated", V, Bool)(h.t), rt.e.const(True), rt.e.const(False)), bool)


def m_recurse_bases(h, order="bfs"):
    rt = R.ENGINE().rt
    e = rt.e
    at = e.fn("hint_base", V, Int, V)
    n = e.fn("hint_nbases", V, Int)(h.t)
    e.add_once(n >= 1)
    e.add_once(at(h.t, z3.IntVal(0)) == h.t)
    return IdxSeq(n, lambda j: hint_sv(rt, at(h.t, j), "class"), None, lambda j: at(h.t, j))


def m_has_none(h):
    rt = R.ENGINE().rt
    return SB(rt.e.fn("hint_has_none", V, Bool)(h.t))


def m_without_none(h):
    rt = R.ENGINE().rt
    return hint_sv(rt, rt.e.fn("hint_without_none", V, V)(h.t), "any")


def method(f):
    return lambda rt, sv: VMethod(sv, f.__name__, f)


def h_TypeHint(rt, x, source=None):
    e = rt.e
    if isinstance(x, SV):
        if x.x.get("shape") == "hint":
            return x
        if x.cls is type:
            return hint_sv(rt, e.fn("TypeHint_of", V, V)(x.t), "class")
        return hint_sv(rt, e.fn("TypeHint_of", V, V)(x.t), "any")
    if isinstance(x, typeapi().TypeHint):
        return x
    if isinstance(x, type):
        h = hint_sv(rt, e.fn("TypeHint_of", V, V)(e.const(x)), "class")
        e.add_once(e.fn("hint_type", V, V)(h.t) == e.const(x))
        return h
    if x is None:
        return hint_sv(rt, e.fn("TypeHint_of", V, V)(e.const(None)), "any")
    raise Unsupported(f"TypeHint({x!r})")


def h_is_typed_dict(rt, t):
    return SB(rt.e.fn("is_typed_dict", V, Bool)(rt.lift(t)))


def h_is_dataclass(rt, t):
    if not rt.symbolic(t):
        return dataclasses.is_dataclass(t)
    return SB(rt.e.fn("is_dataclass", V, Bool)(rt.lift(t)))


def h_type_repr(rt, t):
    if not rt.symbolic(t):
        return typeapi().type_repr(t)
    return rt.opaque_str("type_repr", t)


# ---------------------------------------------------------------------------------------------------------- settings
class SettingsStub:
    _leaf_ = True
    """An arbitrary settings provider: whether a setting is in effect, and its fields, are functions of the setting class, the
    datatype and the key of the context that is asked for (an assumption: providers are pure)."""

    def __init__(self, c):
        self.get_setting = _SETTING


class _GetSetting(Stub):
    def vcall(self, args, kwargs):
        ctx, cls = args
        rt = R.ENGINE().rt
        e = rt.e
        try:
            key = rt.lift(ctx.key)
        except Unsupported:
            raise
        dt = rt.lift(ctx.datatype)
        if not e.fork(e.fn("has_" + cls.__name__, V, V, Bool)(dt, key)):
            return None
        return setting_obj(rt, cls, dt, key)


_SETTING = _GetSetting()


def setting_obj(rt, cls, dt, key):
    from databind.core import settings as S
    e = rt.e
    o = object.__new__(cls)
    t = e.fn("the_" + cls.__name__, V, V, V)(dt, key)
    d = {"_vt_": t} if False else {}

    def fld(name, kls=None, **x):
        return SV(e.fn(f"{cls.__name__}_{name}", V, V)(t), kls, **x)
    if issubclass(cls, S.BooleanSetting):
        b = fld("enabled", bool)
        e.add_once(OR(b.t == e.const(True), b.t == e.const(False)))
        d["enabled"] = b
    elif cls is S.Alias:
        a = fld("aliases", tuple, elem=str_elem)
        e.add_once(e.length(a.t) >= 1)
        d["aliases"] = a
    elif cls is S.DeserializeAs:
        d["type"] = type_sv(e.fn("DeserializeAs_type", V, V)(t))
    elif cls is S.ExtraKeys:
        b = fld("allow", bool)
        e.add_once(OR(b.t == e.const(True), b.t == e.const(False)))
        d["allow"] = b
        d["recorder"] = RecorderStub(t) if e.fork(e.fn("has_recorder", V, Bool)(t)) else None
    else:
        h = rt.setting_makers.get(cls)
        if h is None:
            raise Unsupported(f"setting {cls.__name__}")
        return h(rt, t)
    for k, v in d.items():
        object.__setattr__(o, k, v)
    return o


def str_elem(rt, sv, t):
    return SV(t, str)


class RecorderStub(Stub):
    def __init__(self, t):
        self.t = t

    def vcall(self, args, kwargs):
        e = R.ENGINE()
        if e.frame is not None:
            raise Unsupported("recorder called in a summarised loop")
        e.log.append(("recorder", self.t, args))


# --------------------------------------------------------------------------------------------------------- recursion
class ConvertStub(Stub):
    """The contract of the dispatcher (proved for Module.convert): converting a context gives a value, raises ConversionError
    or raises something else, and which of the three happens, and the value, is a function of the context's value, datatype and
    direction.  Every context that it is given is checked against P20."""

    def __init__(self, c, leaks=True):
        self.c, self.leaks = c, leaks

    def vcall(self, args, kwargs):
        from databind.core.converter import ConversionError
        (ctx,) = args
        rt = R.ENGINE().rt
        e = rt.e
        x = ctx.value
        if isinstance(x, VDict) and self.c.payload is not None:
            x = self.c.payload(ctx)
        v, h = rt.lift(boxed(rt, x)), rt.lift(ctx.datatype)
        self.c.spawned(ctx)
        d = ctx.direction.name
        self.c.calls.append((v, h, ctx, e.frame))
        out = e.fn("conv_outcome_" + d, V, V, Int)(v, h)
        alts = [out == 0, out == 1] + ([AND(out != 0, out != 1)] if self.leaks else [])
        if not self.leaks:
            e.add_once(OR(out == 0, out == 1))
        k = e.choose(alts)
        if k == 0:
            return conv_result(rt, d, v, h, ctx)
        self.c.failed = (v, h)
        try:
            self.c.failed_key = rt.lift(ctx.key)
        except Unsupported:
            self.c.failed_key = None
        if k == 1:
            x = ConversionError.__new__(ConversionError)
            x.origin, x.context, x.message, x.errors = None, ctx, "m", []
            x.args = (SV(e.fn("conv_error_" + d, V, V, V)(v, h)),)
            raise x
        x = Leak()
        x.args = (SV(e.fn("conv_leak_" + d, V, V, V)(v, h)),)
        x.key = ctx.key
        raise x


def conv_result(rt, d, v, h, ctx=None):
    return SV(rt.e.fn("conv_" + d, V, V, V)(v, h), None)


def boxed(rt, x):
    """Containers built by the code under verification, as values for the conversion: by their identity."""
    if isinstance(x, (VDict, VList, VSet)):
        e = rt.e
        return SV(e.fresh("box", V), rt.pyclass(x))
    return x


# ------------------------------------------------------------------------------------------------------ dependencies
def b64(name, argcls, cls, raises):
    def h(rt, x, *a, **k):
        if a or k:
            raise Unsupported(name + " with options")
        return rt.ext(name, [x], cls, raises)
    return h


def h_bytes_decode(x, *a):
    return R.ENGINE().rt.opaque_str("bytes_decode", x, *a)


ASSUMED = {
    "typeapi": "typeapi (TypeHint and its subclasses): attributes and methods are pure functions of the hint; recurse_bases() "
               "yields the hint itself first and only class hints; args/values/metadata are tuples",
    "values": "values under conversion: ==, hash, iteration, len and attribute access are pure and do not raise; iterating a "
              "collection gives len() many elements; a mapping iterates its keys once each, and mapping[key] is a function of the key",
    "settings": "a settings provider answers as a pure function of setting class, datatype and key of the context",
    "str": "string operations, repr and formatting are pure and total (their text is left uninterpreted)",
    "cpython": "semantics of the Python operations as implemented in pyvc/runtime.py; cross-checked by running the repository's "
               "test-suite and all batteries on the instrumented code under CPython",
    "termination": "termination and resource exhaustion (recursion depth, memory) are not proved",
}


def install(rt):
    ta = typeapi()
    rt.setting_makers, rt.type_x, rt.tables = {}, {}, {}
    for f, h in reversed(getattr(rt, "_stubs", ())):
        rt.opaque.pop(id(f), None) if h is None else rt.handle(f, h)
    rt._stubs = []
    if getattr(rt, "_lib", False):
        return
    rt._lib = True
    for n, f in (("type", a_type), ("args", a_args), ("metadata", a_metadata), ("values", a_values), ("repeated", a_repeated)):
        rt.shapes[("hint", n)] = f
    rt.shapes[("pytype", "__annotations__")] = t_annotations
    rt.shapes[("pytype", "_fields")] = t_fields
    rt.shapes[("hint", "recurse_bases")] = method(m_recurse_bases)
    rt.shapes[("hint", "has_none_type")] = method(m_has_none)
    rt.shapes[("hint", "without_none_type")] = method(m_without_none)
    rt.handle(ta.TypeHint, h_TypeHint)
    rt.handle(ta.is_typed_dict, h_is_typed_dict)
    rt.handle(ta.type_repr, h_type_repr)
    rt.handle(dataclasses.is_dataclass, h_is_dataclass)
    rt.handle(base64.b64encode, b64("b64encode", bytes, bytes, ()))
    rt.handle(base64.b64decode, b64("b64decode", str, bytes, (ValueError,)))
    rt.shapes[(bytes, "decode")] = method(h_bytes_decode)
