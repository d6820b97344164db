"""The semantics of the instrumented operations on symbolic values (`Runtime`), and the dispatcher `_vc_`."""
from __future__ import annotations
import abc, base64, builtins, collections.abc, dataclasses, decimal, enum, functools, operator, re, sys, types, typing
import z3
from . import engine as E
from .engine import (Acc, Cell, Control, DEAD, ENGINE, IdxSeq, Int, Item, NativeCell, NOTHING, PathEnd, Rec, SB, SI, SV, Sym,
                     Unsupported, V, VDict, VFilter, VList, VSet, active)

AND, OR, NOT = z3.And, z3.Or, z3.Not
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
       "%": operator.mod, "&": operator.and_, "|": operator.or_, "^": operator.xor, "**": operator.pow,
       "<<": operator.lshift, ">>": operator.rshift, "@": operator.matmul}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv,
        "%": operator.imod, "&": operator.iand, "|": operator.ior, "^": operator.ixor, "**": operator.ipow,
        "<<": operator.ilshift, ">>": operator.irshift, "@": operator.imatmul}
CMPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
        "is": operator.is_, "is not": operator.is_not, "in": lambda a, b: a in b, "not in": lambda a, b: a not in b}
FILES = set()          # file names of the instrumented modules
SKIPPED = {}           # (file name, qualified name) -> why the function was left as it is
NATIVE_OK_PREFIX = ("databind.",)
CONTRACT_DIRS = []


class Model:
    """Base class of contract-side objects that have a term (attribute `_vt_`)."""
    _vt_ = None


class Stub:
    """A callable given by a contract: vcall(args, kwargs) where kwargs is a dict or a VDict."""
    _leaf_ = True

    def vcall(self, args, kwargs):
        raise NotImplementedError

    def __call__(self, *a, **k):
        return self.vcall(list(a), dict(k))


class FnStub(Stub):
    def __init__(self, fn):
        self.fn = fn

    def vcall(self, args, kwargs):
        return self.fn(*args, **kwargs) if isinstance(kwargs, dict) else self.fn(*args, __kwargs__=kwargs)


class VMethod(Stub):
    _leaf_ = False

    def __init__(self, owner, name, fn):
        self.owner, self.name, self.fn = owner, name, fn

    def vcall(self, args, kwargs):
        return self.fn(self.owner, *args, **kwargs)


class VView(Sym):
    """keys(), items() or values() of a VDict."""
    __slots__ = ("acc", "kind")

    def __init__(self, acc, kind):
        self.acc, self.kind = acc, kind


class SCard(Sym):
    """len() of a container that a loop has filled."""
    __slots__ = ("entries", "keyed")

    def __init__(self, entries, keyed):
        self.entries, self.keyed = entries, keyed

    def __bool__(self):
        return not ENGINE().rt.card_is(self, 0)


class IdxIter(Sym):
    __slots__ = ("seq", "pos")

    def __init__(self, seq):
        self.seq, self.pos = seq, 0


class OpaqueIter(Sym):
    """An iterable of which only the text form is of interest (map(repr, ...) and the like)."""
    __slots__ = ()


# ------------------------------------------------------------------------------------------------------------ loops
class NativeLoop:
    def __init__(self, it):
        self.it = it

    def more(self):
        try:
            self.v = next(self.it)
        except StopIteration:
            self.it = None
            return False
        return True

    def elem(self):
        return self.v

    def leave(self):
        it, self.it = self.it, None
        if it is not None and hasattr(it, "close"):
            it.close()


class LocalLoop:
    """A loop with variables that occur nowhere else."""

    def __init__(self, e, loop, cells):
        self.e, self.loop, self.cells = e, loop, cells
        self.elem, self.leave = loop.elem, loop.leave

    def more(self):
        r = self.loop.more()
        if r:
            for c in self.cells:
                c.local = len(self.e.frames)
        return r


class IdxLoop:
    def __init__(self, e, seq):
        self.seq = seq
        if seq.n is None:
            raise Unsupported("a loop over an infinite sequence")
        self.L = e.sym_loop(seq.n, seq.trig)

    def more(self):
        return self.L.more()

    def elem(self):
        return self.seq.at(self.L.index())

    def leave(self):
        self.L.leave()


# ---------------------------------------------------------------------------------------------------------- runtime
def is_key(t):
    return t.decl().name() == "sat" and t.arg(0).decl().name() == "mkeys"


def cb_str(y):
    return type(y) is str or isinstance(y, SV) and y.cls is str


def cmap(cls):
    return isinstance(cls, type) and issubclass(cls, collections.abc.Mapping)


def simple(o):
    return o is None or isinstance(o, (str, int, float, bytes, bool, complex, type, enum.Enum, types.ModuleType,
                                       types.FunctionType, types.BuiltinFunctionType))


class Runtime:
    def __init__(self, e):
        self.e = e
        self.shapes = {}        # (class or None, attribute) -> function(rt, sv)
        self.opaque = {}        # id(function) -> handler(rt, *args, **kwargs)
        self.externals = set()  # names of the assumed external functions that were used
        self.statics = {}
        self.setattr_hook = None
        self.contract = None
        for f, h in DEFAULT_HANDLERS:
            self.opaque[id(f)] = h
        self._keepalive = [f for f, _ in DEFAULT_HANDLERS]

    def handle(self, f, h):
        self.opaque[id(f)] = h
        self._keepalive.append(f)

    def static(self, obj):
        self.statics[id(obj)] = obj
        return obj

    def reset(self):
        self.heap = {}
        self.while_budget = 0

    # -- terms
    def lift(self, o):
        e = self.e
        t = type(o)
        if t is SV:
            return o.t
        if t is SB:
            return z3.If(o.f, e.const(True), e.const(False))
        if t is SI:
            return e.ilift(o.t)
        vt = getattr(t, "_vt_", NOTHING) if not isinstance(o, type) else NOTHING
        if vt is not NOTHING:
            vt = o._vt_
            if vt is not None:
                return vt
        elif not isinstance(o, (type, Sym)) and "_vt_" in (getattr(o, "__dict__", None) or ()):
            return o.__dict__["_vt_"]
        if t is tuple:
            f = e.fn(f"tuple{len(o)}", *([V] * (len(o) + 1)))
            if not o:
                return e.const(()) if False else z3.Const("empty_tuple", V)
            args = [self.lift(x) for x in o]
            term = f(*args)
            for i, x in enumerate(args):
                e.add_once(e.fn(f"tproj{len(o)}_{i}", V, V)(term) == x)
            return term
        if t is IdxSeq and o.t is not None:
            return o.t
        if simple(o) or id(o) in self.statics or id(o) in self.opaque:
            return e.const(o)
        if isinstance(o, (types.MethodType,)):
            return e.fn("method_" + o.__func__.__qualname__, V, V)(self.lift(o.__self__))
        if isinstance(o, (list, dict, set)):
            raise Unsupported("term of a native container")
        raise Unsupported(f"term of a {t.__name__}")

    def typeof(self, sv):
        if sv.cls is not None:
            return self.e.const(sv.cls)
        return self.e.typeof(sv.t)

    def known(self, f):
        """Is the formula implied by the path?"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.e.check(NOT(f)) == z3.unsat

    # -- classes
    def norm_cls(self, c):
        o = typing.get_origin(c)
        if o is not None and not isinstance(c, type):
            return o
        return c

    def isinst_f(self, x, c):
        """bool or formula: isinstance(x, c)."""
        if type(c) is tuple:
            fs = [self.isinst_f(x, y) for y in c]
            if any(f is True for f in fs):
                return True
            fs = [f for f in fs if f is not False]
            return OR(fs) if fs else False
        c = self.norm_cls(c)
        cls = self.pyclass(x)
        if isinstance(c, SV):
            if c.x.get("no_isinstance") is not None and self.e.fork(c.x["no_isinstance"](self, c)):
                raise TypeError("isinstance() not supported by this class")
            if cls is not None:
                return self.sub_f(cls, c)
            return self.sub_f(SV(self.e.typeof(x.t), type), c)
        if cls is not None:
            return isinstance(x, c) if not isinstance(x, Sym) else issubclass(cls, c)
        if not isinstance(c, type):
            raise Unsupported(f"isinstance with {c!r}")
        isa = x.x.get("isa") if isinstance(x, SV) else None
        if isa is not None:
            if issubclass(isa, c):
                return True
            self.e.add_once(self.e.subclass(self.e.typeof(x.t), isa))
        return self.e.subclass(self.e.typeof(x.t), c)

    def sub_f(self, a, c):
        if type(c) is tuple:
            fs = [self.sub_f(a, y) for y in c]
            if any(f is True for f in fs):
                return True
            fs = [f for f in fs if f is not False]
            return OR(fs) if fs else False
        c = self.norm_cls(c)
        if not isinstance(a, Sym) and not isinstance(c, Sym):
            return issubclass(a, c)
        if isinstance(a, SV) and a.cls is not None and not issubclass(a.cls, type):
            raise TypeError("issubclass() arg 1 must be a class")
        if isinstance(c, SV):
            ta, tc = self.lift(a), c.t
            self.e.add_once(self.e.sub(tc, tc))
            f = self.e.sub(ta, tc)
            for d in self.e.sub_classes:
                # transitivity towards the classes in use
                self.e.add_once(z3.Implies(AND(f, self.e.subclass(tc, d)), self.e.subclass(ta, d)))
            return f
        if not isinstance(c, type):
            raise Unsupported(f"issubclass with {c!r}")
        return self.e.subclass(a.t, c)

    def pyclass(self, x):
        if isinstance(x, SV):
            return x.cls
        t = type(x)
        return {VDict: dict, VList: list, VSet: set, VFilter: set, SB: bool, SI: int, SCard: int, IdxSeq: tuple}.get(t, t)

    # -- truth
    def truth(self, sv):
        e = self.e
        t = sv.x.get("truthy")
        if t is True:
            return True
        if sv.cls is bool:
            e.add_once(OR(sv.t == e.const(True), sv.t == e.const(False)))
            return e.fork(sv.t == e.const(True))
        if sv.cls is not None and issubclass(sv.cls, type):
            return True
        if sv.x.get("seq") or (sv.cls in (list, tuple, set, frozenset)):
            return e.fork(e.length(sv.t) > 0)
        if sv.x.get("map") or cmap(sv.cls):
            return e.fork(e.length(e.mkeys(sv.t)) > 0)
        return e.fork(e.truthy(sv.t))

    def acc_truth(self, acc):
        if isinstance(acc, VDict) or isinstance(acc, (VList, VSet)):
            return not self.empty(acc)
        raise Unsupported("truth of a variable cell")

    def empty(self, acc):
        e = self.e
        for i in range(len(acc.entries)):
            acc.reading(i)
        acc.reading_start()
        if any(isinstance(x, Item) and x.dead for x in acc.entries) or any(self._has_dead(x) for x in acc.entries):
            raise Unsupported("emptiness of a container with deletions")
        if any(isinstance(x, Item) for x in acc.entries):
            return False
        if not acc.entries:
            return True
        none = e.no_match(acc.entries, None)
        if z3.is_true(none):
            return True
        # witness
        r = e.pick(acc.entries, "e")
        return r is NOTHING

    def _has_dead(self, x):
        if isinstance(x, Item):
            return x.dead
        return any(self._has_dead(y) for _, _, ents in x.paths for y in ents)

    def coll_truth(self, fl):
        return self.filter_pick(fl) is not NOTHING

    # -- sets of keys
    def base_seq(self, base):
        """The elements of a set operand: ("seq", IdxSeq) or ("log", entries)."""
        if isinstance(base, VView):
            base = base.acc
        if isinstance(base, SV):
            return ("seq", self.as_seq(base))
        if isinstance(base, IdxSeq):
            return ("seq", base)
        if isinstance(base, Acc):
            return ("log", base.entries)
        if isinstance(base, VFilter):
            return ("filter", base)
        if isinstance(base, (dict, set, frozenset, list, tuple, type({}.keys()))):
            return ("native", list(base))
        raise Unsupported(f"set operand {type(base).__name__}")

    def filter_pick(self, fl):
        """An arbitrary element of the filtered set, or NOTHING (then it is empty); forks."""
        e = self.e
        kind, b = self.base_seq(fl.base)
        if kind == "native" or (kind == "log" and not any(isinstance(x, Rec) for x in b)):
            for x in (b if kind == "native" else [i.key for i in b]):
                if bool(self.contains(fl.other, x)) == fl.keep:
                    return x
            return NOTHING
        if kind == "seq":
            w = e.fresh("fw", Int)
            x = b.at(w)
            j = z3.Int(f"j!{e.newq()}")
            xj = b.at(j)
            none_f = self.member_f(fl.other, xj)
            none_f = NOT(none_f) if fl.keep else none_f
            pats = [b.trig(j)] if b.trig is not None else []
            none = z3.ForAll([j], z3.Implies(AND(0 <= j, j < b.n), none_f), patterns=pats)
            if e.bounded is not None:
                none = AND([z3.Implies(b.n > i, z3.substitute(none_f, (j, z3.IntVal(i)))) for i in range(e.bounded)])
            c = e.choose([AND(0 <= w, w < b.n), none])
            if c == 1:
                return NOTHING
            if b.trig is not None and e.bounded is None:
                # (the solver looks at quantified facts for terms that it knows to be there)
                t = b.trig(w)
                if t.decl().name() == "sat" and t.arg(0).decl().name() == "mkeys":
                    e.add(e.mhas(t.arg(0).arg(0), t))
            if bool(self.contains(fl.other, x)) != fl.keep:
                raise PathEnd()
            return x
        if kind == "log":
            def pred(item):
                f = self.member_f(fl.other, item.key)
                return NOT(f) if fl.keep else f
            none = e.forall_entries(b, pred)
            if e.choose([TRUE, none]) == 1:
                return NOTHING
            r = e.pick(b, "fw")
            if r is NOTHING or bool(self.contains(fl.other, r[0].key)) != fl.keep:
                raise PathEnd()
            return r[0].key
        raise Unsupported("nested set operation")

    def member_f(self, container, x):
        """Formula for `x in container` (no forking)."""
        e = self.e
        if isinstance(container, VView):
            container = container.acc
        if isinstance(container, SV):
            if container.x.get("map") or cmap(container.cls) or self.known(e.subclass(e.typeof(container.t), collections.abc.Mapping)):
                return e.has(container.t, self.lift(x))
            raise Unsupported("membership formula in an opaque collection")
        if isinstance(container, Acc):
            for i in range(len(container.entries)):
                container.reading(i)
            container.reading_start()
            return e.some_match(container.entries, x)
        if isinstance(container, VFilter):
            f = self.member_f(container.other, x)
            return AND(self.member_f(container.base, x), f if container.keep else NOT(f))
        if isinstance(container, (dict, set, frozenset, list, tuple, type({}.keys()))):
            fs = [self.eq(x, y) for y in container]
            fs = [f.f if isinstance(f, SB) else z3.BoolVal(f) for f in fs]
            return OR(fs) if fs else FALSE
        raise Unsupported(f"membership formula in {type(container).__name__}")

    # -- sequences
    def is_mapping(self, sv):
        if sv.x.get("map"):
            return True
        if sv.x.get("seq"):
            return False
        if sv.cls is not None:
            return cmap(sv.cls)
        return self.e.fork(self.e.subclass(self.e.typeof(sv.t), collections.abc.Mapping))

    def is_collection(self, sv):
        if sv.x.get("seq") or sv.x.get("map"):
            return True
        if sv.cls is not None:
            return issubclass(sv.cls, collections.abc.Collection)
        return self.e.fork(self.e.subclass(self.e.typeof(sv.t), collections.abc.Collection))

    def elem_sv(self, sv, t):
        f = sv.x.get("elem")
        return f(self, sv, t) if f is not None else SV(t)

    def key_sv(self, sv, t):
        f = sv.x.get("key")
        return f(self, sv, t) if f is not None else SV(t)

    def val_of(self, sv, key):
        f = sv.x.get("val")
        k = self.lift(key)
        return f(self, sv, k) if f is not None else SV(self.e.mget(sv.t, k))

    def keys_seq(self, sv):
        e = self.e
        ks = e.mkeys(sv.t)
        n = e.length(ks)
        if e.bounded is not None:
            e.has(sv.t, e.const(None))
        return IdxSeq(n, lambda j: self.key_sv(sv, e.sat(ks, j)), ks, lambda j: e.sat(ks, j))

    def as_seq(self, sv):
        e = self.e
        if sv.x.get("iterseq") is not None:
            return sv.x["iterseq"](self, sv)
        if self.is_mapping(sv):
            return self.keys_seq(sv)
        if not self.is_collection(sv):
            raise TypeError("object is not iterable")
        return IdxSeq(e.length(sv.t), lambda j: self.elem_sv(sv, e.sat(sv.t, j)), sv.t, lambda j: e.sat(sv.t, j))

    def seq_attr(self, seq, name):
        if name in ("index", "count"):
            raise Unsupported(f"sequence method {name}")
        raise AttributeError(name)

    # -- attributes
    def getattr_sv(self, sv, name):
        e = self.e
        if name.startswith("_vt_") or name in ("__iter__", "__len__", "__await__", "__get__"):
            raise AttributeError(name)
        if name in sv.x:
            v = sv.x[name]
            return v
        for c in (sv.x.get("shape"), sv.cls, None):
            f = self.shapes.get((c, name))
            if f is not None:
                return f(self, sv)
        if name in ("keys", "values", "items", "get", "copy") and self.is_mapping(sv):
            return VMethod(sv, name, getattr(self, "m_" + name))
        if sv.cls is str or (sv.cls is None and name in STR_METHODS and not sv.x.get("map")):
            if name in STR_METHODS:
                if sv.cls is None and not e.fork(e.subclass(e.typeof(sv.t), str)):
                    raise AttributeError(name)
                return VMethod(sv, name, functools.partial(self.str_method, name))
            raise AttributeError(name)
        if sv.cls is not None and issubclass(sv.cls, type):
            if name == "__name__" or name == "__module__" or name == "__qualname__":
                return SV(e.fn("attr" + name, V, V)(sv.t), str)
            if name == "__class__":
                return type
        if sv.cls is not None and not hasattr(sv.cls, name) and sv.cls in (int, float, bool, bytes, str, type(None)):
            raise AttributeError(name)
        if name == "is_integer":
            return VMethod(sv, name, lambda x: SB(self.integral(x)))
        if name == "__class__":
            return SV(e.typeof(sv.t), type)
        if name in MUTATORS and self.contract is not None:
            def mutate(x, *a, **k):
                self.contract.no_write("a value it did not create")
                raise Unsupported(f"{name}() of {x!r}")
            return VMethod(sv, name, mutate)
        if sv.x.get("anyattr"):
            if not e.fork(e.fn("hasattr_" + name, V, z3.BoolSort())(sv.t)):
                raise AttributeError(name)
            return SV(e.fn("attr_" + name, V, V)(sv.t))
        raise Unsupported(f"attribute {name} of {sv!r}")

    def str_method(self, name, sv, *a, **k):
        e = self.e
        if k:
            raise Unsupported("keyword arguments of str methods")
        kind = STR_METHODS[name]
        args = [sv.t] + [self.lift(x) for x in a]
        f = e.fn(f"str_{name}{len(a)}", *([V] * len(args)), z3.BoolSort() if kind is bool else V)
        if kind is bool:
            return SB(f(*args))
        if kind is str:
            return SV(f(*args), str)
        raise Unsupported(f"str.{name}")

    # mapping methods of SV
    def m_keys(self, sv):
        return self.keys_seq_view(sv)

    def keys_seq_view(self, sv):
        v = self.keys_seq(sv)
        return SetView(sv, v)

    def m_items(self, sv):
        ks = self.keys_seq(sv)
        return IdxSeq(ks.n, lambda j: (ks.at(j), self.val_of(sv, ks.at(j))), None, ks.trig)

    def m_values(self, sv):
        ks = self.keys_seq(sv)
        return IdxSeq(ks.n, lambda j: self.val_of(sv, ks.at(j)), None, ks.trig)

    def m_get(self, sv, key, default=None):
        if self.e.fork(self.e.has(sv.t, self.lift(key))):
            return self.val_of(sv, key)
        return default

    def m_copy(self, sv):
        return self.dict_(sv)

    # -- accumulators
    def acc_attr(self, acc, name):
        t = type(acc)
        f = ACC_METHODS.get((t, name))
        if f is None:
            raise AttributeError(f"{t.__name__}.{name}") if not hasattr(self.pyclass(acc), name) else Unsupported(f"{t.__name__}.{name}")
        return VMethod(acc, name, functools.partial(f, self))

    def l_append(self, l, v):
        l.event(Item(None, v))

    def l_extend(self, l, it):
        self._fill(l, it)

    def l_insert(self, l, i, v):
        if isinstance(i, int) and (i == 0 or l.concrete()) and self.e.frame is None:
            l.entries.insert(i, Item(None, v))
            return
        raise Unsupported("list.insert")

    def l_pop(self, l, i=-1):
        if not l.concrete() or (self.e.frame is not None and l.serial <= self.e.frame.serial):
            raise Unsupported("list.pop of a loop result")
        if not isinstance(i, int):
            raise Unsupported("list.pop")
        return l.entries.pop(i).value

    def l_copy(self, l):
        return l.snapshot()

    def s_add(self, s, v):
        if self.e.frame is None and s.concrete():
            if self.e.last_write(s, v) is not NOTHING:
                return
        s.event(Item(v, v))

    def s_update(self, s, *its):
        for it in its:
            L = self.loop(it)
            try:
                while L.more():
                    self.s_add(s, L.elem())
            finally:
                L.leave()

    def s_discard(self, s, v):
        s.event(Item(v, None, dead=True))

    def s_copy(self, s):
        return s.snapshot()

    def d_get(self, d, key, default=None):
        v = self.e.last_write(d, key)
        return default if v is NOTHING else v

    def d_pop(self, d, key, *default):
        v = self.e.last_write(d, key)
        if v is NOTHING:
            if default:
                return default[0]
            raise KeyError("key not found")
        d.event(Item(key, None, dead=True))
        return v

    def d_setdefault(self, d, key, default=None):
        v = self.e.last_write(d, key)
        if v is NOTHING:
            d.event(Item(key, default))
            return default
        return v

    def d_update(self, d, other=NOTHING, **kw):
        if other is not NOTHING:
            self._dict_fill(d, other)
        for k, v in kw.items():
            d.event(Item(k, v))

    def d_copy(self, d):
        return d.snapshot()

    def d_keys(self, d):
        return VView(d, "keys")

    def d_items(self, d):
        return VView(d, "items")

    def d_values(self, d):
        return VView(d, "values")

    # -- construction
    def _fill(self, l, it):
        if isinstance(it, VList):
            for i in range(len(it.entries)):
                it.reading(i)
            it.reading_start()
            if self.e.frame is None or l.serial > self.e.frame.serial:
                l.entries.extend(it.entries)
                return l
        L = self.loop(it)
        try:
            while L.more():
                l.event(Item(None, L.elem()))
        finally:
            L.leave()
        return l

    def list_(self, it=NOTHING):
        l = VList()
        return l if it is NOTHING else self._fill(l, it)

    def set_(self, it=NOTHING):
        s = VSet()
        if it is not NOTHING:
            self.s_update(s, it)
        return s

    def tuple_(self, it=()):
        if type(it) is tuple or isinstance(it, IdxSeq):
            return it
        if isinstance(it, SV) and it.cls is tuple:
            return it
        if isinstance(it, SV):
            return self.as_seq(it)
        l = self.list_(it)
        if l.concrete():
            return tuple([x.value for x in l.entries])
        return TupleOf(l)

    def _dict_fill(self, d, m):
        e = self.e
        if isinstance(m, VDict):
            for i in range(len(m.entries)):
                m.reading(i)
            m.reading_start()
            if not any(self._has_dead(x) for x in m.entries) and (e.frame is None or d.serial > e.frame.serial):
                d.entries.extend(m.entries)
                return d
            if m.concrete():
                for k, v in self.dict_items(m):
                    d.event(Item(k, v))
                return d
            raise Unsupported("dict copy")
        if isinstance(m, SV):
            if not self.is_mapping(m):
                raise TypeError("object is not a mapping")
            L = IdxLoop(e, self.m_items(m))
            try:
                while L.more():
                    k, v = L.elem()
                    d.event(Item(k, v))
            finally:
                L.leave()
            return d
        if isinstance(m, (dict, types.MappingProxyType)):
            for k, v in m.items():
                d.event(Item(k, v))
            return d
        if isinstance(m, VView) and m.kind == "items":
            return self._dict_fill(d, m.acc)
        L = self.loop(m)
        try:
            while L.more():
                k, v = self.unpack(L.elem(), 2)
                d.event(Item(k, v))
        finally:
            L.leave()
        return d

    def dict_(self, m=NOTHING, **kw):
        d = VDict()
        if m is not NOTHING:
            self._dict_fill(d, m)
        for k, v in kw.items():
            d.event(Item(k, v))
        return d

    def dict_items(self, d):
        """The items of a log without summaries, as a list of pairs (keys in order of insertion); forks."""
        res = []
        for x in d.entries:
            for i, (k, v) in enumerate(res):
                if self.e.fork(self.e.key_eq(k, x.key)):
                    if x.dead:
                        del res[i]
                    else:
                        res[i] = (k, x.value)
                    break
            else:
                if not x.dead:
                    res.append((x.key, x.value))
        return res

    def Cell(self, *v):
        c = Cell()
        if v:
            c.set(v[0])
        return c

    def mklist(self, *a):
        l = VList()
        for x in a:
            l.event(Item(None, x))
        return l

    def mklistx(self, parts):
        l = VList()
        for k, v in parts:
            if k == "*":
                self._fill(l, v)
            else:
                l.event(Item(None, v))
        return l

    def mktuplex(self, l):
        if l.concrete():
            return tuple([x.value for x in l.entries])
        return TupleOf(l)

    def mkset(self, *a):
        s = VSet()
        for x in a:
            self.s_add(s, x)
        return s

    def mksetx(self, parts):
        s = VSet()
        for k, v in parts:
            if k == "*":
                self.s_update(s, v)
            else:
                self.s_add(s, v)
        return s

    def mkdict(self):
        return VDict()

    def mkdictx(self, parts):
        d = VDict()
        for p in parts:
            if p[0] == "**":
                self._dict_fill(d, p[1])
            else:
                d.event(Item(p[1], p[2]))
        return d

    # -- strings
    def fmt(self, *parts):
        if not any(isinstance(p, tuple) and self.symbolic(p[0]) for p in parts):
            return native.fmt(*parts)
        # formatting an object runs its __str__ or __repr__, which is assumed to succeed; its text is opaque
        e, out = self.e, []
        for p in parts:
            if not isinstance(p, tuple):
                out.append(p)
            elif not self.symbolic(p[0]):
                out.append(native.fmt(p))
            else:
                v, conv, spec = p
                if conv in (None, 115, -1) and not spec and isinstance(v, SV) and v.cls is str:
                    out.append(v)
                    continue
                try:
                    t = self.lift(v)
                except Unsupported:
                    return e.fresh_v("text", str)
                if conv == 114 and not spec:
                    r = e.fn("repr", V, V)(t)
                elif conv in (None, 115, -1) and not spec:
                    r = e.fn("str", V, V)(t)
                    e.add_once(z3.Implies(e.typeof(t) == e.const(str), r == t))
                else:
                    r = e.fn(f"format:{conv}:{spec}", V, V)(t)
                out.append(SV(r, str))
        return self.text(out)

    def text(self, parts):
        """The concatenation of texts, as a term that does not depend on how it is put together."""
        e, flat = self.e, []
        for p in parts:
            if isinstance(p, SV):
                flat += self.text_parts(p.t)
            elif p:
                flat.append(p)
        out = []
        for p in flat:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        if not any(not isinstance(p, str) for p in out):
            return "".join(out)
        terms = [p for p in out if not isinstance(p, str)]
        if len(out) == 1:
            return SV(terms[0], str)
        nm = "text:" + "".join(p.replace("{", "{{") if isinstance(p, str) else "{}" for p in out)
        t = e.fn(nm, *([V] * (len(terms) + 1)))(*terms)
        return SV(t, str)

    @staticmethod
    def text_parts(t):
        """The texts that a text is put together from."""
        nm = t.decl().name()
        if not nm.startswith("text:"):
            return [t]
        args, out = iter(t.children()), []
        for p in re.split(r"(\{\})", nm[5:].replace("{{", "\0")):
            if p == "{}":
                out.append(next(args))
            elif p:
                out.append(p.replace("\0", "{"))
        return out

    def opaque_str(self, what, *a):
        try:
            terms = [self.lift(x) for x in a]
        except Unsupported:
            return self.e.fresh_v("text", str)
        return SV(self.e.fn(what, *([V] * (len(terms) + 1)))(*terms), str)

    # -- operators
    def symbolic(self, o):
        return isinstance(o, Sym) or self.e.has_sym(o)

    def cmp(self, op, a, b):
        if op == "is" or op == "is not":
            r = self.same(a, b)
        elif op == "==" or op == "!=":
            r = self.eq(a, b)
        elif op == "in" or op == "not in":
            r = self.contains(b, a)
        else:
            return self.order(op, a, b)
        if op in ("is not", "!=", "not in"):
            return self.not_(r)
        return r

    def same(self, a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a is b
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Acc, IdxSeq, VFilter, VView, SCard, IdxIter)):
                if isinstance(y, SV) and y.cls is None:
                    raise Unsupported("identity of a container and an opaque object")
                return False
            if isinstance(x, (SI, SB)) and y is None:
                return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SV) and not isinstance(y, Sym):
                k = x.cls or x.x.get("isa")
                if k is not None and not isinstance(y, k):
                    return False
                if not simple(y) and id(y) not in self.statics and getattr(y, "_vt_", None) is None:
                    raise Unsupported(f"identity with a {type(y).__name__}")
        return SB(self.lift(a) == self.lift(b))

    def eq(self, a, b):
        e = self.e
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if type(a) is tuple and type(b) is tuple:
                if len(a) != len(b):
                    return False
                return self.all_([self.eq(x, y) for x, y in zip(a, b)])
            return a == b
        if isinstance(a, SCard) or isinstance(b, SCard):
            return self.order("==", a, b)
        if isinstance(a, (SI, int)) and isinstance(b, (SI, int)) and not isinstance(a, bool) and not isinstance(b, bool):
            return SB(self.int_t(a) == self.int_t(b))
        if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
            return SB((a.f if isinstance(a, SB) else z3.BoolVal(a)) == (b.f if isinstance(b, SB) else z3.BoolVal(b)))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SV) and isinstance(y, tuple) and (x.cls in (None, tuple)):
                if not any(isinstance(z, Sym) for z in y) and not y:
                    return SB(AND(self.isf(x, tuple), e.length(x.t) == 0))
        ca, cb = self.pyclass(a), self.pyclass(b)
        if isinstance(a, Acc) or isinstance(b, Acc):
            return self.acc_eq(a, b)
        ident = (type, type(None), types.FunctionType, str)
        for x, y, cx, cy in ((a, b, ca, cb), (b, a, cb, ca)):
            if cx is not None and (issubclass(cx, type) or cx in ident or (issubclass(cx, enum.Enum) and not issubclass(cx, int))):
                if cy is not None and (issubclass(cy, type) or cy in ident or issubclass(cy, (enum.Enum, int, float, bytes, tuple))):
                    if cx is cy or (issubclass(cx, type) and issubclass(cy, type)):
                        return SB(self.lift(a) == self.lift(b))
                    return False
        if getattr(a, "_vt_", None) is not None and getattr(b, "_vt_", None) is not None:
            return SB(a._vt_ == b._vt_)
        for x, y in ((a, b), (b, a)):
            if y is None and isinstance(x, SV) and (x.cls or x.x.get("isa")) is not None:
                # of a class of its own, and not None (no class under consideration equals None)
                return issubclass(type(None), x.cls or x.x["isa"])
        f = e.pyeq(self.lift(a), self.lift(b))
        if e.bounded is not None:
            e.add_once(f == e.pyeq(self.lift(b), self.lift(a)))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SV) and cb_str(y) and is_key(x.t):
                e.add_once(f == (x.t == self.lift(y)))  # the keys of a mapping: found by what equals them
        for x, y in ((a, b), (b, a)):
            if isinstance(y, str) and type(y) is str and isinstance(x, SV) and x.cls is None:
                e.add_once(z3.Implies(e.typeof(x.t) == e.const(str), f == (x.t == self.lift(y))))
                e.add_once(z3.Implies(x.t == self.lift(y), f))
        if isinstance(a, SV) and isinstance(b, SV):
            for x, y in ((a, b), (b, a)):
                if y.cls is str:
                    e.add_once(z3.Implies(self.typeof(x) == e.const(str), f == (x.t == y.t)))
                    e.add_once(z3.Implies(x.t == y.t, f))
        return SB(f)

    def isf(self, x, c):
        f = self.isinst_f(x, c)
        return f if not isinstance(f, bool) else z3.BoolVal(f)

    def all_(self, rs):
        fs = []
        for r in rs:
            if isinstance(r, SB):
                fs.append(r.f)
            elif not r:
                return False
        return SB(AND(fs)) if fs else True

    def acc_eq(self, a, b):
        if isinstance(a, Acc) and isinstance(b, Acc) and type(a) is not type(b):
            return False
        if isinstance(a, VList) and isinstance(b, VList) and a.concrete() and b.concrete():
            if len(a.entries) != len(b.entries):
                return False
            return self.all_([self.eq(x.value, y.value) for x, y in zip(a.entries, b.entries)])
        for x, y in ((a, b), (b, a)):
            if isinstance(y, (list, dict, set)) and not y:
                return self.empty(x) if type(y) is self.pyclass(x) else False
            if not isinstance(y, Sym) and simple(y):
                return False
        raise Unsupported("equality of containers")

    def int_t(self, x):
        if isinstance(x, SI):
            return x.t
        if isinstance(x, SV):
            return self.e.iunbox(x.t)
        return z3.IntVal(int(x))

    def card_term(self, card):
        """The number of elements written by a single loop, up to what is known about it: it is that of the iterations exactly if
        every iteration writes (another key)."""
        e = self.e
        x = [y for y in card.entries if not (isinstance(y, Rec) and not any(p[2] for p in y.paths))]
        if len(x) != 1 or not isinstance(x[0], Rec) or any(len(p[2]) > 1 or any(not isinstance(i, Item) or i.dead for i in p[2]) for p in x[0].paths):
            raise Unsupported("comparison of a length")
        x, c, j = x[0], e.fresh("card", Int), z3.Int(f"j!{e.newq()}")
        inside = AND(0 <= j, j < x.upper)
        all_ = [z3.ForAll([j], z3.Implies(inside, OR([x.P(j) == p for p, _, ents in x.paths if ents])), patterns=[x.P(j)])]
        if card.keyed:
            fs = []
            for p, conds, ents in x.paths:
                if ents:
                    (i,) = e.subst_entries(ents, [(x.k, j)])
                    fs.append(z3.Implies(x.P(j) == p, e.no_match_rec(x, i.key, j + 1, x.upper)))
            all_.append(z3.ForAll([j], z3.Implies(inside, AND(fs)), patterns=[x.P(j)]))
        e.add(AND(0 <= c, c <= x.upper, (c == x.upper) == AND(all_)))
        return c

    def card_is(self, card, n):
        """Is the number of elements n (0 or 1)?  Forks."""
        return self.order("==", card, n)

    def card_case(self, entries):
        """0, 1 or 2 (at least two) elements; forks."""
        e = self.e
        if any(self._has_dead(x) for x in entries):
            raise Unsupported("number of elements with deletions")
        if all(isinstance(x, Item) for x in entries):
            return min(len(entries), 2)
        if sum(isinstance(x, Item) for x in entries) >= 2:
            return 2
        opts = [(0, e.no_match(entries, None))]
        opts += [(1, AND(c)) for c in self.exactly_one(entries)] + [(2, AND(c)) for c in self.at_least_two(entries)]
        return opts[e.choose([c for _, c in opts])][0]

    def card_keyed(self, entries):
        """0, 1 or 2 (at least two) distinct keys; forks."""
        e = self.e
        if any(self._has_dead(x) for x in entries):
            raise Unsupported("number of elements with deletions")
        if all(isinstance(x, Item) for x in entries):
            n = []
            for x in entries:
                if not any(e.fork(e.key_eq(x.key, k)) for k in n):
                    n.append(x.key)
            return min(len(n), 2)
        opts = [(0, e.no_match(entries, None))]
        for conds, item in self.witnesses(entries):
            opts.append((1, AND(conds + [e.forall_entries(entries, lambda x: e.key_eq(x.key, item.key))])))
            for conds2, item2 in self.witnesses(entries):
                opts.append((2, AND(conds + conds2 + [NOT(e.key_eq(item.key, item2.key))])))
        return opts[e.choose([c for _, c in opts])][0]

    def witnesses(self, entries):
        res = []
        for x in entries:
            if isinstance(x, Item):
                res.append(([TRUE], x))
                continue
            for conds, ents in self.rec_at(x, self.e.fresh("cw", Int)):
                res += [(conds + c, i) for c, i in self.witnesses(ents)]
        return res

    def rec_at(self, x, w):
        """Iteration w of a summary writes: list of (conditions, entries)."""
        e = self.e
        return [([0 <= w, w < x.upper, x.P(w) == pid] + e.subst_f(conds, [(x.k, w)]), e.subst_entries(ents, [(x.k, w)]))
                for pid, conds, ents in x.paths if ents]

    def at_least_one(self, entries):
        res = []
        for x in entries:
            if isinstance(x, Item):
                return [[TRUE]]
            for conds, ents in self.rec_at(x, self.e.fresh("cw", Int)):
                res += [conds + c for c in self.at_least_one(ents)]
        return res

    def exactly_one(self, entries):
        e, res = self.e, []
        for i, x in enumerate(entries):
            rest = [e.no_match(entries[:i] + entries[i + 1:], None)]
            if isinstance(x, Item):
                res.append(rest)
                continue
            w = e.fresh("cw", Int)
            for conds, ents in self.rec_at(x, w):
                others = [e.no_match_rec(x, None, z3.IntVal(0), w), e.no_match_rec(x, None, w + 1, x.upper)]
                res += [rest + conds + others + c for c in self.exactly_one(ents)]
        return [c for c in res if not any(z3.is_false(f) for f in c)]

    def at_least_two(self, entries):
        e, res = self.e, []
        for i, x in enumerate(entries):
            a = self.at_least_one([x])
            for y in entries[i + 1:]:
                res += [c + d for c in a for d in self.at_least_one([y])]
            if isinstance(x, Rec):
                w, w2 = e.fresh("cw", Int), e.fresh("cx", Int)
                for conds, ents in self.rec_at(x, w):
                    res += [conds + c for c in self.at_least_two(ents)]
                    for conds2, ents2 in self.rec_at(x, w2):
                        res += [conds + conds2 + [w < w2] + c + d for c in self.at_least_one(ents) for d in self.at_least_one(ents2)]
        return res

    def order(self, op, a, b):
        if isinstance(a, SCard) or isinstance(b, SCard):
            if isinstance(b, SCard):
                if isinstance(a, SCard):
                    raise Unsupported("comparison of two lengths")
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if isinstance(b, SI):
                return SB(CMPS[op](self.card_term(a), b.t))
            if not isinstance(b, int):
                raise Unsupported("comparison of a length")
            n = self.card_keyed(a.entries) if a.keyed else self.card_case(a.entries)
            if n < 2:
                return CMPS[op](n, b)
            lo = {"==": b < 2, "!=": b < 2, ">": b <= 1, ">=": b <= 2, "<": b <= 2, "<=": b <= 1}[op]
            if not lo:
                raise Unsupported("comparison of a length")
            return op in ("!=", ">", ">=")
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return CMPS[op](a, b)
        if isinstance(a, (SI, int)) and isinstance(b, (SI, int)):
            return SB(CMPS[op](self.int_t(a), self.int_t(b)))
        f = self.e.fn("py" + op, V, V, z3.BoolSort())
        return SB(f(self.lift(a), self.lift(b)))

    def contains(self, c, x):
        e = self.e
        if isinstance(c, VView):
            if c.kind != "keys":
                raise Unsupported("membership in items or values")
            c = c.acc
        if isinstance(c, SetView):
            c = c.sv
        if isinstance(c, SV):
            if c.cls is str:
                return SB(e.fn("str_contains", V, V, z3.BoolSort())(c.t, self.lift(x)))
            if self.is_mapping(c):
                return SB(e.has(c.t, self.lift(x)))
            return self.seq_contains(self.as_seq(c), x)
        if isinstance(c, (VDict, VSet)):
            return e.last_write(c, x) is not NOTHING
        if isinstance(c, VList):
            if c.concrete():
                return self.any_([self.eq(x, y.value) for y in c.entries])
            raise Unsupported("membership in a list built by a loop")
        if isinstance(c, VFilter):
            if not self.tobool(self.contains(c.base, x)):
                return False
            r = self.contains(c.other, x)
            return r if c.keep else self.not_(r)
        if isinstance(c, IdxSeq):
            return self.seq_contains(c, x)
        if isinstance(c, (tuple, list, set, frozenset, dict, type({}.keys()), types.MappingProxyType)):
            if not self.symbolic(x) and not any(self.symbolic(y) for y in c):
                return x in c
            return self.any_([self.eq(x, y) for y in c])
        if isinstance(c, str) and not isinstance(x, Sym):
            return x in c
        if isinstance(c, str):
            return SB(e.fn("str_contains", V, V, z3.BoolSort())(e.const(c), self.lift(x)))
        if isinstance(x, Sym):
            raise Unsupported(f"membership in {type(c).__name__}")
        return x in c

    def any_(self, rs):
        fs = []
        for r in rs:
            if isinstance(r, SB):
                fs.append(r.f)
            elif r:
                return True
        return SB(OR(fs)) if fs else False

    def seq_contains(self, s, x):
        e = self.e
        if s.n is None:
            raise Unsupported("membership in an infinite sequence")

        def f(j):
            y = s.at(j)
            r = self.eq(y, x)
            if not isinstance(r, SB):
                return z3.BoolVal(r)
            if isinstance(x, SV) and isinstance(y, SV):
                return OR(y.t == x.t, r.f)  # the same object is found even if it does not equal itself
            return r.f
        if e.bounded is not None:
            e.add_once(s.n <= e.bounded)
            return SB(OR([AND(s.n > i, f(z3.IntVal(i))) for i in range(e.bounded)]))
        w = e.fresh("m", Int)
        j = z3.Int(f"j!{e.newq()}")
        pats = [s.trig(j)] if s.trig is not None else []
        c = e.choose([AND(0 <= w, w < s.n, f(w)), z3.ForAll([j], z3.Implies(AND(0 <= j, j < s.n), NOT(f(j))), patterns=pats)])
        return c == 0

    def tobool(self, r):
        return bool(r)

    def not_(self, x):
        if isinstance(x, SB):
            return SB(NOT(x.f))
        return not x

    def binop(self, op, a, b):
        if isinstance(a, (VView, SetView, VSet, VFilter)) or isinstance(b, (VView, SetView, VSet, VFilter)):
            if op == "&":
                return VFilter(self.snap(a), self.snap(b), True)
            if op == "-":
                return VFilter(self.snap(a), self.snap(b), False)
            if op == "|" and not isinstance(a, VFilter):
                s = VSet()
                self.s_update(s, a)
                self.s_update(s, b)
                return s
            raise Unsupported(f"set operation {op}")
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if type(a) is tuple or not (self.e.has_sym(a) or self.e.has_sym(b)):
                return OPS[op](a, b)
            raise Unsupported(f"{op} on {type(a).__name__}")
        if isinstance(a, (SI, int)) and isinstance(b, (SI, int)) and op in "+-*":
            return SI(OPS[op](self.int_t(a), self.int_t(b)))
        ca, cb = self.pyclass(a), self.pyclass(b)
        if op == "+" and (ca is str or cb is str):
            if ca is str and cb is str:
                return self.text([a, b])
            raise TypeError("can only concatenate str")
        if op == "%" and isinstance(a, str):
            parts = re.split(r"(%[sr%])", a)
            args = list(b) if isinstance(b, tuple) else [b]
            if sum(x in ("%s", "%r") for x in parts) == len(args) and "%" not in "".join(x for x in parts if len(x) != 2 or x[0] != "%"):
                it = iter(args)
                return self.fmt(*["%" if x == "%%" else (next(it), 114 if x == "%r" else 115, None) if x in ("%s", "%r") else x for x in parts])
        if op == "%" and ca is str:
            return self.opaque_str("str%", a, b)
        if op == "+" and isinstance(a, (VList, list)) and isinstance(b, (VList, list)):
            l = self.list_(a)
            return self._fill(l, b)
        if op == "+" and ca is tuple and cb is tuple:
            return SeqCat(self, a, b)
        if op in "|&-" and ca in (set, frozenset) and cb in (set, frozenset):
            return self.binop(op, self.set_(a), b)
        if op == "|" and ca in (dict,) and (cb in (dict,)):
            d = self.dict_(a)
            self._dict_fill(d, b)
            return d
        if op == "%" and isinstance(a, SV) and type(b) in (int, float) and b == 1:
            # the remainder of a division by one is zero exactly for integral numbers (also with rounding)
            e = self.e
            f = e.fn("num%", V, V, V)
            r = SV(f(a.t, self.lift(b)), float if type(b) is float else None)
            for z in (0, 0.0):
                e.add_once(z3.Implies(e.typeof(a.t) == e.const(float), e.pyeq(r.t, e.const(z)) == self.integral(a)))
                if e.bounded is not None:
                    e.add_once(e.pyeq(e.const(z), r.t) == e.pyeq(r.t, e.const(z)))
            return r
        if op in OPS and (ca in (float, int) or cb in (float, int)):
            f = self.e.fn("num" + op, V, V, V)
            return SV(f(self.lift(a), self.lift(b)), float if float in (ca, cb) else None)
        raise Unsupported(f"{op} on {ca} and {cb}")

    def integral(self, x):
        """Formula: the float is finite and has no fractional part."""
        e = self.e
        f = e.fn("float_integral", V, z3.BoolSort())(x.t)
        e.add_once(z3.Implies(f, self.finite(x)))
        return f

    def finite(self, x):
        return self.e.fn("outcome_int_of_float", V, Int)(x.t) == 0

    def snap(self, x):
        if isinstance(x, VView):
            return x.acc.snapshot()
        if isinstance(x, Acc):
            return x.snapshot()
        if isinstance(x, SetView):
            return x.sv
        return x

    def augop(self, op, a, b):
        if op == "|" and isinstance(a, VSet):
            self.s_update(a, b)
            return a
        if op == "+" and isinstance(a, VList):
            self._fill(a, b)
            return a
        if isinstance(a, Sym) or isinstance(b, Sym) or self.e.has_sym(b):
            return self.binop(op, a, b)
        if isinstance(a, (list, dict, set)):
            self.no_native_mutation()
        return IOPS[op](a, b)

    def no_native_mutation(self):
        if self.e.frame is not None:
            raise Unsupported("modification of an outside container in a summarised loop")

    # -- items
    def getitem(self, o, i):
        e = self.e
        if isinstance(o, VDict):
            v = e.last_write(o, i)
            if v is NOTHING:
                raise KeyError("key not found")
            return v
        if isinstance(o, (VList, TupleOf)):
            if isinstance(o, TupleOf):
                o = o.l
            if isinstance(i, slice) and o.concrete():
                return self.mklist(*[x.value for x in o.entries[i]])
            if o.concrete() and isinstance(i, int):
                return o.entries[i].value
            if isinstance(i, int) and i == 0:
                for n in range(len(o.entries)):
                    o.reading(n)
                o.reading_start()
                r = e.first_write(o.entries)
                if r is NOTHING:
                    raise IndexError("list index out of range")
                return r.value
            raise Unsupported("index of a list built by a loop")
        if isinstance(o, IdxSeq):
            if isinstance(i, slice):
                if i.step is None and i.stop is None and isinstance(i.start, int) and i.start >= 0:
                    s = i.start
                    return IdxSeq(z3.If(o.n > s, o.n - s, z3.IntVal(0)), lambda j: o.at(j + s), None, None)
                raise Unsupported("slice")
            if isinstance(i, SI):
                i = i.t
            elif isinstance(i, int) and i < 0:
                i = o.n + i
            else:
                i = z3.IntVal(i)
            if o.n is not None and not e.fork(AND(0 <= i, i < o.n)):
                raise IndexError("index out of range")
            return o.at(i)
        if isinstance(o, SV):
            if o.x.get("item") is not None:
                return o.x["item"](self, o, i)
            if self.is_mapping(o):
                if e.fork(e.has(o.t, self.lift(i))):
                    return self.val_of(o, i)
                raise KeyError("key not found")
            if o.x.get("seq") or o.cls in (list, tuple):
                return self.getitem(self.as_seq(o), i)
            if o.cls is str:
                return self.opaque_str("str[]", o) if not isinstance(i, Sym) else e.fresh_v("text", str)
            raise Unsupported(f"item of {o!r}")
        if isinstance(o, (dict, types.MappingProxyType)) and self.symbolic(i):
            if id(o) in self.tables:
                return self.tables[id(o)](self, i)
            v = self.native_lookup(o, i)
            if v is NOTHING:
                raise KeyError("key not found")
            return v
        if isinstance(i, Sym) and isinstance(o, (list, tuple)):
            for n, x in enumerate(o):
                if e.fork(self.int_t(i) == n):
                    return x
            raise IndexError("index out of range")
        if isinstance(i, Sym):
            gi = type(o).__getitem__
            if isinstance(gi, types.FunctionType):
                return gi(o, i)
            raise Unsupported(f"item of {type(o).__name__}")
        return o[i]

    tables = {}             # dictionaries of the interpreter (sys.modules): what is found in them

    def native_lookup(self, d, key):
        for k, v in d.items():
            r = self.eq(k, key)
            if r if isinstance(r, bool) else self.e.fork(r.f):
                return v
        return NOTHING

    def setitem(self, o, i, v):
        if isinstance(o, VDict):
            o.event(Item(i, v))
            return
        if isinstance(o, VList) and o.concrete() and isinstance(i, int) and self.e.frame is None:
            o.entries[i].value = v
            return
        if isinstance(o, Sym):
            if isinstance(o, SV) and o.x.get("setitem") is not None:
                return o.x["setitem"](self, o, i, v)
            if isinstance(o, SV):
                self.contract.no_write("a value it did not create")
            raise Unsupported(f"item assignment to {o!r}")
        self.no_native_mutation()
        if self.symbolic(i) or self.symbolic(v):
            raise Unsupported("symbolic item of a native container")
        o[i] = v

    def delitem(self, o, i):
        if isinstance(o, VDict):
            if self.e.last_write(o, i) is NOTHING:
                raise KeyError("key not found")
            o.event(Item(i, None, dead=True))
            return
        if isinstance(o, Sym) or isinstance(i, Sym):
            if isinstance(o, SV):
                self.contract.no_write("a value it did not create")
            raise Unsupported("del item")
        self.no_native_mutation()
        del o[i]

    def attr(self, o, name):
        if isinstance(o, SV):
            if name in sv_own and name not in o.x and (o.x.get("shape"), name) not in self.shapes and (o.cls, name) not in self.shapes \
                    and not (name in ("__module__", "__class__", "__annotations__") or len(name) < 4):
                raise Unsupported(f"attribute {name} of {o!r}")
            return self.getattr_sv(o, name)
        if isinstance(o, Sym):
            if name == "__class__":
                return self.pyclass(o)
            if isinstance(o, Acc) and (type(o), name) in ACC_METHODS:
                return self.acc_attr(o, name)
            raise Unsupported(f"attribute {name} of {type(o).__name__}")
        return getattr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Sym):
            if isinstance(o, SV) and o.x.get("setattr") is not None:
                return o.x["setattr"](self, o, name, v)
            if isinstance(o, SV):
                self.contract.no_write("a value it did not create")
            raise Unsupported(f"attribute assignment to {o!r}")
        if self.contract is not None and id(o) in self.contract.protected:
            self.contract.no_write(self.contract.protected[id(o)][1])
        if self.setattr_hook is not None and self.setattr_hook(o, name, v):
            return
        if self.e.frame is not None and not isinstance(o, BaseException) and self.heap.get(id(o), (None, None))[1] is not self.e.frame:
            raise Unsupported(f"attribute assignment in a summarised loop ({type(o).__name__}.{name})")
        setattr(o, name, v)

    def unpack(self, v, n):
        if type(v) is tuple:
            if len(v) != n:
                raise ValueError(f"not {n} values to unpack")
            return v
        if isinstance(v, VList) and v.concrete():
            if len(v.entries) != n:
                raise ValueError(f"not {n} values to unpack")
            return tuple([x.value for x in v.entries])
        if isinstance(v, IdxSeq) and v.n is not None:
            if not self.e.fork(v.n == n):
                raise ValueError(f"not {n} values to unpack")
            return tuple([v.at(z3.IntVal(i)) for i in range(n)])
        if isinstance(v, SV):
            if v.x.get("unpack") is not None:
                return v.x["unpack"](self, v, n)
            return self.unpack(self.as_seq(v), n)
        if isinstance(v, Sym):
            raise Unsupported("unpacking")
        r = tuple(v)
        if len(r) != n:
            raise ValueError(f"not {n} values to unpack")
        return r

    # -- loops
    def loop(self, it, *cells):
        L = self.loop_over(it)
        return LocalLoop(self.e, L, cells) if cells else L

    def loop_over(self, it):
        e = self.e
        if isinstance(it, SV):
            return IdxLoop(e, self.as_seq(it))
        if isinstance(it, IdxSeq):
            return IdxLoop(e, it)
        if isinstance(it, SetView):
            return IdxLoop(e, it.seq)
        if isinstance(it, TupleOf):
            it = it.l
        if isinstance(it, VList):
            for i in range(len(it.entries)):
                it.reading(i)
            it.reading_start()
            if it.concrete():
                return NativeLoop(iter([x.value for x in it.entries]))
            return NativeLoop(self.values_gen(it.entries))
        if isinstance(it, VView) and it.kind == "keys":
            it = it.acc
        if isinstance(it, (VDict, VSet)):
            for i in range(len(it.entries)):
                it.reading(i)
            it.reading_start()
            if it.concrete():
                return NativeLoop(iter([k for k, v in self.dict_items(it)]))
            return NativeLoop(self.keys_gen(it))
        if isinstance(it, VView):
            d = it.acc
            d.reading_start()
            if d.concrete():
                items = self.dict_items(d)
                return NativeLoop(iter(items if it.kind == "items" else [v for k, v in items]))
            return NativeLoop(self.items_gen(d, it.kind))
        if isinstance(it, VFilter):
            return NativeLoop(self.filter_gen(it))
        if isinstance(it, IdxIter):
            if it.pos:
                raise Unsupported("loop over a started iterator")
            return IdxLoop(e, it.seq)
        if isinstance(it, Sym):
            raise Unsupported(f"loop over {it!r}")
        if type(it).__module__ == "nr.stream._stream" and type(it).__name__ == "Stream":
            # Stream.__next__ gives the next element of the iterator it wraps
            it._original = None
            return self.loop(it._it)
        if isinstance(it, (list, dict, set)) or not hasattr(it, "__next__"):
            it = iter(it)
        return NativeLoop(it)

    def values_gen(self, entries):
        return self.e.iter_entries(entries, lambda x: x.value)

    def keys_gen(self, d):
        # each key that the log sets, once for every time it is set (harmless where the effects are idempotent)
        if any(self._has_dead(x) for x in d.entries):
            raise Unsupported("loop over a container with deletions")
        return self.e.iter_entries(list(d.entries), lambda x: x.key)

    def items_gen(self, d, kind):
        if any(self._has_dead(x) for x in d.entries):
            raise Unsupported("loop over a container with deletions")
        snap = VDict.__new__(VDict)
        Acc.__init__(snap, d.entries)

        def look(x):
            v = self.e.last_write(snap, x.key)
            return (x.key, v) if kind == "items" else v
        return self.e.iter_entries(list(snap.entries), look)

    def filter_gen(self, fl):
        L = self.loop(fl.base)
        try:
            while L.more():
                x = L.elem()
                if bool(self.contains(fl.other, x)) == fl.keep:
                    yield x
        finally:
            L.leave()

    def caught(self):
        E.refuse_fault(sys.exc_info()[1])

    def whiletest(self, x):
        if isinstance(x, Sym):
            b = bool(x)
            self.while_budget = getattr(self, "while_budget", 0) + 1
            if self.while_budget > 5000:
                raise Unsupported("a while loop with a symbolic condition")
            return b
        return x

    # -- calls
    def callx(self, f, parts):
        args, kw, star = [], {}, None
        for k, v in parts:
            if k == "p":
                args.append(v)
            elif k == "*":
                if isinstance(v, tuple) or isinstance(v, list):
                    args.extend(v)
                elif isinstance(v, VList) and v.concrete():
                    args.extend([x.value for x in v.entries])
                else:
                    args.append(StarSeq(v))
            elif k == "**":
                if isinstance(v, dict):
                    kw.update(v)
                elif isinstance(v, VDict) and v.concrete() and all(type(x.key) is str and not x.dead for x in v.entries):
                    for x in v.entries:
                        kw[x.key] = x.value
                else:
                    star = v
            else:
                kw[k[1]] = v
        if star is not None:
            if kw:
                raise Unsupported("** next to keyword arguments")
            if isinstance(f, Stub):
                return f.vcall(args, star)
            if isinstance(f, SV) and f.x.get("call") is not None:
                return f.x["call"](self, f, args, star)
            raise Unsupported("** with a mapping of unknown keys")
        if any(isinstance(a, StarSeq) for a in args):
            if isinstance(f, Stub):
                return f.vcall(args, kw)
            if isinstance(f, SV) and f.x.get("call") is not None:
                return f.x["call"](self, f, args, kw)
            h = self.opaque.get(id(f))
            if h is not None:
                return h(self, *args, **kw)
            raise Unsupported("* with a sequence of unknown length")
        return self.call(f, *args, **kw)

    def call(self, f, *a, **k):
        if isinstance(f, Stub):
            return f.vcall(list(a), k)
        if isinstance(f, SV):
            h = f.x.get("call")
            if h is None:
                raise Unsupported(f"call of {f!r}")
            return h(self, f, list(a), k)
        if isinstance(f, Sym):
            raise Unsupported(f"call of {f!r}")
        h = self.opaque.get(id(f))
        if h is not None:
            return h(self, *a, **k)
        t = type(f)
        if t is types.MethodType:
            fn = f.__func__
            h = self.opaque.get(id(fn))
            if h is not None:
                return h(self, f.__self__, *a, **k)
            if isinstance(fn, types.FunctionType) and self.runs(fn):
                return f(*a, **k)
            return self.foreign(f, a, k)
        if t is types.FunctionType:
            if self.runs(f):
                return f(*a, **k)
            return self.foreign(f, a, k)
        if isinstance(f, functools.partial):
            return self.call(f.func, *f.args, *a, **{**f.keywords, **k})
        if isinstance(f, type):
            if issubclass(f, BaseException) or self.ours(f):
                if self.e.frame is not None and t in (type, abc.ABCMeta) and not issubclass(f, BaseException):
                    o = f.__new__(f) if f.__new__ is object.__new__ else f.__new__(f, *a, **k)
                    if isinstance(o, f):
                        self.heap[id(o)] = (o, self.e.frame)    # created in this iteration
                        f.__init__(o, *a, **k)
                    return o
                return f(*a, **k)
            return self.foreign(f, a, k)
        if t in (types.BuiltinFunctionType, types.MethodWrapperType, types.BuiltinMethodType):
            o = f.__self__
            if o is dict and f.__name__ == "fromkeys":
                d, L = VDict(), self.loop(a[0])
                try:
                    while L.more():
                        d.event(Item(L.elem(), a[1] if len(a) > 1 else None))
                finally:
                    L.leave()
                return d
            if isinstance(o, dict) and any(self.symbolic(x) for x in a):
                if f.__name__ == "get":
                    v = self.native_lookup(o, a[0])
                    return v if v is not NOTHING else (a[1] if len(a) > 1 else None)
                raise Unsupported(f"dict.{f.__name__} with a symbolic argument")
            if isinstance(o, str):
                if any(self.symbolic(x) or isinstance(x, (types.GeneratorType,)) for x in a):
                    if f.__name__ == "join" and len(a) == 1 and isinstance(a[0], (tuple, list, VList)):
                        try:
                            xs = self.nativize(a[0]) if isinstance(a[0], VList) else a[0]
                        except Unsupported:
                            xs = None
                        if type(xs) in (list, tuple) and all(isinstance(x, str) or isinstance(x, SV) and x.cls is str for x in xs):
                            r = self.text([y for i, x in enumerate(xs) for y in ((o, x) if i else (x,))])
                            return SV(r.t, str, joined=(o, a[0].snapshot())) if isinstance(r, SV) and isinstance(a[0], VList) else r
                    if f.__name__ == "format" and "{" in o and not k and re.fullmatch(r"(?:[^{}]|\{\}|\{![rs]\})*", o) and len(re.findall(r"\{", o)) == len(a):
                        it = iter(a)
                        return self.fmt(*[(next(it), {"{!r}": 114, "{!s}": 115}.get(x), None) if x in ("{}", "{!r}", "{!s}") else x for x in re.split(r"(\{\}|\{![rs]\})", o)])
                    if f.__name__ == "join" and len(a) == 1:
                        if isinstance(a[0], VList):
                            return SV(self.e.fresh("text", V), str, joined=(o, a[0].snapshot()))
                        self.drain(a[0])
                    return self.e.fresh_v("text", str)
                return f(*a, **k)
            if isinstance(o, (list, dict, set, bytearray)) and f.__name__ in MUTATORS:
                self.no_native_mutation()
                if any(self.symbolic(x) for x in a) and isinstance(o, (dict, set)):
                    raise Unsupported(f"{type(o).__name__}.{f.__name__} with a symbolic argument")
                if f.__name__ in ("extend", "update"):
                    a = tuple(self.nativize(x) for x in a)
                return f(*a, **k)
            return self.foreign(f, a, k)
        if t is typing._GenericAlias and isinstance(f.__origin__, type) and self.ours(f.__origin__) and f._inst:
            r = self.call(f.__origin__, *a, **k)
            r.__orig_class__ = f
            return r
        c = getattr(t, "__call__", None)
        if isinstance(c, types.FunctionType) and self.runs(c):
            return c(f, *a, **k)
        return self.foreign(f, a, k)

    def drain(self, it):
        """Consume an iterable of texts: run each element's computation once (generically)."""
        if isinstance(it, (OpaqueIter,)):
            return
        L = self.loop(it)
        try:
            while L.more():
                L.elem()
        finally:
            L.leave()

    def runs(self, fn):
        file = fn.__code__.co_filename
        if file in FILES:
            why = SKIPPED.get((file, fn.__qualname__))
            if why:
                raise Unsupported(f"{fn.__qualname__} is not instrumented: {why}")
            return True
        return any(file.startswith(d) for d in CONTRACT_DIRS)

    def ours(self, cls):
        m = cls.__module__ or ""
        if m.startswith(NATIVE_OK_PREFIX) or m.startswith("contracts.") or m.startswith("nr.stream"):
            return True
        return False

    def nativize(self, x):
        if isinstance(x, VList) and x.concrete():
            return [self.nativize(i.value) for i in x.entries]
        if isinstance(x, VDict) and x.concrete():
            return {self.nativize(k): self.nativize(v) for k, v in self.dict_items(x)}
        if isinstance(x, VSet) and x.concrete():
            return {self.nativize(k) for k, v in self.dict_items(x)}
        if isinstance(x, VView) and x.acc.concrete():
            items = self.dict_items(x.acc)
            return {"keys": [k for k, v in items], "items": items, "values": [v for k, v in items]}[x.kind]
        if type(x) is tuple:
            return tuple([self.nativize(y) for y in x])
        return x

    def foreign(self, f, a, k):
        a = tuple(self.nativize(x) for x in a)
        k = {n: self.nativize(x) for n, x in k.items()}
        if any(self.symbolic(x) for x in a) or any(self.symbolic(x) for x in k.values()):
            raise Unsupported(f"call of {getattr(f, '__qualname__', f)!r} with symbolic arguments")
        s = getattr(f, "__self__", None)
        if s is not None and not isinstance(s, types.ModuleType) and self.e.has_sym(s):
            raise Unsupported(f"call of {getattr(f, '__qualname__', f)!r} of a symbolic object")
        return f(*a, **k)

    # -- external functions
    def ext(self, name, args, cls=None, raises=(), **x):
        """The outcome of an external function: a result that is a function of the arguments, or an exception."""
        e = self.e
        self.externals.add(name)
        ts = [self.lift(y) for y in args]
        srt = [V] * len(ts)
        if raises:
            out = e.fn(f"outcome_{name}", *srt, Int)(*ts)
            c = e.choose([out == 0] + [out == i + 1 for i in range(len(raises) - 1)] + [AND(out != 0, *[out != i + 1 for i in range(len(raises) - 1)])])
            if c:
                raise raises[c - 1](name)
        return SV(e.fn(f"result_{name}", *srt, V)(*ts), cls, **x)


class SetView(Sym):
    """keys() of an opaque mapping."""
    __slots__ = ("sv", "seq")

    def __init__(self, sv, seq):
        self.sv, self.seq = sv, seq

    def __bool__(self):
        return ENGINE().fork(self.seq.n > 0)


class TupleOf(Sym):
    """tuple(...) of a list built by a loop."""
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l


class StarSeq(Sym):
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


def SeqCat(rt, a, b):
    def view(x):
        if type(x) is tuple:
            return z3.IntVal(len(x)), (lambda j: _nth(rt, x, j))
        if isinstance(x, TupleOf):
            raise Unsupported("concatenation")
        s = x if isinstance(x, IdxSeq) else rt.as_seq(x)
        return s.n, s.at
    na, fa = view(a)
    nb, fb = view(b)
    if type(a) is tuple:
        la = len(a)

        def at(j):
            jj = z3.simplify(j) if isinstance(j, z3.ExprRef) else z3.IntVal(j)
            if z3.is_int_value(jj):
                i = jj.as_long()
                return a[i] if i < la else fb(z3.IntVal(i - la))
            r = rt.lift(fb(j - la))
            for i in range(la - 1, -1, -1):
                r = z3.If(j == i, rt.lift(a[i]), r)
            return SV(r)
        return IdxSeq(na + nb, at)
    return IdxSeq(na + nb, lambda j: SV(z3.If(j < na, rt.lift(fa(j)), rt.lift(fb(j - na)))))


def _nth(rt, x, j):
    r = rt.lift(x[-1])
    for i in range(len(x) - 1):
        r = z3.If(j == i, rt.lift(x[i]), r)
    return SV(r)


STR_METHODS = {"lower": str, "upper": str, "strip": str, "lstrip": str, "rstrip": str, "startswith": bool, "endswith": bool,
               "replace": str, "title": str, "casefold": str, "isdigit": bool, "format": str, "capitalize": str}
MUTATORS = {"append", "extend", "insert", "add", "update", "pop", "clear", "remove", "setdefault", "discard", "popitem", "sort", "reverse"}
ACC_METHODS = {
    (VList, "append"): Runtime.l_append, (VList, "extend"): Runtime.l_extend, (VList, "insert"): Runtime.l_insert,
    (VList, "pop"): Runtime.l_pop, (VList, "copy"): Runtime.l_copy,
    (VSet, "add"): Runtime.s_add, (VSet, "update"): Runtime.s_update, (VSet, "discard"): Runtime.s_discard, (VSet, "copy"): Runtime.s_copy,
    (VDict, "get"): Runtime.d_get, (VDict, "pop"): Runtime.d_pop, (VDict, "setdefault"): Runtime.d_setdefault,
    (VDict, "update"): Runtime.d_update, (VDict, "copy"): Runtime.d_copy, (VDict, "keys"): Runtime.d_keys,
    (VDict, "items"): Runtime.d_items, (VDict, "values"): Runtime.d_values,
}


# -------------------------------------------------------------------------------------------------- builtin handlers
def h_isinstance(rt, x, c):
    if isinstance(c, SV) and c.x.get("instances") is not None:
        return c.x["instances"](rt, x)
    if not isinstance(x, Sym) and not _symcls(c):
        return isinstance(x, c)
    f = rt.isinst_f(x, c)
    return f if isinstance(f, bool) else SB(f)


def _symcls(c):
    return isinstance(c, Sym) or (type(c) is tuple and any(isinstance(y, Sym) for y in c))


def h_issubclass(rt, x, c):
    if not isinstance(x, Sym) and not _symcls(c):
        return issubclass(x, c)
    f = rt.sub_f(x, c)
    return f if isinstance(f, bool) else SB(f)


def h_type(rt, x, *rest):
    if rest:
        return rt.foreign(type, (x,) + rest, {})
    if isinstance(x, SV):
        return x.cls if x.cls is not None else SV(rt.e.typeof(x.t), type)
    return rt.pyclass(x)


def h_len(rt, x):
    e = rt.e
    if isinstance(x, VView):
        x = x.acc
    if isinstance(x, TupleOf):
        x = x.l
    if isinstance(x, Acc):
        for i in range(len(x.entries)):
            x.reading(i)
        x.reading_start()
        if x.concrete():
            return len(x.entries) if isinstance(x, VList) else len(rt.dict_items(x))
        return SCard(list(x.entries), not isinstance(x, VList))
    if isinstance(x, SetView):
        return SI(x.seq.n)
    if isinstance(x, IdxSeq):
        return SI(x.n)
    if isinstance(x, SV):
        if x.cls is str:
            n = e.fn("strlen", V, Int)(x.t)
            e.add_once(n >= 0)
            return SI(n)
        try:
            return SI(rt.as_seq(x).n)
        except TypeError:
            raise TypeError("object has no len()")
    if isinstance(x, Sym):
        raise Unsupported(f"len of {x!r}")
    f = getattr(type(x), "__len__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


def h_iter(rt, x, *sentinel):
    if sentinel:
        f, s = x, sentinel[0]
        v = rt.call(f)
        r = rt.eq(v, s)
        if rt.tobool(r):
            raise Unsupported("iter() whose first value is the sentinel")
        if type(f) is types.FunctionType and rt.runs(f):
            # the function is called anew for each element
            return IdxSeq(None, lambda j: rt.call(f))
        raise Unsupported("iter(callable, sentinel)")
    if isinstance(x, (SV, IdxSeq, SetView)):
        return IdxIter(rt.as_seq(x) if isinstance(x, SV) else x.seq if isinstance(x, SetView) else x)
    if isinstance(x, (VList, VDict, VSet, VView, VFilter, TupleOf)):
        return AccIter(x)
    if isinstance(x, IdxIter):
        return x
    if isinstance(x, Sym):
        raise Unsupported(f"iter of {x!r}")
    return iter(x)


class AccIter(Sym):
    __slots__ = ("acc",)

    def __init__(self, acc):
        self.acc = acc


def h_next(rt, it, *default):
    if isinstance(it, AccIter):
        x = it.acc
        if isinstance(x, VFilter):
            r = rt.filter_pick(x)
        elif isinstance(x, VView):
            raise Unsupported("next() of a view")
        else:
            if isinstance(x, TupleOf):
                x = x.l
            x.reading_start()
            r = rt.e.first_write(x.entries)
            r = r if r is NOTHING else (r.value if isinstance(x, VList) else r.key)
        it.acc = _Used(x)
        if r is NOTHING:
            if default:
                return default[0]
            raise StopIteration
        return r
    if isinstance(it, IdxIter):
        s = it.seq
        j = z3.IntVal(it.pos)
        if s.n is not None and not rt.e.fork(j < s.n):
            if default:
                return default[0]
            raise StopIteration
        it.pos += 1
        return s.at(j)
    if isinstance(it, Sym):
        raise Unsupported("next()")
    if rt.e.frame is not None and not isinstance(it, types.GeneratorType):
        raise Unsupported("next() of an outside iterator in a summarised loop")
    return next(it, *default)


class _Used(Sym):
    def __init__(self, x):
        pass


def to_idx(rt, x):
    if isinstance(x, SV):
        return rt.as_seq(x)
    if isinstance(x, SetView):
        return x.seq
    if isinstance(x, IdxSeq):
        return x
    if isinstance(x, IdxIter):
        if x.pos:
            raise Unsupported("started iterator")
        return x.seq
    return None


def h_enumerate(rt, x, start=0):
    s = to_idx(rt, x)
    if s is not None:
        st = rt.int_t(start)
        return IdxSeq(s.n, lambda j: (SI(j + st) if not z3.is_int_value(j) else j.as_long() + start if isinstance(start, int) else SI(j + st), s.at(j)), None, s.trig)
    if isinstance(x, Sym) and not (isinstance(x, Acc) and x.concrete()):
        raise Unsupported("enumerate of a loop result")
    if isinstance(x, types.GeneratorType):
        return enum_gen(rt, x, start)
    return enum_native(rt, x, start)


def enum_native(rt, x, start):
    L = rt.loop(x)
    n = start
    if not isinstance(L, NativeLoop):
        raise Unsupported("enumerate")
    try:
        while L.more():
            yield (n, L.elem())
            n += 1
    finally:
        L.leave()


def enum_gen(rt, g, start):
    L = rt.loop(g)
    n = start
    depth = len(rt.e.frames)
    try:
        while L.more():
            if len(rt.e.frames) != depth:
                raise Unsupported("enumerate of a generator with a summarised loop")
            yield (n, L.elem())
            n += 1
    finally:
        L.leave()


def h_zip(rt, *xs, strict=False):
    ss = [to_idx(rt, x) for x in xs]
    if all(s is None for s in ss):
        if any(isinstance(x, Sym) for x in xs):
            xs = [rt.nativize(x) for x in xs]
            if any(isinstance(x, Sym) for x in xs):
                raise Unsupported("zip of a loop result")
        if any(isinstance(x, types.GeneratorType) for x in xs):
            raise Unsupported("zip of a generator")
        return zip(*xs)
    out = []
    for s, x in zip(ss, xs):
        if s is None:
            x = rt.nativize(x)
            if isinstance(x, Sym) or isinstance(x, types.GeneratorType):
                raise Unsupported("zip of symbolic and native sequences")
            x = list(x)
            s = IdxSeq(z3.IntVal(len(x)), lambda j, x=x: x[j.as_long()] if z3.is_int_value(z3.simplify(j)) else _nth(rt, x, j))
        out.append(s)
    n = None
    for s in out:
        if s.n is not None:
            n = s.n if n is None else z3.If(s.n < n, s.n, n)
    trig = next((s.trig for s in out if s.trig is not None), None)
    return IdxSeq(n, lambda j: tuple([s.at(j) for s in out]), None, trig)


def h_reversed(rt, x):
    if isinstance(x, VList) and x.concrete():
        return reversed([i.value for i in x.entries])
    if isinstance(x, IdxSeq):
        return IdxSeq(x.n, lambda j: x.at(x.n - 1 - j), None, None if x.trig is None else lambda j: x.trig(x.n - 1 - j))
    if isinstance(x, VList) and len(x.entries) == 1 and isinstance(x.entries[0], Rec) and len(x.entries[0].paths) == 1:
        r = x.entries[0]
        x.reading(0)
        _, _, ents = r.paths[0]
        if len(ents) == 1 and isinstance(ents[0], Item) and not ents[0].dead:       # one element in each iteration
            def at(j):
                v = rt.e.subst_entries(ents, [(r.k, r.upper - 1 - j)])[0].value
                return SV(z3.simplify(v.t), v.cls, **v.x) if type(v) is SV else v
            return IdxSeq(r.upper, at, None, lambda j: at(j).t if type(at(j)) is SV and z3.is_app_of(at(j).t, z3.Z3_OP_UNINTERPRETED) else None)
    if isinstance(x, Sym):
        raise Unsupported("reversed")
    return reversed(x)


def h_sorted(rt, x, **k):
    x = rt.nativize(x)
    if isinstance(x, Sym) or rt.symbolic(x):
        raise Unsupported("sorted")
    return rt.mklist(*sorted(x, **k))


def before_f(e, entries, pos, pred):
    """pred holds for all entries before the position."""
    i, w, pn = pos[0]
    fs = [e.forall_entries(entries[:i], pred)] if i else []
    x = entries[i]
    if w is not None:
        j = z3.Int(f"j!{e.newq()}")
        body = []
        for pid, conds, ents in x.paths:
            if ents:
                f = e.forall_entries(e.subst_entries(ents, [(x.k, j)]), pred)
                if not z3.is_true(f):
                    body.append(z3.Implies(x.P(j) == pid, f))
        if body:
            fs.append(z3.ForAll([j], z3.Implies(AND(0 <= j, j < w), AND(body)), patterns=[x.P(j)]))
        fs.append(before_f(e, e.subst_entries(x.paths[pn][2], [(x.k, w)]), pos[1:], pred))
    return AND(fs) if fs else TRUE


def _best(rt, what, xs, key, default):
    e = rt.e
    if len(xs) > 1:
        it = rt.mklist(*xs)
    else:
        it = rt.list_(xs[0])
    keyf = (lambda v: rt.call(key, v)) if key is not None else (lambda v: v)
    better, noworse = (("<", "<=") if what == "max" else (">", ">="))
    if it.concrete():
        vals = [x.value for x in it.entries]
        if not vals:
            if default is not NOTHING:
                return default
            raise ValueError(f"{what}() iterable argument is empty")
        best, bk = vals[0], keyf(vals[0])
        for v in vals[1:]:
            kv = keyf(v)
            if rt.tobool(rt.order(better, bk, kv)):
                best, bk = v, kv
        return best
    r = e.pick(it.entries, "best")
    if r is NOTHING:
        if default is not NOTHING:
            return default
        raise ValueError(f"{what}() iterable argument is empty")
    item, pos = r

    def f(x):
        return x.f if isinstance(x, SB) else z3.BoolVal(x)
    bk = e.pure(lambda: keyf(item.value))
    e.add(e.forall_entries(it.entries, lambda i: f(rt.order(noworse, keyf(i.value), bk))))
    e.add(before_f(e, it.entries, pos, lambda i: f(rt.order(better, keyf(i.value), bk))))
    return item.value


def h_max(rt, *xs, key=None, default=NOTHING):
    return _best(rt, "max", xs, key, default)


def h_min(rt, *xs, key=None, default=NOTHING):
    return _best(rt, "min", xs, key, default)


def h_any(rt, it):
    L = rt.loop(it)
    try:
        while L.more():
            if L.elem():
                return True
    finally:
        L.leave()
    return False


def h_all(rt, it):
    L = rt.loop(it)
    try:
        while L.more():
            if not L.elem():
                return False
    finally:
        L.leave()
    return True


def h_getattr(rt, o, name, *default):
    if isinstance(name, Sym):
        h = getattr(rt, "getattr_hook", None)
        if h is not None:
            return h(o, name, *default)
        raise Unsupported("getattr with a symbolic name")
    try:
        return rt.attr(o, name) if isinstance(o, SV) else getattr(o, name)
    except AttributeError:
        if default:
            return default[0]
        raise


def h_hasattr(rt, o, name):
    if isinstance(name, Sym):
        h = getattr(rt, "hasattr_hook", None)
        if h is not None:
            return h(o, name)
        raise Unsupported("hasattr with a symbolic name")
    try:
        rt.attr(o, name) if isinstance(o, SV) else getattr(o, name)
    except AttributeError:
        return False
    return True


def h_setattr(rt, o, name, v):
    if isinstance(name, Sym) and not (isinstance(o, SV) and o.x.get("setattr") is not None):
        raise Unsupported("setattr with a symbolic name")
    rt.setattr(o, name, v)


def h_delattr(rt, o, name):
    if isinstance(o, SV) and o.x.get("delattr") is not None:
        return o.x["delattr"](rt, o, name)
    if isinstance(o, Sym) or isinstance(name, Sym):
        raise Unsupported("delattr")
    rt.no_native_mutation()
    delattr(o, name)


def h_callable(rt, o):
    if isinstance(o, SV):
        return SB(rt.e.fn("callable", V, z3.BoolSort())(o.t)) if o.cls is None else hasattr(o.cls, "__call__")
    return callable(o)


def h_repr(rt, o):
    if isinstance(o, Sym) or rt.e.has_sym(o):
        return rt.opaque_str("repr", o)
    return repr(o)


def h_str(rt, *a):
    if a and (isinstance(a[0], BaseException) and (rt.e.has_sym(a[0]) or rt.ours(type(a[0])))):
        if type(a[0]).__str__ in (BaseException.__str__, ImportError.__str__) and len(a[0].args) == 1 and isinstance(a[0].args[0], SV) and a[0].args[0].cls is str:
            return a[0].args[0]
        return rt.e.fresh_v("text", str)
    if a and (isinstance(a[0], Sym) or rt.e.has_sym(a[0])):
        if isinstance(a[0], SV) and a[0].cls is str:
            return a[0]
        if isinstance(a[0], SV) and (a[0].cls is int or a[0].cls is None and rt.known(rt.e.typeof(a[0].t) == rt.e.const(int))):
            # fails for integers with too many digits
            return rt.ext("str_of_int", [a[0]], str, (ValueError,))
        if isinstance(a[0], SV) and a[0].cls is None:
            # str() of a str is itself
            s = SV(rt.e.fn("str", V, V)(a[0].t), str)
            rt.e.add_once(z3.Implies(rt.e.typeof(a[0].t) == rt.e.const(str), s.t == a[0].t))
            return s
        return rt.opaque_str("str", a[0])
    return str(*a)


def h_bool(rt, *a):
    if a and isinstance(a[0], SV) and a[0].cls in (None, bool):
        e, x = rt.e, a[0]
        # a bool is its own truth value
        e.add_once(z3.Implies(rt.typeof(x) == e.const(bool), OR(x.t == e.const(True), x.t == e.const(False))))
        e.add_once(z3.Implies(rt.typeof(x) == e.const(bool), e.truthy(x.t) == (x.t == e.const(True))))
        return SV(z3.If(e.truthy(x.t), e.const(True), e.const(False)), bool)
    if a and isinstance(a[0], Sym):
        return bool(a[0])
    return bool(*a)


def _num(name, py):
    def h(rt, *a):
        if not a or not rt.symbolic(a):
            return py(*a)
        if len(a) != 1 or not isinstance(a[0], (SV, SI)):
            raise Unsupported(f"{name}()")
        if isinstance(a[0], SI):
            if py is int:
                return a[0]
            return rt.ext("float_of_int", a, float, (OverflowError,))
        x = a[0]
        e = rt.e
        own = py
        kinds = [own] + [c for c in (int, float, str) if c is not own]
        if x.cls is None:
            ty = e.typeof(x.t)
            c = e.choose([ty == e.const(k) for k in kinds] + [AND([ty != e.const(k) for k in kinds])])
            kind = kinds[c] if c < len(kinds) else None
        else:
            kind = x.cls
        if kind is own:
            return SV(x.t, own)
        if kind is str:
            return rt.ext(f"{name}_of_str", [x], own, (ValueError,))
        if kind is float:
            return rt.ext("int_of_float", [x], int, (ValueError, OverflowError))
        if kind is int:
            return rt.ext("float_of_int", [x], float, (OverflowError,))
        return rt.ext(f"{name}_of_object", [x], own, (ValueError, TypeError, OverflowError))
    return h


def h_vars(rt, o):
    if isinstance(o, SV):
        f = o.x.get("vars")
        if f is None:
            raise Unsupported("vars() of a symbolic object")
        return f(rt, o)
    return vars(o)


def h_map(rt, f, *xs):
    if len(xs) == 1:
        return map_gen(rt, f, xs[0])
    raise Unsupported("map of several iterables")


def map_gen(rt, f, x):
    L = rt.loop(x)
    try:
        while L.more():
            yield rt.call(f, L.elem())
    finally:
        L.leave()


def h_filter(rt, f, x):
    def gen():
        L = rt.loop(x)
        try:
            while L.more():
                v = L.elem()
                if (v if f is None else rt.call(f, v)):
                    yield v
        finally:
            L.leave()
    return gen()


def h_id(rt, o):
    if isinstance(o, Sym):
        return SI(rt.e.fn("id", V, Int)(rt.lift(o)))
    return id(o)


def h_cast(rt, t, v):
    return v


def h_frozenset(rt, *a):
    return rt.set_(*a)


def h_range(rt, *a):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return IdxSeq(z3.If(rt.int_t(a[0]) > 0, rt.int_t(a[0]), z3.IntVal(0)), lambda j: SI(j))
        raise Unsupported("range")
    return range(*a)


def h_sum(rt, it, start=0):
    raise Unsupported("sum")


def h_isgen(rt, *a, **k):
    raise Unsupported("iter tools")


DEFAULT_HANDLERS = [
    (isinstance, h_isinstance), (issubclass, h_issubclass), (type, h_type), (len, h_len), (iter, h_iter), (next, h_next),
    (enumerate, h_enumerate), (zip, h_zip), (max, h_max), (min, h_min), (any, h_any), (all, h_all), (getattr, h_getattr),
    (hasattr, h_hasattr), (setattr, h_setattr), (delattr, h_delattr), (callable, h_callable), (repr, h_repr), (str, h_str), (bool, h_bool),
    (int, _num("int", int)), (float, _num("float", float)), (vars, h_vars), (map, h_map), (filter, h_filter), (id, h_id),
    (typing.cast, h_cast), (frozenset, h_frozenset), (range, h_range), (reversed, h_reversed), (sorted, h_sorted),
    (list, lambda rt, *a: rt.list_(*a)), (set, lambda rt, *a: rt.set_(*a)), (dict, lambda rt, *a, **k: rt.dict_(*a, **k)),
    (tuple, lambda rt, *a: rt.tuple_(*a)),
]


# -------------------------------------------------------------------------------------------------------- dispatcher
class Native:
    """The instrumented operations when no verification is going on."""
    Cell = NativeCell

    def call(self, f, *a, **k):
        return f(*a, **k)

    def callx(self, f, parts):
        args, kw = [], {}
        for k, v in parts:
            if k == "p":
                args.append(v)
            elif k == "*":
                args.extend(v)
            elif k == "**":
                kw.update(v)
            else:
                kw[k[1]] = v
        return f(*args, **kw)

    def cmp(self, op, a, b):
        return CMPS[op](a, b)

    def not_(self, x):
        return not x

    def binop(self, op, a, b):
        return OPS[op](a, b)

    def augop(self, op, a, b):
        return IOPS[op](a, b)

    def getitem(self, o, i):
        return o[i]

    def setitem(self, o, i, v):
        o[i] = v

    def delitem(self, o, i):
        del o[i]

    def attr(self, o, n):
        return getattr(o, n)

    def setattr(self, o, n, v):
        setattr(o, n, v)

    def mklist(self, *a):
        return list(a)

    def mkset(self, *a):
        return set(a)

    def mklistx(self, parts):
        r = []
        for k, v in parts:
            r.extend(v) if k == "*" else r.append(v)
        return r

    def mksetx(self, parts):
        return set(self.mklistx(parts))

    def mktuplex(self, l):
        return tuple(l)

    def mkdict(self):
        return {}

    def mkdictx(self, parts):
        d = {}
        for p in parts:
            if p[0] == "**":
                d.update(p[1])
            else:
                d[p[1]] = p[2]
        return d

    def fmt(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, tuple):
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, spec or ""))
            else:
                out.append(p)
        return "".join(out)

    def unpack(self, v, n):
        r = tuple(v)
        if len(r) != n:
            raise ValueError(f"expected {n} values to unpack, got {len(r)}")
        return r

    def loop(self, it, *cells):
        return NativeLoop(iter(it))

    def caught(self):
        pass

    def whiletest(self, x):
        return x


native = Native()
sv_own = frozenset(dir(SV))


class Dispatcher:
    def __getattr__(self, name):
        return getattr(E._current[-1].rt if E._current else native, name)


builtins._vc_ = Dispatcher()
