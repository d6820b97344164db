"""P12, P21, P22: schemas of dataclasses and typed dicts."""
import dataclasses
import sys
import types
import typing
import z3
from pyvc.lib import *
from contracts.p09 import forall

class Hints:
    """Settings in the metadata of type hints (the contract of get_annotation_setting, P16): whether there is one, and which."""

    def __init__(self, c):
        from databind.core import settings as S
        self.c, self.e, self.rt = c, c.e, c.rt
        self.S, self.no = S, z3.Const("no_key", V)

        def get(h, cls):
            h = self.rt.lift(h)
            return setting_obj(self.rt, cls, h, self.no) if self.e.fork(self.has(cls.__name__, h)) else None
        c.stub(S.get_annotation_setting, get)

    def has(self, cls, h):
        return self.e.fn("has_" + cls, V, V, Bool)(h, self.no)

    def enabled(self, cls, h):
        return AND(self.has(cls, h), self.e.fn(cls + "_enabled", V, V)(self.e.fn("the_" + cls, V, V, V)(h, self.no)) == self.e.const(True))

    def inner(self, h):
        """The type hint without its annotations."""
        e = self.e
        return z3.If(e.subclass(e.typeof(h), typeapi().AnnotatedTypeHint), e.fn("hint_item", V, Int, V)(h, z3.IntVal(0)), h)

    def optional(self, h):
        e = self.e
        x = self.inner(h)
        return AND(e.subclass(e.typeof(x), typeapi().UnionTypeHint), e.fn("hint_has_none", V, Bool)(x))

    def required(self, h, default):
        return z3.If(self.has("Required", h), self.enabled("Required", h), AND(NOT(self.optional(h)), default))


@contract("_is_required / _is_flat", ["_is_required", "_is_flat"], "P21", "P22")
def required(c):
    from databind.core import schema as S
    e, rt = c.e, c.rt
    hs = Hints(c)
    h = c.hint("hint", "any")
    d = z3.Bool("default")
    if c.choose("required", "flat") == "flat":
        o = c.run(S._is_flat, h, False)
        if not o.ret:
            return c.never("_is_flat does not fail", repr(o))
        return c.prove("flattened exactly if marked so", c.truthy(o.value) == hs.enabled("Flattened", h.t))
    o = c.run(S._is_required, h, c.bool("default"))
    if not o.ret:
        return c.never("_is_required does not fail", repr(o))
    c.prove("required as the setting says, or without one if it is not optional and has no default", c.truthy(o.value) == hs.required(h.t, d))


@contract("convert_to_schema", ["convert_to_schema"], "P21", "P22")
def to_schema(c):
    from databind.core import schema as S
    e, rt = c.e, c.rt
    hint = c.hint("hint", "any")
    asked, made = [], []

    def convert(kind):
        def f(x):
            s = object.__new__(S.Schema)
            t = z3.Const("annotations", V)
            l = c.listobj(IdxSeq(e.length(t), lambda j: SV(e.sat(t, j)), None, lambda j: e.sat(t, j)))
            s.__dict__.update(fields=VDict(), constructor=None, type=None, annotations=l)
            asked.append((kind, x))
            made.extend([s, [x.value for x in l.entries] if e.bounded is not None else list(l.entries)])
            return s
        return f
    c.stub(S.convert_dataclass_to_schema, convert("dataclass"))
    c.stub(S.convert_typed_dict_to_schema, convert("typed dict"))
    o = c.run(S.convert_to_schema, hint)
    is_ann = e.subclass(e.typeof(hint.t), typeapi().AnnotatedTypeHint)
    inner = Hints(c).inner(hint.t)
    is_class = e.subclass(e.typeof(inner), typeapi().ClassTypeHint)
    T = SV(e.fn("hint_type", V, V)(inner), type)
    dc = rt.call(dataclasses.is_dataclass, T)
    dc = dc.f if isinstance(dc, SB) else c.truthy(dc)
    td = e.fn("is_typed_dict", V, Bool)(T.t)
    if o.raised(ValueError):
        c.cover("not supported")
        return c.prove("only what is no dataclass or typed dict is rejected", NOT(AND(is_class, OR(dc, td))))
    if not o.ret:
        return c.never("fails with a ValueError", repr(o))
    c.prove("what is no dataclass or typed dict is rejected", AND(is_class, OR(dc, td)))
    if len(made) != 2 or o.value is not made[0]:
        return c.never("gives the schema of the type", repr(o))
    kind, x = asked[0]
    c.cover(kind)
    if kind == "dataclass":
        c.prove("the schema of the dataclass", AND(dc, c.same(x, SV(inner))))     # (with its type parameters)
    else:
        c.prove("the schema of the typed dict", AND(NOT(dc), td, OR(c.same(x, T), c.same(x, SV(inner)))))
    log = o.value.annotations
    if not isinstance(log, VList):
        return c.never("annotations are a list")
    meta = e.fn("hint_metadata", V, V)(hint.t)
    there = e.fork(is_ann)
    n = e.length(meta) if there else z3.IntVal(0)
    what = "keeps the annotations of the type, and then those of the hint"
    own = made[1]
    if e.bounded is not None:
        got = [x.value for x in log.entries]
        m = e.choose([n == i for i in range(e.bounded + 1)])
        want = own + [SV(e.sat(meta, z3.IntVal(i))) for i in range(m)]
        return c.prove(what, AND([c.same(x, y) for x, y in zip(got, want)]) if len(got) == len(want) else FALSE)
    if log.entries[:len(own)] != own:
        raise Unsupported("annotations that are put together in another way")
    c.log_is(what, log.entries[len(own):], n, lambda j: [(None, SV(e.sat(meta, j)))])


class Place:
    """What type hints are evaluated with: the namespace of a class's module (the environment: sys.modules, vars)."""

    def __init__(self, c):
        self.c, self.e, self.rt = c, c.e, c.rt
        e, rt = c.e, c.rt
        rt.shapes[("pytype", "__module__")] = lambda rt, T: SV(e.fn("module_name", V, V)(T.t), str)
        rt.shapes[("hint", "evaluate")] = method(self.evaluate)
        rt.shapes[("hint", "parameterize")] = method(self.parameterize)
        rt.tables[id(sys.modules)] = lambda rt, k: SV(e.fn("module", V, V)(rt.lift(k)), types.ModuleType, vars=self.namespace)

    def namespace(self, rt, m):
        return SV(self.e.fn("namespace", V, V)(m.t), dict)

    def of(self, T):
        e = self.e
        return e.fn("namespace", V, V)(e.fn("module", V, V)(e.fn("module_name", V, V)(T)))

    def evaluate(self, h, context=None):
        rt, e = self.rt, self.e
        return hint_sv(rt, self.evaluated(h.t, rt.lift(context)), "any")

    def evaluated(self, h, ns):
        return self.e.fn("hint_evaluated", V, V, V)(h, ns)

    def parameterize(self, h, m):
        return hint_sv(self.rt, self.e.fn("hint_parameterized", V, V, V)(h.t, self.rt.lift(m)), "any")


@contract("convert_typed_dict_to_schema", ["convert_typed_dict_to_schema"], "P22")
def typed_dict(c):
    from databind.core import schema as S
    from databind.core.utils import NotSet
    e, rt = c.e, c.rt
    hs, place = Hints(c), Place(c)

    def is_required(h, d):
        # the contract of _is_required (above)
        return flag(c, hs.required(rt.lift(h), c.truthy(d)))

    def is_flat(h, d):
        return flag(c, hs.enabled("Flattened", rt.lift(h)))
    c.stub(S._is_required, is_required)
    c.stub(S._is_flat, is_flat)
    T = type_sv(z3.Const("typed_dict", V))
    c.assume(e.fn("is_typed_dict", V, Bool)(T.t))
    req, opt, ann, ns = [e.fn(n, V, V)(T.t) for n in ("required_keys", "optional_keys", "annotations_of", "vars")]
    rt.shapes[("pytype", "__required_keys__")] = lambda rt, T: SV(req, frozenset, elem=str_elem)
    rt.shapes[("pytype", "__optional_keys__")] = lambda rt, T: SV(opt, frozenset, elem=str_elem)
    rt.type_x["vars"] = T.x["vars"] = lambda rt, T: SV(ns, types.MappingProxyType, map=True, key=str_elem)
    c.stub(S.get_annotations, lambda T, *a, **k: SV(ann, dict, map=True, key=str_elem))
    rt.getattr_hook = lambda o, name, *d: SV(e.fn("attr_of", V, V, V)(o.t, rt.lift(name)))
    for ks in (req, opt):       # (an assumption about typeapi.get_annotations)
        c.assume(forall(e, z3.Int("j!"), e.length(ks), lambda j: e.has(ann, e.sat(ks, j)), lambda j: [e.sat(ks, j)]))
    hint = c.choose("class", "hint", "other hint")
    x = T
    if hint != "class":
        x = c.hint("hint", "class" if hint == "hint" else "other")
        if hint == "hint":
            c.assume(e.fn("hint_type", V, V)(x.t) == T.t)
    o = c.run(S.convert_typed_dict_to_schema, x)
    if hint == "other hint":
        return c.prove("other type hints are rejected", o.raised(TypeError))
    if not o.ret:
        return c.never("does not fail", repr(o))
    r = o.value
    if not isinstance(r, S.Schema) or not isinstance(r.fields, VDict):
        return c.never("gives a schema", repr(o))
    c.prove("of the typed dict", AND(c.same(r.type, T), c.same(r.constructor, T)))
    c.prove("has no annotations", r.annotations == [] or isinstance(r.annotations, VList) and not r.annotations.entries)
    q = e.fresh("q", V)
    Q = SV(q, str)
    member = lambda ks: bool(rt.contains(SV(ks, frozenset, elem=str_elem), Q))
    in_req = member(req)
    there = in_req or member(opt)
    f = e.last_write(r.fields, Q)
    if not there:
        c.cover("no key")
        return None if f is NOTHING else c.never("has a field for the keys only")
    if f is NOTHING or not isinstance(f, S.Field):
        return c.never("has a field for each key")
    c.cover("required key" if in_req else "optional key")
    c.assume(e.has(ann, q))
    h = place.evaluated(e.fn("TypeHint_of", V, V)(e.mget(ann, q)), place.of(T.t))
    default = e.has(ns, q)
    is_required = hs.required(h, NOT(default))
    c.prove("a field has the type of the key", rt.lift(f.datatype) == h)
    c.prove("a field is required exactly if the key is, and the setting or the lack of a default and None says so",
            c.truthy(f.required) == (is_required if in_req else FALSE))
    c.prove("a field is flattened exactly if it is marked so", c.truthy(f.flattened) == hs.enabled("Flattened", h))
    rt.static(NotSet.Value)
    c.prove("a field has the default that is assigned in the class, or None if it is optional",
            rt.lift(f.default) == z3.If(default, e.fn("attr_of", V, V, V)(T.t, q), z3.If(is_required, e.const(NotSet.Value), e.const(None))))
    c.prove("a field has no default factory", f.default_factory is NotSet.Value)


def flag(c, f):
    return SV(z3.If(f, c.e.const(True), c.e.const(False)), bool)


class Nest:
    """An arbitrary schema, the schemas of its fields' types, and the expansions of these."""
    _leaf_ = True

    def __init__(self, c):
        from databind.core import schema as S
        self.c, self.e, self.rt, self.S = c, c.e, c.rt, S
        self.F = z3.Const("fields", V)

    def mapping(self, t):
        return SV(t, dict, map=True, key=str_elem, val=self.field)

    def at(self, n, t, k):
        return self.e.fn("field_" + n, V, V, V)(t, k)

    def flat(self, t, k):
        return self.at("flattened", t, k) == self.e.const(True)

    def field(self, rt, sv, k):
        e = self.e
        f = object.__new__(self.S.Field)
        x = self.at("flattened", sv.t, k)
        e.add_once(OR(x == e.const(True), x == e.const(False)))
        f.__dict__.update(datatype=hint_sv(rt, self.at("datatype", sv.t, k), "any"), flattened=SV(x, bool), _vt_=e.mget(sv.t, k))
        return f

    def schema(self, t):
        s = object.__new__(self.S.Schema)
        s.__dict__.update(fields=self.mapping(t), constructor=None, type=None, annotations=[])
        s._fields = t
        return s

    def sub(self, k):
        """The fields of the schema of the type of field *k*."""
        return self.e.fn("fields_of", V, V)(self.at("datatype", self.F, k))

    def deep(self, k):
        """... and what that is expanded to."""
        return self.e.fn("expanded", V, V)(self.sub(k))

    def keys(self, m):
        return self.e.length(self.e.mkeys(m)), lambda i: self.e.sat(self.e.mkeys(m), i)


@contract("get_fields_expanded", ["get_fields_expanded"], "P12")
def expanded(c):
    from databind.core import schema as S
    e, rt = c.e, c.rt
    s = Nest(c)
    F = s.F
    real = types.FunctionType(S.get_fields_expanded.__code__, S.get_fields_expanded.__globals__, "get_fields_expanded", None, S.get_fields_expanded.__closure__)

    def recursive(x, *a, **k):
        # (the induction hypothesis)
        m = e.fn("expanded", V, V)(x._fields)
        return SV(m, dict, map=True, key=str_elem, val=lambda rt, sv, k: s.mapping(e.mget(sv.t, k)))

    def to_schema(h):
        return s.schema(e.fn("fields_of", V, V)(h.t))
    c.stub(S.get_fields_expanded, recursive)
    n, name = s.keys(F)
    o = c.run(real, s.schema(F), FnStub(to_schema))
    w, v, u = z3.Int("w"), z3.Int("v"), z3.Int("u")
    j, i, h = z3.Int("j!"), z3.Int("i!"), z3.Int("h!")

    def no_clash(j):
        k = name(j)
        n1, at1 = s.keys(s.sub(k))
        n2, at2 = s.keys(s.deep(k))

        def inner(i):
            n3, at3 = s.keys(e.mget(s.deep(k), at2(i)))
            return forall(e, h, n3, lambda h: OR(at3(h) == k, NOT(e.has(F, at3(h)))), lambda h: [at3(h)])
        return z3.Implies(s.flat(F, k), AND(
            forall(e, i, n1, lambda i: OR(s.flat(s.sub(k), at1(i)), at1(i) == k, NOT(e.has(F, at1(i)))), lambda i: [at1(i)]),
            forall(e, i, n2, inner, lambda i: [at2(i)])))
    if not o.ret:
        if not o.raised(RuntimeError):
            return c.never("fails with a RuntimeError only", repr(o))
        c.cover("clash")
        c.assume(forall(e, j, n, no_clash, lambda j: [name(j)]))
        return c.never("a clash is reported if there is one only")
    if not isinstance(o.value, VDict):
        return c.never("gives a dictionary", repr(o))
    case = c.choose("no field", "not flattened", "direct", "deep", "other", "clash", "deep clash")
    if case == "no field":
        q = e.fresh("q", V)
        c.assume(NOT(e.has(F, q)))
        return None if e.last_write(o.value, SV(q, str)) is NOTHING else c.never("has the names of flattened fields only")
    c.assume(AND(0 <= w, w < n, e.has(F, name(w))))
    k = name(w)
    if case == "not flattened":
        c.assume(NOT(s.flat(F, k)))
        return None if e.last_write(o.value, SV(k, str)) is NOTHING else c.never("lists flattened fields only")
    c.assume(s.flat(F, k))
    n1, at1 = s.keys(s.sub(k))
    n2, at2 = s.keys(s.deep(k))
    n3, at3 = s.keys(e.mget(s.deep(k), at2(v)))
    if case == "clash":
        c.assume(AND(0 <= v, v < n1, NOT(s.flat(s.sub(k), at1(v))), e.has(s.sub(k), at1(v)), e.has(F, at1(v)), at1(v) != k))
        return c.never("a clash of a direct sub-field is an error")
    if case == "deep clash":
        c.assume(AND(0 <= v, v < n2, 0 <= u, u < n3, e.has(s.deep(k), at2(v)), e.has(e.mget(s.deep(k), at2(v)), at3(u)), e.has(F, at3(u)), at3(u) != k))
        return c.never("a clash of a deeper sub-field is an error")
    x = e.last_write(o.value, SV(k, str))
    if x is NOTHING or not isinstance(x, VDict):
        return c.never("lists each flattened field")
    if case == "direct":
        c.assume(AND(0 <= v, v < n1, NOT(s.flat(s.sub(k), at1(v))), e.has(s.sub(k), at1(v))))
        q = at1(v)
    elif case == "deep":
        c.assume(AND(0 <= v, v < n2, 0 <= u, u < n3, e.has(s.deep(k), at2(v)), e.has(e.mget(s.deep(k), at2(v)), at3(u))))
        q = at3(u)
        # (sub-fields of the same name of two inner fields: either)
        c.assume(forall(e, i, n2, lambda i: OR(i == v, NOT(e.has(e.mget(s.deep(k), at2(i)), q))), lambda i: [at2(i)]))
    else:
        q = e.fresh("q", V)
        c.assume(OR(NOT(e.has(s.sub(k), q)), s.flat(s.sub(k), q)))
    if case != "deep":
        c.assume(forall(e, i, n2, lambda i: NOT(e.has(e.mget(s.deep(k), at2(i)), q)), lambda i: [at2(i)]))
    got = e.last_write(x, SV(q, str))
    c.cover(case)
    if case == "other":
        return None if got is NOTHING else c.never("lists no other sub-fields")
    if got is NOTHING or not isinstance(got, S.Field):
        return c.never(f"lists the {case} sub-fields")
    c.prove(f"with the field of the {case} sub-field", rt.lift(got) == e.mget(s.sub(k) if case == "direct" else e.mget(s.deep(k), at2(v)), q))


SHAPES = {          # class -> its bases.  (The number of classes is bounded; everything else about them is arbitrary.)
    "alone": {"T": ()},
    "a base": {"T": ("A",), "A": ()},
    "a chain": {"T": ("A",), "A": ("B",), "B": ()},
    "two bases": {"T": ("A", "B"), "A": (), "B": ()},
}


class Classes:
    """A class and its bases.  What is assumed of the standard library: the fields of a dataclass have distinct names; each is
    declared by one of the decorated classes, which annotates it, and is among the fields of that class."""
    _leaf_ = True

    def __init__(self, c, shape):
        self.c, self.e, self.rt, self.bases = c, c.e, c.rt, SHAPES[shape]
        e, rt = c.e, c.rt
        self.cls = {n: type_sv(z3.Const("class_" + n, V), which=n, vars=self.namespace) for n in self.bases}
        self.n = {str(x.t): n for n, x in self.cls.items()}
        e.add(z3.Distinct([x.t for x in self.cls.values()] + [e.const(object)]))
        # quick: of larger hierarchies, only those of dataclasses with generic bases
        every = len(self.bases) < 3 or c.thorough
        self.decorated = {n: n == "T" or not every or bool(e.fork(z3.Bool("decorated_" + n))) for n in self.bases}
        self.generic = not every or bool(e.fork(z3.Bool("generic")))
        self.dc = {n: self.decorated[n] or any(self.decorated[m] for m in self.above(n)) for n in self.bases}
        self.rt.shapes[("pytype", "__bases__")] = lambda rt, X: tuple(self.cls[b] for b in self.bases[X.x["which"]]) or (object,)
        self.rt.shapes[("hint", "bases")] = self.hint_bases
        self.rt.shapes[("hint", "get_parameter_map")] = method(lambda h: SV(self.pm(h.t), dict, map=True))
        from databind.core.utils import NotSet
        self.unset = e.const(rt.static(NotSet.Value))
        rt.static(dataclasses.MISSING)
        for n in ("default", "default_factory", "type"):
            rt.shapes[("dcfield", n)] = self.attr(n)
        rt.shapes[("dcfield", "init")] = lambda rt, x: SV(self.at("init", x.t), bool)
        rt.shapes[("dcfield", "name")] = lambda rt, x: SV(self.at("name", x.t), str)
        c.stub(dataclasses.is_dataclass, lambda x: x is not object and self.dc[self.which(x)])
        c.stub(dataclasses.fields, lambda x: self.fields(self.which(x)))
        D = e.fn("declared_by", V, V)
        for n, X in self.cls.items():
            m, a = self.map(n), self.ann(n)
            names = e.mkeys(m)

            def facts(j, m=m, a=a, n=n, X=X):
                k = e.sat(names, j)
                f = e.mget(m, k)
                fs = [self.at("name", f) == k, OR(self.at("init", f) == e.const(True), self.at("init", f) == e.const(False)),
                      OR([AND(D(f) == Y.t, e.has(self.map(y), k), e.mget(self.map(y), k) == f, e.has(self.ann(y), k))
                          for y, Y in self.cls.items() if self.decorated[y] and y in [n] + self.above(n)])]
                if self.decorated[n]:
                    fs.append(z3.Implies(e.has(a, k), D(f) == X.t))
                return AND(fs)
            if self.dc[n]:
                c.assume(forall(e, z3.Int("j!"), e.length(names), facts, lambda j: [e.sat(names, j)]))

    def attr(self, n):
        def get(rt, x):
            t = self.at(n, x.t)
            self.e.add_once(t != self.unset)        # (not a default that a dataclass may have, see P23)
            return SV(t)
        return get

    def above(self, n):
        r = []
        for b in self.bases[n]:
            r += [b] + self.above(b)
        return r

    def which(self, X):
        if isinstance(X, SV) and X.x.get("which"):
            return X.x["which"]
        raise Unsupported("a class that is not known")

    def map(self, n):
        return self.e.fn("fields_of_class", V, V)(self.cls[n].t)

    def ann(self, n):
        return self.e.fn("own_annotations", V, V)(self.cls[n].t)

    def at(self, n, f):
        return self.e.fn("dcfield_" + n, V, V)(f)

    def pm(self, h):
        return self.e.fn("parameter_map", V, V)(h)

    def fields(self, n):
        e = self.e
        if not self.dc[n]:
            raise TypeError("no dataclass")
        m = self.map(n)
        names = e.mkeys(m)
        return IdxSeq(e.length(names), lambda j: SV(e.mget(m, e.sat(names, j)), dataclasses.Field, shape="dcfield"), None, lambda j: e.sat(names, j))

    def namespace(self, rt, X):
        d = VDict()
        if self.decorated[X.x["which"]]:
            d.entries.append(Item("__dataclass_fields__", SV(self.map(X.x["which"]), dict, map=True)))
        return d

    def base(self, n, b):
        """What class *n* is derived from, as written: the class or an alias of it."""
        return self.e.fn("base_as_written", V, V, V)(self.cls[n].t, self.cls[b].t)

    def hint_bases(self, rt, h):
        n = h.x["type"].x["which"]
        if not self.bases[n] or not self.generic:
            return None         # no base is generic
        return tuple(SV(self.base(n, b), None, which=b) for b in self.bases[n])

    def hint(self, t, n):
        return hint_sv(self.rt, t, "class", type=self.cls[n])


def dataclass_(c, shape):
    from databind.core import schema as S
    from databind.core.utils import NotSet
    e, rt = c.e, c.rt
    hs, place = Hints(c), Place(c)
    k = Classes(c, shape)
    c.stub(S._is_required, lambda h, d: flag(c, hs.required(rt.lift(h), c.truthy(d))))
    c.stub(S._is_flat, lambda h, d: flag(c, hs.enabled("Flattened", rt.lift(h))))
    c.stub(S.get_annotations, lambda X, *a, **kw: SV(k.ann(k.which(X)), dict, map=True, key=str_elem))
    source = e.fn("TypeHint_in", V, V, V)
    none = e.const(None)

    def th(x, src=None):
        n = x.x.get("which") if isinstance(x, SV) else None
        t = source(rt.lift(x), rt.lift(src)) if src is not None else e.fn("TypeHint_of", V, V)(rt.lift(x))
        return k.hint(t, n) if n else hint_sv(rt, t, "class", type=x) if isinstance(x, type) else hint_sv(rt, t, "any")

    def keep(f):
        def g(h, x=None):
            t, T = f(h.t, rt.lift(x)), h.x.get("type")
            return hint_sv(rt, t, "class", type=T) if T is not None else hint_sv(rt, t, "any")
        return g
    param = e.fn("hint_parameterized", V, V, V)
    rt.shapes[("hint", "evaluate")] = lambda rt, h: VMethod(h, "evaluate", keep(place.evaluated))
    rt.shapes[("hint", "parameterize")] = lambda rt, h: VMethod(h, "parameterize", keep(lambda h, m: param(h, m)))
    c.stub(typeapi().TypeHint, lambda x, source=None: th(x, source))
    T = k.cls["T"]
    how = c.choose("class", "alias", "hint") if len(k.cls) == 1 else "hint"
    x = T if how == "class" else SV(z3.Const("alias", V), type(typing.List[int]), which="T") if how == "alias" else k.hint(z3.Const("hint", V), "T")
    top = x.t if how == "hint" else e.fn("TypeHint_of", V, V)(x.t)
    o = c.run(S.convert_dataclass_to_schema, x)
    if not o.ret:
        return c.never("does not fail", repr(o))
    r = o.value
    if not isinstance(r, S.Schema) or not isinstance(r.fields, VDict):
        return c.never("gives a schema", repr(o))
    c.prove("of the dataclass", AND(c.same(r.type, T), c.same(r.constructor, T)))
    c.prove("has no annotations", r.annotations == [] or isinstance(r.annotations, VList) and not r.annotations.entries)
    q = e.fresh("q", V)
    m = k.map("T")
    pos = e.fresh("pos", Int)
    case = c.choose("no field", "field")
    if case == "no field":
        c.assume(NOT(e.has(m, q)))
    else:
        c.assume(AND(0 <= pos, pos < e.length(e.mkeys(m)), e.sat(e.mkeys(m), pos) == q, e.has(m, q)))
    f = e.last_write(r.fields, SV(q, str))
    if case == "no field":
        return None if f is NOTHING else c.never("has fields of the dataclass only")
    F = e.mget(m, q)
    if not e.fork(k.at("init", F) == e.const(True)):
        c.cover("no constructor field")
        return None if f is NOTHING else c.never("has constructor fields only")
    if f is NOTHING or not isinstance(f, S.Field):
        return c.never("has each constructor field")
    # the hints of the classes, as seen from the top
    hints = {"T": [top]}
    todo = ["T"]
    for n in todo:
        for b in k.bases[n]:
            todo.append(b)
            for h in hints[n]:
                for w in (k.base(n, b), k.cls[b].t):
                    hints.setdefault(b, []).append(param(place.evaluated(source(w, k.cls[n].t), none), k.pm(h)))
    got = rt.lift(f.datatype)
    ways = []
    for n in hints:
        if k.decorated[n]:
            own = place.evaluated(source(k.at("type", F), k.cls[n].t), none)
            ways.append(z3.Implies(e.fn("declared_by", V, V)(F) == k.cls[n].t, OR([got == param(own, k.pm(h)) for h in hints[n]])))
    c.cover("field")
    c.prove("a field has the type of the field, as seen by the class that declares it", AND(ways))
    MISSING = e.const(dataclasses.MISSING)
    default, factory = k.at("default", F) != MISSING, k.at("default_factory", F) != MISSING
    ns = k.unset
    c.assume(AND(k.at("default", F) != ns, k.at("default_factory", F) != ns))
    required = hs.required(got, AND(NOT(default), NOT(factory)))
    c.prove("a field is required exactly if the setting says so or, without one, if it has neither a default nor an optional type", c.truthy(f.required) == required)
    c.prove("a field is flattened exactly if it is marked so", c.truthy(f.flattened) == hs.enabled("Flattened", got))
    c.prove("a field has the default of the dataclass, or None if it may be left out without one",
            rt.lift(f.default) == z3.If(default, k.at("default", F), z3.If(OR(required, factory), ns, none)))
    c.prove("a field has the default factory of the dataclass", rt.lift(f.default_factory) == z3.If(factory, k.at("default_factory", F), ns))


for SHAPE in SHAPES:
    contract(f"convert_dataclass_to_schema, {SHAPE}", ["convert_dataclass_to_schema"], "P21")(lambda c, shape=SHAPE: dataclass_(c, shape))
