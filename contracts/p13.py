"""P13, P14: UnionConverter, over arbitrary registries of members (their contracts are in p15)."""
import collections.abc
import z3
from pyvc.lib import *
from contracts.p16 import match

ALSO = ["P19", "P20", "P24"]
Mapping = collections.abc.Mapping
FUNCTIONS = ["UnionConverter.convert", "UnionConverter._get_deserialize_member_name", "UnionConverter._check_style_compatibility",
             "_unwrap_annotated", "Context.spawn"]


class Members(Stub):
    """An arbitrary registry: the contract of UnionMembers."""
    _vt_ = None

    def __init__(self, c):
        e = c.e
        self.c = c
        self.id_of, self.type_of = e.fn("id_of", V, V), e.fn("type_of_id", V, V)
        self.is_member, self.is_id = e.fn("is_member", V, Bool), e.fn("is_id", V, Bool)
        self.n, self.at = z3.Int("ids_n"), e.fn("id_at", Int, V)
        c.assume(self.n >= 0)
        e.add(z3.ForAll([z3.Int("j!")], self.is_id(self.at(z3.Int("j!"))), patterns=[self.at(z3.Int("j!"))]))
        c.rt.shapes[("membertype", "type")] = lambda rt, sv: type_sv(e.fn("hint_type", V, V)(sv.t), **rt.type_x)

    def get_type_id(self, T):
        t = self.c.rt.lift(T)
        if not self.c.e.fork(self.is_member(t)):
            raise ValueError("not a member")
        self.c.e.add_once(self.is_id(self.id_of(t)))
        return SV(self.id_of(t), str)

    def get_type_by_id(self, i):
        t = self.c.rt.lift(i)
        if not self.c.e.fork(self.is_id(t)):
            raise ValueError("not an id")
        return SV(self.type_of(t), None, shape="membertype", truthy=True)

    def get_type_ids(self):
        return IdxSeq(self.n, lambda j: SV(self.at(j), str), None, lambda j: self.at(j))

    def hint(self, i):
        """The hint that the member of the id is converted by."""
        e, t = self.c.e, self.type_of(self.c.rt.lift(i))
        return z3.If(e.subclass(e.typeof(t), typeapi().TypeHint), t, e.fn("TypeHint_of", V, V)(t))


def setup(c, styles):
    from databind.core.settings import Union
    e, rt = c.e, c.rt
    m = Members(c)
    key = SV(z3.Const("discriminator_key", V), str)
    nest = SV(z3.Const("nesting_key", V), str, truthy=True) if c.choose("nesting key", "no nesting key") == "nesting key" else None
    style = c.choose(*styles)

    def maker(rt, t):
        u = object.__new__(Union)
        u.__dict__.update(members=m, style=style, discriminator_key=key, nesting_key=nest, _vt_=t)
        return u
    rt.setting_makers[Union] = maker

    def hint_of(rt, x, source=None):
        if isinstance(x, SV) and x.x.get("shape") == "membertype":
            if e.fork(e.subclass(e.typeof(x.t), typeapi().TypeHint)):
                return hint_sv(rt, x.t, "any")
            return hint_sv(rt, e.fn("TypeHint_of", V, V)(x.t), "any")
        return h_TypeHint(rt, x, source)
    rt.handle(typeapi().TypeHint, hint_of)
    return m, style, key, nest


def setting_in_effect(c, hint, kind):
    """The union setting in effect applies to classes, and to anything annotated."""
    e = c.e
    if kind not in ("class", "tuple") and hint.cls is not typeapi().AnnotatedTypeHint:
        return FALSE
    return e.fn("has_Union", V, V, Bool)(hint.t, c.rt.lift(c.ctx.key))


@contract("UnionConverter.convert (discriminated)", FUNCTIONS, "P13", also=ALSO)
def discriminated(c):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.json.converters import UnionConverter
    e, rt = c.e, c.rt
    m, style, key, nest = setup(c, ("nested", "flat", "keyed"))
    hint, inner, kind = c.any_hint(["class", "tuple", "literal"])
    d = c.direction()
    v = c.value("v")
    ctx = c.context(v, hint, d)
    ismap = c.isa(v, Mapping)
    applies = setting_in_effect(c, hint, kind)

    def place(x):
        if c.e.fork(c.same(x.datatype, SV(e.fn("TypeHint_of", V, V)(e.const(str))))):
            return AND(e.has(v.t, rt.lift(x.key)), c.same(x.value, rt.val_of(v, x.key))) if x.key is not None else TRUE
        if d is Direction.SERIALIZE:
            return AND(x.key is None, c.same(x.value, v))
        if style == "flat":
            return x.key is None
        return AND(e.has(v.t, rt.lift(x.key)), c.same(x.value, rt.val_of(v, x.key))) if x.key is not None else FALSE
    c.place = lambda x: z3.BoolVal(r) if isinstance(r := place(x), bool) else r
    o = c.run(UnionConverter().convert, ctx)
    c.well_behaved(o)
    if not e.fork(applies):
        return c.prove("without a union setting: not applicable", o.raised(NotImplementedError))
    name = f"{style}, {'dump' if d is Direction.SERIALIZE else 'load'}"
    error = lambda what: c.prove(f"{name}: {what} is a ConversionError", AND(o.raised(ConversionError), len(c.calls) == 0))
    if d is Direction.DESERIALIZE:
        if not e.fork(ismap):
            return error("a payload that is no mapping")
        if style == "keyed":
            ks = rt.keys_seq(v)
            if not e.fork(ks.n == 1):
                return error("a mapping without exactly one key")
            i = ks.at(z3.IntVal(0))
        else:
            if not e.fork(e.has(v.t, key.t)):
                return error("a missing discriminator")
            i = rt.val_of(v, key)
        if not e.fork(c.isa(i, str)):
            return error("a discriminator that is no string")
        if not e.fork(m.is_id(rt.lift(i))):
            return error("an unknown id")
        n = nest if nest is not None else i
        if style == "nested":
            if not e.fork(e.has(v.t, rt.lift(n))):
                return error("a missing nested entry")
            w = rt.val_of(v, n).t
        elif style == "keyed":
            w = rt.val_of(v, i).t
        else:
            w = None
        if len(c.calls) != 1:
            return c.never(f"{name}: converts as the member, once", repr(o))
        v1, h1, x, _ = c.calls[0]
        if w is None:
            w = v1
            k = SV(z3.Const("k!any", V))
            if not isinstance(x.value, VDict):
                raise Unsupported("the member's payload is not a dict")
            got = rt.d_get(x.value, k, NOTHING)
            there = AND(e.has(v.t, k.t), k.t != key.t)
            c.prove(f"{name}: the member's payload is the mapping without the discriminator",
                    AND(there, c.same(got, rt.val_of(v, k))) if got is not NOTHING else NOT(there))
        c.cover(name)
        return c.prove(f"{name}: the member's value, as the discriminator says", AND(v1 == w, h1 == m.hint(i), c.converted(o, d, w, m.hint(i))))
    T = e.typeof(v.t)
    if not e.fork(m.is_member(T)):
        return error("a value of another type")
    i = SV(m.id_of(T), str)
    if len(c.calls) != 1:
        return c.never(f"{name}: converts as the member, once", repr(o))
    v1, h1, x, _ = c.calls[0]
    c.prove(f"{name}: the value is dumped as the member", AND(v1 == v.t, h1 == m.hint(i)))
    if not o.ret and isinstance(o.value, Leak):
        return c.prove(f"{name}: other errors are those of the member", c.converted(o, d, v.t, m.hint(i)))
    if not e.fork(e.fn("conv_outcome_" + d.name, V, V, Int)(v.t, m.hint(i)) == 0):
        return c.prove(f"{name}: an error of the member's is the error", c.converted(o, d, v.t, m.hint(i)))
    w = SV(e.fn("conv_" + d.name, V, V, V)(v.t, m.hint(i)))
    if style == "flat" and not e.fork(c.isa(w, Mapping)):
        return c.prove(f"{name}: a member that is not dumped as a mapping is a ConversionError", o.raised(ConversionError))
    if not o.ret:
        return c.never(f"{name}: succeeds", repr(o))
    c.cover(name)
    if not isinstance(o.value, VDict):
        raise Unsupported("the result is not a dict")
    k = SV(z3.Const("k!any", V))
    got = rt.d_get(o.value, k, NOTHING)
    if style == "nested":
        n = nest if nest is not None else i
        c.assume(n.t != key.t)
        want = [(key, i), (n, w)]
    else:
        want = [(key, i)] if style == "flat" else [(i, w)]
    for a, b in want:
        if e.fork(k.t == a.t):
            return c.prove(f"{name}: has the specified entries", c.same(got, b) if got is not NOTHING else FALSE)
    if style == "flat" and e.fork(e.has(w.t, k.t)):
        return c.prove(f"{name}: has the entries of the member", c.same(got, rt.val_of(w, k)) if got is not NOTHING else FALSE)
    c.prove(f"{name}: has no other entries", got is NOTHING)


@contract("UnionConverter.convert (best match)", FUNCTIONS[:1] + FUNCTIONS[3:], "P14", also=ALSO)
def best_match(c):
    from databind.core.converter import ConversionError
    from databind.json.converters import UnionConverter
    e, rt = c.e, c.rt
    m, style, key, nest = setup(c, ("best_match",))
    hint, inner, kind = c.any_hint(["class", "tuple", "union", "literal"])
    d = c.direction()
    v = c.value("v")
    ctx = c.context(v, hint, d)
    c.place = lambda x: AND(x.key is None, c.same(x.value, v))
    j = z3.Int("j!")
    plain = kind == "union" and not e.fork(setting_in_effect(c, hint, kind))
    CT = typeapi().ClassTypeHint
    if plain:
        hs = hint_seq(rt, inner)
        n, hint_at = hs.n, lambda j: rt.lift(hs.at(j))
        nm = lambda j: e.fn("attr__name__", V, V)(e.fn("hint_type", V, V)(hint_at(j)))
        a, b = z3.Ints("a! b!")
        ok = AND(NOT(e.fn("hint_has_none", V, Bool)(inner.t)),
                 z3.ForAll([a], z3.Implies(AND(0 <= a, a < n), e.subclass(e.typeof(hint_at(a)), CT))),
                 z3.ForAll([a, b], z3.Implies(AND(0 <= a, a < b, b < n), nm(a) != nm(b))))
        c.assume(n >= 1)
        import types        # the members are hints, and so no functions
        e.add(z3.ForAll([a], NOT(e.subclass(e.typeof(hint_at(a)), types.FunctionType)), patterns=[hint_at(a)]))
        if not e.fork(ok):
            # not stated by the property: unions with members that are not classes, or that have the same name
            o = c.run(UnionConverter().convert, ctx)
            return c.well_behaved(o)
        applies = TRUE
    else:
        n, hint_at = m.n, lambda j: m.hint(SV(m.at(j), str))
        applies = setting_in_effect(c, hint, kind)
    o = c.run(UnionConverter().convert, ctx)
    c.well_behaved(o)
    if not e.fork(applies):
        return c.prove("without a union setting: not applicable", o.raised(NotImplementedError))
    out = lambda j: e.fn("conv_outcome_" + d.name, V, V, Int)(v.t, hint_at(j))
    res = lambda j: e.fn("conv_" + d.name, V, V, V)(v.t, hint_at(j))
    leak = lambda j: e.fn("conv_leak_" + d.name, V, V, V)(v.t, hint_at(j))
    name = "plain union" if plain else "best-match union"
    if o.raised(ConversionError):
        c.cover(f"{name}: no member")
        return c.prove(f"{name}: fails only if every member fails", z3.ForAll([j], z3.Implies(AND(0 <= j, j < n), out(j) == 1)))
    if not o.ret and not isinstance(o.value, Leak):
        return c.never(f"{name}: gives a value, or the error of a member", repr(o))
    got = o.value if o.ret else o.value.args[0]
    ms = [(x, match(x, got.t, {})) for x in [(res if o.ret else leak)(j)]] if isinstance(got, SV) else []
    ks = [mm["j!"] for _, mm in ms if mm is not None and "j!" in mm]
    if not ks:
        # the hint may be written in another way
        k = e.fresh("first", Int)
        c.assume(AND(0 <= k, k <= n, z3.ForAll([j], z3.Implies(AND(0 <= j, j < k), out(j) == 1)), z3.Or(k == n, out(k) != 1)))
    else:
        k = ks[0]
    c.cover(f"{name}: a member")
    c.prove(f"{name}: the result of the first member that converts",
            AND(0 <= k, k < n, out(k) == 0 if o.ret else AND(out(k) != 0, out(k) != 1), c.same(got, SV((res if o.ret else leak)(k))),
                z3.ForAll([j], z3.Implies(AND(0 <= j, j < k), out(j) == 1))))
