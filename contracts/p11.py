"""P11, P12 (dumping): SchemaConverter, over arbitrary schemas."""
import collections.abc
import z3
from pyvc.lib import *
from contracts.p09 import Fields, forall, lookup

ALSO = ["P19", "P20", "P24"]
Mapping = collections.abc.Mapping
FUNCTIONS = ["SchemaConverter.serialize_from_schema", "SchemaConverter._get_alias_setting", "Field.has_default", "Field.get_default", "Context.spawn"]


class Spec:
    """What becomes of the fields of *v* when it is dumped."""

    def __init__(self, fs, v, is_map, defaults):
        self.fs, self.e, self.v, self.is_map, self.defaults = fs, fs.e, v, is_map, defaults
        self.F = fs.t

    def there(self, k):
        return self.e.has(self.v, k) if self.is_map else TRUE

    def source(self, k):
        e = self.e
        return e.mget(self.v, k) if self.is_map else e.fn("attr_of", V, V, V)(self.v, k)

    def datatype(self, k):
        return self.fs.at("datatype", self.F, k)

    def out(self, k):
        return self.e.fn("conv_outcome_SERIALIZE", V, V, Int)(self.source(k), self.datatype(k))

    def res(self, k):
        return self.e.fn("conv_SERIALIZE", V, V, V)(self.source(k), self.datatype(k))

    def is_mapping(self, t):
        return self.e.subclass(self.e.typeof(t), Mapping)

    def flat(self, k):
        return self.fs.is_("flattened", self.F, k) if self.fs.flat else FALSE

    def rem(self, k):
        return AND(NOT(self.flat(k)), self.fs.rem(self.F, k))

    def plain(self, k):
        return AND(NOT(self.flat(k)), NOT(self.fs.rem(self.F, k)))

    def dumped(self, k):
        """The field is not left out as one that has its default value."""
        e, fs = self.e, self.fs
        at = lambda n: fs.at(n, self.F, k)
        x = self.source(k)
        has1, has2 = at("default") != fs.notset, at("default_factory") != fs.notset
        default = z3.If(has1, at("default"), e.fn("made_default", V, V)(at("default_factory")))
        return OR(self.flat(k), self.defaults, fs.is_("required", self.F, k), AND(NOT(has1), NOT(has2)), NOT(e.pyeq(x, default)))

    def alias(self, k):
        e, d = self.e, self.datatype(k)
        has, al = e.fn("has_Alias", V, V, Bool)(d, k), e.fn("Alias_aliases", V, V)(e.fn("the_Alias", V, V, V)(d, k))
        return z3.If(has, e.sat(al, z3.IntVal(0)), k)

    def writes(self, k, q):
        e = self.e
        return AND(self.there(k), self.dumped(k), z3.If(self.plain(k), self.alias(k) == q, e.has(self.res(k), q)))

    def value(self, k, q):
        return z3.If(self.plain(k), self.res(k), self.e.mget(self.res(k), q))

    def fine(self, k):
        return z3.If(self.there(k), AND(self.out(k) == 0, OR(self.plain(k), NOT(self.dumped(k)), self.is_mapping(self.res(k)))), NOT(self.fs.is_("required", self.F, k)))


def dump(c, flat, is_map):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.json import converters as C
    e, rt = c.e, c.rt
    fs = Fields(c, flat)
    F, n, name = fs.t, fs.n, fs.name
    fs.compared = True
    made = []

    def mapping_type():
        made.append(VDict())
        return made[-1]
    always = c.bool("always")
    conv = C.SchemaConverter(FnStub(mapping_type), FnStub(lambda h: c.never("the schema is asked for once")), always)
    hint = c.hint("hint", "any")
    v = c.value("v", None)
    ctx = c.context(v, hint, Direction.SERIALIZE)
    key0 = rt.lift(ctx.key)
    inst, no_inst, typed_dict = z3.Bool("is_instance"), z3.Bool("no_instance_checks"), z3.Bool("typed_dict")

    def instances(rt, x):
        if x is not v:
            raise Unsupported("another value's type is looked at")
        if e.fork(no_inst):
            raise TypeError("no instance checks")
        return SB(inst)
    fs.type.x["instances"] = instances

    def is_td(t):
        if t is not fs.type:
            raise Unsupported("is_typed_dict of another type")
        return SB(typed_dict)
    c.stub(C.is_typed_dict, is_td)
    rt.getattr_hook = lambda o, name, *d: SV(e.fn("attr_of", V, V, V)(o.t, rt.lift(name)))
    set_ = e.fn("has_SerializeDefaults", V, V, Bool)(hint.t, key0)
    defaults = z3.If(set_, e.fn("SerializeDefaults_enabled", V, V)(e.fn("the_SerializeDefaults", V, V, V)(hint.t, key0)) == e.const(True), rt.lift(always) == e.const(True))
    j, w = z3.Int("j!"), z3.Int("w")
    c.assume(c.isa(v, Mapping) if is_map else NOT(c.isa(v, Mapping)))
    s = Spec(fs, v.t, is_map, defaults)
    c.place = lambda x: c.same(x.value, SV(s.source(rt.lift(x.key))))
    # no remainder is flattened: such a schema is refused elsewhere
    if flat:
        e.add(forall(e, j, n, lambda j: NOT(AND(fs.is_("flattened", F, name(j)), fs.rem(F, name(j)))), lambda j: [name(j)]))
    o = c.run(conv.serialize_from_schema, ctx, fs.schema)
    c.well_behaved(o)
    right = z3.If(no_inst, OR(NOT(typed_dict), z3.BoolVal(is_map)), inst)
    if not e.fork(right):
        return c.prove("a value of another type is an error", o.raised(ConversionError))
    if not o.ret:
        if not o.raised(ConversionError, Leak):
            return c.never("no other errors", repr(o))
        c.cover("fails")
        c.assume(forall(e, j, n, lambda j: s.fine(name(j)), lambda j: [name(j)]))
        if c.choose("no remainder", "a remainder") == "a remainder":
            c.assume(AND(0 <= w, w < n, s.rem(name(w))))
            c.assume(forall(e, j, n, lambda j: OR(NOT(s.rem(name(j))), j == w), lambda j: [name(j)]))
        else:
            c.assume(forall(e, j, n, lambda j: NOT(s.rem(name(j))), lambda j: [name(j)]))
        q = z3.Const("q!", V)
        if e.bounded is None:
            writer = e.fn("writer", V, Int)
            # no key is written by two fields
            e.add(forall(e, j, n, lambda j: NOT(AND(s.plain(name(j)), s.there(name(j)), s.dumped(name(j)))) if False else
                         z3.Implies(AND(s.plain(name(j)), s.writes(name(j), s.alias(name(j)))), writer(s.alias(name(j))) == j), lambda j: [name(j)]))
            e.add(z3.ForAll([j, q], z3.Implies(AND(0 <= j, j < n, NOT(s.plain(name(j))), s.writes(name(j), q)), writer(q) == j), patterns=[e.mhas(s.res(name(j)), q)]))
        else:
            for a in range(e.bounded):
                for b in range(a):
                    A, B = name(z3.IntVal(a)), name(z3.IntVal(b))
                    ks = [s.alias(A)] + [e.sat(e.mkeys(s.res(A)), z3.IntVal(i)) for i in range(e.bounded)]
                    e.add(AND([z3.Implies(n > a, NOT(AND(s.writes(A, k), s.writes(B, k)))) for k in ks]))
        return c.never("succeeds if every field does", repr(o))
    parts = ["keys", "result", "a field that fails", "two remainders", "two fields of one key"]
    part = c.choose(*parts)
    if part == "a field that fails":
        c.assume(AND(0 <= w, w < n, NOT(s.fine(name(w)))))
        return c.never("a field that fails or that is required and missing is an error")
    w2 = z3.Int("w2")
    if part == "two remainders":
        c.assume(AND(0 <= w, w < n, 0 <= w2, w2 < n, w != w2, s.rem(name(w)), s.rem(name(w2)), s.there(name(w)), s.there(name(w2))))
        return c.never("two remainders are an error")
    if part == "two fields of one key":
        q = z3.Const("q", V)
        c.assume(AND(0 <= w, w < n, 0 <= w2, w2 < n, w != w2, s.writes(name(w), q), s.writes(name(w2), q)))
        return c.never("two fields that are dumped under the same key are an error")
    r = o.value
    c.cover("dumps")
    if part == "result":
        return c.prove("gives a new mapping of the configured type", len(made) == 1 and r is made[0])
    q = z3.Const("q", V)
    case = c.choose("plain", "remainder", "none", *(["flat"] if flat else []))
    if case == "none":
        c.assume(forall(e, j, n, lambda j: NOT(s.writes(name(j), q)), lambda j: [name(j)]))
        if lookup(c, r, SV(q, str)) is not NOTHING:
            c.never("there are no other keys")
        return
    k = name(w)
    c.assume(AND(0 <= w, w < n, s.writes(k, q), {"plain": s.plain, "remainder": s.rem, "flat": s.flat}[case](k)))
    got = lookup(c, r, SV(q, str))
    c.cover(case)
    what = {"plain": "a field is dumped under its first alias", "remainder": "the remainder's keys are those of the mapping", "flat": "a flattened field's keys are those of the mapping"}[case]
    c.prove(what, FALSE if got is NOTHING else c.same(got, SV(s.value(k, q))))


for FLAT, PID in ((False, "P11"), (True, "P12")):
    for IS_MAP in (False, True):
        contract("SchemaConverter.serialize_from_schema of " + ("mappings" if IS_MAP else "objects") + (" with flattened fields" if FLAT else ""),
                 FUNCTIONS, PID, also=ALSO)(lambda c, flat=FLAT, is_map=IS_MAP: dump(c, flat, is_map))
