"""P09, P10, P12 (loading): SchemaConverter, over arbitrary schemas (that they match the type: P21, P22)."""
import collections.abc
import z3
from pyvc.lib import *

ALSO = ["P19", "P20", "P24"]
Mapping = collections.abc.Mapping
FUNCTIONS = ["SchemaConverter.deserialize_from_schema", "SchemaConverter._get_alias_setting",
             "Field.has_default", "Field.get_default", "ExtraKeys.inform", "Context.spawn"]


def forall(e, j, n, f, pats):
    """For all 0 <= j < n: f(j)."""
    if e.bounded is not None:
        if not any(z3.is_var(x) for x in (n, *n.children())):
            e.add_once(n <= e.bounded)
        return AND([z3.Implies(n > i, f(z3.IntVal(i))) for i in range(e.bounded)])
    return z3.ForAll([j], z3.Implies(AND(0 <= j, j < n), f(j)), patterns=pats(j))


class Fields:
    """An arbitrary schema: fields by name."""
    _leaf_ = True
    compared = False

    def __init__(self, c, flat):
        from databind.core import schema as S
        from databind.core.utils import NotSet
        e, rt = c.e, c.rt
        self.c, self.e, self.rt, self.flat = c, e, rt, flat
        rt.static(NotSet.Value)
        self.notset = e.const(NotSet.Value)
        self.made = 0               # calls of default factories
        self.t = z3.Const("fields", V)
        s = object.__new__(S.Schema)
        self.type = type_sv(z3.Const("schema_type", V))
        s.__dict__.update(fields=self.mapping(self.t), constructor=Construct(self), type=self.type, annotations=[])
        self.schema = c.protect(s, "the schema")
        self.built = []
        self.xt = z3.Const("expanded", V)
        ks = rt.keys_seq(s.fields)
        self.n, self.name = ks.n, lambda j: rt.lift(ks.at(j))
        F, q = self.t, z3.Const("q!", V)
        is_flat = lambda k: self.is_("flattened", F, k)
        if not flat:
            e.add(forall(e, z3.Int("j!"), self.n, lambda j: NOT(is_flat(self.name(j))), lambda j: [self.name(j)]))
        elif e.bounded is None:
            e.add(z3.ForAll([q], e.mhas(self.xt, q) == AND(e.mhas(F, q), is_flat(q)), patterns=[e.mhas(self.xt, q)]))
        else:
            xs = e.mkeys(self.xt)
            for i in range(e.bounded):
                a, b = self.name(z3.IntVal(i)), e.sat(xs, z3.IntVal(i))
                e.add(z3.Implies(self.n > i, e.has(self.xt, a) == is_flat(a)))
                e.add(z3.Implies(e.length(xs) > i, AND(e.has(F, b), is_flat(b))))

        def expanded(schema, *a, **k):
            # the contract of get_fields_expanded (P12)
            if not schema is s:
                raise Unsupported("get_fields_expanded of another schema")
            return SV(self.xt, dict, map=True, key=str_elem, val=lambda rt, sv, k: self.mapping(self.sub(k)))
        c.stub(S.get_fields_expanded, expanded)

    def sub(self, k):
        return self.e.fn("sub_fields", V, V)(k)

    def mapping(self, t):
        return SV(t, dict, map=True, key=str_elem, val=self.field)

    def field(self, rt, sv, k):
        from databind.core.schema import Field
        e = self.e
        f = object.__new__(Field)
        for n in ("required", "flattened"):
            e.add_once(OR(self.at(n, sv.t, k) == e.const(True), self.at(n, sv.t, k) == e.const(False)))
        if e.bounded is not None and not sv.t.eq(self.t):
            e.add_once(NOT(self.rem(sv.t, k)))      # (as below)
        b = lambda n: SV(self.at(n, sv.t, k), bool)
        f.__dict__.update(datatype=hint_sv(rt, self.at("datatype", sv.t, k), "any"), required=b("required"), flattened=b("flattened"),
                          default=SV(self.at("default", sv.t, k)), default_factory=SV(self.at("default_factory", sv.t, k), call=self.make), _vt_=e.mget(sv.t, k))
        return f

    def at(self, n, t, k):
        return self.e.fn("field_" + n, V, V, V)(t, k)

    def is_(self, n, t, k):
        return self.at(n, t, k) == self.e.const(True)

    def make(self, rt, f, args, kw):
        if args or kw:
            raise Unsupported("default factory with arguments")
        e = self.e
        if self.compared:           # (default values are only compared: those of a factory are equal to each other)
            return SV(e.fn("made_default", V, V)(f.t))
        r = e.fresh("made", V)
        e.add(e.fn("made_by", V, V)(r) == f.t)
        e.add(e.fn("made_at", V, Int)(r) == (e.frames[0].k if e.frames else -1))     # a new object
        return SV(r)

    # what the settings say about a field
    def rem(self, t, k):
        e, d = self.e, self.at("datatype", t, k)
        return AND(e.fn("has_Remainder", V, V, Bool)(d, k), e.fn("Remainder_enabled", V, V)(e.fn("the_Remainder", V, V, V)(d, k)) == e.const(True))

    def first(self, t, k, v):
        """The number of the first alias of the field that is a key of the value (the number of aliases if there is none);
        its aliases; how many there are.  Gives the facts that define it, too."""
        e, d = self.e, self.at("datatype", t, k)
        has, al = e.fn("has_Alias", V, V, Bool)(d, k), e.fn("Alias_aliases", V, V)(e.fn("the_Alias", V, V, V)(d, k))
        n = z3.If(has, e.length(al), z3.IntVal(1))
        at = lambda i: z3.If(has, e.sat(al, i), k)
        f = e.fn("first_alias", V, V, Int)(t, k)
        i = z3.Int("i!")
        fact = z3.If(has, AND(0 <= f, f <= e.length(al), z3.Implies(f < n, e.has(v, e.sat(al, f))),
                              forall(e, i, f, lambda i: NOT(e.has(v, e.sat(al, i))), lambda i: [e.sat(al, i)])),
                     f == z3.If(e.has(v, k), z3.IntVal(0), z3.IntVal(1)))
        return f, at, n, fact


class Construct(Stub):
    def __init__(self, fs):
        self.fs = fs

    def vcall(self, args, kw):
        fs, e = self.fs, self.fs.e
        if args or e.frame is not None:
            raise Unsupported("constructor with positional arguments")
        fs.built.append(kw)
        return SV(z3.Const("constructed", V))


class Spec:
    """What becomes of the fields of the schema when *v* is loaded."""

    def __init__(self, fs, v):
        self.fs, self.e, self.v, self.c = fs, fs.e, v, fs.c
        e = self.e
        self.facts = set()
        if e.bounded is None:       # definition of the first alias
            t, k = z3.Const("t!", V), z3.Const("k!", V)
            f, at, n, fact = fs.first(t, k, v)
            e.add(z3.ForAll([t, k], fact, patterns=[f]))

    def first(self, t, k):
        f, at, n, fact = self.fs.first(t, k, self.v)
        if self.e.bounded is not None and not z3.is_var(k):
            self.e.add_once(fact)
        return f, at, n

    def found(self, t, k):
        f, at, n = self.first(t, k)
        return f < n

    def alias(self, t, k):
        f, at, n = self.first(t, k)
        return at(f)

    def out(self, x, d):
        return self.e.fn("conv_outcome_DESERIALIZE", V, V, Int)(x, d)

    def res(self, x, d):
        return SV(self.e.fn("conv_DESERIALIZE", V, V, V)(x, d))

    def payload(self, k):
        return self.e.fn("flat_payload", V, V)(k)

    def source(self, k):
        fs = self.fs
        return self.e.mget(self.v, self.alias(fs.t, k))

    # cases for a field
    def flat(self, k):
        return self.fs.is_("flattened", self.fs.t, k) if self.fs.flat else FALSE

    def rem(self, k):
        return AND(NOT(self.flat(k)), self.fs.rem(self.fs.t, k))

    def plain(self, k):
        return AND(NOT(self.flat(k)), NOT(self.fs.rem(self.fs.t, k)))

    def fine(self, k):
        """Nothing is wrong with the field (remainders aside)."""
        fs, e = self.fs, self.e
        F, d = fs.t, fs.at("datatype", fs.t, k)
        ok = z3.Implies(self.plain(k), z3.If(self.found(F, k), self.out(self.source(k), d) == 0, NOT(fs.is_("required", F, k))))
        if fs.flat:
            n, name = self.subs(k)
            i = z3.Int("i!s")
            ok = AND(ok, z3.Implies(self.flat(k), AND(self.out(self.payload(k), d) == 0, forall(e, i, n, lambda i: OR(
                self.found(fs.sub(k), name(i)), NOT(fs.is_("required", fs.sub(k), name(i)))), lambda i: [name(i)]))))
        return ok

    def subs(self, k):
        fs, e = self.fs, self.e
        ks = e.mkeys(fs.sub(k))
        return e.length(ks), lambda i: e.sat(ks, i)

    def uses(self, k, q):
        """The field takes the value under the key *q*: a formula; ways: functions j -> formula that imply it."""
        return AND(self.plain(k), self.found(self.fs.t, k), self.alias(self.fs.t, k) == q)

    def uses_flat(self, k, i, q):
        n, name = self.subs(k)
        x = self.fs.sub(k)
        return AND(self.flat(k), 0 <= i, i < n, self.found(x, name(i)), self.alias(x, name(i)) == q)


def used(s, q, name, n, forced=None):
    """Case analysis: is the key *q* of the value taken by a field?"""
    c, e, fs = s.c, s.e, s.fs
    case = c.choose("taken by a field", "not taken", *(["taken by an inner field"] if fs.flat else []))
    if case == "taken by a field":
        w = e.fresh("user", Int)
        c.assume(AND(0 <= w, w < n, s.uses(name(w), q)))
        return True
    if case == "taken by an inner field":
        w, i = e.fresh("user", Int), e.fresh("inner", Int)
        c.assume(AND(0 <= w, w < n, s.uses_flat(name(w), i, q)))
        return True
    c.assume(unused(s, q, name, n))
    return False


def unused(s, q, name, n):
    e, fs = s.e, s.fs
    j, i = z3.Int("ju!"), z3.Int("iu!")

    def body(j):
        f = NOT(s.uses(name(j), q))
        if fs.flat:
            m, sub = s.subs(name(j))
            f = AND(f, forall(e, i, m, lambda i: NOT(s.uses_flat(name(j), i, q)), lambda i: [sub(i)]))
        return f
    return forall(e, j, n, body, lambda j: [name(j)])


def load(c, flat):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.json.converters import SchemaConverter
    e, rt = c.e, c.rt
    fs = Fields(c, flat)
    F, n, name = fs.t, fs.n, fs.name
    conv = SchemaConverter(convert_to_schema=FnStub(lambda h: c.never("the schema is asked for once")))
    hint = c.hint("hint", "any")
    v = c.value("v", None)
    ctx = c.context(v, hint, Direction.DESERIALIZE)
    key0 = rt.lift(ctx.key)
    s = Spec(fs, v.t)
    state = {"rem": None, "remp": None}

    def place(x):
        # a field's value is that of its first alias that is there
        k = rt.lift(x.key)
        if x.value is None or isinstance(x.value, VDict):
            return TRUE
        return OR(AND(s.found(F, k), c.same(x.value, SV(s.source(k)))), c.same(x.value, SV(s.payload(k))), c.same(x.value, SV(z3.Const("remainder", V))))
    c.place = place

    def payload(x):
        """The conversion of a dictionary made by the converter: the values of an inner schema's fields, or the remainder."""
        k = rt.lift(x.key)
        is_flat = e.fork(s.flat(k))
        if c.choose("go on", "check it") == "check it":
            q = e.fresh("q", V)
            qv = SV(q, str)
            if is_flat:
                m, sub = s.subs(k)
                if c.choose("taken", "not taken") == "taken":
                    i = e.fresh("inner", Int)
                    c.assume(s.uses_flat(k, i, q))
                    got = e.last_write(x.value, qv)
                    c.prove("a flattened field gets the keys of its inner fields", FALSE if got is NOTHING else c.same(got, SV(e.mget(v.t, q))), "P12" if flat else None)
                else:
                    i = z3.Int("iu!")
                    c.assume(forall(e, i, m, lambda i: NOT(s.uses_flat(k, i, q)), lambda i: [sub(i)]))
                    got = e.last_write(x.value, qv)
                    if got is not NOTHING:
                        c.never("a flattened field gets no other keys")
            else:
                c.assume(e.has(v.t, q)) if c.choose("a key", "any") == "a key" else c.assume(NOT(e.has(v.t, q)))
                if e.fork(e.has(v.t, q)):
                    taken = used(s, q, name, n)
                else:
                    taken = True
                got = e.last_write(x.value, qv)
                if taken:
                    if got is not NOTHING:
                        c.never("the remainder has only the keys that no field takes")
                else:
                    c.prove("the remainder has the keys that no field takes", FALSE if got is NOTHING else c.same(got, SV(e.mget(v.t, q))))
            raise PathEnd()
        return SV(s.payload(k) if is_flat else z3.Const("remainder", V))
    c.payload = payload
    if not e.fork(c.isa(v, Mapping)):
        o = c.run(conv.deserialize_from_schema, ctx, fs.schema)
        c.well_behaved(o)
        return c.prove("a value that is not a mapping is an error", o.raised(ConversionError))
    if flat:
        # not considered: a remainder inside of a flattened field
        t, k = z3.Const("t!", V), z3.Const("k!", V)
        if e.bounded is None:
            d = fs.at("datatype", fs.sub(t), k)
            e.add(z3.ForAll([t, k], NOT(fs.rem(fs.sub(t), k)), patterns=[d]))
    o = c.run(conv.deserialize_from_schema, ctx, fs.schema)
    c.well_behaved(o)
    j, w = z3.Int("j!"), z3.Int("w")
    xk = e.fn("the_ExtraKeys", V, V, V)(hint.t, key0)
    allowed = AND(e.fn("has_ExtraKeys", V, V, Bool)(hint.t, key0), e.fn("ExtraKeys_allow", V, V)(xk) == e.const(True))
    told = [x for x in e.log if x[0] == "recorder"]
    remt = z3.Const("remainder", V)
    if not o.ret:
        if not o.raised(ConversionError, Leak):
            return c.never("no other errors", repr(o))
        c.cover("fails")
        # everything is fine, so that this cannot be
        c.assume(forall(e, j, n, lambda j: s.fine(name(j)), lambda j: [name(j)]))
        if c.choose("no remainder", "a remainder") == "a remainder":
            c.assume(AND(0 <= w, w < n, s.rem(name(w)), s.out(remt, fs.at("datatype", F, name(w))) == 0))
            c.assume(forall(e, j, n, lambda j: OR(NOT(s.rem(name(j))), j == w), lambda j: [name(j)]))
        else:
            c.assume(forall(e, j, n, lambda j: NOT(s.rem(name(j))), lambda j: [name(j)]))
            if c.choose("no extra keys", "extra keys") == "extra keys":
                c.assume(allowed)
            else:
                q = z3.Const("q!", V)
                u, ui = e.fn("user_of", V, Int), e.fn("inner_of", V, Int)
                taken = lambda q: AND(0 <= u(q), u(q) < n, OR(s.uses(name(u(q)), q), s.uses_flat(name(u(q)), ui(q), q) if flat else FALSE))
                if e.bounded is None:
                    e.add(z3.ForAll([q], z3.Implies(e.mhas(v.t, q), taken(q)), patterns=[e.mhas(v.t, q)]))
                else:
                    ks = e.mkeys(v.t)
                    e.add(AND([z3.Implies(e.length(ks) > i, taken(e.sat(ks, z3.IntVal(i)))) for i in range(e.bounded)]))
        return c.never("succeeds if every field does", repr(o))
    parts = ["fields", "other names", "extra keys", "result", "factories", "a field that fails", "two remainders", "a remainder that fails", "extra keys that are not allowed"]
    part = c.choose(*parts)
    if part == "a field that fails":
        c.assume(AND(0 <= w, w < n))
        if flat and e.fork(s.flat(name(w))):
            if c.choose("missing", "fails") == "missing":
                i = z3.Int("wi")
                m, sub = s.subs(name(w))
                c.assume(AND(0 <= i, i < m, NOT(s.found(fs.sub(name(w)), sub(i))), fs.is_("required", fs.sub(name(w)), sub(i))))
            else:
                c.assume(s.out(s.payload(name(w)), fs.at("datatype", F, name(w))) != 0)
        else:
            c.assume(AND(s.plain(name(w)), NOT(s.fine(name(w)))))
        return c.never("a field that fails or that is required and missing is an error")
    if part == "two remainders":
        w2 = z3.Int("w2")
        c.assume(AND(0 <= w, w < n, 0 <= w2, w2 < n, w != w2, s.rem(name(w)), s.rem(name(w2))))
        return c.never("two remainders are an error")
    if part == "a remainder that fails":
        c.assume(AND(0 <= w, w < n, s.rem(name(w)), s.out(remt, fs.at("datatype", F, name(w))) != 0))
        return c.never("a remainder that fails is an error")
    if part == "extra keys that are not allowed":
        q = z3.Const("extra", V)
        c.assume(AND(NOT(allowed), forall(e, j, n, lambda j: NOT(s.rem(name(j))), lambda j: [name(j)]), e.has(v.t, q), unused(s, q, name, n)))
        return c.never("extra keys that are not allowed are an error")
    if len(fs.built) != 1:
        return c.never("the constructor is called once")
    c.cover("loads")
    r, kw = o.value, fs.built[0]
    if part == "result":
        return c.prove("gives what the constructor gives", c.same(r, SV(z3.Const("constructed", V))))
    if part == "extra keys":
        rec = AND(allowed, e.fn("has_recorder", V, Bool)(xk))
        if not told:
            q = z3.Const("extra", V)
            c.assume(AND(rec, forall(e, j, n, lambda j: NOT(s.rem(name(j))), lambda j: [name(j)]), e.has(v.t, q), unused(s, q, name, n)))
            return c.never("the recorder is told of extra keys")
        if len(told) != 1 or len(told[0][2]) != 2:
            return c.never("the recorder is told once")
        _, t, (x, keys) = told[0]
        c.prove("the recorder is told the context", AND(x is ctx, t == xk, rec))
        if c.choose("keys", "remainder") == "remainder":
            c.assume(AND(0 <= w, w < n, s.rem(name(w))))
            return c.never("the recorder is told nothing if there is a remainder")
        q = z3.Const("q", V)
        if not e.fork(e.has(v.t, q)):
            return c.prove("the recorder is told keys of the value", NOT(c.tobool(rt.contains(keys, SV(q, str)))))
        taken = used(s, q, name, n)
        return c.prove("the recorder is told exactly the keys that no field takes", c.tobool(rt.contains(keys, SV(q, str))) != z3.BoolVal(taken))
    if part == "other names":
        q = z3.Const("q", V)
        c.assume(NOT(e.has(F, q)))
        if lookup(c, kw, SV(q, str)) is not NOTHING:
            c.never("only fields are passed to the constructor")
        return
    y = z3.Int("y")
    c.assume(AND(0 <= y, y < n))
    k = name(y)
    e.add(e.has(F, k))
    d = fs.at("datatype", F, k)
    if part == "factories":
        z = z3.Int("z")
        c.assume(AND(0 <= z, z < n, y != z))
        for a in (k, name(z)):
            c.assume(AND(s.plain(a), NOT(s.found(F, a)), fs.at("default", F, a) == fs.notset, fs.at("default_factory", F, a) != fs.notset))
        a, b = lookup(c, kw, SV(k, str)), lookup(c, kw, SV(name(z), str))
        return c.prove("default values are made anew", FALSE if a is NOTHING or b is NOTHING else rt.lift(a) != rt.lift(b))
    got = lookup(c, kw, SV(k, str))
    is_ = lambda f: FALSE if got is NOTHING else f
    if e.fork(s.flat(k)):
        c.cover("a flattened field")
        return c.prove("a flattened field is the conversion of what its inner fields take", is_(c.same(got, s.res(s.payload(k), d))))
    if e.fork(s.rem(k)):
        c.cover("a remainder")
        return c.prove("the remainder is the conversion of what no field takes", is_(c.same(got, s.res(z3.Const("remainder", V), d))))
    if e.fork(s.found(F, k)):
        c.cover("a field that is there")
        return c.prove("a field is the conversion of the value under its first alias that is there", is_(c.same(got, s.res(s.source(k), d))))
    c.cover("a field that is missing")
    if e.fork(fs.at("default", F, k) != fs.notset):
        return c.prove("a missing field has its default", is_(c.same(got, SV(fs.at("default", F, k)))))
    if e.fork(fs.at("default_factory", F, k) != fs.notset):
        return c.prove("a missing field has the value its default factory gives", is_(e.fn("made_by", V, V)(rt.lift(got)) == fs.at("default_factory", F, k) if got is not NOTHING else FALSE))
    c.prove("a missing field without default is left to the constructor", got is NOTHING)


def lookup(c, d, key):
    return c.e.last_write(d, key) if isinstance(d, VDict) else c.rt.native_lookup(d, key)


@contract("SchemaConverter.deserialize_from_schema", FUNCTIONS, "P09", "P10", also=ALSO)
def load_plain(c):
    load(c, False)


@contract("SchemaConverter.deserialize_from_schema with flattened fields", FUNCTIONS, "P12", also=ALSO)
def load_flat(c):
    load(c, True)


@contract("SchemaConverter.convert", ["SchemaConverter.serialize", "SchemaConverter.deserialize", "SchemaConverter._get_schema", "_unwrap_annotated", "Converter.convert"],
          "P09", "P10", "P11", "P12", also=["P19", "P24"])
def convert(c):
    from databind.core import schema as S
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.json.converters import SchemaConverter
    e, rt = c.e, c.rt
    d = c.direction()
    hint = c.hint("hint", "annotated") if c.choose("plain", "annotated") == "annotated" else c.hint("hint", "class")
    inner = hint_item(rt, hint, 0) if hint.cls is typeapi().AnnotatedTypeHint else hint
    asked, calls = [], []
    schema = c.protect(object.__new__(S.Schema), "the schema")

    def to_schema(h):
        asked.append(h)
        if e.fork(z3.Bool("no_schema")):
            raise ValueError("no schema")
        return schema

    def work(which):
        def f(*a, **k):
            calls.append((which, a, k))
            if e.fork(z3.Bool("fails")):
                if c.leaks:
                    raise Leak("an error")
                raise ConversionError(conv, ctx, "an error")
            return SV(z3.Const("converted", V))
        return f
    c.stub(SchemaConverter.serialize_from_schema, work(Direction.SERIALIZE))
    c.stub(SchemaConverter.deserialize_from_schema, work(Direction.DESERIALIZE))
    conv = SchemaConverter(convert_to_schema=FnStub(to_schema))
    ctx = c.context(c.value("v", None), hint, d)
    o = c.run(conv.convert, ctx)
    c.well_behaved(o)
    key0 = rt.lift(ctx.key)
    de = e.fn("has_DeserializeAs", V, V, Bool)(hint.t, key0)
    want = e.fn("TypeHint_of", V, V)(e.fn("DeserializeAs_type", V, V)(e.fn("the_DeserializeAs", V, V, V)(hint.t, key0))) if e.fork(de) else inner.t
    c.prove("the schema is that of the type (or of the one to deserialize as)", AND(len(asked) >= 1, *[rt.lift(h) == want for h in asked]))
    if e.fork(z3.Bool("no_schema")):
        return c.prove("types without a schema do not apply", o.raised(NotImplementedError) and not calls)
    if len(calls) != 1:
        return c.never("converts once")
    which, a, k = calls[0]
    args = list(a) + [k[n] for n in ("ctx", "schema") if n in k]
    c.prove("converts by the schema", which is d and len(args) == 3 and args[0] is conv and args[1] is ctx and args[2] is schema)
    if e.fork(z3.Bool("fails")):
        c.cover("fails")
        return c.prove("an error is that of the conversion", o.raised(Leak if c.leaks else ConversionError))
    c.cover("works")
    c.prove("gives what the conversion gives", FALSE if not o.ret else c.same(o.value, SV(z3.Const("converted", V))))


@contract("CollectionConverter.convert of a named tuple", ["CollectionConverter.convert", "_unwrap_annotated"], "P09", "P10", also=["P19", "P24"])
def named_tuple(c):
    from databind.core import schema as S
    from databind.core.context import Direction
    from databind.core.utils import NotSet
    from databind.core.converter import ConversionError
    from databind.json.converters import CollectionConverter, SchemaConverter
    e, rt = c.e, c.rt
    conv = CollectionConverter()
    rt.static(NotSet.Value)
    hint, inner, _ = c.any_hint(["class"])
    d = c.direction()
    v = c.value("v")
    T = inner.type
    ann, defaults, has = e.fn("annotations", V, V)(T.t), e.fn("field_defaults", V, V)(T.t), z3.Bool("has_defaults")
    rt.shapes[("pytype", "__annotations__")] = lambda rt, T: SV(ann, dict, map=True, key=str_elem)

    def field_defaults(rt, T):
        if not e.fork(has):
            raise AttributeError("_field_defaults")
        return SV(defaults, dict, map=True, key=str_elem)
    rt.shapes[("pytype", "_field_defaults")] = field_defaults
    c.assume(AND(c.isa_type(T, tuple), e.length(e.mkeys(ann)) > 0, e.truthy(ann)))
    c.assume(NOT(OR([c.isa_type(T, x) for x in (str, bytes, bytearray, memoryview, Mapping)])))
    rt.shapes[("hint", "evaluate")] = method(lambda h, context=None: hint_sv(rt, e.fn("hint_evaluated", V, V, V)(h.t, rt.lift(context)), "any"))
    c.stub(typeapi().TypeHint, lambda x, source=None: hint_sv(rt, e.fn("TypeHint_of_source", V, V, V)(rt.lift(x), rt.lift(source)), "any"))
    calls = []

    def delegate(name):
        def f(self, *a):
            calls.append((name, *a))
            if e.fork(z3.Bool("schema_fails")):
                if c.leaks:
                    raise Leak("an error")
                raise ConversionError(conv, ctx, "an error")
            return SV(z3.Const("result", V))
        return f
    c.stub(SchemaConverter.serialize_from_schema, delegate("SERIALIZE"))
    c.stub(SchemaConverter.deserialize_from_schema, delegate("DESERIALIZE"))
    ctx = c.context(v, hint, d)
    o = c.run(conv.convert, ctx)
    c.well_behaved(o)
    if len(calls) != 1:
        return c.never("it is converted by its schema, once", repr(o))
    name, x, s = calls[0]
    c.prove("in the same direction", name == d.name)
    c.prove("the value itself is converted", x is ctx or c.same(x.value, v))
    if o.ret:
        c.prove("its result is the result", c.same(o.value, SV(z3.Const("result", V))))
    else:
        c.prove("its exceptions are passed on", o.raised(Leak if c.leaks else ConversionError))
    if not isinstance(s, S.Schema) or not isinstance(s.fields, VDict):
        return c.never("a schema is made", repr(s))
    c.prove("an instance of the type is made", AND(c.same(s.type, T), c.same(s.constructor, T)))
    q = e.fresh("q", V)
    Q = SV(q, str)
    there = bool(rt.contains(SV(ann, dict, map=True, key=str_elem), Q))
    f = e.last_write(s.fields, Q)
    if not there:
        c.cover("no field")
        return c.prove("it has the annotated fields only", f is NOTHING)
    if f is NOTHING or not isinstance(f, S.Field):
        return c.never("each annotated name is a field")
    c.cover("a field")
    default = AND(has, e.has(defaults, q))
    c.prove("with the type it is annotated with, evaluated in the class", rt.lift(f.datatype) == e.fn("hint_evaluated", V, V, V)(
        e.fn("TypeHint_of_source", V, V, V)(e.mget(ann, q), T.t), e.const(None)))
    c.prove("it is required exactly if it has no default", c.truthy(f.required) == NOT(default))
    c.prove("it has its default", rt.lift(f.default) == z3.If(default, e.mget(defaults, q), e.const(NotSet.Value)))
    c.prove("and nothing else", AND(f.flattened is False, f.default_factory is NotSet.Value))
