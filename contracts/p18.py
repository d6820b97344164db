"""P18: converter dispatch."""
import z3
from pyvc.lib import *
from contracts import mapper  # noqa: F401

RET, NOTIMPL, CONVERR = 0, 1, 2


def converters(c, name="conv"):
    """An arbitrary list of converters; each is a leaf or a Module, of which the flattened converters are known by contract."""
    from databind.core.converter import Module
    e = c.e
    item, n = e.fn(name, Int, V), z3.Int(name + "_n")
    c.assume(n >= 0)
    sub, m = e.fn(name + "_sub", V, Int, V), e.fn(name + "_len", V, Int)

    def leaf(t, *where):
        return SV(t, None, truthy=True, shape="leaf", where=tuple(where))

    def elem(j):
        sv = SV(item(j), None, truthy=True, shape="conv", where=(SI(j),))
        return sv
    c.rt.shapes[("leaf", "convert")] = lambda rt, sv: VMethod(sv, "convert", convert)
    c.rt.shapes[("conv", "convert")] = lambda rt, sv: VMethod(sv, "convert", convert)
    c.rt.shapes[("conv", "get_converters")] = lambda rt, sv: VMethod(sv, "get_converters", flat)

    def flat(sv, ctx):
        e.add_once(m(sv.t) >= 0)
        return IdxSeq(m(sv.t), lambda j: leaf(sub(sv.t, j), *sv.x["where"], SI(j)), None, lambda j: sub(sv.t, j))

    def convert(sv, ctx):
        from databind.core.converter import ConversionError
        e.log.append(("convert", sv, ctx))
        o = e.fn("outcome", V, Int)(sv.t)
        k = e.choose([o == RET, o == NOTIMPL, o == CONVERR, AND(o != RET, o != NOTIMPL, o != CONVERR)])
        if k == RET:
            return SV(e.fn("converted", V, V)(sv.t))
        if k == NOTIMPL:
            raise NotImplementedError
        x = ConversionError.__new__(ConversionError) if k == CONVERR else Leak()
        x.args = ()
        x.tag = SV(e.fn("raised", V, V)(sv.t))
        x.where = sv.x["where"]
        raise x
    is_mod = lambda j: e.subclass(e.typeof(item(j)), Module)
    fails = lambda t: OR(e.fn("outcome", V, Int)(t) == NOTIMPL, e.fn("outcome", V, Int)(t) == CONVERR)

    def none_before(j, k=None, fails=fails):
        """Every flattened converter before position (j, k) does not apply or fails."""
        j, k = z(j), z(k)
        a, b = z3.Ints("a! b!")
        fs = [z3.ForAll([a], z3.Implies(AND(0 <= a, a < j, NOT(is_mod(a))), fails(item(a)))),
              z3.ForAll([a, b], z3.Implies(AND(0 <= a, a < j, is_mod(a), 0 <= b, b < m(item(a))), fails(sub(item(a), b))))]
        if k is not None:
            fs.append(z3.ForAll([b], z3.Implies(AND(0 <= b, b < k), fails(sub(item(j), b)))))
        return fs

    def at(w):
        """The converter at a position, which must exist."""
        w = [z(x) for x in w]
        t = item(w[0]) if len(w) == 1 else sub(item(w[0]), w[1])
        fs = [0 <= w[0], w[0] < n, is_mod(w[0]) if len(w) == 2 else NOT(is_mod(w[0]))]
        return t, fs + ([0 <= w[1], w[1] < m(item(w[0]))] if len(w) == 2 else [])

    def rest(w, p):
        """p for all converters at other positions."""
        w = [z(x) for x in w]
        a, b = z3.Ints("a! b!")
        same1 = a == w[0] if len(w) == 1 else FALSE
        same2 = AND(a == w[0], b == w[1]) if len(w) == 2 else FALSE
        return [z3.ForAll([a], z3.Implies(AND(0 <= a, a < n, NOT(is_mod(a)), NOT(same1)), p(item(a)))),
                z3.ForAll([a, b], z3.Implies(AND(0 <= a, a < n, is_mod(a), 0 <= b, b < m(item(a)), NOT(same2)), p(sub(item(a), b))))]

    def emit(j):
        """The errors of the j-th converter."""
        def of(t, cond=TRUE):
            if e.fork(e.fn("outcome", V, Int)(t) == CONVERR):
                def is_pair(x):
                    return AND(c.same(x[0], SV(t)), c.same(x[1].tag, SV(e.fn("raised", V, V)(t)))) if type(x) is tuple else FALSE
                return [(None, is_pair)]
            return []
        if e.fork(is_mod(j)):
            return Nested(m(item(j)), lambda i: of(sub(item(j), i)))
        return of(item(j))
    return IdxSeq(n, elem, None, lambda j: item(j)), none_before, at, rest, emit


def z(x):
    return x.t if isinstance(x, SI) else x


@contract("Module.convert", ["Module.convert", "Module.get_converters"], "P18")
def dispatch(c):
    from databind.core.converter import ConversionError, Module, NoMatchingConverter
    e = c.e
    seq, none_before, at, rest, emit = converters(c)
    mod = Module("m")
    mod.converters = c.listobj(seq)
    ctx = c.context(c.value("v"), c.hint("hint", "class"), c.direction())
    o = c.run(mod.convert, ctx)
    calls = [x for x in e.log if x[0] == "convert"]
    out = e.fn("outcome", V, Int)
    if o.ret or o.raised(Leak):
        what = "a result" if o.ret else "an exception other than ConversionError"
        c.cover(what)
        if not calls:
            return c.never(f"{what} comes from a converter")
        sv = calls[-1][1]
        w = sv.x["where"]
        c.prove(f"{what} comes from the first converter that does not decline", AND(none_before(*w)))
        if o.ret:
            c.prove("the result is passed on", c.same(o.value, SV(e.fn("converted", V, V)(sv.t))))
        else:
            c.prove("the exception is passed on", c.same(o.value.tag, SV(e.fn("raised", V, V)(sv.t))))
        c.prove(f"{what}: the context is passed on", all(x[2] is ctx for x in calls))
        return
    if not o.raised(ConversionError):
        return c.never("no other exception", repr(o))
    c.prove("an error only if every converter declines", AND(none_before(seq.n)))
    if isinstance(o.value, NoMatchingConverter):
        c.cover("no match")
        errs = o.value.errors
        c.prove("no match: for this context", o.value.context is ctx)
        errs = errs.entries if isinstance(errs, VList) else [Item(None, x) for x in errs]
        c.log_is("no match: carries the errors", errs, seq.n, emit)
        return
    c.cover("single error")
    w = o.value.where
    t, fs = at(w)
    out = e.fn("outcome", V, Int)
    c.prove("single error: is the error of a converter", AND(fs + [out(t) == CONVERR, o.value.tag.t == e.fn("raised", V, V)(t)]))
    c.prove("single error: no other converter applies", AND(rest(w, lambda t: out(t) == NOTIMPL)))


@contract("Module.register", ["Module.register", "Module.__init__"], "P18")
def register(c):
    from databind.core.converter import Converter, Module
    seq, *_ = converters(c)
    mod = Module("m")
    c.prove("a new module is empty", c.len(mod.converters) == 0)
    mod.converters = c.listobj(seq)
    before = list(mod.converters.entries)
    new = Converter()
    first = c.choose(False, True)
    o = c.run(mod.register, new, first) if first else c.choose(lambda: c.run(mod.register, new), lambda: c.run(mod.register, new, False))()
    if not o.ret:
        return c.never("registering does not fail", repr(o))
    after = mod.converters.entries
    at = 0 if first else len(after) - 1
    c.prove("the converter is added " + ("first" if first else "last"),
            len(after) == len(before) + 1 and isinstance(after[at], Item) and after[at].value is new and
            all(x is y for x, y in zip(after[:at] + after[at + 1:], before)))


@contract("Module.get_converters", ["Module.get_converters", "JsonConverterSupport.get_converters", "JsonConverter.__init__"], "P18")
def flattening(c):
    from databind.core.converter import Converter, Module
    from databind.json.module import JsonConverterSupport
    from databind.json.settings import JsonConverter
    e = c.e
    seq, none_before, at, rest, emit = converters(c)
    support = c.choose(False, True)
    mod = JsonConverterSupport() if support else Module("m")
    mod.converters = c.listobj(seq)
    supplied = Converter()

    def supply():
        e.log.append(("supply",))
        return supplied
    c.rt.setting_makers[JsonConverter] = lambda rt, t: JsonConverter(c.choose(supplied, FnStub(supply)))
    h = c.hint("hint", "class")
    ctx = c.context(c.value("v"), h, c.direction())
    o = c.run(lambda: c.rt.list_(mod.get_converters(ctx)))
    if not o.ret:
        return c.never("does not fail", repr(o))
    ents = list(o.value.entries)
    if support:
        # the converter of the setting in effect comes before all others
        has = c.e.fork(c.e.fn("has_JsonConverter", V, V, Bool)(h.t, c.rt.lift(ctx.key)))
        mine = [x for x in ents if isinstance(x, Item) and x.value is supplied]
        if has:
            c.prove("a configured converter comes first", bool(ents) and isinstance(ents[0], Item) and ents[0].value is supplied)
            ents = ents[1:]
        else:
            c.prove("nothing is added without a setting", not mine)

    def emit_all(j):
        is_mod = e.fork(e.subclass(e.typeof(seq.at(j).t), Module))
        if is_mod:
            n = e.fn("conv_len", V, Int)(seq.at(j).t)
            return Nested(n, lambda i: [(None, SV(e.fn("conv_sub", V, Int, V)(seq.at(j).t, i)))])
        return [(None, SV(seq.at(j).t))]
    c.log_is("all converters, in order, those of modules in place", ents, seq.n, emit_all)


@contract("JsonModule", ["JsonModule.__init__"], "P18")
def json_module(c):
    from databind.json.module import JsonConverterSupport, JsonModule
    from databind.json.converters import SchemaConverter, UnionConverter, MappingConverter
    o = c.run(JsonModule)
    cs = c.rt.nativize(o.value.converters) if o.ret else []
    c.prove("the converter of a setting is asked before all built-in converters",
            bool(cs) and isinstance(cs[0], JsonConverterSupport) and not any(isinstance(x, JsonConverterSupport) for x in cs[1:]))
    pos = {type(x): i for i, x in reversed(list(enumerate(cs)))}
    c.prove("unions are tried before structured types", pos.get(UnionConverter, 99) < pos.get(SchemaConverter, -1))


@contract("Converter.convert", ["Converter.convert", "Converter.serialize", "Converter.deserialize"], "P18")
def template(c):
    from databind.core.converter import Converter
    d = c.direction()
    ctx = c.context(c.value("v"), c.hint(), d)
    seen = []

    class Conv(Converter):
        def serialize(self, ctx):
            seen.append(("SERIALIZE", self, ctx))
            return "s"

        def deserialize(self, ctx):
            seen.append(("DESERIALIZE", self, ctx))
            return "d"
    conv = Conv()
    o = c.run(conv.convert, ctx)
    c.prove("calls the method of the direction once", o.ret and o.value == d.name[0].lower() and seen == [(d.name, conv, ctx)])
    o = c.run(Converter().convert, ctx)
    c.prove("a converter without methods does not apply", o.raised(NotImplementedError))


@contract("DelegateToClassmethodConverter", ["DelegateToClassmethodConverter.serialize", "DelegateToClassmethodConverter.deserialize",
                                              "JsonConverter.using_classmethods"], "P18")
def delegate(c):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError, DelegateToClassmethodConverter
    from databind.json.settings import JsonConverter
    e = c.e
    d = c.direction()
    ser, de, stype = c.choose("to_x", None), c.choose("of_x", None), c.choose(None, "single", "tuple")
    T1, T2 = c.value("T1", type), c.value("T2", type)
    st = {None: None, "single": T1, "tuple": (T1, T2)}[stype]
    if c.choose("direct", "setting") == "direct":
        conv = DelegateToClassmethodConverter(st, serialize=ser, deserialize=de)
    else:
        conv = c.run(lambda: JsonConverter.using_classmethods(st, serialize=ser, deserialize=de).supplier()).value
    hint, inner, kind = c.any_hint(["class", "union"])
    calls = []

    def call(rt, f, args, kw):
        calls.append((f, args, kw))
        k = c.choose("returns", "raises")
        if k == "raises":
            raise Leak()
        return SV(e.fn("called", V, V, V)(f.t, rt.lift(args[0])))
    for n in ("to_x", "of_x"):
        c.rt.shapes[("pytype", n)] = lambda rt, sv, n=n: SV(e.fn("classmethod_" + n, V, V)(sv.t), None, call=call)
    v = c.value("v")
    ctx = c.context(v, hint, d)
    o = c.run(conv.convert, ctx)
    name = ser if d is Direction.SERIALIZE else de
    if kind != "class" or name is None:
        return c.prove("without a method or for another kind of hint it does not apply", o.raised(NotImplementedError))
    if d is Direction.SERIALIZE:
        fits = c.isa(v, inner.type)
    else:
        fits = TRUE if stype is None else OR([c.isa(v, t) for t in ((T1,) if stype == "single" else (T1, T2))])
    if o.raised(ConversionError):
        return c.prove("fails only for a value of another type", AND(NOT(fits), not calls))
    c.prove("the method is called only with a value of the type", fits)
    c.prove("the named method is called once with the value", AND(
        len(calls) == 1, c.same(calls[0][0], SV(e.fn("classmethod_" + name, V, V)(inner.type.t))), len(calls[0][1]) == 1,
        c.same(calls[0][1][0], v), not calls[0][2]) if len(calls) == 1 and calls[0][1] else FALSE)
    c.prove("its outcome is passed on", o.raised(Leak) or (o.ret and c.same(o.value, SV(e.fn("called", V, V, V)(
        e.fn("classmethod_" + name, V, V)(inner.type.t), v.t)))))
