"""P07: StringifyConverter, DecimalConverter and Precision."""
import decimal
import z3
from pyvc.lib import *

ALSO = ["P19", "P20", "P24"]
FIELDS = ("prec", "rounding", "Emin", "Emax", "capitals", "clamp")


class Other(RuntimeError, KeyError, IndexError, ArithmeticError, AssertionError):
    """Any exception but a TypeError or ValueError."""


class Callback(Stub):
    """A function of the user's (or of a dependency) from a value to a value: a result that is a function of the argument, or
    one of the given exceptions."""

    def __init__(self, name, raises, cls=None):
        self.name, self.raises, self.cls = name, raises, cls

    def vcall(self, args, kwargs):
        rt = R.ENGINE().rt
        if kwargs:
            raise Unsupported(f"keyword arguments for {self.name}")
        rt.contract.called.append((self, args))
        return rt.ext(self.name, args, self.cls, self.raises)


@contract("StringifyConverter.convert", ["StringifyConverter.__init__", "StringifyConverter.convert", "_unwrap_annotated"], "P07", also=ALSO)
def stringify(c):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.json.converters import StringifyConverter
    e, rt = c.e, c.rt
    c.called = []
    hint, inner, kind = c.any_hint(ALL_KINDS)
    d = c.direction()
    v = c.value("v")
    base = type_sv(z3.Const("type_", V))
    if kind == "tuple":     # a converter for all objects or tuples is not considered
        c.assume(NOT(c.isa_type(tuple, base)))
    parser = Callback("parser", (TypeError, ValueError) if not c.leaks else (TypeError, ValueError, Other)) if c.choose("constructor", "parser") == "parser" else None
    formatter = Callback("formatter", (), str) if c.choose("str", "formatter") == "formatter" else None
    conv = StringifyConverter(base, parser, formatter) if formatter else StringifyConverter(base, parser)
    ctx = c.context(v, hint, d)
    o = c.run(conv.convert, ctx)
    c.well_behaved(o) if d is Direction.SERIALIZE or c.leaks or not o.raised(Other) else None
    if kind != "class" or not e.fork(c.isa_type(inner.type, base)):
        return c.prove("other types do not apply", o.raised(NotImplementedError))
    T = inner.type
    made = [x for x in e.log if x[0] == "construct"]
    if d is Direction.SERIALIZE:
        if not e.fork(c.isa(v, T)):
            return c.prove("dump: a value that is not an instance of the type is an error", o.raised(ConversionError))
        c.cover("dumps")
        if not o.ret:
            return c.never("dump: every instance is dumped", repr(o))
        text = e.fn("result_formatter", V, V)(v.t) if formatter else e.fn("str", V, V)(v.t)
        return c.prove("dump: gives the text form", c.same(o.value, SV(text)))
    if not e.fork(c.isa(v, str)):
        return c.prove("load: what is not a string is an error", AND(o.raised(ConversionError), not made, not c.called))
    if parser:
        out = e.fn("outcome_parser", V, Int)(v.t)
        c.prove("load: the parser is asked once, with the text", AND(len(c.called) == 1, not made, len(c.called[0][1]) == 1, c.same(c.called[0][1][0], v)) if c.called else FALSE)
        if o.ret:
            c.cover("parses")
            return c.prove("load: gives what the parser returns", AND(out == 0, c.same(o.value, SV(e.fn("result_parser", V, V)(v.t)))))
        if o.raised(ConversionError):
            c.cover("does not parse")
            return c.prove("load: fails if the parser does not take the text", OR(out == 1, out == 2))
        return c.prove("load: other exceptions are passed on", AND(o.raised(Other), out != 0))
    ok = AND(len(made) == 1, c.same(made[0][1], T), len(made[0][2]) == 1, not made[0][3], c.same(made[0][2][0], v)) if made and len(made[0][2]) == 1 else FALSE
    c.prove("load: the declared type is instantiated once, with the text", ok)
    if o.ret:
        c.cover("constructs")
        return c.prove("load: gives the new instance", AND(z3.Int("construct_1") == 0, c.same(o.value, SV(z3.Const("constructed_1", V)))))
    c.prove("load: fails if the type cannot be made from the text", AND(o.raised(ConversionError), z3.Int("construct_1") != 0))


class DecCtx(Stub):
    def __init__(self, args):
        self.args = args

    def create_decimal(self, x):
        rt = R.ENGINE().rt
        return rt.ext("create_decimal", list(self.args) + [x], decimal.Decimal, (decimal.InvalidOperation,))


def h_Context(rt, **k):
    if set(k) - set(FIELDS):
        raise Unsupported("decimal.Context with other options")
    return DecCtx([k.get(f) for f in FIELDS])


def h_Decimal(rt, x=0):
    return rt.ext("Decimal", [x], decimal.Decimal, (decimal.InvalidOperation,))


def mk_precision(rt, t):
    from databind.core.settings import Precision
    e = rt.e
    p = object.__new__(Precision)
    for f in FIELDS:
        object.__setattr__(p, f, SV(e.fn("Precision_" + f, V, V)(t)))
    return p


@contract("DecimalConverter.convert", ["DecimalConverter.__init__", "DecimalConverter.convert", "Precision.to_decimal_context", "_unwrap_annotated"],
          "P02", "P07", also=ALSO)
def decimals(c):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.core.settings import Precision, Strict
    from databind.json.converters import DecimalConverter
    e, rt = c.e, c.rt
    rt.setting_makers[Precision] = mk_precision
    rt.handle(decimal.Context, h_Context)
    rt.handle(decimal.Decimal, h_Decimal)
    hint, inner, kind = c.any_hint(ALL_KINDS)
    d = c.direction()
    v = c.value("v")
    conv = DecimalConverter(c.bool("strict_by_default"))
    ctx = c.context(v, hint, d)
    o = c.run(conv.convert, ctx)
    c.well_behaved(o)
    if kind != "class" or not e.fork(c.isa_type(inner.type, decimal.Decimal)):
        return c.prove("other types do not apply", o.raised(NotImplementedError))
    if d is Direction.SERIALIZE:
        if not e.fork(c.isa(v, decimal.Decimal)):
            return c.prove("dump: a value that is no decimal is an error", o.raised(ConversionError))
        c.cover("dumps")
        return c.prove("dump: gives the text", c.same(o.value, SV(e.fn("str", V, V)(v.t))) if o.ret else FALSE)
    key = rt.lift(ctx.key)
    strict = e.fork(c.truthy(setting_obj(rt, Strict, hint.t, key).enabled)) if e.fork(e.fn("has_Strict", V, V, Bool)(hint.t, key)) \
        else e.fork(z3.Bool("strict_by_default"))
    kinds = c.isa(v, str) if strict else OR(c.isa(v, str), c.isa(v, int), c.isa(v, float))
    n = "strict" if strict else "lenient"
    if not e.fork(kinds):
        return c.prove(f"load, {n}: values of other types are errors", o.raised(ConversionError))
    if e.fork(e.fn("has_Precision", V, V, Bool)(hint.t, key)):
        p = setting_obj(rt, Precision, hint.t, key)
        args = [rt.lift(getattr(p, f)) for f in FIELDS] + [v.t]
        name = "create_decimal"
    else:
        args, name = [v.t], "Decimal"
    c.cover(f"{n}, {name}")
    srt = [V] * len(args)
    ok = e.fn("outcome_" + name, *srt, Int)(*args) == 0
    if o.ret:
        return c.prove(f"load, {n}: gives the decimal of the value, with the precision in effect", AND(ok, c.same(o.value, SV(e.fn("result_" + name, *srt, V)(*args)))))
    c.prove(f"load, {n}: fails if the value is no decimal", AND(NOT(ok), o.raised(ConversionError)))
