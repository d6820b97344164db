"""P08: OptionalConverter, LiteralConverter, AnyConverter."""
import typing
import z3
from pyvc.lib import *

ALSO = ["P19", "P20", "P24"]


@contract("AnyConverter.convert", ["AnyConverter.convert", "_unwrap_annotated"], "P08", also=["P19", "P24"])
def any_(c):
    from databind.json.converters import AnyConverter
    e, rt = c.e, c.rt
    hint, inner, kind = c.any_hint(ALL_KINDS)
    v = c.value("v")
    ctx = c.context(v, hint, c.direction())
    o = c.run(AnyConverter().convert, ctx)
    c.well_behaved(o)
    T = rt.lift(inner.type) if kind == "class" else None
    c.cover("applies") if o.ret else None
    if kind == "class" and e.fork(OR(T == e.const(object), T == e.const(typing.Any))):
        return c.prove("Any and object pass the value through", c.same(o.value, v) if o.ret else FALSE)
    c.prove("other types do not apply", o.raised(NotImplementedError))


@contract("LiteralConverter.convert", ["LiteralConverter.convert", "_unwrap_annotated"], "P08", also=["P19", "P24"])
def literal(c):
    from databind.core.converter import ConversionError
    from databind.json.converters import LiteralConverter
    e, rt = c.e, c.rt
    hint, inner, kind = c.any_hint(ALL_KINDS)
    v = c.value("v")
    ctx = c.context(v, hint, c.direction())
    o = c.run(LiteralConverter().convert, ctx)
    c.well_behaved(o)
    if kind != "literal":
        return c.prove("other types do not apply", o.raised(NotImplementedError))
    listed = c.tobool(rt.contains(inner.values, v))
    if o.ret:
        c.cover("accepts")
        return c.prove("accepts listed values only, unchanged", AND(listed, c.same(o.value, v)))
    c.cover("rejects")
    c.prove("rejects exactly the values that are not listed", AND(NOT(listed), o.raised(ConversionError)))


@contract("OptionalConverter.convert", ["OptionalConverter.convert", "_unwrap_annotated", "Context.spawn"], "P08", also=ALSO)
def optional(c):
    from databind.core.converter import ConversionError
    from databind.json.converters import OptionalConverter
    e, rt = c.e, c.rt
    hint, inner, kind = c.any_hint(ALL_KINDS)
    d = c.direction()
    v = c.value("v")
    ctx = c.context(v, hint, d)
    c.place = lambda x: AND(x.key is None, c.same(x.value, v))
    o = c.run(OptionalConverter().convert, ctx)
    c.well_behaved(o)
    if kind != "union" or not e.fork(e.fn("hint_has_none", V, Bool)(inner.t)):
        return c.prove("other types do not apply", o.raised(NotImplementedError))
    if e.fork(c.same(v, None)):
        c.cover("None")
        return c.prove("None is converted to None without consulting the inner type", AND(o.ret, c.same(o.value, None), not c.calls) if o.ret else FALSE)
    c.cover("not None")
    c.prove("any other value is converted as the inner type, once", AND(c.converted(o, d, v.t, e.fn("hint_without_none", V, V)(inner.t)), len(c.calls) == 1))
