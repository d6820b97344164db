"""P01, P02: PlainDatatypeConverter.convert against a spec function over (type of the value, target type, strictness)."""
import z3
from pyvc.lib import *

SCALARS = (bool, int, float, str, bytes)


@contract("PlainDatatypeConverter.convert", ["PlainDatatypeConverter.convert", "_int_lossless", "_bool_from_str", "_unwrap_annotated"], "P01", "P02")
def plain(c):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.core.settings import Strict
    from databind.json.converters import PlainDatatypeConverter
    e, rt = c.e, c.rt
    hint, inner, kind = c.any_hint(ALL_KINDS)
    d = c.direction()
    v = c.value("v")
    conv = PlainDatatypeConverter(c.bool("strict_by_default"))
    ctx = c.context(v, hint, d)
    o = c.run(conv.convert, ctx)

    # -- the specification
    if kind != "class":
        return c.prove("other kinds of hints do not apply", o.raised(NotImplementedError))
    target = rt.lift(inner.type)
    k = e.choose([target == e.const(s) for s in SCALARS] + [AND([target != e.const(s) for s in SCALARS])])
    if k == len(SCALARS):
        return c.prove("other types do not apply", o.raised(NotImplementedError))
    T = SCALARS[k]
    i = e.choose([c.typ(v) == e.const(s) for s in SCALARS] + [AND([c.typ(v) != e.const(s) for s in SCALARS])])
    S = SCALARS[i] if i < len(SCALARS) else None
    if d is Direction.SERIALIZE:
        strict = True
    else:
        has = e.fn("has_Strict", V, V, Bool)(hint.t, rt.lift(ctx.key))
        if e.fork(has):
            strict = e.fork(c.truthy(setting_obj(rt, Strict, hint.t, rt.lift(ctx.key)).enabled))
        else:
            strict = e.fork(z3.Bool("strict_by_default"))
    name = f"{S.__name__ if S else 'other'} -> {T.__name__} ({'dump' if d is Direction.SERIALIZE else 'load'}, {'strict' if strict else 'lenient'})"
    c.cover(name)
    spec = expected(c, v, S, T, strict, d is Direction.SERIALIZE)
    if spec is None:
        c.prove(f"{name}: is a ConversionError", o.raised(ConversionError))
        return
    ok, result = spec
    if o.raised(ConversionError):
        return c.prove(f"{name}: fails only where it must", NOT(ok))
    if not o.ret:
        return c.never(f"{name}: raises only ConversionError", repr(o))
    c.prove(f"{name}: succeeds only where it may", ok)
    c.prove(f"{name}: has the requested type", c.is_type(o.value, T if not (d is Direction.SERIALIZE and T is bytes) else str))
    c.prove(f"{name}: has the value", c.same(o.value, result))


def expected(c, v, S, T, strict, dump):
    """None: an error; else (condition for success, result)."""
    e, rt = c.e, c.rt
    yes = TRUE
    if T is bytes:
        if dump:
            return (yes, rt.opaque_str("bytes_decode", rt.ext("b64encode", [v], bytes), "ascii")) if S is bytes else None
        if S is not str:
            return None
        return e.fn("outcome_b64decode", V, Int)(v.t) == 0, SV(e.fn("result_b64decode", V, V)(v.t), bytes)
    if S is T:
        return yes, v
    if (S, T) == (int, float):
        return e.fn("outcome_float_of_int", V, Int)(v.t) == 0, SV(e.fn("result_float_of_int", V, V)(v.t), float)
    if (S, T) == (float, int):
        return rt.integral(v), SV(e.fn("result_int_of_float", V, V)(v.t), int)
    if strict:
        return None
    if (S, T) in ((str, int), (str, float)):
        n = f"{T.__name__}_of_str"
        return e.fn("outcome_" + n, V, Int)(v.t) == 0, SV(e.fn("result_" + n, V, V)(v.t), T)
    if (S, T) == (str, bool):
        low = e.fn("str_lower0", V, V)(v.t)
        t = OR([low == e.const(w) for w in ("yes", "true", "on", "enabled")])
        f = OR([low == e.const(w) for w in ("no", "false", "off", "disabled")])
        return OR(t, f), SV(z3.If(t, e.const(True), e.const(False)), bool)
    if T is str and S is int:
        return e.fn("outcome_str_of_int", V, Int)(v.t) == 0, SV(e.fn("result_str_of_int", V, V)(v.t), str)
    if T is str and S in (int, float, bool):
        return yes, SV(e.fn("str", V, V)(v.t), str)
    return None
