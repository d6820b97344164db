"""P04: MappingConverter."""
import collections.abc
import z3
from pyvc.lib import *
from contracts.p03 import bases

Mapping = collections.abc.Mapping


@contract("MappingConverter.convert", ["MappingConverter.convert", "_unwrap_annotated", "Context.spawn"], "P04", also=["P19", "P20", "P24"])
def mapping(c):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.json.converters import MappingConverter
    e, rt = c.e, c.rt
    hint, inner, kind = c.any_hint(ALL_KINDS)
    d = c.direction()
    load = d is Direction.DESERIALIZE
    v = c.value("v")
    conv = MappingConverter()
    ctx = c.context(v, hint, d)
    if kind == "class":
        T = inner.type
        applies = AND(c.isa_type(T, Mapping), NOT(e.fn("is_typed_dict", V, Bool)(T.t)))
    else:
        applies = FALSE
    if not e.fork(applies):
        o = c.run(conv.convert, ctx)
        c.well_behaved(o)
        return c.prove("other types do not apply", o.raised(NotImplementedError))
    case, args = bases(c, inner, lambda b: AND(c.isa_type(b.type, Mapping), e.length(b.args.t) == 2), lambda b: b.args.t)
    name = "load" if load else "dump"
    if case != "one":
        o = c.run(conv.convert, ctx)
        c.well_behaved(o)
        return c.prove(f"{case} key and value types: an error", o.raised(ConversionError))
    for i in (0, 1):        # typeapi: the arguments of a class hint are types and not hints
        c.assume(NOT(e.sub(e.typeof(e.sat(args, z3.IntVal(i))), e.const(typeapi().TypeHint))))
    kh = rt.lift(h_TypeHint(rt, SV(e.sat(args, z3.IntVal(0)))))
    vh = rt.lift(h_TypeHint(rt, SV(e.sat(args, z3.IntVal(1)))))
    if not e.fork(c.isa(v, Mapping)):
        o = c.run(conv.convert, ctx)
        c.well_behaved(o)
        return c.prove(f"{name}: a value that is not a mapping is an error", o.raised(ConversionError))
    ks = rt.keys_seq(v)
    n = ks.n
    out = e.fn("conv_outcome_" + d.name, V, V, Int)
    res = lambda t, h: SV(e.fn("conv_" + d.name, V, V, V)(t, h))
    vt = lambda j: rt.val_of(v, ks.at(j)).t

    def place(x):
        # the value is converted in the place named by its key; the key itself in a place that is named after it
        if c.e.fork(c.same(x.datatype, SV(vh))):
            return AND(e.has(v.t, rt.lift(x.key)), c.same(x.value, rt.val_of(v, x.key)))
        return AND(e.has(v.t, x.value.t), c.mentions(x.key, x.value))
    c.assume(kh != vh) if c.mine("P20") else None
    c.place = place
    o = c.run(conv.convert, ctx)
    c.well_behaved(o)
    made = [x for x in e.log if x[0] == "construct"]
    if not o.ret:
        x = o.value
        if isinstance(x, Fault) and made:
            return c.prove(f"{name}: an exception of the constructor is passed on", load)
        if not (x.args and isinstance(x.args[0], SV)):
            return c.never(f"{name}: no other error", repr(x))
        c.cover(f"{name}: an entry fails")
        # the failed sub-conversion is that of a key of the mapping, or of the value under it
        s, h = c.failed
        err = e.fn(("conv_error_" if isinstance(x, ConversionError) else "conv_leak_") + d.name, V, V, V)
        return c.prove(f"{name}: fails only if a key or value fails", AND(
            c.same(x.args[0], SV(err(s, h))), out(s, h) != 0, OR(
                AND(h == kh, e.has(v.t, s)), AND(h == vh, s == rt.val_of(v, SV(c.failed_key)).t, e.has(v.t, c.failed_key))
                if c.failed_key is not None else FALSE)))
    c.cover(f"{name}: converts")
    r = o.value
    part = c.choose("all converted", "result", "type")
    if part == "all converted":
        j = z3.Int("j!")
        return c.prove(f"{name}: succeeds only if every key and value does", z3.ForAll([j], z3.Implies(
            AND(0 <= j, j < n), AND(out(ks.at(j).t, kh) == 0, out(vt(j), vh) == 0))))
    arg = r
    if load and made:
        (_, cls, args, kw) = made[-1]
        ok = AND(len(made) == 1, c.same(cls, T), not kw, len(args) == 1)
        if part == "type":
            c.prove(f"{name}: only the declared type is instantiated, once", ok)
            fresh = isinstance(r, SV) and str(r.t) == "constructed_1"
            return c.prove(f"{name}: gives an instance of the declared type, else a dict", fresh if not isinstance(r, VDict) else z3.Int("construct_1") != 0)
        if len(args) != 1:
            return
        arg = args[0]
    elif part == "type":
        return c.prove(f"{name}: gives a dict", AND(isinstance(r, VDict), T.t == e.const(dict) if load else TRUE))
    if not isinstance(arg, VDict):
        return c.never(f"{name}: the entries are a dict", repr(arg))
    c.log_is(f"{name}: every entry is converted", arg.entries, n, lambda j: [(res(ks.at(j).t, kh), res(vt(j), vh))])
