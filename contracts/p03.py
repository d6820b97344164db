"""P03: CollectionConverter."""
import collections.abc
import z3
from pyvc.lib import *

FORBIDDEN = (str, bytes, bytearray, memoryview, collections.abc.Mapping)


def bases(c, inner, cand, arg):
    """Case analysis on the distinct element types that the bases of the type give: none, one (returns it) or several."""
    e = c.e
    seq = R.ENGINE().rt.call(inner.recurse_bases) if False else m_recurse_bases(inner)
    w0, w1, j = z3.Int("w0"), z3.Int("w1"), z3.Int("j!")
    b = lambda i: seq.at(i)
    case = c.choose("none", "one", "several")
    pat = [seq.at(j).t]
    if case == "none":
        c.assume(z3.ForAll([j], z3.Implies(AND(0 <= j, j < seq.n), NOT(cand(b(j)))), patterns=pat) if e.bounded is None else
                 AND([z3.Implies(i < seq.n, NOT(cand(b(z3.IntVal(i))))) for i in range(e.bounded)]))
        return case, None
    c.assume(AND(0 <= w0, w0 < seq.n, cand(b(w0))))
    if case == "several":
        c.assume(AND(0 <= w1, w1 < seq.n, cand(b(w1)), arg(b(w0)) != arg(b(w1))))
        return case, None
    c.assume(z3.ForAll([j], z3.Implies(AND(0 <= j, j < seq.n, cand(b(j))), arg(b(j)) == arg(b(w0))), patterns=pat) if e.bounded is None else
             AND([z3.Implies(AND(i < seq.n, cand(b(z3.IntVal(i)))), arg(b(z3.IntVal(i))) == arg(b(w0))) for i in range(e.bounded)]))
    return case, arg(b(w0))


@contract("CollectionConverter.convert", ["CollectionConverter.convert", "_unwrap_annotated", "Context.spawn"], "P03", also=["P19", "P20", "P24"])
def collection(c):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.json.converters import CollectionConverter
    e, rt = c.e, c.rt
    hint, inner, kind = c.any_hint(ALL_KINDS)
    d = c.direction()
    load = d is Direction.DESERIALIZE
    v = c.value("v")
    conv = CollectionConverter()
    ctx = c.context(v, hint, d)
    if kind == "class":
        T = inner.type
        c.assume(NOT(AND(c.isa_type(T, tuple), e.fn("has_annotations", V, Bool)(T.t))))     # see p09.py
        applies = AND(c.isa_type(T, collections.abc.Collection), NOT(OR([c.isa_type(T, x) for x in FORBIDDEN])))
    else:
        T, applies = tuple, z3.BoolVal(kind == "tuple")
    if not e.fork(applies):
        o = c.run(conv.convert, ctx)
        c.well_behaved(o)
        return c.prove("other types do not apply", o.raised(NotImplementedError))
    fixed = kind == "tuple" and not e.fork(e.fn("hint_repeated", V, Bool)(inner.t))
    elems = None
    item = None
    if not fixed:
        if kind == "tuple":
            inner.type
        arg0 = lambda b: e.sat(b.args.t, z3.IntVal(0))
        case, item = bases(c, inner, lambda b: AND(c.isa_type(b.type, collections.abc.Collection), e.length(b.args.t) == 1), arg0)
        if case != "one":
            o = c.run(conv.convert, ctx)
            c.well_behaved(o)
            return c.prove(f"{case} element types: an error", o.raised(ConversionError))
        item_hint = rt.lift(h_TypeHint(rt, SV(item)))
        hint_at = lambda j: item_hint
    else:
        hint_at = lambda j: e.fn("hint_item", V, Int, V)(inner.t, j)
    right = AND(c.isa(v, collections.abc.Collection), NOT(OR([c.isa(v, x) for x in FORBIDDEN]))) if load else c.isa(v, T)
    ok = e.fork(right)
    if ok:
        seq = rt.as_seq(v) if load or e.fork(c.isa(v, collections.abc.Collection)) else IdxSeq(e.length(v.t), lambda j: SV(e.sat(v.t, j)), v.t)
        n = seq.n
        if fixed:
            nt = hint_seq(rt, inner).n
            ok = e.fork(n == nt)
        c.place = lambda x: AND(c.eq(x.key, SI(x.key.t) if isinstance(x.key, SI) else x.key), c.same(x.value, seq.at(rt.int_t(x.key)))) \
            if isinstance(x.key, (SI, int)) else FALSE
    o = c.run(conv.convert, ctx)
    c.well_behaved(o)
    name = "load" if load else "dump"
    if not ok:
        return c.prove(f"{name}: a value of another kind or length is an error", o.raised(ConversionError))
    out = e.fn("conv_outcome_" + d.name, V, V, Int)
    res = lambda j: SV(e.fn("conv_" + d.name, V, V, V)(seq.at(j).t, hint_at(j)))
    made = [x for x in e.log if x[0] == "construct"]
    if not o.ret:
        x = o.value
        if isinstance(x, Fault) and made:
            return c.prove(f"{name}: an exception of the constructor is passed on", load)
        if made and isinstance(x, ConversionError) and not isinstance(x.args[0], SV):
            return c.prove(f"{name}: an error if a named tuple does not take the elements",
                           AND(z3.Int("construct_1") != 0, e.fn("has__fields", V, Bool)(T.t)))
        if not (x.args and isinstance(x.args[0], SV)):
            return c.never(f"{name}: no other error", repr(x))
        k = rt.int_t(x.context.key) if hasattr(x, "context") else rt.int_t(x.key)
        j = z3.Int("j!")
        c.cover(f"{name}: an element fails")
        kind_ok = out(seq.at(k).t, hint_at(k)) == 1 if isinstance(x, ConversionError) else out(seq.at(k).t, hint_at(k)) > 1
        return c.prove(f"{name}: fails only if an element fails", AND(
            0 <= k, k < n, out(seq.at(k).t, hint_at(k)) != 0,
            c.same(x.args[0], SV(e.fn("conv_error_" + d.name if isinstance(x, ConversionError) else "conv_leak_" + d.name, V, V, V)(seq.at(k).t, hint_at(k))))))
    c.cover(f"{name}: converts")
    r = o.value
    j = z3.Int("j!")
    if c.choose("all converted", "result") == "all converted":
        return c.prove(f"{name}: succeeds only if every element does", z3.ForAll([j], z3.Implies(AND(0 <= j, j < n), out(seq.at(j).t, hint_at(j)) == 0)))
    if load and made:
        (_, cls, args, kw) = made[-1]
        named = e.fork(e.fn("has__fields", V, Bool)(T.t)) if kind == "class" else False
        c.prove(f"{name}: only the declared type is instantiated, once", AND(len(made) == 1, c.same(cls, T), not kw))
        spread = not (len(args) == 1 and isinstance(args[0], VList))
        arg = args[0].seq if args and isinstance(args[0], StarSeq) else rt.mklist(*args) if spread else args[0]
        if c.choose("declared type", "elements") == "declared type":
            fresh = isinstance(r, SV) and str(r.t) == "constructed_1"
            failed = z3.Int("construct_1") != 0
            c.prove(f"{name}: gives an instance of the declared type, else a list", fresh if not isinstance(r, VList) else failed)
            return c.prove(f"{name}: named tuples take their elements as arguments", spread == named)
        if isinstance(r, VList):
            arg = r
    else:
        arg = r
        if load and kind == "class":
            c.prove(f"{name}: a list is made for list types only", T.t == e.const(list))
        if load and kind == "tuple":
            if isinstance(r, TupleOf):
                arg = r.l
            elif type(r) is tuple:
                arg = rt.mklist(*r)
            c.prove(f"{name}: a tuple is made", isinstance(r, (TupleOf, tuple)))
    if not isinstance(arg, VList):
        return c.never(f"{name}: the elements are a list", repr(arg))
    if not load:
        c.prove("dump: gives a list", isinstance(r, VList))
    c.log_is(f"{name}: every element is converted, in order", arg.entries, n, lambda j: [(None, res(j))])
