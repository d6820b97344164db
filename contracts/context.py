"""P20: contexts and their traces."""
import z3
from pyvc.lib import *


@contract("Context.spawn", ["Context.spawn", "Context.__post_init__", "Context.convert"], "P20")
def spawn(c):
    from databind.core.context import Context, Location
    e, rt = c.e, c.rt
    p = c.context(c.value("v0"), c.hint("hint0", "any"), c.direction())
    v, key = c.value("v"), c.value("key")
    dt = c.hint("hint", "any") if c.choose("a hint", "a type") == "a hint" else type_sv(z3.Const("type", V))
    loc = None if c.choose("no location", "location") == "no location" else c.protect(object.__new__(Location), "the location")
    o = c.run(p.spawn, v, dt, key, loc) if loc is not None or c.choose("passed", "left out") == "passed" else c.run(p.spawn, v, dt, key)
    if not o.ret or not isinstance(o.value, Context):
        return c.never("gives a context", repr(o))
    n = o.value
    want = dt.t if dt.x.get("shape") == "hint" else e.fn("TypeHint_of", V, V)(dt.t)
    c.prove("is a child of the context", n is not p and n.parent is p)
    c.prove("has the value, type and key given", AND(c.same(n.value, v), rt.lift(n.datatype) == want, c.same(n.key, key)))
    c.prove("inherits direction, settings and dispatcher", n.direction is p.direction and n.settings is p.settings and n.convert_func is p.convert_func)
    if loc is not None:
        return c.prove("has the location given", n.location is loc)
    c.prove("inherits the file name", c.same(n.location.filename, p.location.filename))
    c.prove("but not line and column", AND(c.same(n.location.line, None), c.same(n.location.column, None)))


def chain(c):
    """The contexts from a given one up to the root: an arbitrary number of them."""
    e, rt = c.e, c.rt
    down, n = e.fn("down", Int, V), z3.Int("depth")
    c.assume(n >= 1)

    def ctx(j):
        return SV(down(z3.simplify(n - 1 - j)), None, truthy=True, shape="ctx")

    def loc(rt, x):
        return SV(e.fn("ctx_location", V, V)(x.t), None, truthy=True, shape="location")
    rt.shapes[("ctx", "location")] = loc
    rt.shapes[("ctx", "key")] = lambda rt, x: SV(e.fn("ctx_key", V, V)(x.t))
    rt.shapes[("ctx", "datatype")] = lambda rt, x: hint_sv(rt, e.fn("ctx_datatype", V, V)(x.t), "any")
    for a in ("line", "column"):
        rt.shapes[("location", a)] = lambda rt, x, a=a: SV(e.fn("loc_" + a, V, V)(x.t))

    def filename(rt, x):
        t = e.fn("loc_filename", V, V)(x.t)
        return None if e.fork(t == e.const(None)) else SV(t, str)
    rt.shapes[("location", "filename")] = filename
    return IdxSeq(n, ctx, None, lambda j: ctx(j).t)


@contract("format_context_trace", ["format_context_trace"], "P20", weak_paths=True)
def trace(c):
    from databind.core.context import Context, Root, format_context_trace
    e, rt = c.e, c.rt
    seq = chain(c)
    n, asked = seq.n, []

    def up(x):
        asked.append(x)
        return seq
    c.stub(Context.iter_hierarchy_up, up)
    leaf = seq.at(z3.IntVal(0))
    rt.shapes[("ctx", "iter_hierarchy_up")] = lambda rt, x: VMethod(x, "iter_hierarchy_up", up)
    o = c.run(format_context_trace, leaf)
    if not o.ret:
        return c.never("does not fail", repr(o))
    j = o.value.x.get("joined") if isinstance(o.value, SV) else None
    if j is None or len(asked) != 1 or asked[0] is not leaf:
        raise Unsupported("a trace that is put together in another way")
    c.prove("has one line for each", j[0] == "\n")
    none = e.const(None)
    fn = lambda j: e.fn("loc_filename", V, V)(e.fn("ctx_location", V, V)(seq.at(n - 1 - j).t))

    def line(x, f):
        if not isinstance(x, SV) and not isinstance(x, str):
            raise Unsupported("a line that is no text")
        if any(isinstance(p, str) and "\n" in p for p in (rt.text_parts(x.t) if isinstance(x, SV) else [x])):
            raise Unsupported("several lines at once")
        return f(x)

    def emit(j):
        ctx = seq.at(n - 1 - j)
        key = rt.shapes[("ctx", "key")](rt, ctx)
        at = e.choose([key.t == e.const(Root.Value), key.t == none, AND(key.t != e.const(Root.Value), key.t != none)])

        def of_key(x):
            c.cover(["root", "same place", "place"][at])
            fs = [c.mentions(x, SV(e.fn("ctx_datatype", V, V)(ctx.t)))]
            if at == 2:
                fs.append(c.mentions(x, key))
            return AND(fs)
        lines = [(None, lambda x: line(x, of_key))]
        if not e.fork(fn(j) != none):
            return lines
        i = z3.Int("i!")
        before = e.fresh("before", Int)
        case = e.choose([z3.ForAll([i], z3.Implies(AND(0 <= i, i < j), fn(i) == none), patterns=[seq.at(n - 1 - i).t]),
                         AND(0 <= before, before < j, fn(before) != none,
                             z3.ForAll([i], z3.Implies(AND(before < i, i < j), fn(i) == none), patterns=[seq.at(n - 1 - i).t]))])
        if case == 1:
            c.look_at(before)
        if case == 1 and e.fork(fn(before) == fn(j)):
            c.cover("same file")
            return lines
        c.cover("first file" if case == 0 else "another file")
        return [(None, lambda x: line(x, lambda x: c.mentions(x, SV(fn(j), str))))] + lines
    c.log_is("a line per context, from the root on, after the file name if that changes", j[1].entries, n, emit)
