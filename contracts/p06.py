"""P06: DateFormat.parse and DateFormat.format, and DatetimeConverter on top of their contract."""
import datetime
import z3
from pyvc.lib import *

ALSO = ["P19", "P24"]
TYPES = {datetime.date: "date", datetime.time: "time", datetime.datetime: "datetime"}


def apply_format(rt, sv, name, where, x):
    """A formatter of nr.date (assumed): gives text, or the value, as a function of formatter and argument, or raises ValueError."""
    e = rt.e
    t = rt.lift(sv)
    if where is None:       # a built-in format: it is at the position last looked at
        where = (rt.contract.last,)
    e.log.append(("format", name, t, where, x))
    if e.fork(e.fn("outcome_" + name, V, V, Int)(t, rt.lift(x)) != 0):
        raise ValueError(name)
    kind = name.split("_")[1]
    return SV(e.fn("result_" + name, V, V, V)(t, rt.lift(x)), None)


def formats(c, kind):
    """Arbitrary formats of a DateFormat; gives the sequence and the specification of the formatters that apply to the type."""
    import nr.date
    from nr.date import format_set
    from nr.date.format_sets import ISO_8601, JAVA_OFFSET_DATETIME
    e, rt = c.e, c.rt
    cls = getattr(nr.date, kind + "_format")
    item, n = e.fn("format_at", Int, V), z3.Int("formats_n")
    c.assume(n >= 1)
    names = {".ISO_8601": ISO_8601, ".JAVA_OFFSET_DATETIME": JAVA_OFFSET_DATETIME}
    for x in names.values():
        rt.static(x)
    sub, m = e.fn(f"formats_of_{kind}", V, Int, V), e.fn(f"formats_of_{kind}_n", V, Int)

    def formatter(t, where):
        return SV(t, None, truthy=True, shape="formatter", where=where)
    for op in ("parse", "format"):
        for k in ("date", "time", "datetime"):
            name = f"{op}_{k}"
            meth = lambda rt, sv, name=name: VMethod(sv, name, lambda sv, x: apply_format(rt, sv, name, sv.x["where"], x))
            rt.shapes[("formatter", name)] = rt.shapes[("fmt", name)] = meth
            rt.handle(getattr(format_set, name), lambda rt, self, x, name=name: apply_format(rt, self, name, None, x))
    for k in ("date", "time", "datetime"):
        def members(rt, sv, k=k):
            if k != kind:
                return IdxSeq(e.fn(f"formats_of_{k}_n", V, Int)(sv.t), lambda j: formatter(e.fn(f"formats_of_{k}", V, Int, V)(sv.t, j), None))
            e.add_once(m(sv.t) >= 0)
            return IdxSeq(m(sv.t), lambda j: formatter(sub(sv.t, j), sv.x["where"] + (SI(j),)), None, lambda j: sub(sv.t, j))
        rt.shapes[("fmt", k + "_formats")] = members

    def compile_(rt, cl, text, *a):
        if a or not isinstance(text, SV):
            raise Unsupported("compile with options")
        t = rt.ext("compile_" + cl.__name__, [text], cl, (ValueError,)).t
        return formatter(t, text.x.get("where"))
    rt.handle(nr.date.date_format.compile.__func__, compile_)
    rt.shapes[("formatter", "format_str")] = rt.shapes[("fmt", "format_str")] = lambda rt, sv: SV(e.fn("format_str", V, V)(sv.t), str)

    def elem(j):
        c.last = SI(j)
        if e.fork(is_str(j)):
            return SV(item(j), str, where=(SI(j),))
        c.assume(NOT(e.subclass(e.typeof(item(j)), str)))        # no formats of subclasses of str
        return SV(item(j), None, shape="fmt", where=(SI(j),))
    is_str = lambda j: e.typeof(item(j)) == e.const(str)
    dotted = lambda j: e.fn("str_startswith1", V, V, Bool)(item(j), e.const("."))
    is_set = lambda j: e.subclass(e.typeof(item(j)), format_set)
    own = lambda j: e.typeof(item(j)) == e.const(cls)
    nm = lambda j, s: item(j) == e.const(s)

    def contributes(j, ok, stop):
        """The formatters of the j-th format satisfy ok(term); stop: holds if the format itself is an error."""
        comp = e.fn("outcome_compile_" + cls.__name__, V, Int)(item(j))
        b = z3.Int("b!")
        return AND(
            z3.Implies(AND(is_str(j), dotted(j)), AND([z3.Implies(nm(j, s), ok(e.const(x))) for s, x in names.items()] +
                                                      [z3.Implies(AND([NOT(nm(j, s)) for s in names]), stop)])),
            z3.Implies(AND(is_str(j), NOT(dotted(j))), z3.If(comp == 0, ok(e.fn("result_compile_" + cls.__name__, V, V)(item(j))), stop)),
            z3.Implies(AND(NOT(is_str(j)), own(j)), ok(item(j))),
            z3.Implies(AND(NOT(is_str(j)), NOT(own(j)), is_set(j)), z3.ForAll([b], z3.Implies(AND(0 <= b, b < m(item(j))), ok(sub(item(j), b))))))

    def before(j, k, ok):
        """ok for all formatters before position (j, k), none of the formats being an error."""
        a, b = z3.Ints("a! b!")
        fs = [z3.ForAll([a], z3.Implies(AND(0 <= a, a < j), contributes(a, ok, FALSE)))]
        if k is not None:
            fs.append(AND(is_set(j), z3.ForAll([b], z3.Implies(AND(0 <= b, b < k), ok(sub(item(j), b))))))
        return AND(fs)

    def at(w):
        """The formatter at a position (j,) or (j, k)."""
        w = [x.t for x in w]
        if len(w) == 2:
            return sub(item(w[0]), w[1]), AND(0 <= w[0], w[0] < n, NOT(is_str(w[0])), NOT(own(w[0])), is_set(w[0]), 0 <= w[1], w[1] < m(item(w[0])))
        return None, AND(0 <= w[0], w[0] < n)
    seq = IdxSeq(n, elem, None, lambda j: item(j))
    return seq, item, contributes, before, at, names


@contract("DateFormat.parse/format", ["DateFormat.parse", "DateFormat.format", "DateFormat.__iter_formats", "DateFormat.__get_builtin_format",
                                      "DateFormat._formulate_parse_error"], "P06")
def dateformat(c):
    from databind.core.settings import DateFormat
    e, rt = c.e, c.rt
    T = c.choose(*TYPES)
    kind = TYPES[T]
    seq, item, contributes, before, at, names = formats(c, kind)
    c.last = None
    f = object.__new__(DateFormat)
    f.formats = seq
    op = c.choose("parse", "format")
    if op == "parse":
        v = c.value("v", str)
        o = c.run(f.parse, T, v)
    else:
        v = c.value("v")            # of the type, or of a subclass
        c.assume(c.isa(v, T))
        for x in TYPES:             # (nothing is both a time and a date)
            if not issubclass(T, x):
                c.assume(NOT(c.isa(v, x)))
        o = c.run(f.format, v)
    name = f"{op}_{kind}"
    good = lambda t: e.fn("outcome_" + name, V, V, Int)(t, v.t) == 0
    bad = lambda t: NOT(good(t))
    if o.raised(ValueError):
        c.cover(f"{name}: fails")
        # every format fails, or one of them is an error itself and those before it fail
        j = c.last.t if c.last is not None else z3.IntVal(0)
        return c.prove(f"{name}: fails only if no applicable format takes the value", z3.Or(
            before(seq.n, None, bad), AND(0 <= j, j < seq.n, before(j, None, bad), NOT(contributes(j, lambda t: TRUE, FALSE)))))
    if not o.ret:
        return c.never(f"{name}: raises only ValueError", repr(o))
    calls = [x for x in e.log if x[0] == "format"]
    if not calls:
        return c.never(f"{name}: a formatter is asked")
    c.cover(f"{name}: succeeds")
    _, n, t, where, x = calls[-1]
    c.prove(f"{name}: the formatter is asked for the value", AND(n == name, c.same(x, v), c.same(o.value, SV(e.fn("result_" + name, V, V, V)(t, v.t)))))
    w = [x.t for x in where]
    tt, pos = at(where)
    c.prove(f"{name}: the first applicable format that takes the value is used", AND(
        pos, before(w[0], w[1] if len(w) > 1 else None, bad),
        t == tt if tt is not None else NOT(contributes(w[0], lambda y: t != y, TRUE))))


def h_dateformat(op):
    """The contract of DateFormat.parse and DateFormat.format, proved above: a value (parse: of the type), or ValueError."""
    def h(rt, f, *a):
        r = rt.ext("DateFormat_" + op, [f] + list(a), str if op == "format" else None, (ValueError,))
        if op == "parse":
            rt.e.add(rt.e.sub(rt.e.typeof(r.t), rt.lift(a[0])))
        return r
    return h


@contract("DatetimeConverter.convert", ["DatetimeConverter.convert", "_unwrap_annotated"], "P06", also=ALSO)
def datetimes(c):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.core.settings import DateFormat
    from databind.json.converters import DatetimeConverter
    e, rt = c.e, c.rt
    for op in ("parse", "format"):
        rt.handle(getattr(DateFormat, op), h_dateformat(op))
    chosen = {}

    def mk(rt, t):
        f = object.__new__(DateFormat)
        f.formats = ("chosen",)
        f._vt_ = t
        return f
    rt.setting_makers[DateFormat] = mk
    iso = DatetimeConverter.DEFAULT_DATE_FMT
    for x in (iso, DatetimeConverter.DEFAULT_TIME_FMT, DatetimeConverter.DEFAULT_DATETIME_FMT):
        rt.static(x)
        c.prove("without a setting the format is ISO 8601", tuple(x.formats) == (".ISO_8601",))
    hint, inner, kind = c.any_hint(ALL_KINDS)
    d = c.direction()
    v = c.value("v")
    ctx = c.context(v, hint, d)
    o = c.run(DatetimeConverter().convert, ctx)
    c.well_behaved(o)
    if kind != "class":
        return c.prove("other types do not apply", o.raised(NotImplementedError))
    T = rt.lift(inner.type)
    k = e.choose([T == e.const(x) for x in TYPES] + [AND([T != e.const(x) for x in TYPES])])
    if k == len(TYPES):
        return c.prove("other types do not apply", o.raised(NotImplementedError))
    T = list(TYPES)[k]
    key = rt.lift(ctx.key)
    fmts = [e.fn("the_DateFormat", V, V, V)(hint.t, key)] if e.fork(e.fn("has_DateFormat", V, V, Bool)(hint.t, key)) else \
        [e.const(x) for x in {id(x): x for x in (iso, DatetimeConverter.DEFAULT_TIME_FMT, DatetimeConverter.DEFAULT_DATETIME_FMT)}.values()]
    name = f"{'dump' if d is Direction.SERIALIZE else 'load'} {TYPES[T]}"
    if d is Direction.SERIALIZE:
        if not e.fork(c.isa(v, T)):
            return c.prove(f"{name}: a value of another type is an error", o.raised(ConversionError))
        c.cover(name)
        out = lambda f: e.fn("outcome_DateFormat_format", V, V, Int)(f, v.t)
        if o.ret:
            return c.prove(f"{name}: gives the text of the format in effect", OR([AND(out(f) == 0, c.same(o.value, SV(e.fn("result_DateFormat_format", V, V, V)(f, v.t)))) for f in fmts]))
        return c.prove(f"{name}: fails only if the format cannot express it", AND(o.raised(ConversionError), OR([out(f) != 0 for f in fmts])))
    if e.fork(c.isa(v, T)):
        c.cover(f"{name}: passed through")
        return c.prove(f"{name}: a value of the type is passed through", c.same(o.value, v) if o.ret else FALSE)
    if not e.fork(c.isa(v, str)):
        return c.prove(f"{name}: a value of another type is an error", o.raised(ConversionError))
    c.cover(name)
    out = lambda f: e.fn("outcome_DateFormat_parse", V, V, V, Int)(f, e.const(T), v.t)
    if o.ret:
        return c.prove(f"{name}: gives the value that the format in effect reads", OR([AND(out(f) == 0, c.same(o.value, SV(e.fn("result_DateFormat_parse", V, V, V, V)(f, e.const(T), v.t)))) for f in fmts]))
    c.prove(f"{name}: fails only if the format does not take the text", AND(o.raised(ConversionError), OR([out(f) != 0 for f in fmts])))
