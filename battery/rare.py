"""Still more concrete cases for every property: what is shared between two things that look the same, and rare settings."""
import copy, itertools
from typing import Annotated
import typing_extensions as te
from databind.core import *
from databind.core import Alias, Context, DeserializeAs, ExtraKeys, Field, Flattened, Location, ObjectMapper, Precision, Remainder, Required, Schema, SerializeDefaults, Setting, Settings, Strict, Union
import databind.core.dataclasses as dbdc
from databind.core.context import format_context_trace, Direction
from databind.core.converter import Converter, Module
from databind.core.schema import convert_to_schema, get_fields_expanded
from databind.core.settings import ClassDecoratorSetting, DateFormat, Priority, get_class_setting, get_highest_setting
from databind.core.union import ChainUnionMembers, ImportUnionMembers, StaticUnionMembers
from databind.core.utils import NotSet
from databind.json import dump, dumps, get_object_mapper, load, loads
from databind.json.settings import JsonConverter
from typeapi import TypeHint
from .lib import *
import pathlib, uuid


class Carrier:
    pass


def p01(b):
    b.rules.append("values that are equal but of different types, in all orders, converted by one mapper")
    vs = [0, 0.0, -0.0, False, 1, 1.0, True, -1, -1.0, 2**53, 2.0**53, 10**22, 1e22]
    for p in itertools.permutations(vs[:7], 3):
        for T in (int, float, bool):
            for f in (load, dump):
                def want(v):
                    if T is bool:
                        return ("ok", v) if type(v) is bool else ("CE",)
                    return ("CE",) if type(v) is bool else ("ok", T(v))
                ws = [want(v) for v in p]
                b.spec(f"{f.__name__}({p!r}, List[{T.__name__}])", lambda: f(list(p), t.List[T]), ("ok", [w[1] for w in ws]) if all(w[0] == "ok" for w in ws) else ("CE",))
    for p in itertools.product(vs, repeat=2):
        for T, U in ((int, float), (float, int), (t.Any, int), (float, float), (bool, t.Any)):
            m = get_object_mapper()
            for v, X in zip(p, (T, U)):
                w = ("ok", v) if X is t.Any else (("ok", v) if type(v) is bool else ("CE",)) if X is bool else ("CE",) if type(v) is bool else ("ok", X(v))
                b.spec(f"{v!r} as {X} after {p[0]!r} as {T}", lambda: m.deserialize(v, X), w)


def p02(b):
    b.rules.append("values that are equal but of different types, in all orders, converted by one mapper, relaxed; relaxed and strict by turns")
    vs = [1, 1.0, True, 0, 0.0, -0.0, False, "1", "1.0", "True"]
    for p in itertools.permutations(vs, 3):
        b.eq(f"load({p!r}, List[str]), relaxed", lambda: load(list(p), t.List[str], settings=[Strict(False)]), [str(x) for x in p])
    for p in itertools.product([True, False], repeat=4):
        for T, v, w in ((int, "5", 5), (float, "2.5", 2.5), (bool, "on", True), (str, 5, "5"), (decimal.Decimal, 5, decimal.Decimal(5))):
            m = get_object_mapper()
            for i, strict in enumerate(p):
                b.spec(f"load({v!r}, {T.__name__}), strict: {p[:i + 1]}", lambda: m.deserialize(v, T, settings=[Strict(strict)]), ("CE",) if strict else ("ok", w))
                b.spec(f"load({v!r}, {T.__name__}), annotated, strict: {p[:i + 1]}", lambda: m.deserialize(v, Annotated[T, Strict(strict)]), ("CE",) if strict else ("ok", w))
        h = t.Tuple[tuple(Annotated[int, Strict(x)] for x in p)]
        for i in range(4):
            v = [1] * i + ["1"] + [1] * (3 - i)
            b.spec(f"load({v!r}, {h})", lambda: load(v, h), ("CE",) if p[i] else ("ok", (1,) * 4))


class TupleSub(t.Tuple[int, ...]):
    pass


class FailList(t.List[int]):
    def __init__(self, x=()):
        raise ValueError("never")


class CountList(t.List[int]):
    made = []

    def __init__(self, x=()):
        super().__init__(x)
        CountList.made.append(list(self))


class TwoElems(t.List[int], t.Collection[str]):
    pass


class FailDict(t.Dict[str, int]):
    def __init__(self, x=()):
        raise ValueError("never")


class TwoPairs(t.Dict[str, int], t.Mapping[str, str]):
    pass


def p03(b):
    b.rules.append("user-defined collection types of other kinds; containers inside containers that are the same object")
    for v in ([], [1], [1, 2], [1, 2, 3], (4, 5)):
        b.eq(f"load({v!r}, TupleSub)", lambda: load(v, TupleSub), TupleSub(v))
        b.eq(f"dump(TupleSub({v!r}))", lambda: dump(TupleSub(v), TupleSub), list(v))
        b.true(f"load({v!r}, FailList)", outcome(lambda: load(v, FailList))[0] != "ok", "an exception, not another collection", outcome(lambda: load(v, FailList)))
        CountList.made.clear()
        b.eq(f"load({v!r}, CountList)", lambda: list(load(v, CountList)), list(v))
        b.eq("... made once", lambda: list(CountList.made), [list(v)])
        for f in (load, dump):
            b.ce(f"{f.__name__}({v!r}) with two element types", lambda: f(v if f is load else TwoElems(v), TwoElems))
    x = [1, 2]
    b.eq("the same list twice", lambda: load([x, x], t.List[t.List[int]]), [[1, 2], [1, 2]])
    r = load([x, x], t.List[t.List[int]])
    b.true("... gives two lists", r[0] is not r[1] and r[0] is not x, "new lists", r)
    b.eq("the same list with two types", lambda: load([x, x], t.Tuple[t.List[int], t.Tuple[float, float]]), ([1, 2], (1.0, 2.0)))
    b.eq("... and the other way round", lambda: load([x, x], t.Tuple[t.Tuple[float, float], t.Set[int]]), ((1.0, 2.0), {1, 2}))
    for hs in itertools.product([int, float, t.Any, t.Optional[int], bool], repeat=3):
        for v in ([1, 1, 1], [None] * 3, [True, 1, 1.0]):
            ws = [outcome(lambda: load(x, h)) for x, h in zip(v, hs)]
            b.spec(f"load({v!r}, {hs})", lambda: load(v, t.Tuple[hs]), ("ok", tuple(w[1] for w in ws)) if all(w[0] == "ok" for w in ws) else ("CE",))


def p04(b):
    b.rules.append("user-defined mapping types of other kinds; mappings inside mappings that are the same object")
    for v in ({}, {"a": 1}, {"a": 1, "b": 2}):
        b.true(f"load({v!r}, FailDict)", outcome(lambda: load(v, FailDict))[0] != "ok", "an exception, not another mapping", outcome(lambda: load(v, FailDict)))
        for f in (load, dump):
            b.ce(f"{f.__name__}({v!r}) with two value types", lambda: f(v if f is load else TwoPairs(v), TwoPairs))
    x = {"a": 1}
    r = load({"p": x, "q": x}, t.Dict[str, t.Dict[str, int]])
    b.true("the same mapping twice", r == {"p": x, "q": x} and r["p"] is not r["q"] and r["p"] is not x, "two new mappings", r)
    b.eq("... with other types", lambda: load([x, x], t.Tuple[t.Dict[str, int], t.OrderedDict[str, float]]), ({"a": 1}, collections.OrderedDict(a=1.0)))


def p05(b):
    b.rules.append("several enums of the same name, in one mapper; members whose names differ in case only")
    def make(n, **aliases):
        ns = "\n".join(f"    {k}: Annotated[str, Alias(*{v!r})] = {k!r}" for k, v in aliases.items())
        g = dict(Annotated=Annotated, Alias=Alias, enum=enum, __name__=__name__)
        exec(f"class {n}(enum.Enum):\n{ns}\n    C = 'C'", g)
        return g[n]
    Es = [make("Same", A=["x"], B=["y"]), make("Same", A=["y"], B=["x"]), make("Same", A=["z", "x"], B=["y", "w"])]
    for p in itertools.permutations(Es):
        m = get_object_mapper()
        for E in p:
            i = Es.index(E)
            for text, name in {0: {"x": "A", "y": "B", "A": "A", "C": "C"}, 1: {"y": "A", "x": "B"}, 2: {"z": "A", "x": "A", "w": "B", "y": "B"}}[i].items():
                b.eq(f"load({text!r}, enum {i} of the same name)", lambda: m.deserialize(text, E), E[name])
            b.eq(f"dump of enum {i} of the same name", lambda: [m.serialize(x, E) for x in E], [["x", "y", "C"], ["y", "x", "C"], ["z", "y", "C"]][i])
            for other in Es:
                if other is not E:
                    b.ce("dump of another enum of the same name", lambda: m.serialize(other.A, E))

    class Case(enum.Enum):
        A = 1
        a: Annotated[int, Alias("aa", "A2")] = 2
        B: Annotated[int, Alias("b")] = 3
        _x: Annotated[int, Alias("x", "")] = 4
    for n in ("A", "a", "B", "_x"):
        b.eq(f"load({n!r})", lambda: load(n, Case), Case[n])
    for n, w in (("aa", Case.a), ("A2", Case.a), ("b", Case.B), ("x", Case._x), ("", Case._x)):
        b.eq(f"load({n!r})", lambda: load(n, Case), w)
    for n in ("AA", "X", "_X", "name", "value", "__class__", "__members__", "mro", "a2", " "):
        b.ce(f"load({n!r})", lambda: load(n, Case))
    b.eq("dump", lambda: [dump(x, Case) for x in Case], ["A", "aa", "b", "x"])


def p06(b):
    from nr.date import date_format, datetime_format, time_format
    b.rules.append("one DateFormat used again and again with ambiguous texts; texts with blanks and digits of other scripts")
    D = datetime.date
    texts = {"25/12/2020": (D(2020, 12, 25), None), "12/25/2020": (None, D(2020, 12, 25)), "01/02/2020": (D(2020, 2, 1), D(2020, 1, 2)), "3/4/2020": (None, None)}
    one, two = "%d/%m/%Y", "%m/%d/%Y"
    for mk in (lambda s: s, date_format.compile):
        for seq in itertools.product(["25/12/2020", "12/25/2020", "01/02/2020"], repeat=3):
            f = DateFormat(mk(one), mk(two))
            m = get_object_mapper(Settings(global_settings=[f]))
            for s in seq:
                w = texts[s][0] or texts[s][1]
                b.eq(f"{s} in {seq}", lambda: m.deserialize(s, D), w)
                b.eq(f"{s} in {seq}: dumped", lambda: m.serialize(w, D), w.strftime(one))
    for s in ("2020-01-02", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.123456Z", "2020-01-02T03:04:05+01:30", "03:04:05Z", "03:04:05.5Z", "2020-01-02T03:04:05", "03:04:05", "03:04:05+02:00"):
        for v in (s, s + " ", " " + s, s + "\n", s + "\u00a0", "\u2003" + s, s + "\u200b", s.replace("2", "\u0662"), s.replace("0", "\uff10"), s.lower(), s.replace("-", "\u2212"), s.replace("T", " "), s + "x", s[:-1], s + "\0"):
            for T in (datetime.date, datetime.time, datetime.datetime):
                try:
                    w = "ok", DateFormat(".ISO_8601").parse(T, v)
                except ValueError:
                    w = "CE",
                b.spec(f"load({v!r}, {T.__name__})", lambda: load(v, T), w)
                if w[0] == "ok":
                    b.true(f"load({v!r}, {T.__name__}): time zone", type(getattr(load(v, T), "tzinfo", None)) is type(getattr(w[1], "tzinfo", None)), type(getattr(w[1], "tzinfo", None)), load(v, T))
    utc = datetime.timezone.utc
    for tz in (None, utc, datetime.timezone(datetime.timedelta(hours=1)), datetime.timezone(datetime.timedelta(hours=-3, minutes=-30))):
        for us in (0, 1, 1000, 500000, 999999):
            for f in (".ISO_8601", ".JAVA_OFFSET_DATETIME"):
                for x in (datetime.datetime(2020, 2, 29, 23, 59, 59, us, tz), datetime.datetime(2020, 1, 1, 0, 0, 0, us, tz), datetime.time(12, 0, 1, us, tz), datetime.time(0, 0, 0, us, tz)):
                    try:
                        w = "ok", DateFormat(f).format(x)
                    except ValueError:
                        w = "CE",
                    b.spec(f"dump({x!r}) in {f}", lambda: dump(x, type(x), settings=[DateFormat(f)] if f != ".ISO_8601" else None), w)


def p07(b):
    b.rules.append("odd decimal contexts and paths; several values by one mapper")
    for n, vs in {"prec": (1, 2, 28, 50), "rounding": (decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_HALF_EVEN, decimal.ROUND_05UP), "Emin": (0, -1, -999), "Emax": (0, 1, 999), "capitals": (0, 1, False, True), "clamp": (0, 1, False, True)}.items():
        for v in vs:
            c, d = Precision(**{n: v}).to_decimal_context(), decimal.Context(**{n: v})
            b.eq(f"Precision({n}={v!r})", lambda: [getattr(c, x) for x in ("prec", "rounding", "Emin", "Emax", "capitals", "clamp")], [getattr(d, x) for x in ("prec", "rounding", "Emin", "Emax", "capitals", "clamp")])
    ds = [decimal.Decimal(x) for x in ("0", "-0", "0.0", "0E+5", "0E-9", "1E+3", "1000", "1.0", "1.00", "1E-7", "12E+5", "-1E+30", "NaN", "-NaN", "Infinity", "123456789012345678901234567890.123")]
    for d in ds:
        b.eq(f"dump({d!r})", lambda: dump(d, decimal.Decimal), str(d))
        b.eq(f"load({str(d)!r}, Decimal)", lambda: load(str(d), decimal.Decimal), d)
        b.eq(f"dump({d!r}), precision", lambda: dump(d, decimal.Decimal, settings=[Precision(3)]), str(d))
    for p in itertools.permutations([Precision(1), Precision(2), Precision(3), None], 3):
        m = get_object_mapper()
        for x in p:
            w = (x.to_decimal_context().create_decimal if x else decimal.Decimal)("1.2345")
            b.eq(f"load('1.2345', {x}) in {p}", lambda: m.deserialize("1.2345", decimal.Decimal, settings=[x] if x else None), w)
    for P in (pathlib.PurePath, pathlib.Path, pathlib.PurePosixPath, pathlib.PosixPath, pathlib.PureWindowsPath):
        for s in ("", ".", "a", "a/b", "/", "//a", "a//b/", "./a", "../a", "~", "C:\\x", "a b", "a\nb", "\u00e9", "a/./b", "a/../b"):
            b.eq(f"load({s!r}, {P.__name__})", lambda: load(s, P), P(s))
            b.eq(f"dump({P.__name__}({s!r}))", lambda: dump(P(s), P), str(P(s)))
        for o in ("x", b"x", None, 1, uuid.UUID(int=1)):
            b.ce(f"dump({o!r}, {P.__name__})", lambda: dump(o, P))
    b.ce("dump of a pure path as a path", lambda: dump(pathlib.PurePosixPath("a"), pathlib.Path))
    b.ce("dump of a windows path as a posix path", lambda: dump(pathlib.PureWindowsPath("a"), pathlib.PurePosixPath))


def p08(b):
    b.rules.append("marker objects and containers as values")
    marks = [NotSet.Value, dataclasses.MISSING, Ellipsis, NotImplemented, Context.ROOT, type(None), None, (), (None,), [None], frozenset(), 0, "", b"", False, float("nan")]
    for v in marks:
        for h in (t.Any, object, Annotated[t.Any, 1], Annotated[object, "x"]):
            for f in (load, dump):
                b.true(f"{f.__name__}({v!r}, {h})", outcome(lambda: f(v, h))[1] is v, f"{v!r} itself", outcome(lambda: f(v, h)))
        for T in (int, str, t.List[int], Plain, decimal.Decimal, datetime.date):
            for f in (load, dump):
                w = outcome(lambda: f(v, T))
                b.spec(f"{f.__name__}({v!r}, Optional[{T}])", lambda: f(v, t.Optional[T]), ("ok", None) if v is None else ("ok", w[1]) if w[0] == "ok" else ("CE",))
    for lits in ((1, 2), ("a", ""), (None, "x"), (True,), (0, "0"), (b"x", 1)):
        for v in marks + [1, 2, "a", "x", "0", b"x", True, 1.0, 2.0, [], {}]:
            for f in (load, dump):
                b.spec(f"{f.__name__}({v!r}, Literal{list(lits)})", lambda: f(v, t.Literal[lits]), ("ok", v) if v in lits else ("CE",))


@dataclasses.dataclass
class Nothing_:
    pass


@dataclasses.dataclass
class KwDefaults:
    a: int = dataclasses.field(kw_only=True)
    b: int = dataclasses.field(default=None, kw_only=True)
    c: int = dataclasses.field(default=0, kw_only=True)
    d: t.List[int] = dataclasses.field(default_factory=list, kw_only=True)
    e: t.Optional[int] = dataclasses.field(kw_only=True)


def p09(b):
    b.rules.append("keyword-only fields with every kind of default; several types of the same name in one mapper; schemas that change with the settings")
    for ks in itertools.chain.from_iterable(itertools.combinations("bcde", n) for n in range(5)):
        p = {"a": 1, **{k: {"d": [3]}.get(k, 7) for k in ks}}
        b.eq(f"load({p!r}, KwDefaults)", lambda: load(p, KwDefaults), KwDefaults(**{"e": None, **p}))
        b.ce(f"load({p!r} without a, KwDefaults)", lambda: load({k: v for k, v in p.items() if k != "a"}, KwDefaults))
    def make(x):
        @dataclasses.dataclass
        class Same:
            a: Annotated[int, Alias(x)] = 0
            b: t.Optional[int] = None
        return Same
    Ts = [make("x"), make("y"), make("a"), make("b2")]
    for p in itertools.permutations(Ts, 3):
        m = get_object_mapper()
        for T in p:
            x = ["x", "y", "a", "b2"][Ts.index(T)]
            b.eq(f"the type whose alias is {x}", lambda: m.deserialize({x: 5, "b": 6}, T), T(5, 6))
            b.eq(f"... dumped", lambda: m.serialize(T(5, 6), T), {x: 5, "b": 6})
    for order in itertools.permutations(["k1", "k2", None]):
        m = get_object_mapper()
        for k in order:
            s = Settings(m.settings)
            if k:
                s.add_conditional(lambda c: c.key == "a", Alias(k, priority=Priority.HIGH))
            b.eq(f"alias {k} of {order}", lambda: m.deserialize({k or "x": 5}, Ts[0], settings=s), Ts[0](5))


def p10(b):
    b.rules.append("types without fields, and payloads of odd keys")
    keys = [None, 0, 1.5, True, (), ("a",), b"a", "", "a", frozenset()]
    class TD0(te.TypedDict):
        pass
    for T in (Nothing_, TD0):
        b.eq(f"load({{}}, {T.__name__})", lambda: load({}, T), T())
        for k in keys:
            for v in (None, 0, 1, "", {}, []):
                b.ce(f"load({{{k!r}: {v!r}}}, {T.__name__})", lambda: load({k: v}, T))
                b.eq(f"load({{{k!r}: {v!r}}}, {T.__name__}), extra keys allowed", lambda: load({k: v}, Annotated[T, ExtraKeys()]), T())
    @dataclasses.dataclass
    class Rest:
        a: int
        rest: Annotated[t.Dict[t.Any, t.Any], Remainder()]
    for ks in itertools.combinations(keys, 2):
        p = {k: None for k in ks} | {"a": 1}
        b.eq(f"the rest of {p!r}", lambda: load(p, Rest), Rest(1, {k: v for k, v in p.items() if k != "a"}))
        seen = []
        b.eq(f"... recorded", lambda: load(p, Nothing_, settings=[ExtraKeys(recorder=lambda ctx, keys: seen.append(set(keys)))]), Nothing_())
        b.eq("... all of them", lambda: list(seen), [set(p)])


class Loud:
    """Equal to what is equal, but of other truth."""

    def __init__(self, v, truth):
        self.v, self.truth = v, truth

    def __eq__(self, o):
        return isinstance(o, Loud) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __bool__(self):
        return self.truth


def p11(b):
    b.rules.append("defaults that are equal to the value but of another truth or type, left out exactly if equal")
    for d in (0, 0.0, False, "", None, (), [], {}, Loud(1, True), Loud(1, False), 1, True, 1.0, "a", frozenset(), set()):
        @dataclasses.dataclass
        class T:
            a: t.Any = dataclasses.field(default_factory=lambda: d)
            b: t.Any = 1
        for v in (0, 0.0, False, "", None, (), [], {}, Loud(1, True), Loud(1, False), Loud(2, True), 1, True, 1.0, "a", frozenset(), set()):
            w = {"b": 2}
            if v != d:
                w = {"a": v, **w}
            b.eq(f"dump of {v!r} with default {d!r}", lambda: dump(T(v, 2), T, settings=[SerializeDefaults(False)]), w)
            b.eq(f"... with defaults", lambda: dump(T(v, 2), T), {"a": v, "b": 2})


def p12(b):
    b.rules.append("fields of the same name as sub-fields of optional, defaulted and required kinds")
    for kind in ("required", "default", "optional"):
        for inner in ("required", "default", "optional"):
            mk = lambda k: {"required": (int,), "default": (int, dataclasses.field(default=1)), "optional": (t.Optional[int], dataclasses.field(default=None))}[k]
            I = dataclasses.make_dataclass("I", [("x", *mk(inner))], kw_only=True)
            for clash in (True, False):
                O = dataclasses.make_dataclass("O", [("x" if clash else "y", *mk(kind)), ("i", Annotated[I, Flattened()])], kw_only=True)
                O2 = dataclasses.make_dataclass("O2", [("i", Annotated[I, Flattened()]), ("x" if clash else "y", *mk(kind))], kw_only=True)
                for X in (O, O2):
                    p = {"x": 5} if clash else {"x": 5, "y": 6}
                    if clash:
                        o = outcome(lambda: load(p, X))
                        b.true(f"clash of a {inner} sub-field with a {kind} field", o[0] != "ok", "an error", o)
                    else:
                        b.eq(f"a {inner} sub-field next to a {kind} field", lambda: load(p, X), X(y=6, i=I(x=5)))


def p13(b):
    b.rules.append("keys named like the defaults of other keys; ids that differ in case or blanks only")
    @dataclasses.dataclass
    class A:
        x: int = 0
    @dataclasses.dataclass
    class B_:
        x: int = 0
    names = ["type", "kind", "a", "A", "a ", " a", "", "value", "x2"]
    for ia, ib in itertools.permutations(["a", "A", "a ", "", "type", "value"], 2):
        for dk, nk in itertools.permutations(names, 2):
            U = Union({ia: A, ib: B_}, Union.NESTED, dk, nk)
            w = {dk: ia, nk or ia: {"x": 1}}
            if len(w) < 2:
                continue
            b.eq(f"dump {ia, ib, dk, nk}", lambda: dump(A(1), Annotated[Carrier, U]), w)
            b.eq(f"load {w}", lambda: load(w, Annotated[Carrier, U]), A(1))
        for style in (Union.KEYED, Union.FLAT, Union.NESTED):
            U = Union({ia: A, ib: B_}, style, "kind")
            for T, i in ((A, ia), (B_, ib)):
                w = {"kind": i, "x": 3} if style == Union.FLAT else {i: {"x": 3}} if style == Union.KEYED else {"kind": i, i: {"x": 3}}
                b.eq(f"dump {ia, ib, style}", lambda: dump(T(3), Annotated[Carrier, U]), w)
                b.eq(f"load {w}", lambda: load(w, Annotated[Carrier, U]), T(3))


def p14(b):
    b.rules.append("members that differ in the case of their ids only; members that fail with other exceptions")
    for ids in itertools.permutations(["a", "A", "B", "b"]):
        for Ts in itertools.permutations([int, float, str, t.Any]):
            h = Annotated[Carrier, Union(dict(zip(ids, Ts)), Union.BEST_MATCH)]
            for v in (1, 1.0, "x", None):
                for f in (load, dump):
                    w = next((o[1] for o in (outcome(lambda: f(v, T)) for T in Ts) if o[0] == "ok"))
                    b.eq(f"{f.__name__}({v!r}) as {ids} {Ts}", lambda: f(v, h), w)
    for E in (TypeError, ValueError, KeyError, AttributeError, RuntimeError, AssertionError, StopIteration, LookupError, OSError, RecursionError):
        class Bad(Converter):
            def convert(self, ctx):
                raise E("from a converter")
        for ms in ({"bad": Annotated[Carrier, JsonConverter(Bad())], "any": t.Any}, {"int": int, "bad": Annotated[Carrier, JsonConverter(Bad())], "any": t.Any}):
            for f in (load, dump):
                b.exc(f"{f.__name__} with a member that raises {E.__name__}", lambda: f("x", Annotated[Carrier, Union(ms, Union.BEST_MATCH)]), E)


def p15(b):
    b.rules.append("ids that differ in case or blanks only; ids that were removed or replaced")
    Ts = [type(n, (), {}) for n in "PQRS"]
    for ids in itertools.permutations(["a", "A", "a ", ""]):
        m = StaticUnionMembers(dict(zip(ids, Ts)))
        b.eq(f"types of {ids}", lambda: [m.get_type_by_id(i) for i in ids], Ts)
        b.eq(f"ids of {ids}", lambda: [m.get_type_id(T) for T in Ts], list(ids))
        b.eq("all ids", m.get_type_ids, list(ids))
        x = ids[0]
        del m.members[x]
        b.exc(f"removed {x!r}", lambda: m.get_type_by_id(x), ValueError)
        b.exc(f"removed {x!r}: its type", lambda: m.get_type_id(Ts[0]), ValueError)
        m.members[x] = Ts[3]
        b.eq(f"another type as {x!r}", lambda: m.get_type_by_id(x), Ts[3])
        b.eq("... whose first id counts", lambda: m.get_type_id(Ts[3]), ids[3])
        b.eq("... the ids in order", m.get_type_ids, list(ids[1:]) + [x])


def p16(b):
    b.rules.append("copies with settings for every kind of type; class settings of different priority")
    for T in (object, int, list, dict, Carrier, str, type(None), enum.Enum, Exception, bool):
        s = Settings()
        s.add_local(T, Alias("for this"))
        c = s.copy()
        for q in (s, c, Settings(s), Settings(c)):
            for U in (object, int, list, dict, Carrier, str, bool):
                ctx = Context(None, Direction.SERIALIZE, None, TypeHint(U), q, Context.ROOT, Location.EMPTY, lambda x: None)
                b.eq(f"setting for {T} of {U}", lambda: getattr(ctx.get_setting(Alias), "aliases", None), ("for this",) if T is U else None)


class Deco(ClassDecoratorSetting):
    def __init__(self, n, priority):
        super().__init__()
        self.n, self.priority = n, priority


def p17(b):
    b.rules.append("several settings of different priority on one class")
    for ps in itertools.product(Priority, repeat=3):
        X = type("X", (), {})
        ds = [Deco(i, p) for i, p in enumerate(ps)]
        for d in ds:
            b.true("the class is returned", d(X) is X)
        best = max(ds, key=lambda d: d.priority)
        b.true(f"the first one of the highest priority {ps}", get_class_setting(X, Deco) is best, best.n, getattr(get_class_setting(X, Deco), "n", None))
        Y = type("Y", (X,), {})
        b.true("not of a subclass", get_class_setting(Y, Deco) is None)
    for ps in itertools.product(Priority, repeat=2):
        us = [Union({}, Union.FLAT), Union({}, Union.KEYED)]
        for u, p in zip(us, ps):
            u.priority = p
        X = us[1](us[0](type("X", (), {})))
        Y = Union.register(X, "y")(type("Y", (X,), {}))
        i = 0 if ps[0] >= ps[1] else 1
        b.true(f"registered in the union that applies {ps}", us[i].members.members == {"y": Y} and us[1 - i].members.members == {}, i, [u.members.members for u in us])


def p18(b):
    b.rules.append("aggregated errors are complete and in order, also of equal converters")
    class Fail(Converter):
        def __init__(self, n):
            self.n = n

        def __eq__(self, o):
            return isinstance(o, Fail)

        def __hash__(self):
            return 1

        def convert(self, ctx):
            raise ConversionError(self, ctx, "same message")
    for n in range(2, 6):
        m = Module("m")
        fs = [Fail(i) for i in range(n)]
        for f in fs:
            m.register(f)
        mp = ObjectMapper(Settings())
        mp.module.register(m)
        o = outcome(lambda: mp.serialize(1, int))
        b.true(f"{n} equal errors", o[0] == "CE" and [c.n for c, _ in o[1].errors] == list(range(n)), list(range(n)), o)
    # modules inside modules in every arrangement
    for k in itertools.product(range(3), repeat=4):
        class Ok(Converter):
            def __init__(self, n):
                self.n = n

            def convert(self, ctx):
                if ctx.value == self.n:
                    return self.n
                asked.append(self.n)
                raise NotImplementedError
        asked = []
        mp = ObjectMapper(Settings())
        mods = [mp.module, Module("x"), Module("y")]
        mp.module.register(mods[1])
        mods[1].register(mods[2])
        for i, j in enumerate(k):
            mods[j].register(Ok(i))
        def flat(j):
            own = [i for i, x in enumerate(k) if x == j]
            return (flat(j + 1) if j < 2 else []) + own
        order = flat(0)
        for v in range(4):
            asked.clear()
            b.eq(f"{v} of {k}", lambda: mp.serialize(v, int), v)
            b.eq("... asked before", lambda: list(asked), order[:order.index(v)])


def p19(b):
    b.rules.append("error messages about odd values")
    class BadRepr:
        pass
    for ms in ((1, 2), (None,), (b"x",), (True, "a"), (Color.R,)):
        for v in (3, "q", None, [], {}, 1.5, b"y", Plain(), (1,), float("nan"), Color.G):
            for f in (load, dump):
                b.spec(f"{f.__name__}({v!r}, Literal{list(ms)})", lambda: f(v, t.Literal[ms]), ("ok", v) if v in ms else ("CE",))
    for p in ({1: 2, 3: 4}, {None: 1, "a": 2}, {(): 1, b"": 2}, {1.5: 1, True: 2}, {}, {1: 1}, {None: {}}, {("a",): {}}):
        for style in (Union.KEYED, Union.FLAT, Union.NESTED):
            b.ce(f"load({p!r}) as a {style} union", lambda: load(p, Annotated[Carrier, Union({"a": Nothing_}, style)]))
        b.true("str of the error", isinstance(str(outcome(lambda: load(p, Annotated[Carrier, Union({"a": Nothing_}, Union.KEYED)]))[1]), str))


class Color(enum.Enum):
    R = 1
    G = 2


def p20(b):
    b.rules.append("long and odd chains of contexts")
    for n in (1, 2, 10, 49, 50, 51, 99, 100, 101, 300):
        ctx = None
        names = []
        for i in range(n):
            name = ["f", "f", "g", None, "g", ""][i % 6]
            ctx = Context(ctx, Direction.SERIALIZE, i, TypeHint(int if i % 2 else str), Settings(), Context.ROOT if i == 0 else ["k", i, None, 1.5][i % 4], Location(name, None, None), lambda c: None)
            names.append(name)
        lines = format_context_trace(ctx).split("\n")
        body = [l for l in lines if not l.startswith("In ")]
        want = ["$" if i == 0 else [".k", f"[{i}]", "^", "[1.5]"][i % 4] for i in range(n)]
        b.eq(f"trace of {n} contexts", lambda: [l.strip().split(": ")[0] for l in body], want)
        b.eq("... types", lambda: [l.split(": ", 1)[1] for l in body], [str(TypeHint(int if i % 2 else str)) for i in range(n)])
        prev, heads = None, []
        for i in range(n):
            if names[i] is not None and names[i] != prev:
                heads.append(i + len(heads))
                prev = names[i]
        b.eq("... file names", lambda: [i for i, l in enumerate(lines) if l.startswith("In ")], heads)
    class Fail(Converter):
        def convert(self, ctx):
            raise ConversionError(self, ctx, "failed")
    for h, v, path in ((t.List[t.Dict[str, t.List[t.Any]]], [{"a": [0, 1, 2]}], None),):
        b.eq("any", lambda: load(v, h), v)
    H = Annotated[Carrier, JsonConverter(Fail())]
    def chain(exc):
        r, c = [], exc.context
        while c is not None:
            r.append(c.key)
            c = c.parent
        return r[::-1]
    for k in ("a", "", None, 0, 1, True, 1.5, (), "a.b", b"x"):
        for f in (load, dump):
            o = outcome(lambda: f({k: {}}, t.Dict[t.Any, H]))
            b.true(f"{f.__name__}: key {k!r}", o[0] == "CE" and same(chain(o[1]), [Context.ROOT, k]) or chain(o[1])[1] is k, [k], o[0] == "CE" and chain(o[1]))


def p21(b):
    b.rules.append("keyword-only fields and fields of every kind of default")
    s = convert_to_schema(TypeHint(KwDefaults))
    b.eq("fields", lambda: list(s.fields), list("abcde"))
    b.eq("required", lambda: [f.required for f in s.fields.values()], [True, False, False, False, False])
    b.eq("defaults", lambda: [s.fields[k].get_default() for k in "bcde"], [None, 0, [], None])
    b.eq("has defaults", lambda: [s.fields[k].has_default() for k in "abcde"], [False, True, True, True, True])
    for kw in (True, False):
        for d in (None, 0, "", False, (), NotImplemented, ..., float("nan")):
            for T in (int, t.Optional[int], Annotated[int, Required()], Annotated[int, Required(False)], Annotated[t.Optional[int], Required()]):
                X = dataclasses.make_dataclass("X", [("a", T, dataclasses.field(default=d))], kw_only=kw)
                f = convert_to_schema(TypeHint(X)).fields["a"]
                b.true(f"default {d!r} of {T}, kw_only={kw}", f.has_default() and f.get_default() is d and f.required == (T in (Annotated[int, Required()], Annotated[t.Optional[int], Required()])), d, f)


def p22(b):
    b.rules.append("falsy defaults in typed dicts; deep inheritance")
    for d in (None, 0, "", False, (), [], {}, 0.0):
        for T in (int, t.Optional[int], Annotated[int, Required()], Annotated[t.Any, 1]):
            g = dict(te=te, T=T, d=d, __name__=__name__)
            X = te.TypedDict("X", {"a": T, "b": int})
            X.a = d
            f = convert_to_schema(TypeHint(X)).fields["a"]
            b.true(f"default {d!r} of {T}", f.default is d and f.required == (T == Annotated[int, Required()]), d, f)
    class A(te.TypedDict):
        a: int
    class B_(A, total=False):
        b: str
    class C_(B_):
        c: t.Optional[int]
    class D_(C_, total=False):
        d: t.List[int]
    s = convert_to_schema(TypeHint(D_))
    b.eq("keys", lambda: sorted(s.fields), ["a", "b", "c", "d"])
    b.eq("required", lambda: {k: f.required for k, f in s.fields.items()}, {"a": True, "b": False, "c": False, "d": False})
    b.eq("types", lambda: {k: str(f.datatype) for k, f in s.fields.items()}, {"a": str(TypeHint(int)), "b": str(TypeHint(str)), "c": str(TypeHint(t.Optional[int])), "d": str(TypeHint(t.List[int]))})


def p23(b):
    b.rules.append("several init-only variables with and without defaults; metadata that already has the key")
    for n in range(1, 4):
        for defaults in itertools.product([True, False], repeat=n):
            ns = {"__annotations__": {}, "__module__": __name__}
            for i, d in enumerate(defaults):
                ns["__annotations__"][f"v{i}"] = dataclasses.InitVar[int]
                if d:
                    ns[f"v{i}"] = i
            got = []
            ns["__post_init__"] = lambda self, *a: got.append(a)
            X = dbdc.dataclass(type("X", (), ns))
            for given in itertools.product([True, False], repeat=n):
                kw = {f"v{i}": 10 + i for i, g in enumerate(given) if g}
                got.clear()
                ok = all(d or g for d, g in zip(defaults, given))
                if ok:
                    b.true(f"init-only variables {defaults} given {kw}", outcome(lambda: X(**kw))[0] == "ok" and got == [tuple(10 + i if g else i for i, g in enumerate(given))], "their values", got)
                else:
                    b.exc(f"init-only variables {defaults} given {kw}", lambda: X(**kw), TypeError)
    K = dbdc.ANNOTATIONS_METADATA_KEY
    for meta in (None, {}, {"x": 1}, {K: ["old"]}, types.MappingProxyType({K: ["old"], "x": 1})):
        for ann in (["new"], [1, 2], [Alias("a")]):
            f = dbdc.field(annotations=ann, metadata=meta, default=1)
            b.eq(f"annotations {ann!r} with metadata {meta!r}", lambda: list(f.metadata[K]), ann)
            b.eq("... the rest", lambda: {k: v for k, v in f.metadata.items() if k != K}, {k: v for k, v in (meta or {}).items() if k != K})
    class AnyEq:
        def __eq__(self, o):
            return True
        __hash__ = None
    @dbdc.dataclass
    class E:
        a: t.Any = 1
        b: t.Any
    v = AnyEq()
    b.true("a value that equals everything", outcome(lambda: E(b=v).b)[1] is v, "accepted", outcome(lambda: E(b=v)))
    class NoEq:
        def __eq__(self, o):
            raise RuntimeError("no")
        __hash__ = None
    w = NoEq()
    b.true("a value that compares with nothing", outcome(lambda: E(b=w).b)[1] is w, "accepted")


def p24(b):
    b.rules.append("copies of settings with any number of entries; lists of settings that change between calls; setting objects stay as they are")
    for n in range(5):
        for kind in ("global", "local", "provider", "conditional"):
            def add(q, v, kind=kind):
                {"global": lambda: q.add_global(v), "local": lambda: q.add_local(int, v), "provider": lambda: q.add_provider(lambda c: [v]), "conditional": lambda: q.add_conditional(lambda c: True, v)}[kind]()
            s = Settings()
            for _ in range(n):
                add(s, Strict(True))
            c = s.copy()
            add(s, Strict(False, Priority.HIGH))
            b.eq(f"{kind}, {n} before: the original", lambda: get_object_mapper(s).deserialize("5", int), 5)
            b.ce(f"{kind}, {n} before: the copy", lambda: get_object_mapper(c).deserialize("5", int))
            c2 = s.copy()
            add(c2, Strict(True, Priority.ULTIMATE))
            b.ce(f"{kind}, {n} before: a copy that is changed", lambda: get_object_mapper(c2).deserialize("5", int))
            b.eq(f"{kind}, {n} before: ... not the original", lambda: get_object_mapper(s).deserialize("5", int), 5)
    m = get_object_mapper()
    lst = []
    for i, (x, w) in enumerate([(Strict(False), ("ok", 5)), (Strict(True, Priority.HIGH), ("CE",)), (Strict(False, Priority.ULTIMATE), ("ok", 5))]):
        lst.append(x)
        b.spec(f"settings changed between calls, {i}", lambda: m.deserialize("5", int, settings=lst), w)
    lst.clear()
    b.ce("settings removed between calls", lambda: m.deserialize("5", int, settings=lst))
    @dataclasses.dataclass
    class T:
        a: int = 0
    for mk in (lambda: ExtraKeys(), lambda: Union({"T": T}, Union.KEYED), lambda: JsonConverter(lambda: Carrier)):
        x = mk()
        before = {k: v for k, v in vars(x).items()}
        h = Annotated[T, x]
        for v in ({"a": 1}, {"T": {"a": 1}}, 5):
            outcome(lambda: load(v, h))
            outcome(lambda: dump(T(1), h))
            outcome(lambda: convert_to_schema(TypeHint(h)))
        b.true("a setting stays as it is", vars(x) == before and x.bound_to is None, before, vars(x))
        b.true("... so it may decorate a class", outcome(lambda: x(type("Q", (), {})))[0] == "ok")


def p25(b):
    b.rules.append("what json cannot encode is an error of json")
    for v in ({(1, 2): 3}, {"a": {b"x": 1}}, [{frozenset(): 1}], {"a": {1, 2}}, [object()], {"x": b"y"}):
        try:
            json.dumps(v)
            raise AssertionError
        except TypeError:
            pass
        b.exc(f"dumps({v!r}, Any)", lambda: dumps(v, t.Any), TypeError)
    for v in ({1: 2}, {None: 1}, {True: 1}, {1.5: 1}, [float("inf")], [float("nan")], "\ud800", "\u00e9\u2028", {"b": 1, "a": {"d": 1, "c": [{"f": 1, "e": 2}]}}):
        for kw in ({}, {"indent": 2}, {"indent": 0}, {"indent": "\t"}, {"indent": 2, "sort_keys": True}, {"sort_keys": True}):
            b.eq(f"dumps({v!r}, Any, {kw})", lambda: dumps(v, t.Any, **kw), json.dumps(v, **kw))
