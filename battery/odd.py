"""More concrete cases for every property: odd texts, keys, names, sizes and histories."""
import base64, copy, itertools
from typing import Annotated
import typing_extensions as te
from databind.core import *
from databind.core import Alias, Context, DeserializeAs, ExtraKeys, Field, Flattened, Location, ObjectMapper, Precision, Remainder, Required, Schema, SerializeDefaults, Setting, Settings, Strict, Union
import databind.core.dataclasses as dbdc
from databind.core.converter import Converter, Module
from databind.core.schema import convert_to_schema
from databind.core.settings import Priority, get_highest_setting
from databind.core.union import ChainUnionMembers, ImportUnionMembers, StaticUnionMembers
from databind.json import dump, dumps, get_object_mapper, load, loads
from databind.json.converters import SchemaConverter
from databind.json.settings import JsonConverter
from typeapi import ClassTypeHint, TypeHint
from .lib import *
import pathlib, uuid

TEXTS = ["", " ", "a", "a ", " a", "\ta\n", "a\0", "\0", "\0\0a\0", "A", "~", "~/x", "$HOME", "${x}", ".", "..", "./a", "a/..", "a//b", "//a", "a/", "%s", "%d", "100%", "{}", "{0}", "{x}", "\\", "\\n", "'", '"', "a,b", "a;b",
         "ß", "ẞ", "İ", "ı", "é", "e\u0301", "\u200b", "\ufeffa", "\u2028", "\U0001f600", "null", "None", "true", "nan", "1", "-1", "0x10", "010", "1_0", "1,000", "1.", ".5", "+5", "1e5", "٣", "x" * 300, "a\r\nb", "<a>", "!x", "<import>",
         "__x__", "__init__", "_", "_x", "x_", "$ref", "@type", "type", "self", "cls", "keys", "items", "class", "a.b", "a-b", "a b", "#"]


class Upper(Converter):
    """Dumps text of str fields in another way, so that it shows whether a value was converted."""

    def serialize(self, ctx):
        if not isinstance(ctx.value, str):
            raise NotImplementedError
        return "<" + ctx.value

    def deserialize(self, ctx):
        if not isinstance(ctx.value, str) or not ctx.value.startswith("<"):
            raise NotImplementedError
        return ctx.value[1:]


def p01(b):
    b.rules.append("texts of every kind and bytes of every length, in both directions")
    for s in TEXTS:
        for h in (str, t.Any, t.Optional[str], Annotated[str, 1]):
            b.eq(f"load({s!r}, {h})", lambda: load(s, h), s)
            b.eq(f"dump({s!r}, {h})", lambda: dump(s, h), s)
        for T in (int, float, bool):
            b.ce(f"load({s!r}, {T.__name__})", lambda: load(s, T))
            b.ce(f"dump({s!r}, {T.__name__})", lambda: dump(s, T))
    for n in list(range(0, 70)) + [75, 76, 77, 100, 255, 256, 257, 1000, 5000]:
        for v in (bytes(i % 256 for i in range(n)), b"\xff" * n, b"\0" * n):
            w = base64.b64encode(v).decode()
            b.eq(f"dump of {n} bytes", lambda: dump(v, bytes), w)
            b.eq(f"load of {n} bytes", lambda: load(w, bytes), v)
    for k in range(0, 1100, 7):
        for d in (-1, 0, 1):
            i = 2**k + d
            b.eq(f"load(2**{k}{d:+}, int)", lambda: load(i, int), i)
            b.eq(f"dump(-2**{k}{d:+}, int)", lambda: dump(-i, int), -i)
            try:
                f = float(i)
            except OverflowError:
                b.ce(f"load(2**{k}{d:+}, float)", lambda: load(i, float))
                continue
            b.eq(f"load(2**{k}{d:+}, float)", lambda: load(i, float), f)
            b.eq(f"load(float(2**{k}{d:+}), int)", lambda: load(f, int), int(f))
            b.eq(f"load(float(2**-{k}), float)", lambda: load(2.0**-k, float), 2.0**-k)
            if k:
                b.ce(f"load(float(2**-{k}), int)", lambda: load(2.0**-k, int))
    for x in (0.1, 1 / 3, 1e-300, 5e-324, 1.7976931348623157e308, 1 + 2**-52, 1 - 2**-53, 1e9 + 1e-6, 123456.000001, -0.5, -1e-12, 2**52 + .5):
        b.eq(f"load({x!r}, float)", lambda: load(x, float), x)
        b.eq(f"dump({x!r}, float)", lambda: dump(x, float), x)
        b.ce(f"load({x!r}, int)", lambda: load(x, int)) if x % 1 else b.eq(f"load({x!r}, int)", lambda: load(x, int), int(x))


def p02(b):
    b.rules.append("texts of every kind against the meaning of the text, relaxed")
    lax = [Strict(False)]
    def meaning(T, s):
        try:
            return "ok", T(s)
        except (ValueError, OverflowError):
            return "CE",
    for s in TEXTS + [f(w) for w in ("yes", "no", "on", "off", "true", "false", "enabled", "disabled", "y", "n", "t", "f", "ok", "oui", "enable", "disable", "1", "0") for f in (str, str.upper, str.title, lambda x: x + " ", lambda x: " " + x, lambda x: x[:-1], lambda x: x + "s", lambda x: "\n" + x, lambda x: x + "\0")]:
        b.spec(f"load({s!r}, int), relaxed", lambda: load(s, int, settings=lax), meaning(int, s))
        b.spec(f"load({s!r}, float), relaxed", lambda: load(s, float, settings=lax), meaning(float, s))
        v = s.lower()
        b.spec(f"load({s!r}, bool), relaxed", lambda: load(s, bool, settings=lax), ("ok", True) if v in ("yes", "true", "on", "enabled") else ("ok", False) if v in ("no", "false", "off", "disabled") else ("CE",))
        b.eq(f"load({s!r}, str), relaxed", lambda: load(s, str, settings=lax), s)
        b.eq(f"dump({s!r}, str), relaxed", lambda: dump(s, str, settings=lax), s)
        for T in (int, float, bool):
            b.ce(f"dump({s!r}, {T.__name__}), relaxed", lambda: dump(s, T, settings=lax))
    for v in (0, 1, -1, 10**30, True, False, 0.1, 1e16, 1e22, -0.0, 1e-7, 123456789.123456789, float("inf"), 2.0, 1 / 3):
        b.eq(f"load({v!r}, str), relaxed", lambda: load(v, str, settings=lax), str(v))
        if not isinstance(v, bool):
            b.eq(f"load({v!r}, Decimal), relaxed", lambda: load(v, decimal.Decimal, settings=lax), decimal.Decimal(v))
            b.ce(f"load({v!r}, Decimal)", lambda: load(v, decimal.Decimal))
        b.ce(f"load({v!r}, bytes), relaxed", lambda: load(v, bytes, settings=lax))
        if type(v) is not bool:
            b.ce(f"load({v!r}, bool), relaxed", lambda: load(v, bool, settings=lax))
    for T in (int, float):
        for v in (True, False):
            b.ce(f"load({v!r}, {T.__name__}), relaxed", lambda: load(v, T, settings=lax))


def p03(b):
    b.rules.append("long collections; elements whose conversion depends on how often it is done")
    for n in (0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 3000):
        for h, mk in ((t.List[int], list), (t.Tuple[int, ...], tuple), (t.Deque[int], collections.deque), (t.Set[int], set), (t.FrozenSet[int], frozenset), (t.Sequence[int], list), (t.Collection[int], list)):
            v = mk(range(n, 0, -1))
            w = list(v)
            b.eq(f"load of {n} items, {h}", lambda: load(w, h), v)
            b.eq(f"dump of {n} items, {h}", lambda: dump(v, h), w)
    asked = []

    class Once(Converter):
        def convert(self, ctx):
            asked.append((ctx.value, ctx.key))
            return (ctx.value, len(asked))
    for n in (0, 1, 2, 5, 40):
        for h, kind in ((t.List[Annotated[int, JsonConverter(Once())]], list), (t.Tuple[Annotated[int, JsonConverter(Once())], ...], tuple), (t.Sequence[Annotated[int, JsonConverter(Once())]], list)):
            for f in (load, dump):
                for src in (7, None):
                    p = kind([src if src is not None else i // 2 for i in range(n)])
                    asked.clear()
                    b.eq(f"{f.__name__} of {p!r} as {h}: order", lambda: list(f(p, h)), [(x, i + 1) for i, x in enumerate(p)])
                    b.eq("... each once", lambda: list(asked), [(x, i) for i, x in enumerate(p)])
    for n in range(0, 6):
        h = t.Tuple[(int,) * n] if n else t.Tuple[()]
        for k in range(0, 9):
            p = list(range(k))
            for q in (p, tuple(p), collections.deque(p)):
                b.spec(f"load({q!r}, {h})", lambda: load(q, h), ("ok", tuple(p)) if k == n else ("CE",))
            b.spec(f"dump({tuple(p)!r}, {h})", lambda: dump(tuple(p), h), ("ok", p) if k == n else ("CE",))
            b.ce(f"dump({p!r}, {h})", lambda: dump(p, h))
    for bad in ("", "ab", b"ab", bytearray(b"ab"), memoryview(b"ab"), {}, {"a": 1}, {1: 1}, types.MappingProxyType({}), collections.ChainMap(), collections.Counter([1]), collections.UserDict(), None, 0, 1.5, iter([1]), (x for x in [1]), map(int, []), object(), int, Plain()):
        for h in (t.List[int], t.Tuple[int, ...], t.Tuple[int], t.Tuple[()], t.Set[int], t.Deque[int], t.Sequence[int], t.Collection[int], t.FrozenSet[int], t.List[t.Any], t.List[str], Annotated[t.List[int], 1]):
            b.ce(f"load({show(bad)}, {h})", lambda: load(bad, h))
            if not isinstance(bad, (str, bytes, bytearray, memoryview, collections.abc.Collection)):
                b.ce(f"dump({show(bad)}, {h})", lambda: dump(bad, h))
    for h, good in ((t.List[int], list), (t.Tuple[int, ...], tuple), (t.Set[int], set), (t.FrozenSet[int], frozenset), (t.Deque[int], collections.deque)):
        for other in (list, tuple, set, frozenset, collections.deque, lambda x: {1: 1}, lambda x: "1", lambda x: range(2), lambda x: {1: 1}.keys()):
            v = other([1])
            b.spec(f"dump({show(v)}, {h})", lambda: dump(v, h), ("ok", [1]) if isinstance(v, good) else ("CE",))


class Carrier:
    pass


class NoneKey(Converter):
    def convert(self, ctx):
        return None if ctx.value == "-" else ctx.value


def p04(b):
    b.rules.append("keys of every kind, texts of every kind as keys, big mappings, keys that are converted to None or false values")
    p = {s: i for i, s in enumerate(TEXTS)}
    for h in (t.Dict[str, int], t.Mapping[str, int], t.OrderedDict[str, int], t.MutableMapping[str, t.Optional[int]], Annotated[t.Dict[str, int], 1], t.Dict[t.Optional[str], int], t.Dict[t.Any, t.Any]):
        mk = collections.OrderedDict if h == t.OrderedDict[str, int] else dict
        b.eq(f"load of all texts, {h}", lambda: load(p, h), mk(p))
        b.eq(f"dump of all texts, {h}", lambda: dump(mk(p), h), p)
    b.eq("load a key None", lambda: load({None: 1, "a": 2}, t.Dict[t.Optional[str], int]), {None: 1, "a": 2})
    b.eq("dump a key None", lambda: dump({None: 1, "a": 2}, t.Dict[t.Optional[str], int]), {None: 1, "a": 2})
    K = Annotated[str, JsonConverter(NoneKey())]
    for f in (load, dump):
        b.eq(f"{f.__name__} a key that is converted to None", lambda: f({"-": 1, "b": 2}, t.Dict[K, int]), {None: 1, "b": 2})
        b.eq(f"{f.__name__} a value that is converted to None", lambda: f({"a": "-", "b": "x"}, t.Dict[str, K]), {"a": None, "b": "x"})
    for k, T in ((0, int), (False, bool), ("", str), (0.0, float), (None, t.Any), ((), t.Any), (frozenset(), t.Any), (1, t.Union[int, str]), ("1", t.Union[int, str])):
        for v in (0, None, "", [], False):
            b.eq(f"load {{{k!r}: {v!r}}}", lambda: load({k: v}, t.Dict[T, t.Any]), {k: v})
            b.eq(f"dump {{{k!r}: {v!r}}}", lambda: dump({k: v}, t.Dict[T, t.Any]), {k: v})
    for n in (0, 1, 10, 100, 1000, 2000):
        q = {f"k{i}": i for i in range(n)}
        b.eq(f"load {n} entries", lambda: load(q, t.Dict[str, int]), q)
        b.eq(f"dump {n} entries", lambda: dump(q, t.Dict[str, int]), q)
        b.eq(f"order of {n} entries", lambda: list(load(q, t.OrderedDict[str, int]).items()), list(q.items()))
    for bad in (None, [], [("a", 1)], (("a", 1),), "a", b"a", 1, {"a"}, Plain(), object(), types.SimpleNamespace(items=lambda: [("a", 1)]), iter({}), {}.items(), [["a", 1]], collections.namedtuple("Q", "a")(1), dict):
        for h in (t.Dict[str, int], t.Mapping[str, int], t.OrderedDict[str, int]):
            b.ce(f"load({show(bad)}, {h})", lambda: load(bad, h))
            b.ce(f"dump({show(bad)}, {h})", lambda: dump(bad, h))


class Many(enum.Enum):
    one = "ONE"
    ONE: Annotated[str, Alias("uno", "One")] = "one"
    two: Annotated[str, Alias("2")] = "II"
    deux = "II"
    three = 3
    empty: Annotated[str, Alias("")] = ""
    spaced: Annotated[int, Alias("a b", " c")] = 5
    _under = 6
    long: Annotated[str, Alias("l", "ll", "lll", "llll", "lllll")] = "lo"


class Sized(enum.IntEnum):
    a = 1
    b = 0
    c = -5
    d = 10**20
    e = 1


def p05(b):
    b.rules.append("members with synonyms, odd aliases and names that differ in case only; values in place of names")
    wires = {Many.one: "one", Many.ONE: "uno", Many.two: "2", Many.three: "three", Many.empty: "", Many.spaced: "a b", Many.long: "l"}
    names = {"one": Many.one, "ONE": Many.ONE, "uno": Many.ONE, "One": Many.ONE, "two": Many.two, "2": Many.two, "deux": Many.two, "three": Many.three, "empty": Many.empty, "": Many.empty, "spaced": Many.spaced,
             "a b": Many.spaced, " c": Many.spaced, "_under": Many._under, "long": Many.long, "l": Many.long, "ll": Many.long, "lll": Many.long, "llll": Many.long, "lllll": Many.long}
    for m, w in wires.items():
        b.eq(f"dump({m})", lambda: dump(m, Many), w)
        b.eq(f"load(dump({m}))", lambda: load(dump(m, Many), Many), m)
        b.eq(f"in a list: {m}", lambda: load(dump([m, m], t.List[Many]), t.List[Many]), [m, m])
    for s in TEXTS + list(names) + ["II", "lo", "llllll", "Uno", "UNO", "oNE", "Two", "TWO", "a", "b", "c", "ab", "a b ", " a b", "5", "3", "u", "un", "name", "value", "mro", "_value_", "__class__", "__members__", "Many.one", "Many.two"]:
        b.spec(f"load({s!r}, Many)", lambda: load(s, Many), ("ok", names[s]) if s in names else ("CE",))
    for v in (3, 5, None, 3.0, ["one"], ("one",), {"one": 1}, b"one", Many.one, Sized.a, True):
        b.ce(f"load({v!r}, Many)", lambda: load(v, Many))
    for v in ("one", "ONE", "II", 3, None, Sized.a, 5, Many, object()):
        b.ce(f"dump({v!r}, Many)", lambda: dump(v, Many))
    for m in Sized:
        b.eq(f"dump({m!r})", lambda: dump(m, Sized), int(m))
        b.eq(f"load({int(m)})", lambda: load(int(m), Sized), m)
    for v in (2, -1, 10**21, "a", "1", 1.0, 0.0, None, [1], "A", b"\x01"):
        b.ce(f"load({v!r}, Sized)", lambda: load(v, Sized))
    for v in (1, 0, "a", True, Many.one, None):
        b.ce(f"dump({v!r}, Sized)", lambda: dump(v, Sized))


def p06(b):
    b.rules.append("formats that are shared by several types in one process, in changing order")
    D, T, DT = datetime.date(2021, 3, 4), datetime.time(5, 6, 7), datetime.datetime(2021, 3, 4, 5, 6, 7)
    both = DateFormat("%Y-%m-%d %H:%M:%S", "%Y/%m/%d", "%H.%M.%S")
    for order in itertools.permutations([(datetime.date, D), (datetime.time, T), (datetime.datetime, DT)]):
        for typ, v in order:
            o = outcome(lambda: dump(v, typ, settings=[both]))
            if b.true(f"dump({v!r}) in one of several formats", o[0] in ("ok", "CE"), "", show_out(o)) and o[0] == "ok":
                b.eq(f"load({o[1]!r}, {typ.__name__})", lambda: load(o[1], typ, settings=[both]), v) if typ is not datetime.date or "/" in o[1] else None
    for fmt, typ, v, w in (("%Y/%m/%d", datetime.date, D, "2021/03/04"), ("%H.%M.%S", datetime.time, T, "05.06.07"), ("%d.%m.%Y %H:%M:%S", datetime.datetime, DT, "04.03.2021 05:06:07"), ("%Y%m%d", datetime.date, D, "20210304")):
        for k in range(3):
            s = DateFormat(*(["%Y"] * 0 + [fmt]))
            for f in (lambda: dump(v, Annotated[typ, s]), lambda: dump(v, typ, settings=[s]), lambda: dump([v], t.List[typ], settings=[s])[0]):
                b.eq(f"dump({v!r}) as {fmt}", f, w)
            for f in (lambda: load(w, Annotated[typ, s]), lambda: load(w, typ, settings=[s]), lambda: load([w], t.List[typ], settings=[s])[0]):
                b.eq(f"load({w!r}) as {fmt}", f, v)
            b.ce("the default format is not tried as well", lambda: load(v.isoformat(), typ, settings=[s]))
    for s in TEXTS:
        for typ in (datetime.date, datetime.time, datetime.datetime):
            b.ce(f"load({s!r}, {typ.__name__})", lambda: load(s, typ))
    for v in (D, T, DT):
        for typ in (datetime.date, datetime.time, datetime.datetime):
            if not isinstance(v, typ):
                b.ce(f"dump({v!r}, {typ.__name__})", lambda: dump(v, typ))
                b.ce(f"load({v!r}, {typ.__name__})", lambda: load(v, typ))
            elif type(v) is typ:
                b.true(f"load({v!r}, {typ.__name__})", outcome(lambda: load(v, typ))[1] is v, "the value itself")


def p07(b):
    b.rules.append("texts of every kind as paths, durations and UUIDs; every way of writing decimals")
    for s in TEXTS:
        for P in (pathlib.PurePath, pathlib.PurePosixPath, pathlib.PureWindowsPath, pathlib.Path, pathlib.PosixPath):
            b.eq(f"load({s!r}, {P.__name__})", lambda: load(s, P), P(s))
            b.eq(f"dump({P.__name__}({s!r}))", lambda: dump(P(s), P), str(P(s)))
        b.ce(f"load({s!r}, UUID)", lambda: load(s, uuid.UUID))
    for P, Q in itertools.permutations([pathlib.PurePosixPath("a"), pathlib.PureWindowsPath("a"), pathlib.Path("a"), "a", uuid.UUID(int=1), decimal.Decimal(1)], 2):
        if not isinstance(P, type(Q)):
            h = type(Q)
            if h is not str:
                b.ce(f"dump({P!r}, {h.__name__})", lambda: dump(P, h))
                if not isinstance(P, str):
                    b.ce(f"load({P!r}, {h.__name__})", lambda: load(P, h))
    for i in (0, 1, 2**64, 2**128 - 1, 0x0123456789ABCDEF0123456789ABCDEF):
        u = uuid.UUID(int=i)
        b.eq(f"dump({u!r})", lambda: dump(u, uuid.UUID), str(u))
        for w in (str(u), u.hex, u.urn, str(u).upper(), "{" + str(u) + "}"):
            b.eq(f"load({w!r}, UUID)", lambda: load(w, uuid.UUID), u)
        for w in (str(u)[:-1], str(u) + "0", u.int, u.bytes, str(u).replace("0", "g")):
            b.ce(f"load({w!r}, UUID)", lambda: load(w, uuid.UUID)) if w != str(u) else None
    Dec = decimal.Decimal
    for s in ("0", "-0", "1.50", "1E+5", "1e5", "1E-50", ".5", "5.", "+1", "Infinity", "-inf", "NaN", "1_000.5", "٣.٤", "00012", "1" * 60, "0.1" + "0" * 40):
        b.eq(f"load({s!r}, Decimal)", lambda: str(load(s, Dec)), str(Dec(s)))
        b.eq(f"dump(Decimal({s!r}))", lambda: dump(Dec(s), Dec), str(Dec(s)))
        for P in (Precision(prec=2), Precision(prec=3, rounding=decimal.ROUND_UP), Precision(prec=40)):
            b.eq(f"dump(Decimal({s!r})) with {P}", lambda: dump(Dec(s), Dec, settings=[P]), str(Dec(s)))
            o = outcome(lambda: P.to_decimal_context().create_decimal(s))
            b.spec(f"load({s!r}, Decimal) with {P}", lambda: str(load(s, Dec, settings=[P])), ("ok", str(o[1])) if o[0] == "ok" else ("CE",))
            b.spec(f"load({s!r}, Annotated[Decimal]) with {P}", lambda: str(load(s, Annotated[Dec, P])), ("ok", str(o[1])) if o[0] == "ok" else ("CE",))
    for P in (Precision(prec=2), Precision(prec=3, rounding=decimal.ROUND_UP)):
        for v in (123456, 1.23456, -7, 0.1):
            b.eq(f"load({v!r}, Decimal) relaxed with {P}", lambda: str(load(v, Dec, settings=[P, Strict(False)])), str(P.to_decimal_context().create_decimal(v)))
    for s in ("", " ", "a", "1,5", "1 5", "0x1", "1.2.3", "--1", "e5", "\0"):
        b.ce(f"load({s!r}, Decimal)", lambda: load(s, Dec))


def p08(b):
    b.rules.append("values of every kind through Any, literals of every kind, optionals of every supported type")
    for v in JSONISH + ODD:
        for h in (t.Any, object, Annotated[t.Any, 1], Annotated[object, 1], t.Optional[t.Any]):
            for f in (load, dump):
                o = outcome(lambda: f(v, h))
                b.true(f"{f.__name__}({show(v)}, {h})", o[0] == "ok" and o[1] is v, "the value itself", show_out(o))
        for f in (load, dump):
            o = outcome(lambda: f([v], t.List[t.Any]))
            b.true(f"{f.__name__}([{show(v)}], List[Any])", o[0] == "ok" and o[1][0] is v, "the value itself", show_out(o))
            b.ce(f"{f.__name__}({show(v)}, Literal['@@', 77])", lambda: f(v, t.Literal["@@", 77]))
    for s in TEXTS:
        L = t.Literal["a", "x y", "type", "%s", "", "{}"]
        for f in (load, dump):
            b.spec(f"{f.__name__}({s!r}, {L})", lambda: f(s, L), ("ok", s) if s in ("a", "x y", "type", "%s", "", "{}") else ("CE",))
    L = t.Literal[1, "1", None, 2, b"x", -3]
    for v in (1, "1", None, 2, b"x", -3):
        for f in (load, dump):
            b.eq(f"{f.__name__}({v!r}, {L})", lambda: f(v, L), v)
            b.eq(f"{f.__name__}([{v!r}], List[Optional])", lambda: f([v, None], t.List[t.Optional[L]]), [v, None])
    for v in (3, "2", "-3", "x", "None", 0, "", [], {}, {"a": 1}, [1], (1,), {1}, 1.5, float("nan"), "11", object()):
        for f in (load, dump):
            b.ce(f"{f.__name__}({show(v)}, {L})", lambda: f(v, L))
    for T, w, v in ((int, 1, 1), (str, "", ""), (bool, False, False), (t.List[int], [], []), (t.Dict[str, int], {}, {}), (t.Tuple[()], [], ()), (float, 0.0, 0.0), (bytes, "", b""), (decimal.Decimal, "0", decimal.Decimal(0)), (Many, "", Many.empty),
                    (Sized, 0, Sized.b), (datetime.time, "00:00:00.0", None), (t.Union[int, str], "x", "x"), (t.Literal[0, ""], 0, 0), (t.Set[int], [], set())):
        for h in (t.Optional[T], t.Union[None, T], Annotated[t.Optional[T], 1], t.Optional[Annotated[T, 1]], t.Optional[t.Optional[T]]):
            b.eq(f"load(None, {h})", lambda: load(None, h), None)
            b.eq(f"dump(None, {h})", lambda: dump(None, h), None)
            if v is not None:
                b.eq(f"load({w!r}, {h})", lambda: load(w, h), v)
                b.eq(f"dump({v!r}, {h})", lambda: dump(v, h), w)


def p09(b):
    b.rules.append("odd texts as aliases, payloads with None, false and missing values, defaults that are false, fresh factory values on every use of a field")
    for i, s in enumerate(TEXTS):
        if not s:
            continue
        K = dataclasses.make_dataclass("K9", [("v", Annotated[t.Optional[int], Alias(s)], 5), ("w", Annotated[int, Alias(s + "2", s + "3")], 6)])
        for p, e in (({}, K()), ({s: 1}, K(1)), ({s: None}, K(None)), ({s + "3": 0, s: 0}, K(0, 0)), ({s + "2": 1}, K(5, 1))):
            b.eq(f"load({p!r})", lambda: load(p, K), e)
        b.ce(f"load with the name, alias {s!r}", lambda: load({"v": 1}, K)) if s != "v" else None
        b.ce(f"load with both names, alias {s!r}", lambda: load({"v": 1, s: 2}, K)) if s != "v" else None
    for dflt in (0, "", False, (), None, 0.0, frozenset(), b"", decimal.Decimal(0)):
        K = dataclasses.make_dataclass("K9", [("a", t.Any, dflt), ("b", t.Optional[t.Any], dflt)])
        b.eq(f"default {dflt!r}", lambda: load({}, K), K())
        for v in (None, 0, "", False, [], 1, "x"):
            b.eq(f"default {dflt!r}, value {v!r}", lambda: load({"a": v, "b": v}, K), K(v, v))
    for fac in (list, dict, set, lambda: [1], lambda: {"a": [1]}, object):
        f = Field(TypeHint(t.Any), False, default_factory=fac)
        x, y = f.get_default(), f.get_default()
        b.true("a factory makes a value for each use", x is not y and f.has_default() and f.default_factory is fac, "two values", (x, y))
        x2 = f.get_default()
        b.true("... and again", x2 is not x and x2 is not y, "", "")
        made = []

        def constructor(**kw):
            made.append(kw)
            return kw
        sch = Schema({"v": f, "w": Field(TypeHint(int), False, 3)}, constructor, object)
        m = get_object_mapper()
        m.module.register(SchemaConverter(convert_to_schema=lambda h: sch), first=True)
        r = [outcome(lambda: m.deserialize({}, Plain))[1] for _ in range(3)]
        b.true("a schema that is used again makes fresh values", all(type(q) is dict and set(q) == {"v", "w"} for q in r) and len({id(q["v"]) for q in r}) == 3, "", r)
    A = dataclasses.make_dataclass("A9", [("x", Annotated[int, Alias("p", "q", "r", "s")])])
    for n in range(1, 5):
        for ks in itertools.permutations("pqrs", n):
            p = {k: i for i, k in enumerate(ks)}
            first = next(k for k in "pqrs" if k in p)
            b.eq(f"load({p}), extra keys allowed", lambda: load(p, A, settings=[ExtraKeys(True)]), A(p[first]))
            b.spec(f"load({p})", lambda: load(p, A), ("ok", A(p[first])) if n == 1 else ("CE",))
    T = te.TypedDict("T9", {"x": Annotated[int, Alias("p", "q")], "y": t.Optional[int], "items": str})
    b.eq("typed dict", lambda: load({"q": 1, "items": "k"}, T), {"x": 1, "y": None, "items": "k"})
    b.ce("typed dict, required", lambda: load({"q": 1}, T))
    b.ce("typed dict, the name in place of the alias", lambda: load({"x": 1, "items": "k"}, T))


def p10(b):
    b.rules.append("odd texts as unknown keys; recorders called how often and with what; remainders with keys of every kind")
    K = dataclasses.make_dataclass("K10", [("v", Annotated[int, Alias("p", "q")], 0), ("w", int, 0)])
    Rm = dataclasses.make_dataclass("Rm10", [("v", Annotated[int, Alias("p", "q")]), ("r", Annotated[t.Dict[str, t.Any], Remainder()])])
    names = [s for s in TEXTS if s not in ("w", "p", "q")] + ["v", "r", "W", "P"]
    for i, s in enumerate(names):
        for extra in ({s: 1}, {s: None}, {s: 1, names[i - 1]: 2}, {s: 1, names[i - 1]: 2, names[i - 2]: 3}):
            for base in ({"p": 1}, {"q": 2}, {}):
                p = {**base, **extra}
                b.ce(f"load({p!r})", lambda: load(p, K))
                got = []
                b.eq(f"load({p!r}), allowed", lambda: load(p, K, settings=[ExtraKeys(recorder=lambda c, ks: got.append((c.value, set(ks))))]), K(next(iter(base.values()), 0)))
                b.eq("... recorded", lambda: got, [(p, set(extra))])
                got2 = []
                b.ce(f"load({p!r}), not allowed, with a recorder", lambda: load(p, K, settings=[ExtraKeys(False, lambda c, ks: got2.append(ks))]))
                if base:
                    ex = {k: v for k, v in extra.items()}
                    b.eq(f"load({p!r}) with a remainder", lambda: load(p, Rm), Rm(next(iter(base.values())), ex))
    for p, extra in (({"p": 1, "q": 2}, {"q"}), ({"q": 2, "p": 1, "w": 3}, {"q"}), ({"p": 1, "v": 2}, {"v"})):
        b.ce(f"load({p!r}): an alias that is not used", lambda: load(p, K))
        got = []
        b.eq(f"load({p!r}): allowed", lambda: load(p, K, settings=[ExtraKeys(recorder=lambda c, ks: got.append(set(ks)))]), K(1, p.get("w", 0)))
        b.eq("... recorded", lambda: got, [extra])
        b.eq(f"load({p!r}): remainder", lambda: load(p, Rm), Rm(1, {k: v for k, v in p.items() if k != "p"}))
    b.eq("nothing recorded without extra keys", lambda: [load({"p": 1}, K, settings=[ExtraKeys(recorder=lambda c, ks: 1 / 0)])], [K(1)])
    for ks in ({1: 2}, {None: 1}, {(1,): 2}, {1.5: 1, "a": 2, None: 3}, {b"x": 1}, {True: 0}):
        b.ce(f"load with keys {ks!r}", lambda: load({"p": 1, **ks}, K)) if all(isinstance(k, str) for k in ks) else b.ce(f"load with keys {ks!r}", lambda: load(dict([("p", 1), *ks.items()]), K))
        got = []
        b.eq(f"load with keys {ks!r}, allowed", lambda: load(dict([("p", 1), *ks.items()]), K, settings=[ExtraKeys(recorder=lambda c, x: got.append(set(x)))]), K(1))
        b.eq("... recorded", lambda: got, [set(ks)])
    for n in (1, 5, 50, 500):
        p = {f"k{i}": i for i in range(n)}
        b.eq(f"{n} keys into a remainder", lambda: load({"p": 1, **p}, Rm), Rm(1, p))
        q = {"p": 1, **p}
        load(q, Rm)
        b.eq("... the payload is kept", lambda: q, {"p": 1, **p})


def p11(b):
    b.rules.append("attributes that are not in the instance's dictionary, instances of subclasses, odd texts as aliases, defaults and values that are equal but not the same")
    for s in TEXTS:
        if s:
            K = dataclasses.make_dataclass("K11", [("v", Annotated[t.Optional[str], Alias(s, "zz")], None), ("w", int, 0)])
            b.eq(f"dump with alias {s!r}", lambda: dump(K(s, 1), K), {s: s, "w": 1})
            b.eq(f"dump with alias {s!r}, None", lambda: dump(K(), K), {s: None, "w": 0})
            T = te.TypedDict("T11", {s: int, "w": Annotated[str, Alias(s + "_")]})
            b.eq(f"dump a typed dict with key {s!r}", lambda: dump({s: 1, "w": s}, T), {s: 1, s + "_": s})
            b.ce(f"dump a typed dict without key {s!r}", lambda: dump({"w": s}, T))

    @dataclasses.dataclass
    class Base:
        a: int = 1
        b: t.List[int] = dataclasses.field(default_factory=list)
    x = Base(2, [1])
    del x.a
    b.eq("an attribute of the class", lambda: dump(x, Base), {"a": 1, "b": [1]})

    class Prop(Base):
        @property
        def a(self):
            return 7

        @a.setter
        def a(self, v):
            pass
    b.eq("an attribute that is a property", lambda: dump(Prop(), Base), {"a": 7, "b": []})

    @dataclasses.dataclass
    class Slots:
        __slots__ = ("a", "__dict__")
        a: int
    y = Slots(3)
    b.eq("an attribute in a slot", lambda: dump(y, Slots), {"a": 3})

    class Sub(Base):
        pass

    @dataclasses.dataclass
    class Sub2(Base):
        c: int = 9
    for v in (Sub(5), Sub2(5, [], 6)):
        b.eq(f"an instance of a subclass ({type(v).__name__})", lambda: dump(v, Base), {"a": 5, "b": []})
        b.eq(f"an instance of a subclass ({type(v).__name__}), no defaults", lambda: dump(v, Base, settings=[SerializeDefaults(False)]), {"a": 5})
    for v in (Sub(), Sub2(), Base()):
        b.eq(f"defaults of a subclass ({type(v).__name__}) left out", lambda: dump(v, Base, settings=[SerializeDefaults(False)]), {})
    for v in (Base(), {"a": 1}, None, Base, 1, "x", [1], types.SimpleNamespace(a=1, b=[], c=2)):
        b.ce(f"dump({show(v)}) as a class it is no instance of", lambda: dump(v, Sub2))
    class NT11(t.NamedTuple):
        a: int
        b: Annotated[int, Alias("x")] = 2

    class NS(NT11):
        __slots__ = ()
    b.eq("a named tuple", lambda: dump(NT11(1), NT11), {"a": 1, "x": 2})
    b.eq("an instance of a subclass of a named tuple", lambda: dump(NS(1, 3), NT11), {"a": 1, "x": 3})
    for dflt, v, equal in ((0, 0.0, True), (1, True, True), ((1, 2), (1, 2), True), ("a", "ab"[:1], True), (1, 2, False), (None, 0, False), ("", None, False), (float("nan"), float("nan"), False), ((), [], False), (10**20, 10**20 + 0, True)):
        K = dataclasses.make_dataclass("K11", [("v", t.Any, dflt)])
        b.eq(f"value {v!r}, default {dflt!r}", lambda: dump(K(v), K), {"v": v})
        b.eq(f"value {v!r}, default {dflt!r}: left out if equal", lambda: dump(K(v), K, settings=[SerializeDefaults(False)]), {} if equal else {"v": v})
        K = dataclasses.make_dataclass("K11", [("v", Annotated[t.Any, Required()], dflt)])
        b.eq(f"value {v!r}, default {dflt!r}: required", lambda: dump(K(v), K, settings=[SerializeDefaults(False)]), {"v": v})
    K = dataclasses.make_dataclass("K11", [("v", t.List[int], dataclasses.field(default_factory=lambda: [1])), ("w", t.Dict[str, int], dataclasses.field(default_factory=dict)), ("x", t.Optional[int])][::-1][:1] + [("v", t.List[int], dataclasses.field(default_factory=lambda: [1])), ("w", t.Dict[str, int], dataclasses.field(default_factory=dict))])
    b.eq("factory defaults left out", lambda: dump(K(None, [1], {}), K, settings=[SerializeDefaults(False)]), {})
    b.eq("factory defaults kept", lambda: dump(K(None, [1], {}), K), {"x": None, "v": [1], "w": {}})
    b.eq("other values kept", lambda: dump(K(0, [], {"a": 1}), K, settings=[SerializeDefaults(False)]), {"x": 0, "v": [], "w": {"a": 1}})


def p12(b):
    b.rules.append("flattened fields with odd aliases, of every kind of structured type, several side by side and in depth")
    mk = dataclasses.make_dataclass
    for s in [x for x in TEXTS if x]:
        In = mk("In12", [("v", Annotated[t.Optional[int], Alias(s, s + "!")], None), ("w", Annotated[int, Alias("w" + s)])][::-1])
        Out = mk("Out12", [("i", Annotated[In, Flattened()]), ("o", int)])
        for p, e in (({s: 1, "w" + s: 2, "o": 3}, Out(In(2, 1), 3)), ({s + "!": 1, "w" + s: 2, "o": 3}, Out(In(2, 1), 3)), ({"w" + s: 2, "o": 3}, Out(In(2, None), 3)), ({s: None, "w" + s: 2, "o": 3}, Out(In(2, None), 3))):
            b.eq(f"load({p!r})", lambda: load(p, Out), e)
            b.eq(f"dump({e!r})", lambda: load(dump(e, Out), Out), e)
        b.eq(f"dump with alias {s!r}", lambda: dump(Out(In(2, 1), 3), Out), {"w" + s: 2, s: 1, "o": 3})
        b.ce(f"an unknown key next to {s!r}", lambda: load({s: 1, "w" + s: 2, "o": 3, "zz": 1}, Out))
        b.ce(f"the name in place of alias {s!r}", lambda: load({"v": 1, "w" + s: 2, "o": 3}, Out)) if s != "v" else None
    kinds = {"dc": lambda n, fs: mk(n, fs), "td": lambda n, fs: te.TypedDict(n, dict(fs))}
    for k1, k2, k3 in itertools.product(kinds, repeat=3):
        C3 = kinds[k3]("C3", [("e", int), ("f", Annotated[str, Alias("F")])])
        C2 = kinds[k2]("C2", [("c", Annotated[C3, Flattened()]), ("d", int)])
        C1 = kinds[k1]("C1", [("b", Annotated[C2, Flattened()]), ("a", Annotated[int, Alias("A")])])
        Top = mk("Top", [("z", int), ("t", Annotated[C1, Flattened()]), ("y", Annotated[int, Alias("Y")])])
        p = {"z": 0, "e": 1, "F": "2", "d": 3, "A": 4, "Y": 5}
        v = Top(0, C1(b=C2(c=C3(e=1, f="2"), d=3), a=4), 5)
        b.eq(f"three levels of {k1}, {k2}, {k3}", lambda: load(p, Top), v)
        b.eq(f"three levels of {k1}, {k2}, {k3} (dump)", lambda: dump(v, Top), p)
        for k in p:
            b.ce(f"three levels of {k1}, {k2}, {k3} without {k}", lambda: load({q: x for q, x in p.items() if q != k}, Top))
        for k in ("t", "b", "c", "f", "a", "y"):
            b.ce(f"three levels with the key {k}", lambda: load({**p, k: 1}, Top))
    for n in range(1, 5):
        fs = [(f"f{i}", Annotated[mk(f"S{i}", [(f"p{i}", int), (f"q{i}", Annotated[mk(f"Q{i}", [(f"r{i}", int)]), Flattened()])]), Flattened()]) for i in range(n)]
        Top = mk("Top2", fs)
        p = {f"{c}{i}": i for i in range(n) for c in "pr"}
        b.eq(f"{n} side by side", lambda: dump(load(p, Top), Top), p)
        for k in p:
            b.ce(f"{n} side by side without {k}", lambda: load({q: x for q, x in p.items() if q != k}, Top))


def p13(b):
    b.rules.append("odd texts as ids, discriminators and nesting keys; members with fields whose value equals the id")
    A = dataclasses.make_dataclass("A13", [("s", str), ("n", t.Optional[str], None)])
    B = dataclasses.make_dataclass("B13", [("s", str), ("m", int, 0)])
    ids = [s for s in TEXTS if s]
    for i, s in enumerate(ids):
        o = ids[(i + 1) % len(ids)]
        for key in ("type", "kind of", "@", s + "?"):
            for style, nest in ((Union.NESTED, None), (Union.NESTED, "the value"), (Union.FLAT, None), (Union.KEYED, None)):
                if style == Union.NESTED and nest is None and s == key:
                    continue
                h = Annotated[t.Union[A, B], Union({s: A, o: B}, style, key, nest)]
                for m, v in ((s, A(s, o)), (o, B(s)), (s, A(o, s)), (o, B(o, 1)), (s, A(key))):
                    if style == Union.NESTED and nest is None and m == key:
                        continue
                    W = {k: x for k, x in dataclasses.asdict(v).items()}
                    w = {"nested": {key: m, (nest or m): W}, "flat": {**W, key: m}, "keyed": {m: W}}[style]
                    b.eq(f"dump({v!r}) {style} {m!r} {key!r}", lambda: dump(v, h), w)
                    b.eq(f"load({w!r}) {style}", lambda: load(w, h), v)
                for bad in (s + " ", " " + s, s + "\0", s.upper(), s.lower(), s.title(), s[:-1], s + s, "", None, 0, True, [s], {s: 1}, s.encode()):
                    if isinstance(bad, str) and bad in (s, o):
                        continue
                    W = {"s": "x"}
                    w = {"nested": {key: bad, nest or s: W}, "flat": {**W, key: bad}, "keyed": None}[style]
                    if style == Union.KEYED:
                        if isinstance(bad, (list, dict)):
                            continue
                        w = {bad: W}
                    b.ce(f"load({w!r}) {style}: an unknown id", lambda: load(w, h))
                W = {"s": "x"}
                for w in ({}, {s: W, o: W}, {key + "x": s, nest or s: W}, W, {nest or s: W} if style == Union.NESTED else {"x": W}, {key: s} if style != Union.FLAT else {key: s}, [], s, None, [s, W], {key: s, (nest or s) + "x": W} if style == Union.NESTED else {"y": 1}):
                    if style == Union.KEYED and isinstance(w, dict) and list(w) in ([s], [o]):
                        continue
                    b.ce(f"load({w!r}) {style} {key!r} {nest!r}", lambda: load(w, h))


def p14(b):
    b.rules.append("best-match unions used again and again; which member is asked")
    asked = []

    class Mem(Converter):
        def __init__(self, name, accept):
            self.name, self.accept = name, accept

        def convert(self, ctx):
            asked.append(self.name)
            if self.accept(ctx.value):
                return self.name, ctx.value
            raise ConversionError(self, ctx, self.name)
    acc = {"none": lambda v: False, "all": lambda v: True, "int": lambda v: isinstance(v, int), "str": lambda v: isinstance(v, str), "falsy": lambda v: not v}
    for ks in itertools.product(acc, repeat=3):
        names = [f"{n}{i}" for i, n in enumerate(ks)]
        h = Annotated[Carrier, Union({n: Annotated[Carrier, JsonConverter(Mem(n, acc[k]))] for n, k in zip(names, ks)}, Union.BEST_MATCH)]
        for v in (1, "x", 0, "", None, 1, "x"):
            for f in (load, dump):
                ok = [n for n, k in zip(names, ks) if acc[k](v)]
                asked.clear()
                b.spec(f"{f.__name__}({v!r}) as one of {names}", lambda: f(v, h), ("ok", (ok[0], v)) if ok else ("CE",))
                b.eq("... asked", lambda: list(asked), names[: names.index(ok[0]) + 1] if ok else names)
    class First(t.NamedTuple):
        a: t.Any
    for perm in itertools.permutations([int, float, str, bool, type(None)][:4]):
        h = t.Union[perm]
        for v in (1, 1.0, "1", True, 0, 2.5, "", False):
            for f in (load, dump):
                e = next((r[1] for r in (outcome(lambda: f(v, T)) for T in perm) if r[0] == "ok"), None)
                b.eq(f"{f.__name__}({v!r}, {h})", lambda: f(v, h), e)
                b.eq(f"{f.__name__}([{v!r}], List[{h}])", lambda: f([v, v], list[h]), [e, e])
                b.eq(f"{f.__name__}({v!r}, Annotated[{h}])", lambda: f(v, Annotated[h, perm]), e)


def p15(b):
    b.rules.append("odd texts as ids, chains of every kind of registry in every order")
    A, B, C_, D = (type(n, (), {"__module__": __name__}) for n in ("A15", "B15", "C15", "D15"))
    m = StaticUnionMembers({s: (lambda i=i: (A, B, C_)[i % 3]) if i % 2 else (A, B, C_)[i % 3] for i, s in enumerate(TEXTS)})
    for i, s in enumerate(TEXTS):
        b.eq(f"type of {s!r}", lambda: m.get_type_by_id(s), (A, B, C_)[i % 3])
    b.eq("ids", m.get_type_ids, TEXTS)
    for i, T in enumerate((A, B, C_)):
        b.eq("first id", lambda: m.get_type_id(T), TEXTS[i])
    for s in TEXTS:
        for x in (s + "?", s * 2 + "?", "?" + s):
            b.exc(f"unknown id {x!r}", lambda: m.get_type_by_id(x), ValueError)
        if s not in ("a", ):
            b.exc(f"importing {s!r}", lambda: ImportUnionMembers().get_type_by_id(s), ValueError) if not s.startswith((".", "/")) and s else None
    regs = {"s1": lambda: StaticUnionMembers({"collections.OrderedDict": A, "x": B}), "s2": lambda: StaticUnionMembers({"x": C_, "no.such.module": D, "y": B, "collections.nothing": A}), "i": ImportUnionMembers, "e": lambda: StaticUnionMembers({})}
    import collections as co
    for n in range(0, 5):
        for ks in itertools.permutations(list(regs), n):
            ch = ChainUnionMembers(*[regs[k]() for k in ks])
            for i in ("collections.OrderedDict", "x", "y", "no.such.module", "collections.deque", "collections.nothing", "zzz", "", "x.y"):
                known = []
                for k in ks:
                    if k == "i":
                        known += [getattr(co, i.split(".")[1])] if i in ("collections.OrderedDict", "collections.deque") else []
                    else:
                        known += [v for q, v in regs[k]().members.items() if q == i]
                if known:
                    b.eq(f"chain {ks}: {i!r}", lambda: ch.get_type_by_id(i), known[0])
                else:
                    b.exc(f"chain {ks}: {i!r}", lambda: ch.get_type_by_id(i), ValueError)
            for T in (A, B, C_, D, co.OrderedDict, co.deque):
                known = []
                for k in ks:
                    known += [f"{T.__module__}.{T.__qualname__}"] if k == "i" else [q for q, v in regs[k]().members.items() if v is T][:1]
                if known:
                    b.eq(f"chain {ks}: {T.__name__}", lambda: ch.get_type_id(T), known[0])
                else:
                    b.exc(f"chain {ks}: {T.__name__}", lambda: ch.get_type_id(T), ValueError)
            ids = []
            for k in ks:
                ids += [q for q in ([] if k == "i" else regs[k]().members) if q not in ids]
            b.eq(f"chain {ks}: ids", ch.get_type_ids, ids)


class S16(Setting):
    def __init__(self, n, priority=Priority.NORMAL):
        self.n, self.priority = n, priority


class S16b(S16):
    pass


def p16(b):
    b.rules.append("all orders of the priorities over the places that give settings, settings objects that are changed between lookups, settings of a subclass of the setting type")
    def ctx(h, s):
        return Context(None, list(type(Context.ROOT)) and __import__("databind.core.context", fromlist=["Direction"]).Direction.SERIALIZE, 1, h, s, Context.ROOT, Location.EMPTY, lambda c: None)
    places = ["annotated", "local", "provider", "global", "parent"]
    for prios in itertools.product([None, Priority.LOW, Priority.NORMAL, Priority.HIGH, Priority.ULTIMATE], repeat=5):
        parent = Settings()
        s = Settings(parent)
        h = int
        given = []
        for place, pr in zip(places, prios):
            if pr is None:
                continue
            x = (S16 if len(given) % 2 else S16b)(place, pr)
            given.append(x)
            if place == "annotated":
                h = Annotated[int, x]
            elif place == "local":
                s.add_local(int, x)
            elif place == "provider":
                s.add_provider(lambda c, x=x: [x])
            elif place == "global":
                s.add_global(x)
            else:
                parent.add_global(x)
        best = None
        for x in given:
            if best is None or x.priority > best.priority:
                best = x
        o = outcome(lambda: s.get_setting(ctx(TypeHint(h), s), S16))
        b.true(f"priorities {prios}", o[0] == "ok" and o[1] is best, getattr(best, "n", None), show_out(o))
    s = Settings()
    x, y, z = S16("x"), S16("y", Priority.HIGH), S16("z", Priority.HIGH)
    for how in ("global", "local", "provider", "conditional"):
        s = Settings()
        add = {"global": s.add_global, "local": lambda v: s.add_local(int, v), "provider": lambda v: s.add_provider(lambda c: [v]), "conditional": lambda v: s.add_conditional(lambda c: True, v)}[how]
        for v, e in ((None, None), (x, x), (y, y), (z, y), (x, y)):
            if v is not None:
                add(v)
            for _ in range(2):
                o = outcome(lambda: s.get_setting(ctx(TypeHint(int), s), S16))
                b.true(f"{how}: after adding", o[0] == "ok" and o[1] is e, getattr(e, "n", None), show_out(o))
                o = outcome(lambda: s.get_setting(ctx(TypeHint(int), s), S16b))
                b.true(f"{how}: another setting type", o[0] == "ok" and o[1] is None, "None", show_out(o))
                if how == "local":
                    o = outcome(lambda: s.get_setting(ctx(TypeHint(bool), s), S16))
                    b.true("local: another class", o[0] == "ok" and o[1] is None, "None", show_out(o))
    on = []
    s = Settings()
    s.add_conditional(lambda c: bool(on), x)
    calls = []
    s.add_provider(lambda c: calls.append(c.value) or ([y] if len(calls) % 2 else []))
    for i in range(6):
        on[:] = [1] if i in (2, 3, 5) else []
        o = outcome(lambda: s.get_setting(ctx(TypeHint(int), s), S16))
        e = y if i % 2 == 0 else x if on else None
        b.true(f"conditions that change, {i}", o[0] == "ok" and o[1] is e, getattr(e, "n", None), show_out(o))
    a = [S16(i, p) for i, p in enumerate([1, 3, 2, 3, 0, 1])]
    for perm in itertools.permutations(a, 4):
        best = max(perm, key=lambda q: q.priority)
        b.true("get_highest_setting", get_highest_setting(perm) is best and get_highest_setting(iter(perm)) is best, "the first of the highest")
    b.true("get_highest_setting of nothing", get_highest_setting([]) is None)


class Outer17:
    class Inner(Plain):
        pass

    class Deep:
        class Inner2(Plain):
            pass


def p17(b):
    b.rules.append("nested classes and odd names as union members; a setting used again on the same class")
    for T in (Outer17.Inner, Outer17.Deep.Inner2, Plain, type("X y", (Plain,), {}), type("_p", (Plain,), {})):
        m = StaticUnionMembers()
        r = m.register()(T)
        b.true(f"register() of {T.__qualname__}", r is T and m.members == {T.__name__: T}, T.__name__, m.members)
        for n in TEXTS:
            if n:
                m = StaticUnionMembers()
                r = m.register(n)(T)
                b.true(f"register({n!r}) of {T.__qualname__}", r is T and m.members == {n: T}, n, m.members)
    Base = dataclasses.dataclass(type("Base17", (), {"__annotations__": {}, "__module__": __name__}))
    Union({})(Base)
    other = type("Other17", (), {"__module__": __name__})
    Union({})(other)
    class Outer:
        class Inner(Base):
            pass
    for n in (None, "n", "n o", "%s"):
        b.true(f"Union.register(Base, {n!r})", Union.register(Base, n)(Outer.Inner) is Outer.Inner)
        from databind.core.settings import get_class_setting
        b.true("... under its name", get_class_setting(Base, Union).members.members[n or "Inner"] is Outer.Inner and not get_class_setting(other, Union).members.members)
        b.exc(f"a class that is no subclass, {n!r}", lambda: Union.register(Base, n)(other), TypeError)
        b.exc(f"a base class without union, {n!r}", lambda: Union.register(Plain, n)(StrSub), ValueError)
        b.exc(f"a subclass of a union class without union of its own, {n!r}", lambda: Union.register(Outer.Inner, n)(type("I2", (Outer.Inner,), {})), ValueError)
    for mk in (lambda: Union({}), lambda: ExtraKeys(True), lambda: JsonConverter(Upper())):
        s = mk()
        K = type("K17", (), {})
        b.true("decorating gives the class", s(K) is K)
        for again in (K, type("K17b", (), {}), type("K17c", (K,), {})):
            o = outcome(lambda: s(again))
            b.true("a setting that is used again is an error", o[0] == "exc", "an error", show_out(o))
        s2 = mk()
        s2(K)
        b.true("both settings apply", [x for x in vars(K)["__databind_settings__"]] == [s, s2], "", vars(K)["__databind_settings__"])


def p18(b):
    b.rules.append("many converters that fail; failures with equal messages")
    from databind.core.converter import NoMatchingConverter
    class Fail(Converter):
        def __init__(self, msg):
            self.msg = msg

        def convert(self, ctx):
            self.exc = ConversionError(self, ctx, self.msg)
            raise self.exc

    class Val(Converter):
        def convert(self, ctx):
            return "val"
    from .more import ctx18
    for n in range(0, 40):
        for depth in (0, 1, 3):
            m = top = Module("m")
            for _ in range(depth):
                q = Module("q")
                m.register(q)
                m = q
            fs = [Fail("same") for _ in range(n)]
            for f in fs:
                m.register(f)
            o = outcome(lambda: top.convert(ctx18(module=top)))
            if n == 1:
                b.true("one failure", o[0] == "CE" and o[1] is fs[0].exc, "the error itself", show_out(o))
            else:
                b.true(f"{n} equal failures", o[0] == "CE" and type(o[1]) is NoMatchingConverter and [e for _, e in o[1].errors] == [f.exc for f in fs], "all of them", show_out(o))
            m.register(Val())
            b.eq(f"a value after {n} failures", lambda: top.convert(ctx18(module=top)), "val")
    ms = [Module(f"m{i}") for i in range(4)]
    for perm in itertools.permutations(range(4)):
        top = Module("top")
        expect = []
        for i in perm:
            mod = Module(str(i))
            mod.register(Fail(str(i)))
            top.register(mod, first=i % 2 == 0)
            expect = [str(i)] + expect if i % 2 == 0 else expect + [str(i)]
        b.eq(f"modules registered as {perm}", lambda: [c.msg for c in top.get_converters(ctx18(module=top))], expect)


def p19(b):
    b.rules.append("odd texts as payloads of every type, relaxed and strict, and as keys of structures, mappings and unions")
    from nr.date import duration
    K = dataclasses.make_dataclass("K19", [("a", int), ("b", t.Optional[str], None), ("c", Annotated[t.List[int], Alias("z", "y")], dataclasses.field(default_factory=list))])
    F = dataclasses.make_dataclass("F19", [("k", Annotated[K, Flattened()]), ("q", int, 0)])
    NT = t.NamedTuple("NT19", [("a", int), ("b", str)])
    class ND(t.NamedTuple):
        a: int
        b: str = "x"
    U = {st: Annotated[t.Union[int, str], Union({"a": K, "b": NT, "c": int}, st)] for st in (Union.NESTED, Union.FLAT, Union.KEYED, Union.BEST_MATCH)}
    hints = [int, float, bool, str, bytes, decimal.Decimal, uuid.UUID, pathlib.Path, duration, datetime.date, datetime.time, datetime.datetime, Many, Sized, t.List[int], t.Tuple[int, str], t.Dict[str, int], t.Dict[int, int], t.Set[int], t.Literal["a", 1],
             t.Optional[int], t.Union[int, float], K, F, NT, ND, te.TypedDict("T19", {"a": int}), *U.values(), t.List[K], t.Deque[int], collections.namedtuple("Q19", "a b")]
    sets = [None, [Strict(False)], [ExtraKeys(True)], [Precision(prec=3)], [Precision(prec=2), Strict(False)], [DateFormat("%Y")], [DateFormat("%H:%M")], [SerializeDefaults(False)]]
    pays = list(TEXTS)
    pays += [[s] for s in TEXTS[::5]] + [{s: s} for s in TEXTS[::3]] + [{"type": s} for s in TEXTS[::3]] + [{"type": s, s: s} for s in TEXTS[::4]] + [{"a": s} for s in TEXTS[::3]] + [{"a": 1, s: 1} for s in TEXTS[::4]] + [{"a": {"a": s}} for s in TEXTS[::6]]
    pays += [{"type": "a", "a": s} for s in TEXTS[::6]] + [{"type": "b", "b": {"a": 1}}, {"type": "b", "b": [1, "x"]}, {"type": "c", "c": 1}, {"type": "c"}, {"b": {"a": 1}}, {"b": [1]}, {"b": [1, "x", 2]}, [1, "x", 3], [1], {"a": 1, "z": "x"}, {"a": 1, "z": [None]}, {"a": 1, "y": {}, "z": 1}]
    for h in hints:
        for st in sets:
            for p in pays if st is None or h in (int, float, bool, str, decimal.Decimal, datetime.date, K, F) else pays[::3]:
                b.no_leak(f"load({show(p)}, {h}, {st})", lambda: load(p, h, settings=st))
                b.no_leak(f"dump({show(p)}, {h}, {st})", lambda: dump(p, h, settings=st)) if not isinstance(p, (dict, list)) or st is None else None


def p20(b):
    b.rules.append("contexts of all conversions in deep structures with odd keys: key, parent, file name")
    seen = []

    class Spy(Converter):
        def convert(self, ctx):
            seen.append(ctx)
            raise NotImplementedError
    def chain(c):
        out = []
        while c is not None:
            out.append(c.key)
            c = c.parent
        return out[::-1]
    for s in [x for x in TEXTS if x]:
        In = dataclasses.make_dataclass("In20", [("v", Annotated[int, Alias(s)]), ("o", t.Optional[int], None)])
        Out = dataclasses.make_dataclass("Out20", [("l", t.List[In]), ("d", t.Dict[str, In]), ("t", t.Tuple[int, In])])
        p = {"l": [{s: 1}, {s: 2, "o": 3}], "d": {s: {s: 4}}, "t": [5, {s: 6}]}
        want = {1: ["l", 0, "v"], 2: ["l", 1, "v"], 3: ["l", 1, "o", None], 4: ["d", s, "v"], 5: ["t", 0], 6: ["t", 1, "v"]}
        m = get_object_mapper()
        m.module.register(Spy(), first=True)
        for load_ in (True, False):
            seen.clear()
            o = outcome(lambda: m.deserialize(p, Out, filename="f.json") if load_ else m.serialize(load(p, Out), Out, filename="f.json"))
            b.true(f"nested keys {s!r}", o[0] == "ok", "", show_out(o))
            got = {}
            for c in seen:
                b.true("the file name is inherited", c.location.filename == "f.json" and c.settings is m.settings and c.direction is seen[0].direction, "", c)
                if type(c.value) is int:
                    got[c.value] = chain(c)
            b.eq(f"paths with key {s!r}, {'load' if load_ else 'dump'}", lambda: got, {k: [Context.ROOT] + v for k, v in want.items()})
        for path, q in (((0,), {"l": [{s: "x"}], "d": {}, "t": [1, {s: 1}]}), ((1,), {"l": [], "d": {s: {s: None}}, "t": [1, {s: 1}]}), ((2,), {"l": [], "d": {}, "t": [1, {s: []}]})):
            o = outcome(lambda: load(q, Out, "f.json"))
            e = [["l", 0, "v"], ["d", s, "v"], ["t", 1, "v"]][path[0]]
            b.true(f"error path {e}", o[0] == "CE" and chain(o[1].context) == [Context.ROOT] + e, e, show_out(o))
            if o[0] == "CE":
                x = outcome(lambda: str(o[1]))
                b.true("... is printed", x[0] == "ok" and x[1].count("f.json") >= 1 and (str(s) in x[1] or "\n" in s or "\r" in s or not s.isprintable()), "", show_out(x))


def p21(b):
    b.rules.append("metadata with equal elements; fields of every kind in long chains and diamonds of classes")
    K = dataclasses.make_dataclass("K21", [("a", int)])
    for md in ((1, 1), (1, 2, 1), ("x",), ([], []), (Alias("a"), Alias("a")), (0, False, None)):
        sch = convert_to_schema(TypeHint(Annotated.__class_getitem__((K,) + md)))
        b.true(f"annotations {md}", len(sch.annotations) == len(md) and all(x is y for x, y in zip(sch.annotations, md)), md, sch.annotations)
        sch = convert_to_schema(TypeHint(Annotated.__class_getitem__((te.TypedDict("T", {"a": int}),) + md)))
        b.true(f"annotations of a typed dict {md}", len(sch.annotations) == len(md), md, sch.annotations)
    b.eq("no annotations", lambda: convert_to_schema(TypeHint(K)).annotations, [])
    T_ = t.TypeVar("T_")
    U_ = t.TypeVar("U_")
    import itertools as it
    types_ = [int, str, float, bool, bytes]
    for n, seed in ((i, j) for i in range(2, 7) for j in range(8)):
        rng = random.Random(f"{b.seed}-{n}-{seed}")
        classes = []
        for i in range(n):
            bases = tuple(rng.sample(classes, min(len(classes), rng.randint(0, 2))))
            ann = {f"f{rng.randint(0, 4)}": rng.choice(types_) for _ in range(rng.randint(0, 3))}
            ns = {"__annotations__": ann, "__module__": __name__}
            for k in ann:
                ns[k] = dataclasses.field(default=rng.choice([0, 1, "x"]), init=rng.random() > .2) if rng.random() < .5 else rng.choice([5, 6, None])
            try:
                c = type(f"C{i}", bases, ns)
            except TypeError:
                continue
            classes.append(dataclasses.dataclass(c) if rng.random() < .8 or not bases else c)
        for c in classes:
            if not dataclasses.is_dataclass(c):
                continue
            want = {f.name: (f.type, f.default) for f in dataclasses.fields(c) if f.init}
            o = outcome(lambda: convert_to_schema(TypeHint(c)))
            b.true(f"fields of {c.__mro__} {want}", o[0] == "ok" and {k: (f.datatype.type, f.default) for k, f in o[1].fields.items()} == want and o[1].type is c and o[1].constructor is c, want, show_out(o))


def p22(b):
    b.rules.append("odd texts as keys; total and partial typed dicts that inherit from each other")
    ok = [s for s in TEXTS]
    T = te.TypedDict("T22", {s: int if i % 2 else t.Optional[str] for i, s in enumerate(ok)})
    sch = convert_to_schema(TypeHint(T))
    b.eq("keys", lambda: sorted(sch.fields), sorted(ok))
    for i, s in enumerate(ok):
        f = sch.fields[s]
        b.true(f"key {s!r}", f.required is bool(i % 2) and (f.default is None if not i % 2 else not f.has_default()), "", f)
    for totals in itertools.product((True, False), repeat=3):
        bases, keys = (), {}
        for i, total in enumerate(totals):
            ns = {"__annotations__": {f"k{i}": int, f"o{i}": t.Optional[int], f"r{i}": Annotated[int, Required(False)], f"q{i}": Annotated[t.Optional[int], Required()]}, "__module__": __name__}
            T = type(te.TypedDict("x", {}))(f"T{i}", bases, ns, total=total)
            bases = (T,)
            for k in "korq":
                keys[f"{k}{i}"] = total and k in "kq"
            sch = convert_to_schema(TypeHint(T))
            b.eq(f"required keys, {totals[: i + 1]}", lambda: {k: f.required for k, f in sch.fields.items()}, dict(keys))
            b.true("optional keys default to None", all(sch.fields[k].default is None for k in keys if k[0] in "or"), "", sch.fields)
            b.true("other keys have no default", all(not sch.fields[k].has_default() for k in keys if k[0] in "kq" and keys[k]), "", sch.fields)


def p23(b):
    b.rules.append("the decorator called with the class and parameters at once")
    for kw in ({}, {"frozen": True}, {"eq": False}, {"order": True}, {"repr": False}, {"init": True}):
        def cls():
            return type("C23", (), {"__annotations__": {"a": int, "b": int}, "a": 1, "__module__": __name__})
        for mk in (lambda: dbdc.dataclass(cls(), **kw), lambda: dbdc.dataclass(**kw)(cls()), lambda: dbdc.dataclass(cls=cls(), **kw)):
            o = outcome(mk)
            if not b.true(f"dataclass(cls, {kw})", o[0] == "ok" and isinstance(o[1], type) and dataclasses.is_dataclass(o[1]), "a class", show_out(o)):
                continue
            K = o[1]
            b.eq("its instances", lambda: (K(b=2).a, K(3, 4).b), (1, 4))
            b.exc("a missing argument", lambda: K(), TypeError)
            b.exc("a missing argument (2)", lambda: K(1), TypeError)
            if kw.get("frozen"):
                b.exc("frozen", lambda: setattr(K(b=1), "a", 2), dataclasses.FrozenInstanceError)
    for ann, meta in itertools.product((None, [], ["x"], [1, 2], ("y",)), (None, {}, {"k": 1}, {"k": 1, "l": 2}, types.MappingProxyType({"k": 3}))):
        f = dbdc.field(annotations=ann, metadata=meta)
        want = {**(meta or {}), **({dbdc.ANNOTATIONS_METADATA_KEY: ann} if ann else {})}
        b.eq(f"field(annotations={ann!r}, metadata={meta!r})", lambda: dict(f.metadata), want)


def p24(b):
    b.rules.append("settings and mappers that are changed after they were copied, at every place; big remainders; unions used again")
    for place in ("global", "local", "provider", "conditional", "parent"):
        parent = Settings()
        s = Settings(parent)
        def add(q, v):
            {"global": q.add_global, "local": lambda x: q.add_local(int, x), "provider": lambda x: q.add_provider(lambda c: [x]), "conditional": lambda x: q.add_conditional(lambda c: True, x), "parent": lambda x: parent.add_global(x)}[place](v)
        lax, strict = Strict(False), Strict(True, Priority.HIGH) if True else None
        m = ObjectMapper(s)
        m.module.register(get_object_mapper().module)
        c0 = m.copy()
        s0 = s.copy()
        if place != "parent":
            add(m.settings, lax)
            b.eq(f"{place}: the original", lambda: m.deserialize("5", int), 5)
            b.ce(f"{place}: a copy made before", lambda: c0.deserialize("5", int))
            b.ce(f"{place}: settings copied before", lambda: get_object_mapper(s0).deserialize("5", int))
        else:
            parent.add_global(lax)
            b.eq("parent: the original", lambda: m.deserialize("5", int), 5)
            b.eq("parent: a copy", lambda: c0.deserialize("5", int), 5)
        c1 = m.copy()
        s1 = s.copy()
        b.eq(f"{place}: a copy made later", lambda: c1.deserialize("5", int), 5)
        b.eq(f"{place}: settings copied later", lambda: get_object_mapper(s1).deserialize("5", int), 5)
        if place != "parent":
            add(c1.settings, Strict(True, Priority.HIGH) if place == "global" else Strict.__new__(Strict) if False else Strict(True, Priority.HIGH))
            b.ce(f"{place}: a changed copy", lambda: c1.deserialize("5", int))
            b.eq(f"{place}: ... the original is not affected", lambda: m.deserialize("5", int), 5)
            b.eq(f"{place}: ... other copies are not affected", lambda: get_object_mapper(s1).deserialize("5", int), 5)
    m = get_object_mapper()
    c = m.copy()

    class Conv(Converter):
        def convert(self, ctx):
            return "conv"
    c.module.register(Conv(), first=True)
    b.eq("a converter added to a copy", lambda: (c.deserialize(1, int), m.deserialize(1, int), get_object_mapper().deserialize(1, int)), ("conv", 1, 1))
    m.module.register(Conv(), first=True)
    b.eq("a converter added to the original", lambda: (m.deserialize(1, int), m.copy().deserialize(1, int), load(1, int)), ("conv", "conv", 1))
    glob = [Strict(False)]
    s = Settings(global_settings=glob)
    glob.append(Strict(True, Priority.HIGH))
    b.eq("the list of settings is not kept", lambda: get_object_mapper(s).deserialize("5", int), 5)
    s.add_global(Strict(True, Priority.HIGH))
    b.eq("the list of settings is not changed", lambda: len(glob), 2)
    lst = [Strict(False)]
    m = get_object_mapper()
    for _ in range(3):
        b.eq("settings of one call", lambda: m.deserialize("5", int, settings=lst), 5)
        b.ce("settings of an earlier call", lambda: m.deserialize("5", int))
        b.eq("the list", lambda: len(lst), 1)
        b.ce("settings of an earlier call of load", lambda: (load("5", int, settings=lst), load("5", int))[1])
    h = Annotated[Carrier, Union({"i": int, "s": str, "b": bool}, Union.BEST_MATCH)]
    for v in itertools.permutations([1, "x", True, 2.0]):
        b.eq(f"a union used again: {v}", lambda: [load(x, h) for x in v], [2 if x == 2.0 and type(x) is float else x for x in v])
    lax = get_object_mapper(Settings(global_settings=[Strict(False)]))
    b.eq("mappers are independent", lambda: (lax.deserialize("5", int), outcome(lambda: load("5", int))[0], lax.deserialize("6", int)), (5, "CE", 6))


def p25(b):
    b.rules.append("odd texts in every place of a structure through the string variants")
    K = dataclasses.make_dataclass("K25", [("s", str), ("d", t.Dict[str, str]), ("l", t.List[t.Optional[str]]), ("p", pathlib.PurePosixPath), ("b", bytes), ("u", t.Union[int, str])])
    for s in TEXTS:
        v = K(s, {s: s}, [s, None], pathlib.PurePosixPath(s), s.encode(), s)
        b.eq(f"structure with {s!r}", lambda: load(dump(v, K), K), v)
        b.eq(f"structure with {s!r} as text", lambda: loads(dumps(v, K), K), v)
        b.eq(f"text of {s!r}", lambda: dumps(v, K), json.dumps(dump(v, K)))
        for kw in ({"indent": 2}, {"indent": 0}, {"indent": "\t"}, {"sort_keys": True}, {"indent": 1, "sort_keys": True}):
            b.eq(f"text of {s!r} with {kw}", lambda: dumps(v, K, **kw), json.dumps(dump(v, K), **kw))
    for text in ("1", " 1 ", "[1, 2]", '{"a": 1}', '"x"', "null", "true", "1.5", "1e5", "NaN", "Infinity", "-Infinity", '{"a": 1, "a": 2}', "10000000000000000000000", '"\\u00e9"', '"\\ud83d\\ude00"', "[]", "{}", "-0", "-0.0", "0.1"):
        b.eq(f"loads({text!r}, Any)", lambda: loads(text, t.Any), json.loads(text))
        b.eq(f"dumps of {text!r}", lambda: dumps(json.loads(text), t.Any), json.dumps(json.loads(text)))
    for text in ("", "x", "[1,]", "{", "'a'", "1 2", "\ufeff1"):
        b.exc(f"loads({text!r})", lambda: loads(text, t.Any), ValueError)
    for fn in ("f.json", "", None, "a b"):
        for f in (lambda: load("x", int, fn), lambda: loads('"x"', int, fn), lambda: dump("x", int, fn), lambda: dumps("x", int, fn), lambda: load("x", int, filename=fn), lambda: dumps("x", int, filename=fn)):
            o = outcome(f)
            b.true(f"file name {fn!r}", o[0] == "CE" and o[1].context.location.filename == fn, fn, show_out(o))
    for f, e in ((lambda s: load("5", int, None, s), 5), (lambda s: loads('"5"', int, None, s), 5), (lambda s: load("5", int, settings=s), 5), (lambda s: loads('"5"', int, settings=s), 5)):
        b.eq("settings are honoured", lambda: f([Strict(False)]), e)
        b.ce("no settings", lambda: f([]))
        b.ce("no settings", lambda: f(None))
    D = dataclasses.make_dataclass("D25", [("a", int, 1)])
    for f in (lambda s: dump(D(), D, None, s), lambda s: json.loads(dumps(D(), D, None, s)), lambda s: dump(D(), D, settings=s), lambda s: json.loads(dumps(D(), D, settings=s, indent=1))):
        b.eq("settings are honoured by dump", lambda: f([SerializeDefaults(False)]), {})
        b.eq("no settings (dump)", lambda: f(None), {"a": 1})
