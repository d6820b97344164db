"""A fourth set of concrete cases: names, sizes and orders that ordinary programs rarely have."""
import copy, itertools, types
from typing import Annotated
import typing_extensions as te
from nr.date import date_format, datetime_format, format_set, time_format
from databind.core import *
from databind.core import Alias, ConversionError, Context, ExtraKeys, Flattened, Location, ObjectMapper, Precision, Remainder, Required, SerializeDefaults, Settings, Strict, Union
import databind.core.dataclasses as dbdc
from databind.core.context import Direction
from databind.core.converter import Converter, Module, NoMatchingConverter
from databind.core.schema import convert_to_schema
from databind.core.settings import DateFormat, Priority
from databind.core.union import ChainUnionMembers, ImportUnionMembers, StaticUnionMembers
from databind.json import dump, dumps, get_object_mapper, load, loads
from databind.json.settings import JsonConverter
from typeapi import TypeHint
from .lib import *

NAMES = ["self", "cls", "type", "value", "ctx", "result", "source", "fields", "__x", "x__", "_1", "name", "default", "key", "keys", "items", "get", "pop", "é", "copy", "_", "__", "None_", "datatype", "index", "count", "data"]


class Bag(collections.abc.Collection):
    def __init__(self, *xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    def __contains__(self, x):
        return x in self.xs


class OnlyIter:
    def __iter__(self):
        return iter((1, 2))


class Sized(OnlyIter):
    def __len__(self):
        return 2


def p03(b):
    b.rules.append("collections of every kind as payload")
    d = {1: 2, 3: 4}
    for p, w in ((Bag(1, 2), [1, 2]), (d.keys(), [1, 3]), (d.values(), [2, 4]), (range(3), [0, 1, 2]), (collections.deque([1]), [1]), (frozenset([5]), [5]), ((1, 2), [1, 2]), (collections.UserList([1, 2]), [1, 2])):
        for T, mk in ((t.List[int], list), (t.Tuple[int, ...], tuple), (t.Set[int], set), (t.Deque[int], collections.deque), (t.Sequence[int], list), (t.Collection[int], list), (t.FrozenSet[int], frozenset)):
            b.eq(f"load({p!r}, {T})", lambda: load(p, T), mk(w))
        b.eq(f"load({p!r}, fixed tuple)", lambda: load(p, t.Tuple[tuple([int] * len(w))]), tuple(w))
        b.eq(f"dump({p!r}, Collection)", lambda: dump(p, t.Collection[int]), w)
        b.ce(f"load({p!r}, List[str])", lambda: load(p, t.List[str]))
        b.ce(f"load({p!r}, longer tuple)", lambda: load(p, t.Tuple[tuple([int] * (len(w) + 1))]))
    for p in (OnlyIter(), iter([1]), (x for x in (1,)), "ab", b"ab", bytearray(b"a"), memoryview(b"a"), {}, {1: 2}, types.MappingProxyType({1: 2}), collections.UserDict({1: 2}), None, 1, 1.5, int, len):
        for T in (t.List[int], t.Tuple[int, ...], t.Set[int], t.Tuple[int, int], t.Tuple[int], t.Sequence[int], t.Collection[int], t.List[t.Any]):
            b.ce(f"load({type(p).__name__}, {T})", lambda: load(p, T))
    for n in (0, 1, 2, 7, 63, 64, 65, 255, 256, 257, 1000, 4097):
        xs = list(range(n, 0, -1))
        for T, mk in ((t.List[int], list), (t.Tuple[int, ...], tuple), (t.Deque[int], collections.deque), (t.Set[int], set)):
            b.eq(f"load of {n} elements as {T}", lambda: load(xs, T), mk(xs))
            b.eq(f"dump of {n} elements as {T}", lambda: dump(mk(xs), T), list(mk(xs)))
    for n in range(9):
        for bad in range(n):
            b.ce(f"element {bad} of {n} is wrong", lambda: load([1] * bad + ["x"] + [1] * (n - bad - 1), t.List[int]))
            b.ce(f"element {bad} of {n} is wrong, dumped", lambda: dump([1] * bad + ["x"] + [1] * (n - bad - 1), t.List[int]))
    for n in range(7):
        h = t.Tuple[tuple([int, str, bool][i % 3] for i in range(n))] if n else None
        if h:
            v = tuple([5, "x", True][i % 3] for i in range(n))
            b.eq(f"tuple of {n}", lambda: load(list(v), h), v)
            for k in range(n + 3):
                if k != n:
                    b.ce(f"tuple of {n}, given {k}", lambda: load([[5, "x", True][i % 3] for i in range(k)], h))
                    b.ce(f"tuple of {n}, given {k}, dumped", lambda: dump(tuple([5, "x", True][i % 3] for i in range(k)), h))


def p04(b):
    b.rules.append("keys that are equal to their converted form but of another type; one value object under several keys")
    for ks in ([1], [1, 2], [1, 2.5], [0, -0.0 + 3]):
        r = outcome(lambda: load({k: k for k in ks}, t.Dict[float, float]))
        b.true(f"load {ks} as Dict[float, float]", r[0] == "ok" and all(type(k) is float and type(v) is float for k, v in r[1].items()) and list(r[1]) == ks, ks, r)
        r = outcome(lambda: dump({k: k for k in ks}, t.Dict[float, float]))
        b.true(f"dump {ks} as Dict[float, float]", r[0] == "ok" and all(type(k) is float and type(v) is float for k, v in r[1].items()) and list(r[1]) == ks, ks, r)
    for k in (1.0, 2.0):
        r = outcome(lambda: load({k: 0}, t.Dict[int, int]))
        b.true(f"load {k} as Dict[int, int]", r[0] == "ok" and [type(x) for x in r[1]] == [int], int, r)
    for K, k, w in ((t.Tuple[int, int], (1.0, 2), (1, 2)), (t.FrozenSet[float], frozenset([1]), frozenset([1.0])), (decimal.Decimal, "1.0", decimal.Decimal("1.0"))):
        r = outcome(lambda: load({k: 0}, t.Dict[K, int]))
        b.true(f"load {k!r} as a key {K}", r[0] == "ok" and same(list(r[1]), [w]), w, r)
    one = [1, 2]
    for T in (t.Dict[str, t.List[int]], t.Mapping[str, t.List[int]], t.OrderedDict[str, t.List[int]]):
        r = outcome(lambda: load({"a": one, "b": one, "c": one}, T))
        b.true(f"one list under three keys, {T}", r[0] == "ok" and same(dict(r[1]), {"a": [1, 2], "b": [1, 2], "c": [1, 2]}) and len({id(x) for x in [*r[1].values(), one]}) == 4, "distinct lists", r)
        r = outcome(lambda: dump(collections.OrderedDict({"a": one, "b": one}), T))
        b.true(f"one list under two keys, dumped, {T}", r[0] == "ok" and same(dict(r[1]), {"a": [1, 2], "b": [1, 2]}) and r[1]["a"] is not r[1]["b"], "distinct lists", r)
    for n in (0, 1, 2, 33, 129, 1000):
        m = {f"k{i % 7}.{i}": i for i in range(n, 0, -1)}
        for f in (load, dump):
            b.eq(f"{f.__name__} of {n} entries", lambda: list(f(m, t.Dict[str, int]).items()), list(m.items()))


def p06(b):
    b.rules.append("sets and lists of many formats; the formats that cannot express a value are skipped")
    pats = ["%Y", "%Y/%m/%d", "%d.%m.%Y", "%m-%d-%Y", "%Y_%m_%d", "%Y %m %d", "%d|%m|%Y", "%Y%m%d"]
    d = datetime.date(2020, 3, 4)
    texts = ["2020", "2020/03/04", "04.03.2020", "03-04-2020", "2020_03_04", "2020 03 04", "04|03|2020", "20200304"]
    for n in range(1, 9):
        comp = [date_format.compile(p) for p in pats[:n]]
        for F in (DateFormat(*pats[:n]), DateFormat(*comp), DateFormat(format_set("s", date_formats=comp, time_formats=[], datetime_formats=[]))) if n > 1 else (DateFormat(*pats[:1]),):
            for i in range(1, 8):
                w = ("ok", d) if i < n else ("CE",)
                if i == 7 and n <= 7:
                    w = ("CE",)
                b.spec(f"{texts[i]!r} with {n} formats", lambda: load(texts[i], datetime.date, settings=[F]), w)
            b.eq(f"dump with {n} formats", lambda: dump(d, datetime.date, settings=[F]), texts[0])
    for i in range(6):
        F = DateFormat(*[time_format.compile("%H:%M")] * i, "%Y-%m-%d", *[datetime_format.compile("%H:%M")] * (5 - i))
        b.eq(f"format {i} is the first that applies", lambda: dump(d, datetime.date, settings=[F]), "2020-03-04")
        b.eq(f"format {i} is the first that applies, loading", lambda: load("2020-03-04", datetime.date, settings=[F]), d)
        if i:
            b.eq(f"... of a time, {i}", lambda: dump(datetime.time(1, 2), datetime.time, settings=[DateFormat(*[date_format.compile("%Y")] * i, "%H.%M")]), "01.02")
    naive, aware = datetime.datetime(2020, 1, 2, 3, 4), datetime.datetime(2020, 1, 2, 3, 4, tzinfo=datetime.timezone.utc)
    for k in range(5):
        F = DateFormat(*["%Y-%m-%d %H:%M %z"] * k, "%Y-%m-%d %H:%M")
        b.eq(f"{k} formats that need an offset come first, loading", lambda: load("2020-01-02 03:04", datetime.datetime, settings=[F]), naive)


def p08(b):
    b.rules.append("Any, literals and optionals whatever settings there are")
    o = object()
    sets = [Strict(True), Strict(False), Precision(prec=2), DateFormat("%Y"), ExtraKeys(True), ExtraKeys(False), Alias("x"), Required(), Remainder(), Flattened(), SerializeDefaults(False)]
    for s in sets + [sets]:
        ss = s if isinstance(s, list) else [s]
        for v in (o, None, 1, "x", [1], {"a": 1}, decimal.Decimal("1.2345"), datetime.date(2020, 1, 2)):
            for T in (t.Any, object):
                for f in (load, dump):
                    r = outcome(lambda: f(v, T, settings=list(ss)))
                    b.true(f"{f.__name__}({v!r}, {T}, {s})", r[0] == "ok" and r[1] is v, v, r)
                    r = outcome(lambda: f(v, Annotated[(T, *ss)]))
                    b.true(f"{f.__name__}({v!r}, {T}, annotated with {s})", r[0] == "ok" and r[1] is v, v, r)
        for v in ("a", 1, None, "b", 2):
            for f in (load, dump):
                b.spec(f"{f.__name__}({v!r}, Literal, {s})", lambda: f(v, t.Literal["a", 1, None], settings=list(ss)), ("ok", v) if v in ("a", 1, None) else ("CE",))
                b.spec(f"{f.__name__}(None, Optional, {s})", lambda: f(None, t.Optional[int], settings=list(ss)), ("ok", None))
    for n in (1, 2, 5, 20, 100):
        vals = tuple(f"v{i}" for i in range(n)) + tuple(range(10, 10 + n))
        L = t.Literal[vals]
        for v in vals:
            b.eq(f"{v!r} of {n}", lambda: load(v, L), v)
        for v in ("v", f"v{n}", 10 + n, 9, "10", None, [], {}, ("v0",)):
            b.ce(f"{v!r}, none of {n}", lambda: load(v, L))


def odd_names(b, what):
    for n in NAMES:
        for k in (1, 2, 3):
            others = [x for x in NAMES if x != n][:k - 1]
            names = [n, *others]
            for deco in (dataclasses.dataclass, dbdc.dataclass):
                C = deco(type("C", (), {"__annotations__": {x: int for x in names}, "__module__": __name__}))
                v = C(*range(k))
                w = dict(zip(names, range(k)))
                yield what, C, v, w
            try:
                N = t.NamedTuple("N", [(x, int) for x in names])
            except ValueError:
                continue
            yield "named tuple", N, N(*range(k)), dict(zip(names, range(k)))


def p09(b):
    b.rules.append("fields of any name")
    for what, C, v, w in odd_names(b, "dataclass"):
        if what == "named tuple" and any(x in ("count", "index") for x in w):
            continue
        b.eq(f"load as a {what} with {list(w)}", lambda: load(w, C), v)
        for k in w:
            b.ce(f"... without {k}", lambda: load({x: y for x, y in w.items() if x != k}, C))
            b.ce(f"... with {k}_ instead", lambda: load({x + "_" * (x == k): y for x, y in w.items()}, C))
    for n in (1, 5, 40, 200):
        C = dataclasses.make_dataclass("C", [(f"f{i}", Annotated[int, Alias(f"a{i}", f"b{i}", f"c{i}")], dataclasses.field(default=-i)) for i in range(n)])
        b.eq(f"{n} fields, first aliases", lambda: load({f"a{i}": i for i in range(n)}, C), C(*range(n)))
        b.eq(f"{n} fields, last aliases", lambda: load({f"c{i}": i for i in range(n)}, C), C(*range(n)))
        b.eq(f"{n} fields, every other", lambda: load({f"b{i}": i for i in range(0, n, 2)}, C), C(*[i if i % 2 == 0 else -i for i in range(n)]))
        b.eq(f"{n} fields, none", lambda: load({}, C), C())
    for k in range(1, 8):
        al = [f"x{i}" for i in range(k)]
        C = dataclasses.make_dataclass("C", [("f", Annotated[int, Alias(*al)])])
        for i in range(k):
            b.eq(f"{k} aliases, the {i}th", lambda: load({al[i]: i}, C), C(i))
            for j in range(i + 1, k):
                b.eq(f"{k} aliases, {i} and {j}", lambda: load({al[j]: j, al[i]: i}, C, settings=[ExtraKeys(True)]), C(i))
        b.ce(f"{k} aliases, the name", lambda: load({"f": 1}, C))
        b.ce(f"{k} aliases, the name, extra keys allowed", lambda: load({"f": 1}, C, settings=[ExtraKeys(True)]))


def p10(b):
    b.rules.append("a recorder in several conversions; many extra keys; extra keys of every type")
    @dataclasses.dataclass
    class A:
        x: int = 0
    for pr in Priority:
        seen = []
        E = ExtraKeys(True, lambda ctx, keys: seen.append(set(keys)), pr)
        m = get_object_mapper()
        for i in range(4):
            m.deserialize({"x": 1, f"e{i}": 1, 5: 2}, A, settings=[E])
            m.deserialize({"x": 1}, A, settings=[E])
        b.eq(f"one recorder, four conversions with extra keys, {pr}", lambda: seen, [{f"e{i}", 5} for i in range(4)])
    for n in (1, 2, 3, 17, 100):
        extra = {f"e{i}": i for i in range(n)}
        seen = []
        b.eq(f"{n} extra keys recorded", lambda: (load({"x": 1, **extra}, A, settings=[ExtraKeys(True, lambda c, k: seen.append(set(k)))]), seen), (A(1), [set(extra)]))
        b.ce(f"{n} extra keys rejected", lambda: load({"x": 1, **extra}, A))
        b.ce(f"{n} extra keys rejected, explicitly", lambda: load({"x": 1, **extra}, A, settings=[ExtraKeys(False, lambda c, k: None)]))
        @dataclasses.dataclass
        class R:
            x: int
            r: Annotated[t.Dict[t.Any, int], Remainder()]
        b.eq(f"{n} extra keys collected", lambda: load({"x": 1, **extra}, R), R(1, extra))
    for k in ("", " x", "X", "x ", "_x", "__x", "$x", 0, 1, None, True, 1.5, (), ("x",), b"x", frozenset(), "x\0", "r "):
        b.ce(f"extra key {k!r}", lambda: load({"x": 1, k: 2}, A))
        seen = []
        b.eq(f"extra key {k!r} recorded", lambda: (load({"x": 1, k: 2}, A, settings=[ExtraKeys(True, lambda c, q: seen.append(set(q)))]), seen), (A(1), [{k}]))
        b.eq(f"extra key {k!r} collected", lambda: load({"x": 1, k: 2}, R), R(1, {k: 2}))


def p11(b):
    b.rules.append("fields of any name; any subset of fields at their default")
    for what, C, v, w in odd_names(b, "dataclass"):
        if what == "named tuple" and any(x in ("count", "index") for x in w):
            continue
        b.eq(f"dump a {what} with {list(w)}", lambda: dump(v, C), w)
        b.eq(f"dump a {what} with {list(w)} in order", lambda: list(dump(v, C)), list(w))
    D = dataclasses.make_dataclass("D", [("a", int, 1), ("b", t.List[int], dataclasses.field(default_factory=list)), ("c", t.Optional[str]), ("d", Annotated[int, Required()], 4), ("e", t.Dict[str, int], dataclasses.field(default_factory=dict))] if False else
                                   [("a", int, 1), ("b", t.List[int], dataclasses.field(default_factory=list)), ("c", t.Optional[str], None), ("d", Annotated[int, Required()], 4), ("e", t.Dict[str, int], dataclasses.field(default_factory=dict))])
    dflt = dict(a=1, b=[], c=None, d=4, e={})
    other = dict(a=0, b=[0], c="", d=0, e={"": 0})
    for mask in itertools.product([0, 1], repeat=5):
        val = {k: (other if m else dflt)[k] for k, m in zip(dflt, mask)}
        b.eq(f"{val}", lambda: dump(D(**val), D), val)
        b.eq(f"{val}, without defaults", lambda: dump(D(**val), D, settings=[SerializeDefaults(False)]), {k: v for k, v in val.items() if k == "d" or v != dflt[k]})


REDEF = "databind_battery_redefined"


def p15(b):
    b.rules.append("classes that are redefined between lookups; ids of any form; many members")
    mod = types.ModuleType(REDEF)
    sys.modules[REDEF] = mod
    try:
        m = ImportUnionMembers()
        for i in range(3):
            C = type("C", (), {"__module__": REDEF, "__qualname__": "C"})
            mod.C = C
            b.true(f"class {i} of the name", m.get_type_by_id(REDEF + ".C") is C, C, "another class")
            b.true(f"class {i} of the name, another registry", ImportUnionMembers().get_type_by_id(REDEF + ".C") is C, C, "another class")
            b.eq(f"its id {i}", lambda: m.get_type_id(C), REDEF + ".C")
        del mod.C
        b.exc("the class is gone", lambda: m.get_type_by_id(REDEF + ".C"), ValueError)
    finally:
        del sys.modules[REDEF]
    b.exc("the module is gone", lambda: m.get_type_by_id(REDEF + ".C"), ValueError)
    tys = [type(f"T{i}", (), {}) for i in range(60)]
    for n in (0, 1, 2, 10, 60):
        s = StaticUnionMembers({f"id{(i * 7) % 61}": x for i, x in enumerate(tys[:n])})
        b.eq(f"{n} members: ids", lambda: s.get_type_ids(), [f"id{(i * 7) % 61}" for i in range(n)])
        b.true(f"{n} members: types", all(s.get_type_by_id(f"id{(i * 7) % 61}") is x and s.get_type_id(x) == f"id{(i * 7) % 61}" for i, x in enumerate(tys[:n])), "", "")
        c = ChainUnionMembers(*[StaticUnionMembers({f"id{(i * 7) % 61}": x}) for i, x in enumerate(tys[:n])])
        b.eq(f"chain of {n}: ids", lambda: c.get_type_ids(), [f"id{(i * 7) % 61}" for i in range(n)])
        b.true(f"chain of {n}: types", all(c.get_type_by_id(f"id{(i * 7) % 61}") is x and c.get_type_id(x) == f"id{(i * 7) % 61}" for i, x in enumerate(tys[:n])), "", "")
    for i in ("", " ", ".", "a.b", "a b", "é", "<import>", "!x", "None", "T0", "0"):
        s = StaticUnionMembers({i: int, "z" + i: lambda: str})
        b.true(f"id {i!r}", s.get_type_by_id(i) is int and s.get_type_id(int) == i and s.get_type_by_id("z" + i) is str and s.get_type_ids() == [i, "z" + i], "", "")
        for u in ("y" + i, i + " ", i + "."):
            b.exc(f"id {u!r} of {i!r}", lambda: s.get_type_by_id(u), ValueError)


def p16(b):
    b.rules.append("several settings of every kind at every place: the first added among equals")
    kinds = {Strict: [Strict(True), Strict(False)], SerializeDefaults: [SerializeDefaults(True), SerializeDefaults(False)], Alias: [Alias("b"), Alias("a", "c")], Precision: [Precision(prec=9), Precision(prec=2)],
             ExtraKeys: [ExtraKeys(True), ExtraKeys(False)], Required: [Required(False), Required()], Remainder: [Remainder(), Remainder(False)], Flattened: [Flattened(False), Flattened()], DateFormat: [DateFormat("%Y"), DateFormat("%m")]}
    def get(h, s, k):
        return s.get_setting(Context(None, Direction.SERIALIZE, None, TypeHint(h), s, Context.ROOT, Location.EMPTY, lambda c: None), k)
    class C:
        pass
    for k, (x, y) in kinds.items():
        for p, q in ((x, y), (y, x)):
            for noise in ([], [Alias("n")] if k is not Alias else [Strict()]):
                ms = [*noise, p, *noise, q]
                b.true(f"annotated {ms}", get(Annotated[(C, *ms)], Settings(), k) is p, p, "")
                s = Settings(global_settings=ms)
                b.true(f"global {ms}", get(C, s, k) is p, p, "")
                s = Settings()
                for z in ms:
                    s.add_local(C, z)
                b.true(f"local {ms}", get(C, s, k) is p, p, "")
                s = Settings()
                for z in ms:
                    s.add_conditional(lambda c: True, z)
                b.true(f"conditional {ms}", get(C, s, k) is p, p, "")
                s = Settings()
                s.add_provider(lambda c: ms)
                b.true(f"provider {ms}", get(C, s, k) is p, p, "")
                b.true(f"parent {ms}", get(C, Settings(Settings(global_settings=ms)), k) is p, p, "")
                D = type("D", (), {"__databind_settings__": ms})
                b.true(f"class {ms}", get(D, Settings(), k) is p, p, "")
            # one at a more local place than the other
            order = ["annotated", "class", "local", "provider", "global", "parent"]
            for i, j in itertools.combinations(range(6), 2):
                at = {order[i]: p, order[j]: q}
                D = type("D", (), {"__databind_settings__": [at["class"]]} if "class" in at else {})
                s = Settings(Settings(global_settings=[at["parent"]]) if "parent" in at else None, [at["global"]] if "global" in at else None)
                if "local" in at:
                    s.add_local(D, at["local"])
                if "provider" in at:
                    s.add_provider(lambda c: [at["provider"]])
                b.true(f"{at}", get(Annotated[D, at["annotated"]] if "annotated" in at else D, s, k) is p, p, "")
    for n in (1, 5, 9, 30):
        s = Settings()
        for i in range(n):
            s.add_local(C, Strict(i == 0))
        b.true(f"{n} local settings", get(C, s, Strict).enabled is True, True, False)
        s = Settings()
        for i in range(n):
            s.add_local(type(f"X{i}", (), {}), Strict(False))
        s.add_local(C, Strict(True))
        b.true(f"{n} settings of other classes", get(C, s, Strict).enabled is True, True, False)
        for i in range(n):
            s.add_conditional(lambda c, i=i: i % 2 == 1, Precision(prec=i + 1))
        b.eq(f"{n} conditions", lambda: getattr(get(C, s, Precision), "prec", None), 2 if n > 1 else None)


def p18(b):
    b.rules.append("modules of the same name in one another; many converters")
    calls = []
    class K(Converter):
        def __init__(self, n, how):
            self.n, self.how = n, how

        def convert(self, ctx):
            calls.append(self.n)
            if self.how == "skip":
                raise NotImplementedError
            if self.how == "fail":
                raise ConversionError(self, ctx, f"failed {self.n}")
            return self.n
    for names in (("m", "m", "m"), ("m", "n", "m"), ("ObjectMapper.module",) * 3, ("", "", "")):
        for how in ("skip", "fail"):
            m = ObjectMapper()
            mods = [Module(x) for x in names]
            m.module.register(K(0, how))
            m.module.register(mods[0])
            m.module.register(K(9, how))
            mods[0].register(K(1, how))
            mods[0].register(mods[1])
            mods[0].register(K(8, how))
            mods[1].register(K(2, how))
            mods[1].register(mods[2])
            mods[1].register(K(7, how))
            for i in (3, 4, 5, 6):
                mods[2].register(K(i, how))
            calls.clear()
            o = outcome(lambda: m.deserialize(1, int))
            b.eq(f"order in modules {names}, all {how}", lambda: list(calls), list(range(10)))
            if how == "fail":
                b.true(f"errors in order, {names}", o[0] == "CE" and isinstance(o[1], NoMatchingConverter) and [c.n for c, _ in o[1].errors] == list(range(10)), list(range(10)), o)
            mods[2].register(K(-1, "ok"), first=True)
            calls.clear()
            b.eq(f"... the first of the innermost returns, {names}", lambda: (m.deserialize(1, int), list(calls)), (-1, [0, 1, 2, -1]))
    for n in (1, 2, 50):
        for ok in (0, n // 2, n - 1):
            m = ObjectMapper()
            for i in range(n):
                m.module.register(K(i, "ok" if i == ok else "fail"))
            calls.clear()
            b.eq(f"{n} converters, the {ok}th returns", lambda: (m.serialize(1, int), list(calls)), (ok, list(range(ok + 1))))


def p20(b):
    b.rules.append("fields of any name in the path")
    class Fail(Converter):
        def convert(self, ctx):
            raise ConversionError(self, ctx, "failed")
    class Q:
        pass
    H = Annotated[Q, JsonConverter(Fail())]
    for n in NAMES:
        C = dataclasses.dataclass(type("C", (), {"__annotations__": {n: t.List[H]}, "__module__": __name__}))
        for f, v in ((load, {n: [0]}), (dump, C([0]))):
            o = outcome(lambda: f(v, C))
            ks, c = [], o[1].context if o[0] == "CE" else None
            while c is not None:
                ks.append(c.key)
                c = c.parent
            b.true(f"{f.__name__}: path through a field {n!r}", ks[::-1] == [Context.ROOT, n, 0], [n, 0], ks[::-1])


def p21(b):
    b.rules.append("fields of any name; many fields; many levels")
    for n in NAMES:
        for k in (1, 3):
            names = [n] + [x for x in NAMES if x != n][:k - 1]
            C = dataclasses.dataclass(type("C", (), {"__annotations__": {x: int for x in names}, "__module__": __name__, **({names[-1]: 5} if k > 1 else {})}))
            s = convert_to_schema(TypeHint(C))
            b.eq(f"fields {names}", lambda: [(x, f.datatype == TypeHint(int), f.required) for x, f in s.fields.items()], [(x, True, k == 1 or x != names[-1]) for x in names])
    base = object
    for i in range(12):
        base = dataclasses.dataclass(type(f"L{i}", (base,) if base is not object else (), {"__annotations__": {f"f{i}": int, "shared": [int, str, float][i % 3]}, "__module__": __name__}))
        s = convert_to_schema(TypeHint(base))
        b.true(f"{i + 1} levels", set(s.fields) == {f"f{j}" for j in range(i + 1)} | {"shared"} and s.fields["shared"].datatype == TypeHint([int, str, float][i % 3]) and all(s.fields[f"f{j}"].datatype == TypeHint(int) for j in range(i + 1)), "", list(s.fields))
    for n in (0, 1, 50, 300):
        C = dataclasses.make_dataclass("C", [(f"f{i}", [int, str][i % 2], dataclasses.field(default=[1, "1"][i % 2])) for i in range(n)])
        s = convert_to_schema(TypeHint(C))
        b.eq(f"{n} fields", lambda: [(x, f.datatype.type, f.default) for x, f in s.fields.items()], [(f"f{i}", [int, str][i % 2], [1, "1"][i % 2]) for i in range(n)])


def p22(b):
    b.rules.append("keys of any name")
    for n in [*NAMES, "", " ", "a b", "class", "1", "a.b", "$ref", "@type", "clear", "fromkeys", "update", "setdefault", "popitem", "values"]:
        if n.startswith("__") and n.endswith("__"):
            continue
        for total in (True, False):
            X = te.TypedDict("X", {n: int, "zz": t.Optional[str]}, total=total)
            s = convert_to_schema(TypeHint(X))
            b.true(f"keys {n!r}, zz, total={total}", set(s.fields) == {n, "zz"} and s.fields[n].required == total and s.fields[n].has_default() == (not total and False or not s.fields[n].required and False) or s.fields[n].required == total, total, s.fields)
            b.eq(f"load with key {n!r}", lambda: load({n: 1, "zz": "x"}, X), {n: 1, "zz": "x"})
            b.ce(f"load with a wrong value under {n!r}", lambda: load({n: "1", "zz": "x"}, X))
            b.eq(f"dump with key {n!r}", lambda: dump({n: 1, "zz": "x"}, X), {n: 1, "zz": "x"})
            if total:
                b.ce(f"load without key {n!r}", lambda: load({"zz": "x"}, X))
                b.ce(f"dump without key {n!r}", lambda: dump({"zz": "x"}, X))


def p23(b):
    b.rules.append("fields of any name, required after defaults; frozen classes with methods of their own")
    for n in NAMES:
        ns = {"__annotations__": {"first_": int, n: int, "last_": str}, "__module__": __name__, "first_": 1}
        C = dbdc.dataclass(type("C", (), dict(ns)))
        b.eq(f"field {n!r} after a default", lambda: [getattr(C(5, 6, "7"), x) for x in ("first_", n, "last_")], [5, 6, "7"])
        b.eq(f"field {n!r} by name", lambda: [getattr(C(**{n: 6, "last_": "7"}), x) for x in ("first_", n, "last_")], [1, 6, "7"])
        b.exc(f"field {n!r} left out", lambda: C(last_="7"), TypeError)
        b.exc(f"field after {n!r} left out", lambda: C(**{n: 6}), TypeError)
        b.true(f"field {n!r} leaves no class attribute", not hasattr(C, n), "no attribute", vars(C).get(n))
        D = dbdc.dataclass(type("D", (C,), {"__annotations__": {n: int, "more_": int}, "__module__": __name__}))
        b.eq(f"field {n!r} in a subclass", lambda: [getattr(D(5, 6, "7", 8), x) for x in ("first_", n, "last_", "more_")], [5, 6, "7", 8])
        b.exc(f"field {n!r} left out in a subclass", lambda: D(**{"last_": "7", "more_": 8}), TypeError)
    for kw in itertools.product([None, True, False], repeat=4):
        opts = {k: v for k, v in zip(("eq", "frozen", "repr", "unsafe_hash"), kw) if v is not None}
        for own in ({}, {"__eq__": lambda s, o: True}, {"__repr__": lambda s: "own"}, {"__eq__": lambda s, o: True, "__hash__": lambda s: 7}):
            res = []
            for deco in (dataclasses.dataclass, dbdc.dataclass):
                try:
                    C = deco(**opts)(type("C", (), {"__annotations__": {"x": int, "y": int}, "__module__": __name__, "__qualname__": "C", "y": 3, **own}))
                    v = C(1)
                    try:
                        h = hash(v) if opts.get("eq", True) or "__hash__" in own else "id"
                    except TypeError as exc:
                        h = type(exc)
                    try:
                        v.x = 4
                        a = "set"
                    except dataclasses.FrozenInstanceError:
                        a = "frozen"
                    res.append((h, a, C(1) == C(1), C(1) == C(2), repr(v) if opts.get("repr", True) or "__repr__" in own else "", v.x, v.y))
                except Exception as exc:
                    res.append(type(exc))
            b.eq(f"like a standard dataclass: {opts}, own {list(own)}", lambda: res[1], res[0])


def p24(b):
    b.rules.append("setting objects after conversions; copies of empty and of full mappers; many settings")
    @dataclasses.dataclass
    class A:
        x: Annotated[int, Alias("y")] = 0
        d: t.Optional[datetime.date] = None
        c: decimal.Decimal = decimal.Decimal(0)
    rec = []
    record = lambda ctx, keys: rec.append(set(keys))
    ss = [Strict(False), ExtraKeys(True, record), DateFormat("%Y-%m-%d"), Precision(prec=3), SerializeDefaults(True)]
    before = [dict(vars(s)) for s in ss]
    m = get_object_mapper()
    for i in range(5):
        b.eq(f"conversion {i}", lambda: m.deserialize({"y": "5", "d": "2020-01-02", "c": "1.2345", "e": 1}, A, settings=ss), A(5, datetime.date(2020, 1, 2), decimal.Decimal("1.23")))
        b.eq(f"conversion {i} dumped", lambda: m.serialize(A(5, datetime.date(2020, 1, 2), decimal.Decimal("1.23")), A, settings=ss), {"y": 5, "d": "2020-01-02", "c": "1.23"})
        b.true(f"recorded {i}", rec == [{"e"}] * (i + 1), i + 1, rec)
        b.true(f"settings after {i}", [dict(vars(s)) for s in ss] == before and len(ss) == 5, before, [vars(s) for s in ss])
    class K(Converter):
        def __init__(self, n):
            self.n = n

        def convert(self, ctx):
            return self.n
    for n in range(4):
        m = ObjectMapper()
        for i in range(n):
            m.module.register(K(i))
        c = m.copy()
        c.module.register(K("copy"), first=True)
        b.spec(f"{n} converters: the original after the copy got one", lambda: m.deserialize(0, int), ("ok", 0) if n else ("CE",))
        b.eq(f"{n} converters: the copy", lambda: c.deserialize(0, int), "copy")
        c2 = m.copy()
        m.module.register(K("orig"), first=True)
        b.spec(f"{n} converters: the copy after the original got one", lambda: c2.deserialize(0, int), ("ok", 0) if n else ("CE",))
        b.true(f"{n} converters: lists are not shared", m.module.converters is not c.module.converters and m.module is not c.module and m.settings is not c.settings, "", "")
    for n in (1, 8, 9, 10, 33):
        s = Settings()
        s.add_local(int, Strict(False))
        s.add_global(Precision(prec=3))
        for i in range(n):
            s.add_local(int, Strict(True))
            s.add_global(Precision(prec=9))
            s.add_provider(lambda c: [])
        for q in (s, s.copy(), s.copy().copy()):
            m = get_object_mapper(q)
            b.eq(f"{n} more settings, the first counts", lambda: m.deserialize("5", int), 5)
            b.eq(f"{n} more settings, the first counts, global", lambda: m.deserialize("1.2345", decimal.Decimal), decimal.Decimal("1.23"))


def p25(b):
    b.rules.append("text of structured values in every kind of collection; fields of any name")
    @dataclasses.dataclass(frozen=True)
    class Z:
        z: int
        a: int = 1
    for T, v in ((t.Set[Z], {Z(1)}), (t.FrozenSet[Z], frozenset([Z(1)])), (t.List[Z], [Z(1), Z(0, 0)]), (t.Tuple[Z, ...], (Z(1), Z(2))), (t.Dict[str, Z], {"z": Z(1), "a": Z(2)}), (t.Deque[Z], collections.deque([Z(1), Z(2)])), (t.Optional[Z], Z(3)), (Z, Z(3, 4))):
        for kw in ({}, {"indent": 0}, {"indent": 2}, {"indent": "\t"}, {"sort_keys": True}, {"sort_keys": False}, {"sort_keys": True, "indent": 1}):
            b.eq(f"dumps({v!r}, {T}, {kw})", lambda: dumps(v, T, **kw), json.dumps(dump(v, T), **kw))
        b.eq(f"text of {v!r}", lambda: dumps(v, T), json.dumps([dataclasses.asdict(x) for x in v]) if isinstance(v, (set, frozenset, list, tuple, collections.deque)) else json.dumps({k: dataclasses.asdict(x) for k, x in v.items()}) if isinstance(v, dict) else json.dumps(dataclasses.asdict(v)))
        b.eq(f"loads(dumps({v!r}))", lambda: loads(dumps(v, T), T), v)
    for what, C, v, w in odd_names(b, "dataclass"):
        if what == "named tuple" and any(x in ("count", "index") for x in w):
            continue
        b.eq(f"a {what} with {list(w)}", lambda: loads(dumps(v, C), C), v)
