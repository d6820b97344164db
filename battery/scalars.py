"""P01-P08: scalars, collections, mappings, enums, dates, stringified types, optional/literal/any."""
import base64, binascii, collections, collections.abc as cabc, datetime, decimal, enum, math, pathlib, typing as t, uuid
from typing import Annotated

from databind.core import Alias, ConversionError, DateFormat, ObjectMapper, Precision, Priority, Settings, Strict
from databind.json import dump, load, get_object_mapper
from nr.date import date_format, datetime_format, duration, format_set, time_format

from .lib import *

SCALARS = (bool, int, float, str, bytes)
SCALAR_EXTRA = [
    2.0, -3.0, 1e16, 1e22, 123456789012345680.0, 4.5, -0.5, 5e-324, 1.7e308, float("-inf"), 2**53 + 1, -(2**70), 10**309,
    "Enabled", "DISABLED", "oN", "oFF", "YES", "nO", "true ", " true", "1.0", "0x10", "1e400", "-inf", "NaN", "1__0", "१२", "+5", "--5",
    "MTIz", "AAEC/w==", "+/8=", "////", "YQ===", "Y", "YQ=", "é", "\n", "aGVs\nbG8=", "A" * 400, "x\u0000y", "1j",
]


def pool():
    return JSONISH + ODD + SCALAR_EXTRA


def scalar_load_spec(T, v, strict):
    ty = type(v)
    try:
        if T is bytes:
            return ("ok", base64.b64decode(v)) if ty is str else ("CE",)
        if ty is T:
            return "ok", v
        if T is float and ty is int:
            return "ok", float(v)
        if T is int and ty is float:
            return ("ok", int(v)) if math.isfinite(v) and v == math.floor(v) else ("CE",)
        if not strict:
            if ty is str and T in (int, float):
                return "ok", T(v)
            if ty is str and T is bool:
                w = v.lower()
                return ("ok", True) if w in ("yes", "true", "on", "enabled") else (
                    ("ok", False) if w in ("no", "false", "off", "disabled") else ("CE",))
            if T is str and ty in (int, float, bool):
                return "ok", str(v)
    except (ValueError, OverflowError):
        return ("CE",)
    return ("CE",)


def scalar_dump_spec(T, v):
    if T is bytes:
        return ("ok", base64.b64encode(v).decode("ascii")) if type(v) is bytes else ("CE",)
    return scalar_load_spec(T, v, True)


def wrap_variants(T, *settings):
    """The same type with and without (irrelevant) annotations."""
    yield T
    yield Annotated[T, "note"]
    yield Annotated[T, Alias("zzz"), 42]


def rand_scalar(rng):
    r = rng.randrange(9)
    if r == 0:
        return rng.randint(-10**rng.randint(0, 25), 10**rng.randint(0, 25))
    if r == 1:
        return rng.choice([rng.random() * 10**rng.randint(-5, 20), float(rng.randint(-1000, 1000)), rng.gauss(0, 1e10)])
    if r == 2:
        return "".join(rng.choice("0123456789abcXYZ+-._ /=é\u2028") for _ in range(rng.randint(0, 9)))
    if r == 3:
        return bytes(rng.randrange(256) for _ in range(rng.randint(0, 40)))
    if r == 4:
        return base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randint(0, 9)))).decode()
    if r == 5:
        return str(rng.randint(-10**6, 10**6))
    if r == 6:
        return repr(rng.gauss(0, 1e3))
    if r == 7:
        return "".join(rng.choice([c.upper(), c]) for c in rng.choice(
            ["yes", "true", "on", "enabled", "no", "false", "off", "disabled", "y", "n", "enable", "tru", "disable", "0", "1"]))
    return rng.choice([True, False, None])


def p01(b):
    b.rules.append("every scalar type x every value of a pool of JSON-like and Python values x direction, plus random values; "
                   "a case is non-trivial if its (type, value, direction, setting) is new")
    vals = pool() + [rand_scalar(b.rng) for _ in b.times(250)]
    strict_sets = [None, [Strict(True)]]
    for T in SCALARS:
        for v in vals:
            s = b.rng.choice(strict_sets)
            h = b.rng.choice(list(wrap_variants(T)))
            d = f"load({show(v, 120)}, {h}, settings={s})"
            sp = scalar_load_spec(T, v, True)
            b.spec(d, lambda: load(v, h, settings=s), sp)
            s2 = b.rng.choice([None, [Strict(True)], [Strict(False)], [Strict(False, priority=Priority.ULTIMATE)]])
            d = f"dump({show(v, 120)}, {h}, settings={s2})"
            sp = scalar_dump_spec(T, v)
            if b.spec(d, lambda: dump(v, h, settings=s2), sp) and sp[0] == "ok" and type(v) is T:
                b.eq("load of " + d, lambda: load(sp[1], h), v)
    h2 = Annotated[int, Strict(False)]
    for v in vals:
        b.spec(f"dump({show(v, 120)}, {h2})", lambda: dump(v, h2), scalar_dump_spec(int, v))


def p02(b):
    b.rules.append("every scalar type x every value of a pool x ways of giving Strict, plus random values")
    vals = pool() + [rand_scalar(b.rng) for _ in b.times(400)]
    for T in (bool, int, float, str, bytes):
        for v in vals:
            k = b.rng.randrange(5)
            h, s, mapper = T, None, None
            strict = False
            if k == 0:
                s = [Strict(False)]
            elif k == 1:
                h = Annotated[T, Strict(False)]
            elif k == 2:
                h, s = Annotated[T, Strict(False)], [Strict(True)]
            elif k == 3:
                st = Settings()
                st.add_local(T, Strict(False))
                mapper = get_object_mapper(st)
            else:
                h, s, strict = Annotated[T, Strict(False)], [Strict(True, priority=Priority.HIGH)], True
            f = (lambda: mapper.deserialize(v, h)) if mapper else (lambda: load(v, h, settings=s))
            b.spec(f"load({show(v, 120)}, {h}, settings={s}{', local' if mapper else ''})", f, scalar_load_spec(T, v, strict))
            g = (lambda: mapper.serialize(v, h)) if mapper else (lambda: dump(v, h, settings=s))
            b.spec(f"dump({show(v, 120)}, {h}, settings={s}{', local' if mapper else ''})", g, scalar_dump_spec(T, v))
    for v in vals:
        if type(v) in (int, float, str):
            b.spec(f"load({show(v, 120)}, Decimal, Strict(False))", lambda: load(v, decimal.Decimal, settings=[Strict(False)]), dec_spec(v, False, None))
            b.spec(f"load({show(v, 120)}, Decimal)", lambda: load(v, decimal.Decimal), dec_spec(v, True, None))
    # inside of other types, and only where the setting is
    b.eq("load(['1', '2'], List[Annotated[int, Strict(False)]])", lambda: load(["1", "2"], t.List[Annotated[int, Strict(False)]]), [1, 2])
    b.eq("load({'1': 'no'}, Dict[str, bool], Strict(False))", lambda: load({"1": "no"}, t.Dict[str, bool], settings=[Strict(False)]), {"1": False})
    b.ce("load(['1'], Annotated[List[int], Strict(False)])", lambda: load(["1"], Annotated[t.List[int], Strict(False)]))


def dec_spec(v, strict, prec):
    if type(v) is str or (not strict and isinstance(v, (int, float))):
        try:
            return "ok", (prec.create_decimal(v) if prec else decimal.Decimal(v))
        except decimal.DecimalException:
            return ("CE",)
    return ("CE",)


# ------------------------------------------------------------------------------------------------------- collections
class MyList(t.List[int]):
    pass


class GenSeq(t.Generic[t.TypeVar("X")]):
    pass


class MySet(t.Set[str]):
    pass


class NoCtor(cabc.Collection):
    def __contains__(self, x):
        return False

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0


Y = t.TypeVar("Y")


class OnlyLen(t.Collection[Y]):
    """Cannot be built from a list."""

    def __init__(self):
        self.n = 3

    def __contains__(self, x):
        return x in (1, 2, 3)

    def __iter__(self):
        return iter((1, 2, 3))

    def __len__(self):
        return 3


COLL = [
    (t.List, list), (t.Set, set), (t.FrozenSet, frozenset), (t.Deque, collections.deque), (t.Sequence, list), (t.Collection, list),
    (cabc.Sequence, list), (t.MutableSequence, list), (t.AbstractSet, list), (t.MutableSet, list), (list, list), (set, set), (frozenset, frozenset),
    (collections.deque, collections.deque), (None, tuple),
]


def p03(b):
    b.rules.append("collection types x element types x random element sequences (length 0-40, duplicates), wrong kinds, tuples of all small lengths")
    rng = b.rng
    elems = [(int, lambda: rng.randint(-3, 3), lambda v: v), (str, lambda: rng.choice("abcab"), lambda v: v),
             (bool, lambda: rng.random() < .5, lambda v: v),
             (bytes, lambda: bytes([rng.randrange(4)]), lambda v: base64.b64encode(v).decode()),
             (decimal.Decimal, lambda: decimal.Decimal(rng.randint(0, 5)), str),
             (t.Optional[int], lambda: rng.choice([None, 1, 2]), lambda v: v),
             (datetime.date, lambda: datetime.date(2020, 1, rng.randint(1, 9)), lambda v: v.isoformat())]

    def hint(c, e):
        return t.Tuple[e, ...] if c is None else c[e]

    for _ in b.times(500):
        c, py = rng.choice(COLL)
        e, gen, wire = rng.choice(elems)
        n = rng.choice([0, 1, 2, 3, 5, 9, 40])
        vals = [gen() for _ in range(n)]
        wires = [wire(v) for v in vals]
        h = hint(c, e)
        if rng.random() < .3:
            h = Annotated[h, "x"]
        payload = wires
        k = rng.randrange(4)
        if k == 1:
            payload = tuple(wires)
        elif k == 2:
            payload = collections.deque(wires)
        b.eq(f"load({show(payload, 200)}, {h})", lambda: load(payload, h), py(vals))
        value = (set if c in (t.AbstractSet, t.MutableSet) else py)(vals)
        b.eq(f"dump({show(value, 200)}, {h})", lambda: dump(value, h), [wire(v) for v in value])
        if n and rng.random() < .5:  # one bad element anywhere
            i = rng.randrange(n)
            badp = list(wires)
            badp[i] = Plain()
            b.ce(f"load({show(badp, 200)}, {h})", lambda: load(badp, h))
            bv = list(vals)
            bv[i] = Plain()
            if py in (list, tuple, collections.deque) and type(value) is not set:
                b.ce(f"dump({show(bv, 200)}, {h})", lambda: dump(py(bv), h))
    # elements whose wire forms are equal or not hashable
    @dataclasses.dataclass(frozen=True)
    class Pt:
        x: int
    class Two(enum.Enum):
        A: Annotated[int, Alias("same")] = 1
        B: Annotated[int, Alias("same")] = 2
    for c, py in COLL:
        hashed = issubclass(py, (set, frozenset)) or c in (t.AbstractSet, t.MutableSet)
        for e, vals in ((Pt, [Pt(1), Pt(2), Pt(3)]), (Two, [Two.A, Two.B, Two.A]), (t.Tuple[int, ...], [(1,), (), (1, 2)]), (t.FrozenSet[int], [frozenset({1}), frozenset()])):
            value = (set if c in (t.AbstractSet, t.MutableSet) else py)(vals)
            b.eq(f"dump({show(value, 200)}, {hint(c, e)})", lambda: dump(value, hint(c, e)), [dump(v, e) for v in value])
    # conversions happen exactly once per element, in order
    from databind.core import Converter
    for direction in ("load", "dump"):
        for n in (0, 1, 2, 7):
            seen = []

            class Rec(Converter):
                def convert(self, ctx):
                    if isinstance(ctx.value, str):
                        seen.append((ctx.key, ctx.value))
                        return ctx.value.upper()
                    raise NotImplementedError

            m = get_object_mapper()
            m.module.register(Rec(), first=True)
            vals = [f"e{i % 3}" for i in range(n)]
            f = (lambda: m.deserialize(vals, t.List[str])) if direction == "load" else (lambda: m.serialize(vals, t.List[str]))
            b.eq(f"{direction} {vals} with a recording element converter", f, [v.upper() for v in vals])
            b.true(f"{direction} {vals}: elements converted once, in order, with their index", seen == list(enumerate(vals)), str(list(enumerate(vals))), seen)
    # fixed-length tuples
    for types_ in ([int], [int, str], [str, int], [int, int, bool], [t.Optional[int], str, float], [str] * 6):
        h = t.Tuple[tuple(types_)]
        def g(T):
            return {int: 5, str: "s", bool: True, float: 2.5}.get(T, None)
        v = tuple(g(T) for T in types_)
        b.eq(f"load({list(v)}, {h})", lambda: load(list(v), h), v)
        b.eq(f"dump({v}, {h})", lambda: dump(v, h), list(v))
        for n in range(0, len(types_) + 4):
            w = [g(types_[i % len(types_)]) for i in range(n)]
            if n != len(types_):
                b.ce(f"load({w}, {h})", lambda: load(w, h))
                b.ce(f"dump({tuple(w)}, {h})", lambda: dump(tuple(w), h))
        for i in range(len(types_)):
            w = list(v)
            w[i] = Plain()
            b.ce(f"load({w}, {h})", lambda: load(w, h))
            b.ce(f"dump({tuple(w)}, {h})", lambda: dump(tuple(w), h))
    b.eq("load([], Tuple[()])", lambda: load([], t.Tuple[()]), ())
    b.ce("load([1], Tuple[()])", lambda: load([1], t.Tuple[()]))
    b.ce("dump([1, 'a'], Tuple[int, str])", lambda: dump([1, "a"], t.Tuple[int, str]))
    # wrong kinds
    kinds = [t.List[str], t.Set[str], t.FrozenSet[int], t.Sequence[str], t.Tuple[str, ...], t.Tuple[str, str], t.Deque[str], MyList, MySet,
             t.Collection[str], list[str]]
    wrong = [None, True, 0, 1.5, "", "ab", "a", b"", b"ab", bytearray(b"ab"), memoryview(b"ab"), {}, {"a": 1}, {"a": "b", "c": "d"}, DictSub(a="b"),
             StrSub("ab"), Plain(), int, types.MappingProxyType({"a": "b"}), collections.OrderedDict(a="x", b="y"), iter(["a", "b"]),
             (x for x in ["a", "b"]), map(str, [1, 2]), collections.ChainMap({"a": "b"})]
    for h in kinds:
        for v in wrong:
            for hh in (h, Annotated[h, 1]):
                b.ce(f"load({show(v)}, {hh})", lambda: load(v, hh))
    for h, py in [(t.List[str], list), (t.Set[str], set), (t.FrozenSet[str], frozenset), (t.Tuple[str, ...], tuple), (t.Deque[str], collections.deque)]:
        for v in wrong + [["a"], ("a",), {"a"}, frozenset("a"), collections.deque("a")]:
            if not isinstance(v, py):
                b.ce(f"dump({show(v)}, {h})", lambda: dump(v, h))
    b.eq("dump(ListSub, List[int])", lambda: dump(ListSub([1, 2]), t.List[int]), [1, 2])
    b.eq("load([1, 2], MyList)", lambda: load([1, 2], MyList), MyList([1, 2]))
    b.eq("dump(MyList([1,2]), MyList)", lambda: dump(MyList([1, 2]), MyList), [1, 2])
    b.eq("load(['a'], MySet)", lambda: load(["a"], MySet), MySet(["a"]))
    b.eq("load([1, 2], OnlyLen[int])", lambda: load([1, 2], OnlyLen[int]), [1, 2])
    b.eq("dump(OnlyLen(), OnlyLen[int])", lambda: dump(OnlyLen(), OnlyLen[int]), [1, 2, 3])
    b.eq("load nested", lambda: load([[1], [], [2, 3]], t.List[t.Tuple[int, ...]]), [(1,), (), (2, 3)])
    for n in range(4):
        b.eq(f"load nested fixed {n}", lambda: load([[i, str(i)] for i in range(n)], t.List[t.Tuple[int, str]]), [(i, str(i)) for i in range(n)])

    class PlainNT(t.NamedTuple):
        a: int
        b: str
    for v in wrong[:8] + [["x"], 5]:
        if not isinstance(v, cabc.Mapping):
            b.ce(f"load({show(v)}, NamedTuple)", lambda: load(v, PlainNT))


# ------------------------------------------------------------------------------------------------------------ mappings
class Color(enum.Enum):
    RED = 1
    GREEN = 2


K1, V1 = t.TypeVar("K1"), t.TypeVar("V1")


class MyMap(t.Dict[str, int]):
    pass


class NoArgMap(t.Mapping[K1, V1]):
    def __init__(self):
        pass

    def __getitem__(self, k):
        return {"a": 1, "b": 2}[k]

    def __iter__(self):
        return iter(["a", "b"])

    def __len__(self):
        return 2


def p04(b):
    b.rules.append("mapping types x key/value types x random entries (0-30), wrong kinds")
    rng = b.rng
    ints = lambda: rng.randint(0, 10**6)
    keys = [(str, lambda: "k%d" % ints(), lambda k: k), (int, ints, lambda k: k), (uuid.UUID, lambda: uuid.UUID(int=ints()), str),
            (datetime.date, lambda: datetime.date.fromordinal(1 + ints()), lambda d: d.isoformat()), (bytes, lambda: str(ints()).encode(), lambda k: base64.b64encode(k).decode()),
            (decimal.Decimal, lambda: decimal.Decimal(ints()) / 8, str)]
    vals = [(int, lambda: rng.randint(0, 3), lambda v: v), (str, lambda: rng.choice("abc"), lambda v: v),
            (t.List[int], lambda: [rng.randint(0, 3)], lambda v: v), (bytes, lambda: b"x" * rng.randint(0, 3), lambda v: base64.b64encode(v).decode()),
            (t.Optional[str], lambda: rng.choice([None, "x"]), lambda v: v), (t.Dict[str, int], lambda: {"q": 1}, lambda v: v),
            (t.Any, lambda: rand_json(rng, 2), lambda v: v)]
    maps = [(t.Dict, dict), (dict, dict), (t.Mapping, dict), (t.MutableMapping, dict), (t.OrderedDict, collections.OrderedDict),
            (collections.OrderedDict, collections.OrderedDict), (cabc.Mapping, dict)]
    for _ in b.times(500):
        m, py = rng.choice(maps)
        kt, kg, kw = rng.choice(keys)
        vt, vg, vw = rng.choice(vals)
        n = rng.choice([0, 1, 2, 3, 8, 30])
        d = {kg(): vg() for _ in range(n)}
        w = {kw(k): vw(v) for k, v in d.items()}
        h = m[kt, vt]
        if rng.random() < .3:
            h = Annotated[h, "x"]
        payload = rng.choice([lambda: dict(w), lambda: collections.OrderedDict(w), lambda: types.MappingProxyType(dict(w)), lambda: DictSub(w)])()
        b.eq(f"load({show(payload, 250)}, {h})", lambda: load(payload, h), py(d))
        value = rng.choice([lambda: dict(d), lambda: collections.OrderedDict(d), lambda: types.MappingProxyType(dict(d))])()
        b.eq(f"dump({show(value, 250)}, {h})", lambda: dump(value, h), w)
        if n:
            bad = dict(w)
            bad[rng.choice(list(bad))] = Plain()
            if vt is not t.Any:
                b.ce(f"load({show(bad, 250)}, {h})", lambda: load(bad, h))
            bad = dict(w)
            k = rng.choice(list(bad))
            bad[(1, 2)] = bad.pop(k)
            b.ce(f"load({show(bad, 250)}, {h})", lambda: load(bad, h))
    wrong = [None, True, 0, 1.5, "", "ab", b"ab", [], [1], [("a", 1)], (), (("a", 1),), set(), Plain(), dict, iter({}), {"a": 1}.items(), {"a": 1}.keys()]
    for h in (t.Dict[str, int], t.Mapping[str, int], MyMap, t.OrderedDict[str, int], dict[str, int], Annotated[t.Dict[str, int], 1]):
        for v in wrong:
            b.ce(f"load({show(v)}, {h})", lambda: load(v, h))
            b.ce(f"dump({show(v)}, {h})", lambda: dump(v, h))
    b.eq("load MyMap", lambda: load({"a": 1, "b": 2}, MyMap), MyMap(a=1, b=2))
    b.eq("dump MyMap", lambda: dump(MyMap(a=1), MyMap), {"a": 1})
    b.eq("load NoArgMap", lambda: load({"a": 1, "b": 2}, NoArgMap[str, int]), {"a": 1, "b": 2})
    b.eq("dump NoArgMap", lambda: dump(NoArgMap(), NoArgMap[str, int]), {"a": 1, "b": 2})
    from databind.core import Converter
    for n in (0, 1, 2, 5):
        for direction in ("load", "dump"):
            seen = []

            class Rec(Converter):
                def convert(self, ctx):
                    if isinstance(ctx.value, str):
                        seen.append(ctx.value)
                        return ctx.value.upper()
                    raise NotImplementedError

            mp = get_object_mapper()
            mp.module.register(Rec(), first=True)
            d = {f"k{i}": f"v{i % 2}" for i in range(n)}
            f = (lambda: mp.deserialize(d, t.Dict[str, str])) if direction == "load" else (lambda: mp.serialize(d, t.Dict[str, str]))
            b.eq(f"{direction} {d} with a recording converter", f, {k.upper(): v.upper() for k, v in d.items()})
            b.true(f"{direction} {d}: each key and each value once", sorted(seen) == sorted(list(d) + list(d.values())), "", seen)


# --------------------------------------------------------------------------------------------------------------- enums
def make_enum(rng, i):
    names = ["A", "B", "C", "D", "E", "name", "value_", "Aa", "a"][: rng.randint(1, 8)]
    aliases = {}
    pool_ = ["x%d" % j for j in range(12)]
    rng.shuffle(pool_)
    ns = enum.EnumMeta.__prepare__(f"E{i}", (enum.Enum,))
    ann = {}
    for j, n in enumerate(names):
        r = rng.random()
        if r < .25:
            aliases[n] = (pool_.pop(),)
        elif r < .45:
            aliases[n] = (pool_.pop(), pool_.pop()) if len(pool_) > 1 else ("only%d" % j,)
        elif r < .55:
            aliases[n] = (pool_.pop() if pool_ else "zz%d" % j, n)
        if n in aliases:
            ann[n] = Annotated[int, Alias(*aliases[n])]
        ns[n] = rng.choice([j, "v%d" % j, (j,), 0.5 + j])
    ns["__annotations__"] = ann
    ns["__module__"] = __name__
    return enum.EnumMeta(f"E{i}", (enum.Enum,), ns), aliases


class IE(enum.IntEnum):
    ONE = 1
    TWO = 2
    NEG = -7
    BIG = 2**40


class Swap(enum.Enum):
    """An alias equal to the name of another member."""
    A = 1
    B: Annotated[int, Alias("A")] = 2
    C: Annotated[int, Alias("c1", "D")] = 3
    D = 4


class StrE(str, enum.Enum):
    A = "av"
    B: Annotated[str, Alias("bb")] = "bv"


class Dup(enum.Enum):
    A = 1
    A2 = 1
    B = 2


def p05(b):
    b.rules.append("random enums with aliases, all members, all names/aliases/unknown texts, foreign members and other kinds")
    rng = b.rng
    others = [v for v in JSONISH + ODD if type(v) is not str]
    for i in b.times(60):
        E, al = make_enum(rng, i)
        for h in (E, Annotated[E, "q"]):
            for m in E:
                w = al[m.name][0] if m.name in al else m.name
                b.eq(f"dump({m}) of {dict((k, v) for k, v in al.items())}", lambda: dump(m, h), w)
                b.eq(f"load({w!r}) of {m} {al}", lambda: load(w, h), m)
                for a in al.get(m.name, ()):
                    b.eq(f"load({a!r}, {h}) {al}", lambda: load(a, h), m)
                b.eq(f"load({m.name!r}, {h}) {al}", lambda: load(m.name, h), m)
                b.ce(f"dump({m.name!r}, {h})", lambda: dump(m.name, h))
                if not isinstance(m.value, str):
                    b.ce(f"load({m.value!r}, {h})", lambda: load(m.value, h))
            for s in ("", "Z", "x99", "a ", "__class__", "mro", "_member_map_", "A.B", "ABC"):
                if s not in E.__members__:
                    b.ce(f"load({s!r}, {h}) {al}", lambda: load(s, h))
            b.ce(f"dump(foreign, {h})", lambda: dump(Color.RED, h))
            for v in others:
                if rng.random() < .15:
                    b.ce(f"load({show(v)}, {h})", lambda: load(v, h)) if not isinstance(v, str) else None
                    b.ce(f"dump({show(v)}, {h})", lambda: dump(v, h))
    for m in IE:
        b.eq(f"dump({m!r})", lambda: dump(m, IE), int(m))
        b.eq(f"load({int(m)!r}, IE)", lambda: load(int(m), IE), m)
        b.ce(f"load({m.name!r}, IE)", lambda: load(m.name, IE))
        b.ce(f"dump({int(m)!r}, IE)", lambda: dump(int(m), IE))
    for v in (0, 3, -1, 2**40 + 1, "1", 1.0, None, [], "ONE"):
        b.ce(f"load({v!r}, IE)", lambda: load(v, IE))

    class IE2(enum.IntEnum):
        ONE = 1
    b.ce("dump(IE2.ONE, IE)", lambda: dump(IE2.ONE, IE))
    b.eq("load('A', Swap)", lambda: load("A", Swap), Swap.B)
    b.eq("load('B', Swap)", lambda: load("B", Swap), Swap.B)
    b.eq("load('D', Swap)", lambda: load("D", Swap), Swap.C)
    b.eq("load('c1', Swap)", lambda: load("c1", Swap), Swap.C)
    for m, w in ((Swap.A, "A"), (Swap.B, "A"), (Swap.C, "c1"), (Swap.D, "D")):
        b.eq(f"dump({m})", lambda: dump(m, Swap), w)
    for m, w in ((StrE.A, "A"), (StrE.B, "bb")):
        b.eq(f"dump({m})", lambda: dump(m, StrE), w)
        b.eq(f"load({w!r}, StrE)", lambda: load(w, StrE), m)
    b.ce("load('av', StrE)", lambda: load("av", StrE))
    b.ce("dump('av', StrE)", lambda: dump("av", StrE))
    b.eq("load('A2', Dup)", lambda: load("A2", Dup), Dup.A)
    b.eq("dump(Dup.A2, Dup)", lambda: dump(Dup.A2, Dup), "A")


# --------------------------------------------------------------------------------------------------------------- dates
def date_formats(fmt, kind):
    cls = {"date": date_format, "time": time_format, "datetime": datetime_format}[kind]
    out = []
    for f in fmt.formats:
        if isinstance(f, str):
            if f.startswith("."):
                from nr.date import format_sets
                out += getattr(getattr(format_sets, f[1:]), kind + "_formats")
            else:
                out.append(cls.compile(f))
        elif type(f) is cls:
            out.append(f)
        elif isinstance(f, format_set):
            out += getattr(f, kind + "_formats")
    return out


def kind_of(T):
    return {datetime.date: "date", datetime.time: "time", datetime.datetime: "datetime"}[T]


def first_parse(fmt, T, s):
    for f in date_formats(fmt, kind_of(T)):
        try:
            return "ok", getattr(f, "parse_" + kind_of(T))(s)
        except ValueError:
            pass
    return ("CE",)


def first_format(fmt, T, v):
    for f in date_formats(fmt, kind_of(T)):
        try:
            return "ok", getattr(f, "format_" + kind_of(T))(v)
        except ValueError:
            pass
    return ("CE",)


def p06(b):
    from nr.date.format_sets import ISO_8601, JAVA_OFFSET_DATETIME
    b.rules.append("random dates/times/datetimes (with and without zone) x DateFormats (ISO, named sets, strings, compiled formats, several formats), corrupted texts")
    rng = b.rng
    tzs = [None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=2)), datetime.timezone(datetime.timedelta(hours=-5, minutes=-30))]
    def rdate():
        return datetime.date(rng.randint(1000, 9999), rng.randint(1, 12), rng.randint(1, 28))
    def rtime():
        return datetime.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 0, 5000, 123000, 123456]))
    def rdt():
        d, c = rdate(), rtime()
        return datetime.datetime.combine(d, c).replace(tzinfo=rng.choice(tzs[:1] * 2 + tzs))
    D, C, DT = datetime.date, datetime.time, datetime.datetime
    fmts = {
        D: [None, DateFormat(".ISO_8601"), DateFormat("%d.%m.%Y"), DateFormat("%Y/%m/%d", "%d.%m.%Y"), DateFormat(date_format.compile("%m-%d-%Y")),
            DateFormat(time_format.compile("%H:%M"), date_format.compile("%Y%m%d")), DateFormat(ISO_8601), DateFormat(".JAVA_OFFSET_DATETIME", "%d|%m|%Y"),
            DateFormat(time_format.compile("%H:%M"))],
        C: [None, DateFormat(".ISO_8601"), DateFormat("%H:%M:%S"), DateFormat("%H-%M-%S", "%H:%M:%S"), DateFormat(time_format.compile("%H.%M.%S")),
            DateFormat(date_format.compile("%Y")), DateFormat(date_format.compile("%Y"), ".ISO_8601")],
        DT: [None, DateFormat(".ISO_8601"), DateFormat("%Y-%m-%d %H:%M:%S"), DateFormat(".JAVA_OFFSET_DATETIME"), DateFormat(JAVA_OFFSET_DATETIME),
             DateFormat("%d.%m.%Y %H:%M:%S", ".ISO_8601"), DateFormat(".JAVA_OFFSET_DATETIME", ".ISO_8601"), DateFormat(date_format.compile("%Y")),
             DateFormat(datetime_format.compile("%Y-%m-%dT%H:%M:%S.%f%z"), "%Y-%m-%d %H:%M:%S")],
    }
    default = DateFormat(".ISO_8601")
    parts = {D: [".ISO_8601", ISO_8601, "%d.%m.%Y", date_format.compile("%Y/%m/%d"), JAVA_OFFSET_DATETIME, time_format.compile("%H:%M"), datetime_format.compile("%Y")],
             C: [".ISO_8601", ISO_8601, "%H:%M:%S", time_format.compile("%H.%M.%S"), JAVA_OFFSET_DATETIME, date_format.compile("%Y"), datetime_format.compile("%Y")],
             DT: [".ISO_8601", ISO_8601, "%Y-%m-%d %H:%M:%S", datetime_format.compile("%d.%m.%Y %H:%M:%S"), ".JAVA_OFFSET_DATETIME", JAVA_OFFSET_DATETIME, date_format.compile("%Y")]}
    for T in parts:
        fmts[T] = fmts[T] + [DateFormat(*rng.sample(parts[T], rng.randint(1, 4))) for _ in range(12)]
    for _ in b.times(500):
        T = rng.choice([D, C, DT])
        v = {D: rdate, C: rtime, DT: rdt}[T]()
        F = rng.choice(fmts[T])
        k = rng.randrange(3)
        h, s = T, None
        if F is not None:
            if k == 0:
                s = [F]
            elif k == 1:
                h = Annotated[T, F]
            else:
                h, s = Annotated[T, F], [DateFormat("%Y")]
        eff = F or default
        sp = first_format(eff, T, v)
        ok = b.spec(f"dump({v!r}, {h}, settings={s})", lambda: dump(v, h, settings=s), sp)
        if sp[0] == "ok":
            lp = first_parse(eff, T, sp[1])
            b.spec(f"load({sp[1]!r}, {h}, settings={s})", lambda: load(sp[1], h, settings=s), lp)
            if F is None and T is not C:
                b.eq(f"load(dump({v!r}))", lambda: load(dump(v, T), T), v)
            for txt in (sp[1][:-1], sp[1] + "x", sp[1].replace(sp[1][0], "?", 1), "", sp[1].swapcase(), rdt().isoformat(), rdate().isoformat(), rtime().isoformat(), rdate().strftime("%d.%m.%Y")):
                b.spec(f"load({txt!r}, {h}, settings={s})", lambda: load(txt, h, settings=s), first_parse(eff, T, txt))
        b.eq(f"load({v!r}, {h}) passes through", lambda: load(v, h, settings=s), v)
    for T in (D, C, DT):
        for v in JSONISH + ODD:
            if type(v) is str or isinstance(v, T):
                if isinstance(v, str):
                    b.spec(f"load({v!r}, {T})", lambda: load(v, T), first_parse(default, T, v))
                continue
            b.ce(f"load({show(v)}, {T})", lambda: load(v, T))
            b.ce(f"dump({show(v)}, {T})", lambda: dump(v, T))
        b.ce(f"dump('2020-01-01', {T})", lambda: dump("2020-01-01", T))
    b.ce("dump(date, datetime)", lambda: dump(datetime.date(2020, 1, 1), DT))
    b.ce("load(date, datetime)", lambda: load(datetime.date(2020, 1, 1), DT))
    # plain expectations, independent of nr.date
    b.eq("dump(date)", lambda: dump(datetime.date(2021, 3, 4), D), "2021-03-04")
    b.eq("dump(date, '%d.%m.%Y')", lambda: dump(datetime.date(2021, 3, 4), D, settings=[DateFormat("%d.%m.%Y")]), "04.03.2021")
    b.eq("load(date, 2nd format)", lambda: load("04.03.2021", D, settings=[DateFormat("%Y-%m-%d", "%d.%m.%Y")]), datetime.date(2021, 3, 4))
    b.eq("load(datetime)", lambda: load("2021-03-04T05:06:07Z", DT), datetime.datetime(2021, 3, 4, 5, 6, 7, tzinfo=datetime.timezone.utc))


# ------------------------------------------------------------------------------- decimals, UUIDs, paths, durations
class MyUUID(uuid.UUID):
    pass


class MyPosix(pathlib.PurePosixPath):
    pass


def p07(b):
    b.rules.append("random values of Decimal, UUID, path and duration types, round trip, malformed texts, wrong kinds, random Precision settings")
    rng = b.rng
    Dec = decimal.Decimal
    def rdec():
        return Dec(rng.choice(["", "-"]) + str(rng.randint(0, 10**rng.randint(1, 40))) + rng.choice(["", ".", "." + str(rng.randint(0, 10**12)), "E%d" % rng.randint(-30, 30)]))
    for _ in b.times(300):
        v = rdec()
        h = rng.choice([Dec, Annotated[Dec, "x"]])
        b.eq(f"dump({v!r})", lambda: dump(v, h), str(v))
        b.eq(f"load({str(v)!r}, Decimal)", lambda: load(str(v), h), v)
        kw = {}
        if rng.random() < .8:
            kw["prec"] = rng.randint(1, 12)
        if rng.random() < .7:
            kw["rounding"] = rng.choice([decimal.ROUND_DOWN, decimal.ROUND_UP, decimal.ROUND_HALF_EVEN, decimal.ROUND_CEILING, decimal.ROUND_FLOOR, decimal.ROUND_HALF_UP, decimal.ROUND_HALF_DOWN, decimal.ROUND_05UP])
        if rng.random() < .2:
            kw["Emin"] = -rng.randint(3, 40)
        if rng.random() < .2:
            kw["Emax"] = rng.randint(3, 40)
        if rng.random() < .1:
            kw["clamp"] = rng.randint(0, 1)
        P = Precision(**kw)
        ctx = decimal.Context(**kw)
        hp, s = rng.choice([(Annotated[Dec, P], None), (Dec, [P]), (Annotated[Dec, P], [Precision(prec=1)])])
        txt = str(rdec())
        b.spec(f"load({txt!r}, Decimal, {P})", lambda: load(txt, hp, settings=s), dec_spec(txt, True, ctx))
        b.eq(f"dump({v!r}, {P})", lambda: dump(v, hp, settings=s), str(v))
        if rng.random() < .3:
            for raw in (rng.randint(-10**20, 10**20), rng.gauss(0, 1e9)):
                b.spec(f"load({raw!r}, Decimal, {P}, Strict(False))", lambda: load(raw, Dec, settings=[P, Strict(False)]), dec_spec(raw, False, ctx))
                b.ce(f"load({raw!r}, Decimal, {P})", lambda: load(raw, Dec, settings=[P]))
    for s in ("", "abc", "1.2.3", "--1", "1e", "0x1", "1,5", "\ud800", "½"):
        b.ce(f"load({s!r}, Decimal)", lambda: load(s, Dec))
        b.ce(f"load({s!r}, Decimal, Precision)", lambda: load(s, Dec, settings=[Precision(prec=3)]))
    for s in ("NaN", "Infinity", "-Infinity", "sNaN"):
        b.spec(f"load({s!r}, Decimal)", lambda: load(s, Dec), dec_spec(s, True, None))

    def rpath():
        return rng.choice(["", "/"]) + "/".join(rng.choice(["a", "b.txt", "..", ".", "x y", "é"]) for _ in range(rng.randint(1, 4)))
    def rdur():
        return duration(years=rng.randint(0, 9), months=rng.randint(0, 11), days=rng.randint(0, 20), hours=rng.randint(0, 30), minutes=rng.randint(0, 70), seconds=rng.randint(0, 70))
    gens = [(uuid.UUID, lambda: uuid.UUID(int=rng.getrandbits(128)), str), (pathlib.Path, lambda: pathlib.Path(rpath()), str),
            (pathlib.PurePath, lambda: pathlib.PurePath(rpath()), str), (pathlib.PurePosixPath, lambda: pathlib.PurePosixPath(rpath()), str),
            (pathlib.PureWindowsPath, lambda: pathlib.PureWindowsPath("C:/" + rpath()), str), (pathlib.PosixPath, lambda: pathlib.PosixPath(rpath()), str),
            (duration, rdur, str), (MyUUID, lambda: MyUUID(int=rng.getrandbits(128)), str), (MyPosix, lambda: MyPosix(rpath()), str)]
    for _ in b.times(40):
        for T, g, f in gens:
            v = g()
            h = rng.choice([T, Annotated[T, 1]])
            b.eq(f"dump({v!r}, {h})", lambda: dump(v, h), f(v))
            if T is not duration or True:
                b.eq(f"load({f(v)!r}, {h})", lambda: load(f(v), h), v)
    for T, g, f in gens:
        for v in JSONISH + ODD + [g2() for T2, g2, _ in gens if not issubclass(type(g2()), T)]:
            if not isinstance(v, str):
                if not isinstance(v, T) and not (T is duration and isinstance(v, cabc.Mapping)):
                    b.ce(f"load({show(v)}, {T})", lambda: load(v, T))
                if not isinstance(v, T):
                    b.ce(f"dump({show(v)}, {T})", lambda: dump(v, T))
            else:
                b.ce(f"dump({show(v)}, {T})", lambda: dump(v, T))
    for T, g, f in gens:
        b.ce(f"load(value itself, {T})", lambda: load(g(), T))
    for s in ("", "x", "1234", "g" * 32, "P", "{" + "1" * 31, "1" * 33):
        b.ce(f"load({s!r}, UUID)", lambda: load(s, uuid.UUID))
    for s in ("", "1D", "PX", "P1", "P1DT", "abc"):
        try:
            duration.parse(s)
        except ValueError:
            b.ce(f"load({s!r}, duration)", lambda: load(s, duration))
    for v in JSONISH + ODD:
        if type(v) is not str:
            b.ce(f"load({show(v)}, Decimal)", lambda: load(v, Dec)) if not isinstance(v, str) else None
        if not isinstance(v, Dec):
            b.ce(f"dump({show(v)}, Decimal)", lambda: dump(v, Dec))


# ---------------------------------------------------------------------------------------------- optional, literal, any
def p08(b):
    b.rules.append("optional types x inner types x values compared with the inner type alone; literals x pool values; any/object x pool values by identity")
    rng = b.rng
    inner = [int, str, bool, float, bytes, t.List[int], t.Dict[str, int], Color, IE, datetime.date, decimal.Decimal, uuid.UUID, t.Tuple[int, str], t.Any,
             t.Union[int, str], t.Literal["a", 1], pathlib.PurePath, t.List[t.Optional[int]]]
    vals = JSONISH + ODD + [Color.RED, IE.ONE, [1, 2], {"a": 1}, uuid.UUID(int=5), "RED", (1, "a"), "00000000-0000-0000-0000-000000000005"]
    for T in inner:
        for h in (t.Optional[T], Annotated[t.Optional[T], "x"], t.Union[None, T], t.Optional[Annotated[T, "y"]]):
            for f, nm in ((load, "load"), (dump, "dump")):
                b.eq(f"{nm}(None, {h})", lambda: f(None, h), None)
                for v in vals:
                    if v is None or isinstance(v, types.GeneratorType) or (rng.random() < .85 and b.tier == "quick"):
                        continue
                    o = outcome(lambda: f(v, T))
                    if o[0] == "ok":
                        b.eq(f"{nm}({show(v)}, {h})", lambda: f(v, h), o[1])
                    elif o[0] == "CE":
                        b.ce(f"{nm}({show(v)}, {h})", lambda: f(v, h))
    # None must not reach the inner type
    from databind.core import Converter
    seen = []

    class Rec(Converter):
        def convert(self, ctx):
            if str(ctx.datatype) == "TypeHint(int)":
                seen.append(ctx.value)
                return "seen"
            raise NotImplementedError

    m = get_object_mapper()
    m.module.register(Rec(), first=True)
    b.eq("deserialize(None, Optional[int])", lambda: m.deserialize(None, t.Optional[int]), None)
    b.eq("serialize(None, Optional[int])", lambda: m.serialize(None, t.Optional[int]), None)
    b.true("inner converter not consulted for None", seen == [], "[]", seen)
    b.eq("deserialize(0, Optional[int])", lambda: m.deserialize(0, t.Optional[int]), "seen")
    b.eq("deserialize('', Optional[int])", lambda: m.deserialize("", t.Optional[int]), "seen")
    b.eq("deserialize([], Optional[int])", lambda: m.deserialize([], t.Optional[int]), "seen")
    lits = [("a", "b"), (1, 2, 3), ("a", 1, None), (None,), (0, "zero"), ("",), ("x", 5, b"y")]
    for L in lits:
        for h in (t.Literal[L], Annotated[t.Literal[L], "z"]):
            for f, nm in ((load, "load"), (dump, "dump")):
                for v in L:
                    b.eq(f"{nm}({v!r}, {h})", lambda: f(v, h), v)
                for v in JSONISH + ODD:
                    if not any(type(v) is type(x) and v == x for x in L):
                        if isinstance(v, (bool, float, int, str)) and any(v == x for x in L):
                            continue  # 1 == True == 1.0: equal to a listed value
                        b.ce(f"{nm}({show(v)}, {h})", lambda: f(v, h))
    for h in (t.Any, object, Annotated[t.Any, 1], Annotated[object, "x"]):
        for v in vals + [None]:
            for f, nm in ((load, "load"), (dump, "dump")):
                o = outcome(lambda: f(v, h))
                b.true(f"{nm}({show(v)}, {h}) is the same object", o[0] == "ok" and o[1] is v, "the value itself", show_out(o))
    x = [1, {"a": [2]}]
    b.true("Any element identity", load([x], t.List[t.Any])[0] is x, "", "")
