"""Further concrete cases, run after the main ones of each property."""
import abc, collections.abc as cabc, copy, itertools, tempfile
from typing import Annotated

import typing_extensions as te

from databind.core import *
from databind.core import (
    Alias, Context, ConversionError, Converter, ExtraKeys, Flattened, Location, Module, NoMatchingConverter, ObjectMapper, Precision, Priority, Remainder,
    Required, SerializeDefaults, Setting, Settings, Strict, Union, format_context_trace,
)
import databind.core.dataclasses as dbdc
from databind.core.context import Direction
from databind.core.schema import convert_to_schema, get_fields_expanded
from databind.core.union import ChainUnionMembers, EntrypointUnionMembers, ImportUnionMembers, StaticUnionMembers
from databind.json import dump, dumps, get_object_mapper, load, loads
from databind.json.settings import JsonConverter
from typeapi import ClassTypeHint, TypeHint

from .lib import *
from .model import *

SCALARS = [int, float, str, bool, bytes]


def settings_forms(T, *s):
    """The ways to give settings: (hint, settings argument)."""
    return [(Annotated.__class_getitem__((T,) + s), None), (T, list(s)), (Annotated[T, "x"], list(s))]


# ------------------------------------------------------------------------------------------------------------- scalars
def p01(b):
    b.rules.append("scalars nested in collections, mappings, optionals, structures (both directions), subclasses of scalars")
    D = dataclasses.make_dataclass("D1", [("v", t.Any)])
    for T in SCALARS:
        N = dataclasses.make_dataclass("N1", [("v", T)])
        TD = te.TypedDict("TD1", {"v": T})
        shapes = [(t.List[T], lambda v: [v], lambda w: [w]), (t.Dict[str, T], lambda v: {"k": v}, lambda w: {"k": w}), (t.Optional[T], lambda v: v, lambda w: w),
                  (t.Tuple[T, ...], lambda v: (v, v), lambda w: [w, w]), (N, N, lambda w: {"v": w}), (TD, lambda v: {"v": v}, lambda w: {"v": w}),
                  (t.List[t.List[T]], lambda v: [[v], []], lambda w: [[w], []])]
        good = {int: [0, -3, 2**70, 5.0], float: [0.5, 3, -1e300], str: ["", "1", "x"], bool: [True, False], bytes: [b"", b"\xff\x00a"]}[T]
        import base64
        conv = {int: int, float: float, str: str, bool: bool, bytes: bytes}[T]
        wire = {bytes: lambda v: base64.b64encode(v).decode()}.get(T, conv)
        for h, mk, mw in shapes:
            for v in good:
                b.eq(f"dump({v!r} in {h})", lambda: dump(mk(v), h), mw(wire(v)))
                b.eq(f"load({wire(v)!r} in {h})", lambda: load(mw(wire(v)), h), mk(conv(v)))
                for s in ([Strict(False)], [Strict(True)], None):
                    b.eq(f"dump({v!r} in {h}, settings={s})", lambda: dump(mk(v), h, settings=s), mw(wire(v)))
            for bad in [x for x in (None, "", "1", "yes", "1.5", 1, 0, 1.5, True, b"a", [], {}, Plain(), StrSub("5")) if not isinstance(x, T)]:
                if T is float and isinstance(bad, int) and not isinstance(bad, bool):
                    continue
                if T in (int, float) and isinstance(bad, bool):
                    continue
                if bad is None and h == t.Optional[T]:
                    continue
                for s in (None, [Strict(False)]):
                    if T is int and isinstance(bad, float) and bad % 1 == 0:
                        continue
                    b.ce(f"dump({bad!r} in {h}, settings={s})", lambda: dump(mk(bad), h, settings=s))
                if T is not bytes or not isinstance(bad, str):
                    b.ce(f"load({bad!r} in {h})", lambda: load(mw(bad), h))


def p02(b):
    b.rules.append("relaxed conversion of nested scalars, with settings given at each level")
    for T, w, v in ((int, "5", 5), (float, "2.5", 2.5), (str, 5, "5"), (bool, "yes", True), (int, 3.0, 3), (str, True, "True"), (float, 3, 3.0), (decimal.Decimal, 5, decimal.Decimal(5))):
        L = Strict(False)
        b.eq(f"{w!r} in List[Annotated[{T}, Strict(False)]]", lambda: load([w], t.List[Annotated[T, L]]), [v])
        b.eq(f"{w!r} in Dict", lambda: load({"k": w}, t.Dict[str, T], settings=[L]), {"k": v})
        b.eq(f"{w!r} in Tuple", lambda: load([w, w], t.Tuple[T, T], settings=[L]), (v, v))
        if not (T is int and isinstance(w, float)) and not (T is float and isinstance(w, int)):
            b.ce(f"{w!r} with Strict(False) on the enclosing list only", lambda: load([w], Annotated[t.List[T], L]))
            b.ce(f"{w!r} with Strict(True) on the element and Strict(False) global", lambda: load([w], t.List[Annotated[T, Strict(True)]], settings=[L]))
            b.ce(f"{w!r} with Strict(False) then Strict(True) as annotations", lambda: load(w, Annotated[T, Strict(True), L]))
        b.eq(f"{w!r} with Strict(False) then Strict(True) as annotations", lambda: load(w, Annotated[T, L, Strict(True)]), v)
        m = get_object_mapper(Settings(global_settings=[L]))
        b.eq(f"{w!r} with the setting of the mapper", lambda: m.deserialize(w, T), v)
        m = get_object_mapper()
        m.settings.add_local(T, L)
        b.eq(f"{w!r} with a local setting", lambda: m.deserialize([w], t.List[T]), [v])


# --------------------------------------------------------------------------------------------------- collections, maps
X = t.TypeVar("X")
Y_ = t.TypeVar("Y_")


class GL(t.List[X]):
    pass


class GL2(GL[Y_]):
    pass


class IntGL2(GL2[int]):
    pass


class Mixed(t.List[int], t.Sized):
    pass


class GD(t.Dict[str, X]):
    pass


class FlipMap(t.Dict[X, Y_]):
    pass


class IntFlip(FlipMap[str, int]):
    pass


class Counting(Converter):
    """Consumes *n* calls per converted text; results depend on how often a value was converted."""

    def __init__(self):
        self.n = 0

    def convert(self, ctx):
        if isinstance(ctx.value, str) and isinstance(ctx.datatype, ClassTypeHint) and ctx.datatype.type is str:
            self.n += 1
            return f"{ctx.value}#{self.n}"
        raise NotImplementedError


def p03(b):
    b.rules.append("equal and identical elements each converted once; generic subclasses of collections; element failures at every position")
    for n in (1, 2, 3, 6):
        for x in ("a", "ab"):
            payload = [x] * n
            for h in (t.List[str], t.Sequence[str], t.Tuple[str, ...], t.Tuple[(str,) * n], t.Deque[str]):
                for f in ("deserialize", "serialize"):
                    m = get_object_mapper()
                    c = Counting()
                    m.module.register(c, first=True)
                    v = payload if f == "deserialize" or h in (t.List[str], t.Sequence[str]) else tuple(payload) if "uple" in str(h) else collections.deque(payload)
                    r = outcome(lambda: list(getattr(m, f)(v, h)))
                    b.true(f"{f} {payload} as {h}: each element converted once, in order", r == ("ok", [f"{x}#{i + 1}" for i in range(n)]), "", show_out(r))
    for h, py in ((GL[int], GL), (GL2[int], GL2), (IntGL2, IntGL2), (Mixed, Mixed)):
        b.eq(f"load [1, 2] as {h}", lambda: load([1, 2], h), py([1, 2]))
        b.ce(f"load ['x'] as {h}", lambda: load(["x"], h))
        b.eq(f"dump as {h}", lambda: dump(py([1, 2]), h), [1, 2])
        b.ce(f"dump ['x'] as {h}", lambda: dump(py(["x"]), h))
    b.eq("load as GL[str]", lambda: load(["x"], GL[str]), GL(["x"]))
    b.eq("load as GL[List[int]]", lambda: load([[1]], GL[t.List[int]]), GL([[1]]))
    for n in (1, 3, 8):
        for i in range(n):
            p = [1] * n
            p[i] = "x"
            for h in (t.List[int], t.Tuple[(int,) * n], t.Tuple[int, ...], t.Set[int], t.FrozenSet[int], t.Deque[int]):
                b.ce(f"load {p} as {h}", lambda: load(p, h))
    for k in range(0, 5):
        for n in range(0, 5):
            h = t.Tuple[(int,) * n] if n else t.Tuple[()]
            if n == k:
                b.eq(f"load {[0] * k} as {h}", lambda: load([0] * k, h), (0,) * k)
                b.eq(f"dump {(0,) * k} as {h}", lambda: dump((0,) * k, h), [0] * k)
            else:
                b.ce(f"load {[0] * k} as {h}", lambda: load([0] * k, h))
                b.ce(f"dump {(0,) * k} as {h}", lambda: dump((0,) * k, h))
    P = collections.namedtuple("P", "a b")
    NTi = t.NamedTuple("NTi", [("a", int), ("b", int)])
    for v in (P(1, 2), NTi(1, 2)):
        b.no_leak(f"dump {v} as Tuple[int, int]", lambda: dump(v, t.Tuple[int, int]))


def p04(b):
    b.rules.append("None values, equal values, keys that collide after conversion, generic subclasses of mappings")
    b.ce("None as a value of Dict[str, int]", lambda: load({"a": None}, t.Dict[str, int]))
    b.eq("None as a value of Dict[str, Optional[int]]", lambda: load({"a": None, "b": 1}, t.Dict[str, t.Optional[int]]), {"a": None, "b": 1})
    b.ce("dump None as a value of Dict[str, int]", lambda: dump({"a": None}, t.Dict[str, int]))
    b.ce("dump of a wrong key", lambda: dump({1: 1}, t.Dict[str, int]))
    b.ce("dump of a wrong value", lambda: dump({"a": "x"}, t.Dict[str, int]))
    for i in range(4):
        d = {"k%d" % j: j for j in range(4)}
        d["k%d" % i] = "bad"
        b.ce(f"load {d}", lambda: load(d, t.Dict[str, int]))
        b.ce(f"dump {d}", lambda: dump(d, t.Dict[str, int]))
    for h, py in ((GD[int], GD), (FlipMap[str, int], FlipMap), (IntFlip, IntFlip)):
        b.eq(f"load as {h}", lambda: load({"a": 1}, h), py(a=1))
        b.ce(f"load a wrong value as {h}", lambda: load({"a": "x"}, h))
        b.eq(f"dump as {h}", lambda: dump(py(a=1), h), {"a": 1})
    b.eq("order is kept", lambda: list(load({"z": 1, "a": 2, "m": 3}, t.Dict[str, int])), ["z", "a", "m"])
    b.eq("order is kept (dump)", lambda: list(dump({"z": 1, "a": 2, "m": 3}, t.Dict[str, int])), ["z", "a", "m"])
    b.eq("nested", lambda: load({"a": {"b": [1, None]}}, t.Dict[str, t.Dict[str, t.List[t.Optional[int]]]]), {"a": {"b": [1, None]}})
    b.eq("enum keys", lambda: load({"APPLE": 1, "birne": 2}, t.Dict[Fruit, int]), {Fruit.APPLE: 1, Fruit.PEAR: 2})
    b.eq("enum keys (dump)", lambda: dump({Fruit.APPLE: 1, Fruit.PEAR: 2}, t.Dict[Fruit, int]), {"APPLE": 1, "pear": 2})


# --------------------------------------------------------------------------------------------------------------- enums
class Base5(enum.Enum):
    def hello(self):
        return self.name


class Derived5(Base5):
    FOO: Annotated[int, Alias("foo-alias")] = 1
    BAR = 2


class AnnBase5(enum.Enum):
    """No members; carries an annotation with the name of a member of its subclass."""
    BAR: Annotated[int, Alias("from-base")]


class AnnDerived5(AnnBase5):
    BAR = 2
    QUX: Annotated[int, Alias("q")] = 3


class Mix5(bytes, enum.Enum):
    A = b"x"
    B: Annotated[bytes, Alias("bee")] = b"y"


class Perm(enum.IntFlag):
    R = 1
    W = 2
    X = 4


class FlagE(enum.Flag):
    R = 1
    W = 2


def p05(b):
    b.rules.append("member names in another case, enums with base enums, mixin enums, members annotated in a base class, values of subclasses")
    for E, al in ((Derived5, {"foo-alias": "FOO"}), (Mix5, {"bee": "B"}), (Fruit, {"pear": "PEAR", "birne": "PEAR"}), (AnnDerived5, {"q": "QUX"})):
        accepted = {m.name: m for m in E} | {a: E[n] for a, n in al.items()}
        for s in list(accepted):
            b.eq(f"load({s!r}, {E.__name__})", lambda: load(s, E), accepted[s])
            for x in {s.lower(), s.upper(), s.swapcase(), s.title(), " " + s, s + " ", s + "\n", s[:-1], s + s, f"{E.__name__}.{s}", f"'{s}'"} - set(accepted):
                b.ce(f"load({x!r}, {E.__name__})", lambda: load(x, E))
        for m in E:
            for x in (m.name, m.value, repr(m), str(m), (m,), [m], None, m.name.encode()):
                if not isinstance(x, E):
                    b.ce(f"dump({x!r}, {E.__name__})", lambda: dump(x, E))
            b.ce(f"load of the member itself {m}", lambda: load(m, E)) if not isinstance(m, str) else None
            if not isinstance(m.value, str):
                b.ce(f"load of the value of {m}", lambda: load(m.value, E))
    b.eq("dump member of a derived enum", lambda: dump(Derived5.FOO, Derived5), "foo-alias")
    b.ce("dump member of a derived enum as its base", lambda: dump(Derived5.FOO, Base5))
    b.eq("annotations of a base enum are not those of the member", lambda: dump(AnnDerived5.BAR, AnnDerived5), "BAR")
    b.ce("nor accepted", lambda: load("from-base", AnnDerived5))
    for v in (Perm.R, Perm.W, Perm.X):
        b.eq(f"dump {v!r}", lambda: dump(v, Perm), v.name)
        b.eq(f"load {v.name} as Perm", lambda: load(v.name, Perm), v)
    for x in ("Q", 1, "1", None, [], 1.0, b"R"):
        b.ce(f"load {x!r} as Perm", lambda: load(x, Perm))
    for v in FlagE:
        b.eq(f"load {v.name} as FlagE", lambda: load(v.name, FlagE), v)
        b.eq(f"dump {v} as FlagE", lambda: dump(v, FlagE), v.name)
    for x in (True, False):
        o = outcome(lambda: load(x, IE5))
        b.true(f"load {x} as an IntEnum", o[0] == "CE" or o[0] == "ok" and o[1] == x, "", show_out(o))
    for x in (1.0, 1.5, "1", "ONE", None, [1], b"1", 7, 10**40):
        b.ce(f"load {x!r} as IE5", lambda: load(x, IE5))
    for x in (IE5.ONE, IE5.M):
        b.eq(f"load {int(x)} as IE5", lambda: load(int(x), IE5), x)
        b.eq(f"dump {x!r} as IE5", lambda: dump(x, IE5), int(x))


class IE5(enum.IntEnum):
    ONE = 1
    M = -10**20
    UNO = 1


# --------------------------------------------------------------------------------------------------------------- dates
class MyDate(datetime.date):
    pass


class MyDT(datetime.datetime):
    pass


def p06(b):
    from nr.date import date_format, datetime_format, format_set, time_format
    from nr.date.format_sets import ISO_8601, JAVA_OFFSET_DATETIME
    b.rules.append("every format of every format set, alone and behind others; values of subclasses of the date types")
    rng = b.rng
    D, C, DT = datetime.date, datetime.time, datetime.datetime
    tz = datetime.timezone(datetime.timedelta(hours=2))
    vals = {D: [D(2020, 2, 29), D(1999, 12, 31)], C: [C(1, 2, 3), C(23, 59, 59, 123456), C(12, 30, 0, 0, tz), C(12, 30, 0, 5, datetime.timezone.utc), C(0)],
            DT: [DT(2020, 2, 29, 1, 2, 3), DT(2020, 2, 29, 1, 2, 3, 4000), DT(1999, 1, 1, 0, 0, 0, 0, tz), DT(1999, 1, 1, 0, 0, 0, 123456, datetime.timezone.utc)]}
    for T, nm, cls in ((D, "date", date_format), (C, "time", time_format), (DT, "datetime", datetime_format)):
        sets = [("default", None, list(getattr(ISO_8601, nm + "_formats")))]
        for i in range(6):
            fs = [f for s in (ISO_8601, JAVA_OFFSET_DATETIME) for f in getattr(s, nm + "_formats")]
            rng.shuffle(fs)
            fs = fs[: rng.randint(1, len(fs))] if fs else []
            own = format_set("own", "", **{k: list(fs) if k == nm + "_formats" else [] for k in ("date_formats", "time_formats", "datetime_formats")}) if i else None
            if own is not None:
                sets.append((f"set of {len(fs)}", DateFormat(own), fs))
                sets.append((f"text then set of {len(fs)}", DateFormat("%Y|%m" if T is not C else "%H|%M", own), [cls.compile("%Y|%m" if T is not C else "%H|%M")] + fs))
        for desc, F_, fs in sets:
            s = [F_] if F_ else None
            texts = set()
            for v in vals[T]:
                spec = ("CE",)
                for f in fs:
                    try:
                        x = getattr(f, "format_" + nm)(v)
                    except ValueError:
                        continue
                    texts.add(x)
                    if spec == ("CE",):
                        spec = ("ok", x)
                b.spec(f"dump({v!r}, {T.__name__}) with {desc}", lambda: dump(v, T, settings=s), spec)
            for x in sorted(texts):
                spec = ("CE",)
                for f in fs:
                    try:
                        spec = ("ok", getattr(f, "parse_" + nm)(x))
                        break
                    except ValueError:
                        pass
                b.spec(f"load({x!r}, {T.__name__}) with {desc}", lambda: load(x, T, settings=s), spec)
                for y in (" " + x, x + " ", x + "\n", x.replace("-", "/") + "?"):
                    spec2 = ("CE",)
                    for f in fs:
                        try:
                            spec2 = ("ok", getattr(f, "parse_" + nm)(y))
                            break
                        except ValueError:
                            pass
                    b.spec(f"load({y!r}, {T.__name__}) with {desc}", lambda: load(y, T, settings=s), spec2)
    for T, v in ((D, MyDate(2020, 1, 2)), (DT, MyDT(2020, 1, 2, 3, 4, 5)), (D, DT(2020, 1, 2, 3, 4, 5))):
        o = outcome(lambda: load(v, T))
        b.true(f"load({v!r}, {T.__name__}) passes a value of the type through", o[0] == "ok" and o[1] is v, show(v), show_out(o))
    b.eq("dump of a date subclass", lambda: dump(MyDate(2020, 1, 2), D), "2020-01-02")
    b.ce("load of a time as date", lambda: load(C(1), D))
    b.ce("dump of a time as date", lambda: dump(C(1), D))
    b.eq("DateFormat of an element", lambda: load(["01.02.2020"], t.List[Annotated[D, DateFormat("%d.%m.%Y")]]), [D(2020, 2, 1)])
    b.ce("DateFormat of the enclosing list has no influence", lambda: load(["01.02.2020"], Annotated[t.List[D], DateFormat("%d.%m.%Y")]))
    b.ce("text of another format", lambda: load("2020-01-01", Annotated[D, DateFormat("%d.%m.%Y")]))


# ------------------------------------------------------------------------------- decimals, UUIDs, paths, durations
def p07(b):
    from nr.date import duration
    b.rules.append("texts with surrounding blanks, extreme precisions, every Precision parameter alone")
    Dec = decimal.Decimal
    for T, s in ((pathlib.Path, "a b"), (pathlib.PurePosixPath, "/x/ y"), (pathlib.PurePath, "n"), (pathlib.PureWindowsPath, "c:/x")):
        for x in (" " + s, s + " ", "\t" + s, s + "\n", s + "/..", "./" + s, s + "//x"):
            b.eq(f"load({x!r}, {T.__name__})", lambda: load(x, T), T(x))
            b.eq(f"dump({T(x)!r})", lambda: dump(T(x), T), str(T(x)))
    for x in ("P1D", "PT5H", "P1Y2M3DT4H5M6S"):
        b.eq(f"load({x!r}, duration)", lambda: load(x, duration), duration.parse(x))
        for y in (" " + x, x + " ", x.lower()):
            try:
                e = ("ok", duration.parse(y))
            except ValueError:
                e = ("CE",)
            b.spec(f"load({y!r}, duration)", lambda: load(y, duration), e)
    u = uuid.UUID(int=0x1234567890abcdef)
    for y in (str(u), str(u).upper(), u.hex, "{" + str(u) + "}", "urn:uuid:" + str(u), " " + str(u), str(u) + " ", str(u)[:-1]):
        try:
            e = ("ok", uuid.UUID(y))
        except ValueError:
            e = ("CE",)
        b.spec(f"load({y!r}, UUID)", lambda: load(y, uuid.UUID), e)

    class MyUUID(uuid.UUID):
        pass
    b.eq("UUID of a subclass", lambda: load(str(u), MyUUID), MyUUID(str(u)))
    b.eq("dump UUID of a subclass", lambda: dump(MyUUID(str(u)), MyUUID), str(u))
    kws = [dict(prec=1), dict(prec=28), dict(Emin=0), dict(Emax=0), dict(Emin=-5), dict(Emax=5), dict(capitals=False), dict(capitals=True), dict(clamp=True), dict(clamp=False), dict(rounding=decimal.ROUND_UP),
           dict(prec=3, Emin=0, Emax=0), dict(prec=2, Emax=3, clamp=True)]
    for kw in kws:
        P = Precision(**kw)
        ck = {k: (int(v) if isinstance(v, bool) else v) for k, v in kw.items()}
        for x in ("0", "1", "-1", "123456789.987654321", "1E-7", "0.000001234", "99999", "1E+5", "9.99", "1e400", "-0", "1E-400", "5E+3", "12E+2"):
            ctx = decimal.Context(**ck)
            try:
                e = ("ok", ctx.create_decimal(x))
            except decimal.DecimalException:
                e = ("CE",)
            for h, s in settings_forms(Dec, P):
                b.spec(f"load({x!r}, Decimal, {P})", lambda: load(x, h, settings=s), e)
                if e[0] == "ok":
                    o = outcome(lambda: load(x, h, settings=s))
                    b.true(f"load({x!r}, Decimal, {P}) is {e[1]!r} exactly", o[0] == "ok" and o[1].as_tuple() == e[1].as_tuple(), show(e[1]), show_out(o))
    for x in (" 1", "1 ", "1_000", "١", "+1", ".5", "5.", "1E5", "1e-5", "00.10", "Infinity", "inf", "nan1", "1 2", "1,0"):
        try:
            e = ("ok", Dec(x))
        except decimal.DecimalException:
            e = ("CE",)
        b.spec(f"load({x!r}, Decimal)", lambda: load(x, Dec), e)
        if e[0] == "ok":
            o = outcome(lambda: dump(e[1], Dec))
            b.true(f"dump({e[1]!r})", o == ("ok", str(e[1])), str(e[1]), show_out(o))
    with decimal.localcontext(decimal.Context(prec=3)):
        b.eq("the current decimal context has no influence", lambda: load("1.23456789", Dec), Dec("1.23456789"))
        b.eq("the current decimal context has no influence (dump)", lambda: dump(Dec("1.23456789"), Dec), "1.23456789")


# ---------------------------------------------------------------------------------------------- optional, literal, any
class EqNone:
    """Equal to None, without being None."""

    def __eq__(self, o):
        return o is None or o is self

    __hash__ = None

    def __repr__(self):
        return "EqNone()"


class Falsy8:
    def __bool__(self):
        return False

    def __repr__(self):
        return "Falsy8()"


def p08(b):
    b.rules.append("values that are equal to None or false, texts that look like literals, single literals, enum literals")
    seen = []

    class Rec(Converter):
        def convert(self, ctx):
            if isinstance(ctx.datatype, ClassTypeHint) and ctx.datatype.type is int:
                seen.append(ctx.value)
                return ("inner", ctx.value)
            raise NotImplementedError
    m = get_object_mapper()
    m.module.register(Rec(), first=True)
    for v in (EqNone(), Falsy8(), 0, "", [], {}, False, (), "None", "null"):
        for f in (m.deserialize, m.serialize):
            seen.clear()
            o = outcome(lambda: f(v, t.Optional[int]))
            b.true(f"{v!r} as Optional[int] reaches the inner type", o[0] == "ok" and o[1][1] is v and len(seen) == 1, "", show_out(o))
    for h in (t.Optional[t.Any], t.Optional[object]):
        for v in (None, 0, EqNone(), "x"):
            o = outcome(lambda: load(v, h))
            b.true(f"{v!r} as {h}", o[0] == "ok" and (o[1] is v), "", show_out(o))
    for h in (t.Optional[t.Union[int, str]], t.Union[int, None, str], t.Union[None, int, str]):
        for v, e in ((None, None), (5, 5), ("x", "x"), ("", ""), (0, 0)):
            b.eq(f"load({v!r}, {h})", lambda: load(v, h), e)
            b.eq(f"dump({v!r}, {h})", lambda: dump(v, h), e)
        for v in (1.5, [], {}, b"x"):
            b.ce(f"load({v!r}, {h})", lambda: load(v, h))
    L = t.Literal
    for h, good in ((L["1"], ["1"]), (L["True", "None"], ["True", "None"]), (L["1.5", "a", ""], ["1.5", "a", ""]), (L[1], [1]), (L[None], [None]), (L["a"], ["a"]), (L["[]"], ["[]"]), (L["A", "b"], ["A", "b"]),
                    (L[Fruit.APPLE, "APPLE"], [Fruit.APPLE, "APPLE"]), (L[b"x"], [b"x"]), (L[True], [True])):
        for f in (load, dump):
            for v in good:
                o = outcome(lambda: f(v, h))
                b.true(f"{f.__name__}({v!r}, {h})", o[0] == "ok" and o[1] is v, "", show_out(o))
            for v in [1.5, None, True, 1, [], "a", "A", "B", "b ", " a", "APPLE", "x", b"x", {}, ["a"], ("a",), {"a"}, "", "1", Fruit.APPLE, Fruit.FIG, bytearray(b"a"), "aA", StrSub("zzz"), Plain()]:
                if not any(v == g for g in good):
                    b.ce(f"{f.__name__}({v!r}, {h})", lambda: f(v, h))
            for g in good:
                v = StrSub(g) if type(g) is str else g
                o = outcome(lambda: f(v, h))
                b.true(f"{f.__name__}({v!r} of a subclass, {h}) returns the value given", o[0] == "ok" and o[1] is v, "", show_out(o))
    for v in (EqNone(), Falsy8(), object(), [object()], {object(): 1}, Plain, lambda: 0, float("nan")):
        for h in (t.Any, object, Annotated[t.Any, "q"], t.Optional[t.Any]):
            for f in (load, dump):
                o = outcome(lambda: f(v, h))
                b.true(f"{f.__name__}({v!r}, {h}) is untouched", o[0] == "ok" and o[1] is v, "", show_out(o))


# --------------------------------------------------------------------------------------------------------- structured
class TDd(te.TypedDict, total=False):
    a: t.List[int]
    b: t.Dict[str, int]
    c: t.Optional[int]


def p09(b):
    b.rules.append("typed dicts whose defaults are mutable, false or None; aliases equal to the names of other fields; typed named tuples; nested structures")

    class TD1(dict):
        pass
    from databind.core.schema import convert_typed_dict_to_schema
    for d in ([], [1], {}, {"q": 1}, (), "", 0, None, False, 1.5, set()):
        ns = {"a": d, "__annotations__": {"x": int, "a": t.Any}, "__module__": __name__}
        try:
            T = te._TypedDictMeta("T9", (), dict(ns), total=True) if False else types.new_class("T9", (te.TypedDict,), {"total": True}, lambda n: n.update(ns))
        except TypeError:
            continue
        b.eq(f"typed dict with default {d!r}: absent", lambda: load({"x": 1}, T), {"x": 1, "a": d})
        b.eq(f"typed dict with default {d!r}: present", lambda: load({"x": 1, "a": 7}, T), {"x": 1, "a": 7})
        b.ce(f"typed dict with default {d!r}: required key absent", lambda: load({"a": 7}, T))
        D = dataclasses.make_dataclass("D9", [("x", int), ("a", t.Any, dataclasses.field(default_factory=lambda d=d: copy.copy(d)))])
        b.eq(f"dataclass with default factory {d!r}", lambda: load({"x": 1}, D), D(1, copy.copy(d)))
        D = dbdc.dataclass(type("E9", (), {"__annotations__": {"a": t.Any, "x": int}, "a": dataclasses.field(default_factory=lambda d=d: copy.copy(d)), "__module__": __name__}))
        b.eq(f"extended dataclass with default factory {d!r}", lambda: load({"x": 1}, D), D(x=1))
        b.ce(f"extended dataclass with default factory {d!r}: required field absent", lambda: load({}, D))
    b.eq("total=False", lambda: load({}, TDd), {"c": None})
    b.eq("total=False, some", lambda: load({"a": [1]}, TDd), {"a": [1], "c": None})
    b.ce("total=False, wrong", lambda: load({"a": [None]}, TDd))
    S = dataclasses.make_dataclass("S9", [("a", Annotated[int, Alias("b")]), ("b", Annotated[int, Alias("a")])])
    b.eq("swapped aliases", lambda: load({"a": 1, "b": 2}, S), S(a=2, b=1))
    b.eq("swapped aliases (dump)", lambda: dump(S(a=2, b=1), S), {"b": 2, "a": 1})
    S2 = dataclasses.make_dataclass("S92", [("a", Annotated[t.Optional[int], Alias("x", "y", "a")], None), ("b", int, 5)])
    for p, e in (({}, (None, 5)), ({"a": 1}, (1, 5)), ({"y": 1, "a": 2}, (1, 5)), ({"b": 7, "x": None}, (None, 7))):
        used = next((k for k in ("x", "y", "a") if k in p), None)
        extra = set(p) - {used, "b"}
        b.spec(f"load {p}", lambda: load(p, S2), ("CE",) if extra else ("ok", S2(*e)))
        b.eq(f"load {p}, extra keys allowed", lambda: load(p, S2, settings=[ExtraKeys(True)]), S2(*e))
    NT9 = t.NamedTuple("NT9", [("a", int), ("b", t.Optional[str])])
    b.eq("named tuple", lambda: load({"a": 1, "b": "x"}, NT9), NT9(1, "x")) if outcome(lambda: load({"a": 1, "b": "x"}, NT9))[0] == "ok" else None

    class NT9d(t.NamedTuple):
        a: int
        b: Annotated[int, Alias("x", "y")] = 5
        c: t.Optional[str] = None
        d: t.Tuple[int, ...] = (1, 2)
    for p, e in (({"a": 1}, NT9d(1)), ({"a": 1, "y": 2}, NT9d(1, 2)), ({"a": 1, "c": "s"}, NT9d(1, 5, "s")), ({"a": 1, "x": 3, "d": []}, NT9d(1, 3, None, ())), ({"a": 0, "c": None}, NT9d(0))):
        b.eq(f"named tuple with defaults: {p}", lambda: load(p, NT9d), e)
        b.eq(f"named tuple with defaults: {e}", lambda: load(dump(e, NT9d), NT9d), e)
    for p in ({}, {"x": 1}, {"b": 1, "a": 1}, {"a": None}, {"a": 1, "z": 1}, {"a": 1, "x": None}):
        b.ce(f"named tuple with defaults: {p}", lambda: load(p, NT9d))
    N1 = dataclasses.make_dataclass("N19", [("v", Annotated[int, Alias("w")])])
    N2 = dataclasses.make_dataclass("N29", [("n", N1), ("l", t.List[N1]), ("d", t.Dict[str, N1]), ("o", t.Optional[N1], None)])
    p = {"n": {"w": 1}, "l": [{"w": 2}, {"w": 3}], "d": {"k": {"w": 4}}, "o": {"w": 5}}
    b.eq("nested", lambda: load(p, N2), N2(N1(1), [N1(2), N1(3)], {"k": N1(4)}, N1(5)))
    for path in (("n",), ("l", 1), ("d", "k"), ("o",)):
        q = copy.deepcopy(p)
        x = q
        for k in path:
            x = x[k]
        x["v"] = x.pop("w")
        b.ce(f"name instead of the alias at {path}", lambda: load(q, N2))
    for bad in (None, [], "n", 1, [("w", 1)], (("w", 1),), {"w"}, N1(1), b"w", True):
        b.ce(f"load {bad!r} as a dataclass", lambda: load(bad, N1))
        b.ce(f"nested {bad!r}", lambda: load({**p, "n": bad}, N2))
    for mp in (collections.OrderedDict, DictSub, types.MappingProxyType, collections.ChainMap, collections.UserDict):
        b.eq(f"load a {mp.__name__}", lambda: load(mp({"w": 1}), N1), N1(1))
    b.eq("an int key next to the alias", lambda: load({"w": 1, 5: 2}, N1, settings=[ExtraKeys(True)]), N1(1))
    cnt = []

    @dataclasses.dataclass
    class Post:
        a: int
        b: int = dataclasses.field(init=False, default=9)

        def __post_init__(self):
            cnt.append(self.a)
    b.eq("post-init runs once", lambda: (cnt.clear(), load({"a": 4}, Post).b, list(cnt))[1:], (9, [4]))
    b.ce("non-init field is no key", lambda: load({"a": 4, "b": 5}, Post))


def p10(b):
    b.rules.append("extra keys at one level with the setting given at another level; recorders on nested types; keys of every kind")
    In = dataclasses.make_dataclass("In10", [("v", int)])
    Out = dataclasses.make_dataclass("Out10", [("i", In), ("l", t.List[In], dataclasses.field(default_factory=list))])
    ok = {"i": {"v": 1}}
    bad_in = {"i": {"v": 1, "z": 2}}
    bad_l = {"i": {"v": 1}, "l": [{"v": 1}, {"v": 1, "z": 2}]}
    bad_out = {"i": {"v": 1}, "z": 2}
    E = ExtraKeys
    for p in (bad_in, bad_l, bad_out):
        b.ce(f"load {p}", lambda: load(p, Out))
        b.ce(f"load {p} with ExtraKeys(False)", lambda: load(p, Out, settings=[E(False)]))
        b.eq(f"load {p} with ExtraKeys(True)", lambda: load(p, Out, settings=[E(True)]), load({**ok, **({"l": [{"v": 1}, {"v": 1}]} if "l" in p else {})}, Out))
    hint = Annotated[Out, E(True)]
    b.eq("allowed on the outer type", lambda: load(bad_out, hint), load(ok, Out))
    for p in (bad_in, bad_l):
        b.ce(f"allowed on the outer type only: {p}", lambda: load(p, hint))
    InA = Annotated[In, E(True)]
    Out2 = dataclasses.make_dataclass("Out210", [("i", InA), ("l", t.List[InA], dataclasses.field(default_factory=list))])
    b.eq("allowed on the inner type", lambda: load(bad_in, Out2), Out2(In(1)))
    b.eq("allowed on the elements", lambda: load(bad_l, Out2), Out2(In(1), [In(1), In(1)]))
    b.ce("allowed on the inner type only", lambda: load(bad_out, Out2))
    rec = []
    r = E(recorder=lambda ctx, keys: rec.append((ctx.value, set(keys))))
    for p in (ok, bad_in, bad_l, bad_out, {"i": {"v": 1, "y": 0, 5: 1, None: 2}}):
        rec.clear()
        o = outcome(lambda: load(p, Out, settings=[r]))
        want = []
        for v in [p.get("i")] + list(p.get("l", [])):
            x = set(v) - {"v"}
            if x:
                want.append((v, x))
        x = set(p) - {"i", "l"}
        if x:
            want.append((p, x))
        b.true(f"recorder for {p}", o[0] == "ok" and len(rec) == len(want) and all(w in rec for w in want), show(want), show(rec) + show_out(o))
    for allow in (True, False):
        rec.clear()
        o = outcome(lambda: load(bad_out, Out, settings=[E(allow, recorder=lambda c, k: rec.append(set(k)))]))
        b.true(f"ExtraKeys({allow}, recorder)", rec in ([{"z"}], []) if not allow else rec == [{"z"}] and o[0] == "ok", "", show(rec))
    for k in (5, None, 1.5, (1, 2), b"v", True, "V", "v ", ""):
        b.ce(f"extra key {k!r}", lambda: load({"v": 1, k: 2}, In))
        b.eq(f"extra key {k!r} allowed", lambda: load({"v": 1, k: 2}, In, settings=[E(True)]), In(1))
    Rm = dataclasses.make_dataclass("Rm10", [("v", Annotated[int, Alias("w", "v")]), ("rest", Annotated[t.Dict[str, int], Remainder()])])
    for p, e in (({"w": 1}, (1, {})), ({"v": 1, "x": 2, "y": 3}, (1, {"x": 2, "y": 3})), ({"w": 1, "v": 2}, (1, {"v": 2})), ({"w": 1, "rest": 2}, (1, {"rest": 2}))):
        b.eq(f"remainder of {p}", lambda: load(p, Rm), Rm(*e))
        b.eq(f"remainder of {p} with ExtraKeys(False)", lambda: load(p, Rm, settings=[E(False)]), Rm(*e))
        rec.clear()
        b.eq(f"remainder of {p} with a recorder", lambda: load(p, Rm, settings=[r]), Rm(*e))
        b.true(f"recorder not called with a remainder: {p}", rec == [], "", rec)
    for p in ({"w": 1, "x": "no"}, {"w": 1, 5: 1}, {"w": 1, "x": None}):
        b.ce(f"remainder of {p}", lambda: load(p, Rm))


class UpConv(Converter):
    """Upper-cases (load) and lower-cases (dump) texts."""

    def convert(self, ctx):
        if not isinstance(ctx.value, str):
            raise ConversionError.expected(self, ctx, str)
        return ctx.value.upper() if ctx.direction == Direction.DESERIALIZE else ctx.value.lower()


def p11(b):
    b.rules.append("defaults whose dumped form differs from the value, equal to values of other types; the setting given at another level; typed dicts; remainders whose keys clash")
    Up = Annotated[str, JsonConverter(UpConv())]
    no = [SerializeDefaults(False)]
    D = dataclasses.make_dataclass("D11", [("a", Up, "QQ"), ("b", t.Optional[datetime.date], datetime.date(2020, 1, 1)), ("c", Fruit, Fruit.PEAR), ("d", t.List[int], dataclasses.field(default_factory=lambda: [1])), ("e", bytes, b"x")])
    full = {"a": "qq", "b": "2020-01-01", "c": "pear", "d": [1], "e": "eA=="}
    b.eq("all default", lambda: dump(D(), D), full)
    b.eq("all default, left out", lambda: dump(D(), D, settings=no), {})
    for f, v, w in (("a", "qq", "qq"), ("a", "ZZ", "zz"), ("b", None, None), ("b", datetime.date(2021, 1, 1), "2021-01-01"), ("c", Fruit.FIG, "FIG"), ("d", [], []), ("d", [1, 1], [1, 1]), ("e", b"", "")):
        b.eq(f"{f}={v!r}, defaults left out", lambda: dump(D(**{f: v}), D, settings=no), {f: w})
        b.eq(f"{f}={v!r}", lambda: dump(D(**{f: v}), D), {**full, f: w})
    b.ce("a default of the wrong type is still checked", lambda: dump(D(c="pear"), D))
    In = dataclasses.make_dataclass("In11", [("v", int, 1)])
    Out = dataclasses.make_dataclass("Out11", [("i", In, In(1)), ("n", int, 0)]) if sys.version_info < (3, 11) else dataclasses.make_dataclass("Out11", [("i", In, dataclasses.field(default_factory=lambda: In(1))), ("n", int, 0)])
    b.eq("setting on the outer type only", lambda: dump(Out(In(1), 1), Annotated[Out, SerializeDefaults(False)]), {"n": 1})
    b.eq("setting on the outer type only, inner default emitted", lambda: dump(Out(In(2), 0), Annotated[Out, SerializeDefaults(False)]), {"i": {"v": 2}})
    Out2 = dataclasses.make_dataclass("Out211", [("i", Annotated[In, SerializeDefaults(False)], dataclasses.field(default_factory=lambda: In(3))), ("n", int, 0)])
    b.eq("setting on a field's type", lambda: dump(Out2(In(1)), Out2), {"i": {}, "n": 0})
    b.eq("SerializeDefaults(True) beats nothing", lambda: dump(Out2(In(1)), Out2, settings=[SerializeDefaults(True)]), {"i": {}, "n": 0})
    R = dataclasses.make_dataclass("R11", [("a", int, 1), ("r", Annotated[t.Dict[str, int], Remainder()], dataclasses.field(default_factory=dict))])
    for s in (None, no):
        b.ce(f"remainder key clashes with a field ({s})", lambda: dump(R(2, {"a": 5}), R, settings=s))
        b.eq(f"remainder ({s})", lambda: dump(R(2, {"x": 5, "y": 6}), R, settings=s), {"a": 2, "x": 5, "y": 6})
        b.eq(f"remainder empty ({s})", lambda: dump(R(2, {}), R, settings=s), {"a": 2})
        b.ce(f"remainder value of a wrong type ({s})", lambda: dump(R(2, {"x": "no"}), R, settings=s))
    TD = te.TypedDict("TD11", {"a": int, "b": t.Optional[str]})
    b.eq("typed dict", lambda: dump({"a": 1, "b": None}, TD), {"a": 1, "b": None})
    b.eq("typed dict, optional key absent", lambda: dump({"a": 1}, TD), {"a": 1})
    b.ce("typed dict, required key absent", lambda: dump({"b": "x"}, TD))
    for bad in (None, 1, [], "a", [("a", 1)], Plain()):
        b.ce(f"dump {bad!r} as typed dict", lambda: dump(bad, TD))
        b.ce(f"dump {bad!r} as dataclass", lambda: dump(bad, In))
    b.ce("dump of a dict as dataclass", lambda: dump({"v": 1}, In))
    b.ce("dump of the class itself", lambda: dump(In, In))
    b.ce("dump of another dataclass with the same fields", lambda: dump(dataclasses.make_dataclass("In11", [("v", int, 1)])(), In))
    Sub = dataclasses.make_dataclass("Sub11", [("w", int, 2)], bases=(In,))
    b.eq("dump of a subclass instance as the base gives the base's fields", lambda: dump(Sub(5, 6), In), {"v": 5})


def p12(b):
    b.rules.append("flattened types nested three deep, with aliases equal to outer names, equal values under clashing keys, custom converters")
    F_ = Flattened()
    L3 = dataclasses.make_dataclass("L312", [("x", Annotated[int, Alias("ex", "x2")]), ("y", int, 5)])
    L2 = dataclasses.make_dataclass("L212", [("z", int), ("l3", Annotated[L3, F_])])
    L1 = dataclasses.make_dataclass("L112", [("w", str), ("l2", Annotated[L2, F_])])
    b.eq("three levels", lambda: load({"w": "a", "z": 1, "ex": 2}, L1), L1("a", L2(1, L3(2, 5))))
    b.eq("three levels, second alias", lambda: load({"w": "a", "z": 1, "x2": 2, "y": 7}, L1), L1("a", L2(1, L3(2, 7))))
    b.eq("three levels, dump", lambda: dump(L1("a", L2(1, L3(2, 5))), L1), {"w": "a", "z": 1, "ex": 2, "y": 5})
    for p in ({"w": "a", "z": 1}, {"w": "a", "ex": 1}, {"z": 1, "ex": 2}, {"w": "a", "z": 1, "x": 2}, {"w": "a", "z": 1, "ex": 2, "l3": {}}, {"w": "a", "z": 1, "ex": 2, "l2": {}}, {"w": "a", "z": 1, "ex": 2, "x2": 3}, {"w": "a", "z": None, "ex": 2}, {"w": "a", "z": 1, "ex": "no"}):
        b.ce(f"load {p}", lambda: load(p, L1))
    # a sub-field named like the flattened field itself
    In = dataclasses.make_dataclass("In12", [("v", int), ("q", int, 0)])
    Self = dataclasses.make_dataclass("Self12", [("v", Annotated[In, F_]), ("n", int, 3)])
    o = outcome(lambda: load({"v": 1, "n": 4}, Self))
    b.true("sub-field named like its flattened field", o[0] == "CE" or o[0] == "exc" or o[0] == "ok" and o[1] == Self(In(1), 4), "Self12(In12(1), 4)", show_out(o))
    if o[0] == "ok":
        b.eq("... dump", lambda: dump(Self(In(1), 4), Self), {"v": 1, "q": 0, "n": 4})
    Clash = dataclasses.make_dataclass("Clash12", [("a", Annotated[In, F_]), ("v", int, 1)])
    o = outcome(lambda: get_fields_expanded(convert_to_schema(TypeHint(Clash))))
    b.true("a sub-field that clashes with another field is an error", o[0] != "ok", "an error", show_out(o))
    Clash2 = dataclasses.make_dataclass("Clash212", [("a", Annotated[In, F_]), ("b", Annotated[L3, F_]), ("q", Annotated[L2, F_])])
    o = outcome(lambda: get_fields_expanded(convert_to_schema(TypeHint(Clash2))))
    b.true("a sub-field that clashes with a flattened field is an error", o[0] != "ok", "an error", show_out(o))
    # clashing keys on dump must not lose entries, even if the values are equal
    Two = dataclasses.make_dataclass("Two12", [("a", Annotated[int, Alias("k")]), ("f", Annotated[dataclasses.make_dataclass("Sub12", [("b", Annotated[int, Alias("k")])]), F_])])
    S12 = t.get_type_hints(Two)["f"]
    for x, y in ((1, 2), (1, 1), (0, False)):
        b.ce(f"dump with clashing keys and values {x}, {y}", lambda: dump(Two(x, S12(y)), Two))
    Map = dataclasses.make_dataclass("Map12", [("a", int), ("m", Annotated[t.Dict[str, int], Remainder()], dataclasses.field(default_factory=dict)), ("f", Annotated[In, F_], None)])
    b.ce("remainder clashes with a flattened entry", lambda: dump(Map(1, {"v": 1}, In(1)), Map))
    b.eq("remainder next to a flattened entry", lambda: dump(Map(1, {"o": 1}, In(1, 2)), Map), {"a": 1, "o": 1, "v": 1, "q": 2})
    b.eq("remainder next to a flattened entry (load)", lambda: load({"a": 1, "o": 1, "v": 1, "q": 2}, Map), Map(1, {"o": 1}, In(1, 2)))

    class Bad(Converter):
        def __init__(self, r):
            self.r = r

        def convert(self, ctx):
            return self.r if ctx.direction == Direction.SERIALIZE else (_ for _ in ()).throw(NotImplementedError)
    kept = {"v": 7, "q": 8}
    for r in (5, "v", ["v"], None, [("v", 1)], kept, types.MappingProxyType(kept), collections.OrderedDict(kept)):
        T = dataclasses.make_dataclass("T12", [("n", int), ("f", Annotated[In, F_, JsonConverter(Bad(r))])])
        if isinstance(r, cabc.Mapping):
            for _ in range(2):
                b.eq(f"flattened value dumped as {r!r}", lambda: dump(T(1, In(1)), T), {"n": 1, "v": 7, "q": 8})
            b.true("the mapping of the custom converter is not modified", dict(r) == {"v": 7, "q": 8}, "", r)
        else:
            b.ce(f"flattened value dumped as {r!r}", lambda: dump(T(1, In(1)), T))
    A_, B_ = (dataclasses.make_dataclass(n, [(x, int), (x + "2", int, 0)]) for n, x in (("A12", "p"), ("B12", "r")))
    M2 = dataclasses.make_dataclass("M212", [("a", Annotated[A_, F_]), ("k", int), ("b", Annotated[B_, F_])])
    b.eq("two flattened fields", lambda: load({"p": 1, "r": 2, "r2": 3, "k": 4}, M2), M2(A_(1), 4, B_(2, 3)))
    b.eq("two flattened fields (dump)", lambda: dump(M2(A_(1), 4, B_(2, 3)), M2), {"p": 1, "p2": 0, "k": 4, "r": 2, "r2": 3})
    b.eq("expanded fields", lambda: {k: sorted(v) for k, v in get_fields_expanded(convert_to_schema(TypeHint(L1))).items()}, {"l2": ["ex" if False else "x", "y", "z"]})
    b.eq("expanded fields of two", lambda: {k: sorted(v) for k, v in get_fields_expanded(convert_to_schema(TypeHint(M2))).items()}, {"a": ["p", "p2"], "b": ["r", "r2"]})


# -------------------------------------------------------------------------------------------------------------- unions
@dataclasses.dataclass
class UA:
    x: int = 1


@dataclasses.dataclass
class UB:
    kind: str
    y: int = 0


@dataclasses.dataclass
class UC:
    rest: Annotated[t.Dict[str, t.Any], Remainder()]
    x: int = 0


class Carrier:
    pass


def p13(b):
    b.rules.append("members with a field named like the discriminator or with a remainder, payload mappings of every kind, order of keys")
    h = Annotated[Carrier, Union({"a": UA, "b": UB, "c": UC}, Union.FLAT, "kind")]
    b.eq("flat: the discriminator is not handed to a remainder", lambda: load({"kind": "c", "z": 1}, h), UC({"z": 1}))
    b.eq("flat: dump with a remainder", lambda: dump(UC({"z": 1}), h), {"z": 1, "x": 0, "kind": "c"})
    b.ce("flat: the discriminator is not handed to a field", lambda: load({"kind": "b", "y": 1}, h))
    o = outcome(lambda: dump(UB("q", 1), h))
    b.true("flat: a member that uses the discriminator key", o[0] != "ok" or o[1].get("kind") == "b", "the discriminator is not overwritten", show_out(o))
    for mp in (dict, collections.OrderedDict, DictSub, types.MappingProxyType, collections.UserDict, collections.ChainMap):
        for style, p in ((Union.FLAT, {"kind": "a", "x": 2}), (Union.KEYED, {"a": mp({"x": 2})}), (Union.NESTED, {"kind": "a", "a": mp({"x": 2})})):
            hh = Annotated[Carrier, Union({"a": UA, "c": UC}, style, "kind")]
            b.eq(f"load a {mp.__name__}, {style}", lambda: load(mp(p), hh), UA(2))
            for order in (lambda d: dict(d), lambda d: dict(reversed(list(d.items())))):
                b.eq(f"load a {mp.__name__}, {style}, other key order", lambda: load(mp(order(p)), hh), UA(2))
    for nest in ("params", "a", "c", "x"):
        hh = Annotated[Carrier, Union({"a": UA, "c": UC}, Union.NESTED, "kind", nest)]
        b.eq(f"nesting key {nest!r}", lambda: load({"kind": "a", nest: {"x": 3}}, hh), UA(3))
        b.eq(f"nesting key {nest!r} (dump)", lambda: dump(UA(3), hh), {"kind": "a", nest: {"x": 3}})
        if nest != "a":
            b.ce(f"nesting key {nest!r}, entry under the id only", lambda: load({"kind": "a", "a": {"x": 3}}, hh))
        b.ce(f"nesting key {nest!r}, no entry", lambda: load({"kind": "a"}, hh))
        b.ce(f"nesting key {nest!r}, flat payload", lambda: load({"kind": "a", "x": 3}, hh))
        b.ce(f"nesting key {nest!r}, None entry", lambda: load({"kind": "a", nest: None}, hh))
    hh = Annotated[Carrier, Union({"a": UA, "c": UC}, Union.NESTED, "kind")]
    b.ce("no nesting key, entry under another name", lambda: load({"kind": "a", "parameters": {"x": 3}}, hh))
    b.ce("no nesting key, flat payload", lambda: load({"kind": "a", "x": 3}, hh))
    # the member type is converted as that very type, with its own settings
    Loose = Annotated[int, Strict(False)]
    hl = Annotated[Carrier, Union({"l": TypeHint(Loose), "s": TypeHint(int)}, Union.KEYED)]
    b.eq("settings of a member", lambda: load({"l": "5"}, hl), 5)
    b.ce("settings of another member", lambda: load({"s": "5"}, hl))
    # unions as fields, elements and values
    for wrap, mk, mv in ((t.List[h], lambda w: [w, w], lambda v: [v, v]), (t.Dict[str, h], lambda w: {"k": w}, lambda v: {"k": v}), (t.Optional[h], lambda w: w, lambda v: v)):
        b.eq(f"load in {wrap}", lambda: load(mk({"kind": "a", "x": 2}), wrap), mv(UA(2)))
        b.eq(f"dump in {wrap}", lambda: dump(mv(UA(2)), wrap), mk({"x": 2, "kind": "a"}))
    # registered members
    @Union(style=Union.KEYED)
    class Base:
        pass

    @Union.register(Base, "one")
    @dataclasses.dataclass
    class One(Base):
        v: int = 0

    @Union.register(Base)
    @dataclasses.dataclass
    class Two(Base):
        v: int = 0

    for v, w in ((One(1), {"one": {"v": 1}}), (Two(2), {"Two": {"v": 2}})):
        b.eq(f"dump {v!r}", lambda: dump(v, Base), w)
        b.eq(f"load {w!r}", lambda: load(w, Base), v)
        b.eq(f"dump {v!r} as itself", lambda: dump(v, type(v)), {"v": v.v})

    @dataclasses.dataclass
    class Three(One):
        pass
    b.ce("a subclass of a member is no member", lambda: dump(Three(1), Base))


def p14(b):
    b.rules.append("members that fail with nested errors, errors from deep inside, errors raised for other contexts; errors of every member kept")
    rng = b.rng
    D1 = dataclasses.make_dataclass("D114", [("a", t.List[t.Dict[str, int]])])
    D2 = dataclasses.make_dataclass("D214", [("a", t.List[t.Dict[str, t.Union[int, bool]]])])
    D3 = dataclasses.make_dataclass("D314", [("a", t.Any)])
    for h in (t.Union[D1, D2, D3], Annotated[t.Union[D1, D2, D3], "x"], Annotated[Carrier, Union({"1": D1, "2": D2, "3": D3}, Union.BEST_MATCH)]):
        for p, e in (({"a": [{"k": 1}]}, D1([{"k": 1}])), ({"a": [{"k": "x"}]}, D3([{"k": "x"}])), ({"a": 5}, D3(5)), ({"a": []}, D1([]))):
            b.eq(f"load {p} as {h}", lambda: load(p, h), e)
        for p in ({"b": 1}, None, [], {"a": 1, "b": 2}):
            b.ce(f"load {p} as {h}", lambda: load(p, h))
    # nested unions: an inner union that fails makes the outer one go on
    for h in (t.Union[t.List[t.Union[int, bool]], t.Dict[str, t.Union[int, bool]], t.Tuple[int], t.Sequence[t.Any]], t.Union[t.List[t.List[t.Union[int, bool]]], t.Sequence[t.Any]]):
        for p in ([1], [["x"]], [[1]], ["x"], [{"k": "x"}], [[[1]]]):
            exp = ("CE",)
            for M in t.get_args(h):
                o = outcome(lambda: load(p, M))
                if o[0] == "ok":
                    exp = o
                    break
            b.spec(f"load {p} as {h}", lambda: load(p, h), exp)

    class Deep(Converter):
        """Fails in a context of its own making, with nested errors."""

        def __init__(self, depth, errors):
            self.depth, self.errors = depth, errors

        def convert(self, ctx):
            if not (isinstance(ctx.datatype, ClassTypeHint) and ctx.datatype.type is int):
                raise NotImplementedError
            c = ctx
            for i in range(self.depth):
                c = c.spawn(i, int, i)
            raise ConversionError(self, c, "deep", [(self, ConversionError(self, ctx, "in"))] * self.errors)
    for depth, errors in itertools.product((0, 1, 3), (0, 1, 2)):
        for f in ("deserialize", "serialize"):
            m = get_object_mapper()
            m.module.register(Deep(depth, errors), first=True)
            for h in (t.Union[int, str], Annotated[t.Union[int, str], "x"], Annotated[Carrier, Union({"i": int, "s": str}, Union.BEST_MATCH)]):
                for wrap, mk in ((lambda x: x, lambda v: v), (lambda x: t.List[x], lambda v: [v]), (lambda x: t.Dict[str, t.List[x]], lambda v: {"k": [v]})):
                    b.eq(f"{f} as {wrap(h)}: first member fails {depth} contexts deep with {errors} nested errors", lambda: getattr(m, f)(mk("v"), wrap(h)), mk("v"))
    # the class of a value does not change the order
    for f in (load, dump):
        for v in (1, True, "x", 1.0):
            for ms in itertools.permutations([int, float, bool, str], 3):
                exp = ("CE",)
                for M in ms:
                    o = outcome(lambda: f(v, M))
                    if o[0] == "ok":
                        exp = o
                        break
                b.spec(f"{f.__name__} {v!r} as best match of {ms}", lambda: f(v, Annotated[Carrier, Union({M.__name__ + "x": M for M in ms}, Union.BEST_MATCH)]), exp)
    # every member fails: no member is lost
    for n in (2, 3, 5):
        ms = [dataclasses.make_dataclass(f"M14_{i}", [(f"f{i}", int)]) for i in range(n)]
        o = outcome(lambda: load({"q": 1}, t.Union[tuple(ms)]))
        b.true(f"{n} members fail", o[0] == "CE" and len(o[1].errors) == n, f"a ConversionError with {n} errors", show_out(o))
        b.no_leak("its text", lambda: str(o[1]))


def p15(b):
    b.rules.append("chains with registries that cannot list in every position; entry points from a scratch distribution; members registered again")
    A_, B_, C_, D_ = (type(n, (), {"__module__": __name__}) for n in ("A15", "B15", "C15", "D15"))
    for perm in itertools.permutations([("s", {"a": A_, "b": B_}), ("s", {"b": C_, "c": D_}), ("i", None), ("i", None)]):
        ch = ChainUnionMembers(*[StaticUnionMembers(dict(x)) if k == "s" else ImportUnionMembers() for k, x in perm])
        ids = []
        for k, x in perm:
            ids += [i for i in (x or {}) if i not in ids]
        b.eq(f"ids of chain {[k if k == 'i' else list(x) for k, x in perm]}", ch.get_type_ids, ids)
        first = next(x["b"] for k, x in perm if k == "s")
        b.eq("shared id", lambda: ch.get_type_by_id("b"), first)
    for c in (A_, B_, C_, D_):
        st = StaticUnionMembers({"a": A_})
        r = st.register("a")(c)
        b.true("a name registered again", r is c and st.get_type_by_id("a") is c and st.get_type_ids() == ["a"], "", st)
        b.eq("... its id", lambda: st.get_type_id(c), "a")
    # members that are replaced after their (deferred) types were looked up
    for first, second in itertools.product((lambda: A_, A_), (lambda: B_, B_)):
        for how in ("register", "dictionary"):
            for ask in ("id", "type", "none"):
                st = StaticUnionMembers({"a": first, "k": lambda: C_})
                if ask == "id":
                    st.get_type_by_id("a")
                elif ask == "type":
                    outcome(lambda: st.get_type_id(D_))
                if how == "register" and not isinstance(second, types.FunctionType):
                    st.register("a")(second)
                else:
                    st.members["a"] = second
                b.eq(f"replaced ({how}, after {ask})", lambda: (st.get_type_by_id("a"), st.get_type_id(B_), st.get_type_id(C_), st.get_type_ids()), (B_, "a", "k", ["a", "k"]))
                b.exc("the type that was replaced", lambda: st.get_type_id(A_), ValueError)
                del st.members["a"]
                b.exc("a member that was removed", lambda: st.get_type_by_id("a"), ValueError)
    st = StaticUnionMembers({"x": A_, "y": A_, "z": lambda: B_, "w": TypeHint(t.List[int]), "v": TypeHint(Annotated[C_, "q"])})
    for c, i in ((A_, "x"), (B_, "z"), (list, "w")):
        b.eq(f"id of {c.__name__}", lambda: st.get_type_id(c), i)
    st.members["n"] = D_
    b.eq("a member added to the dictionary", lambda: (st.get_type_id(D_), st.get_type_by_id("n"), st.get_type_ids()[-1]), ("n", D_, "n"))
    n = []
    st = StaticUnionMembers({"d": lambda: (n.append(1), A_)[1], "e": lambda: (n.append(2), B_)[1]})
    b.eq("deferred", lambda: (st.get_type_by_id("d"), list(n)), (A_, [1]))
    b.eq("deferred again", lambda: (st.get_type_id(B_), st.get_type_by_id("d"), st.get_type_id(A_), st.get_type_by_id("e"), list(n)), ("e", A_, "d", B_, [1, 2]))
    u1, u2 = StaticUnionMembers(), StaticUnionMembers()
    u1.register("q")(A_)
    b.eq("registries do not share members", u2.get_type_ids, [])
    o = StaticUnionMembers({"d": lambda: C_})
    b.eq("registries do not share evaluated members", lambda: o.get_type_by_id("d"), C_)
    # entry points
    with tempfile.TemporaryDirectory() as tmp:
        with open(os.path.join(tmp, "verif_ep15.py"), "w") as f:
            f.write("class First: pass\nclass Second: pass\nclass Third: pass\n")
        os.mkdir(os.path.join(tmp, "verif_ep15-1.0.dist-info"))
        with open(os.path.join(tmp, "verif_ep15-1.0.dist-info", "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: verif-ep15\nVersion: 1.0\n")
        with open(os.path.join(tmp, "verif_ep15-1.0.dist-info", "entry_points.txt"), "w") as f:
            f.write("[databind.verif.ep15]\nFirst = verif_ep15:First\nsecond = verif_ep15:Second\nThird.x = verif_ep15:Third\nagain = verif_ep15:First\n")
        sys.path.insert(0, tmp)
        try:
            import importlib, importlib.metadata
            importlib.invalidate_caches()
            import verif_ep15 as mod
            names = [e.name for e in importlib.metadata.entry_points(group="databind.verif.ep15")]
            if sorted(names) == sorted(["First", "second", "Third.x", "again"]):
                E = EntrypointUnionMembers("databind.verif.ep15")
                for _ in range(2):
                    b.eq("entry point ids", E.get_type_ids, names)
                    for i, c in (("First", mod.First), ("second", mod.Second), ("Third.x", mod.Third), ("again", mod.First)):
                        b.eq(f"entry point {i}", lambda: E.get_type_by_id(i), c)
                    b.eq("entry point id of Second", lambda: E.get_type_id(mod.Second), "second")
                    b.eq("entry point id of Third", lambda: E.get_type_id(mod.Third), "Third.x")
                    b.eq("entry point id of First: the first one", lambda: E.get_type_id(mod.First), next(x for x in names if x in ("First", "again")))
                    for i in ("first", "FIRST", "third.x", "verif_ep15:First", "", "zz"):
                        b.exc(f"entry point {i!r}", lambda: E.get_type_by_id(i), ValueError)
                    b.exc("entry point id of another class", lambda: E.get_type_id(A_), ValueError)
                b.eq("another group", EntrypointUnionMembers("databind.verif.ep15x").get_type_ids, [])
                ch = ChainUnionMembers(StaticUnionMembers({"second": A_}), E)
                b.eq("chain: ids", ch.get_type_ids, ["second"] + [x for x in names if x != "second"])
                b.eq("chain: shared id", lambda: ch.get_type_by_id("second"), A_)
                b.eq("chain: id of Second", lambda: ch.get_type_id(mod.Second), "second")
                hh = Annotated[Carrier, Union("!databind.verif.ep15", Union.KEYED)]
                dataclasses.dataclass(mod.First)
                b.eq("union of entry points", lambda: type(load({"First": {}}, hh)), mod.First)
        finally:
            sys.path.remove(tmp)
            sys.modules.pop("verif_ep15", None)


# ------------------------------------------------------------------------------------------------------------- settings
@dataclasses.dataclass(frozen=True)
class Own16(Setting):
    n: int
    priority: Priority = Priority.NORMAL


class Sub16(Own16):
    pass


def p16(b):
    b.rules.append("settings on generic aliases, elements, fields, and every pair of priorities over every pair of places")
    seen = {}

    class Rec(Converter):
        def convert(self, ctx):
            s = ctx.get_setting(Own16)
            seen[type(ctx.value).__name__] = s and s.n
            raise NotImplementedError

    def mapper():
        m = get_object_mapper()
        m.module.register(Rec(), first=True)
        return m
    K = lambda: dataclasses.dataclass(type(fresh("K16"), (), {"__annotations__": {"a": int}, "a": 0, "__module__": __name__}))
    places = ["annotation", "local", "conditional", "global", "call"]
    for p1, p2 in itertools.product(places, places):
        for q1, q2 in itertools.product(list(Priority), list(Priority)):
            if b.rng.random() < .6 and b.tier == "quick":
                continue
            m, cls = mapper(), int
            ann, call = [], []
            for k, (pl, pr) in enumerate(((p1, q1), (p2, q2))):
                s = Own16(k, pr)
                if pl == "annotation":
                    ann.append(s)
                elif pl == "local":
                    m.settings.add_local(cls, s)
                elif pl == "conditional":
                    m.settings.add_conditional(lambda c: True, s)
                elif pl == "global":
                    m.settings.add_global(s)
                else:
                    call.append(s)
            order = {"annotation": 0, "call": 1, "local": 2, "conditional": 3, "global": 4}
            cand = sorted([(-q1.value, order[p1], 0), (-q2.value, order[p2], 1)])
            h = Annotated.__class_getitem__((int, *ann)) if ann else int
            seen.clear()
            outcome(lambda: m.deserialize(5, h, settings=call or None))
            if "call" in (p1, p2) and p1 != p2 and q1 == q2 and "annotation" not in (p1, p2):
                continue  # the order among call and mapper settings of one priority is checked by the main cases
            b.true(f"{p1}/{q1.name} against {p2}/{q2.name}", seen.get("int") == cand[0][2], str(cand[0][2]), seen)
    # a setting applies where it is given, not above or below
    m = mapper()
    seen.clear()
    m.deserialize([5], Annotated[t.List[int], Own16(1)])
    b.eq("annotation of the list", lambda: dict(seen), {"list": 1, "int": None})
    seen.clear()
    m.deserialize([5], t.List[Annotated[int, Own16(2)]])
    b.true("annotation of the element", seen.get("list") is None and seen.get("int") in (2, None), "", seen)
    for h in (t.List[int], t.List[str]):
        m = mapper()
        m.settings.add_local(list, Own16(3))
        seen.clear()
        m.deserialize([], h)
        b.eq(f"local setting of list for {h}", lambda: dict(seen), {"list": 3})
    m = mapper()
    m.settings.add_local(int, Sub16(4))
    seen.clear()
    m.deserialize(5, int)
    b.eq("a setting of a subclass of the requested type", lambda: dict(seen), {"int": 4})
    m = mapper()
    m.settings.add_local(int, Own16(4))
    seen.clear()
    m.deserialize(True, bool)
    b.eq("a local setting of a base class", lambda: dict(seen), {"bool": None})
    calls = []
    m = mapper()
    m.settings.add_conditional(lambda c: (calls.append(c.value), isinstance(c.value, int))[1], Own16(6))
    seen.clear()
    m.deserialize([5, "x"], t.List[t.Any])
    b.true("a condition sees the context", seen.get("int") == 6 and seen.get("list") is None, "", seen)


def p17(b):
    b.rules.append("diamond hierarchies, decorated before and after subclassing, generic classes, registration under a name already taken")
    D = lambda n: JsonConverter(Const17(n))
    for order in range(4):
        top = dataclasses.dataclass(type(fresh("T17"), (), {"__annotations__": {"a": int}, "a": 0, "__module__": __name__}))
        if order in (0, 2):
            D("top")(top)
        left = dataclasses.dataclass(type(fresh("L17"), (top,), {"__module__": __name__}))
        right = dataclasses.dataclass(type(fresh("R17"), (top,), {"__module__": __name__}))
        if order >= 2:
            D("left")(left)
        bot = dataclasses.dataclass(type(fresh("B17"), (left, right), {"__module__": __name__}))
        if order in (1, 3):
            D("top")(top)
        for c, w in ((top, "top"), (left, "left" if order >= 2 else None), (right, None), (bot, None)):
            b.eq(f"order {order}: {c.__name__}", lambda: load({}, c), w if w else c())
    s = JsonConverter(Const17("s"))
    K1 = dataclasses.make_dataclass("K17", [("a", int, 0)])
    K2 = dataclasses.make_dataclass("K17b", [("a", int, 0)])
    b.true("returns the class", s(K1) is K1, "", "")
    o = outcome(lambda: s(K2))
    b.true("second use is an error", o[0] == "exc", "an error", show_out(o))
    b.eq("the first class keeps it", lambda: dump(K1(), K1), "s")
    b.eq("the second class does not get it", lambda: dump(K2(), K2), {"a": 0})
    o = outcome(lambda: s(K1))
    b.eq("still the first class", lambda: dump(K1(), K1), "s")
    JsonConverter(Const17("later"))(K1)
    b.eq("a second setting for one class", lambda: dump(K1(), K1), "s")
    ExtraKeys(True)(K2)
    b.eq("a setting of another kind", lambda: load({"a": 1, "q": 2}, K2), K2(1))
    b.ce("not for a subclass", lambda: load({"a": 1, "q": 2}, dataclasses.dataclass(type("S17", (K2,), {"__module__": __name__}))))

    @Union(style=Union.KEYED)
    class B1:
        pass

    @Union(style=Union.KEYED)
    class B2:
        pass

    @dataclasses.dataclass
    class M1(B1, B2):
        pass

    @dataclasses.dataclass
    class M2(B1):
        pass
    Union.register(B1, "m")(M1)
    Union.register(B2, "other")(M1)
    b.eq("B1", lambda: dump(M1(), B1), {"m": {}})
    b.eq("B2", lambda: dump(M1(), B2), {"other": {}})
    Union.register(B1, "m")(M2)
    b.eq("a name taken over", lambda: load({"m": {}}, B1), M2())
    b.ce("the former member is gone", lambda: dump(M1(), B1))
    b.eq("the other union keeps it", lambda: dump(M1(), B2), {"other": {}})
    for base, sub in ((int, M1), (M1, M2), (B2, M2), (Carrier, Carrier)):
        o = outcome(lambda: Union.register(base, "q")(sub))
        b.true(f"register({base.__name__})({sub.__name__}) is an error", o[0] == "exc", "an error", show_out(o))
    for junk in (5, None, "x", M1(), lambda: 0):
        o = outcome(lambda: Union.register(B1, "junk")(junk))
        b.true(f"register({junk!r}) is an error", o[0] == "exc", "an error", show_out(o))
    b.ce("nothing was registered by the failing calls", lambda: load({"q": {}}, B2))
    b.ce("nothing was registered by the failing calls", lambda: load({"junk": {}}, B1))
    Sub = dataclasses.dataclass(type("Sub17", (B1,), {"__module__": __name__}))
    b.ce("a subclass is no member unless registered", lambda: dump(Sub(), B1))
    b.eq("a subclass of a union base is converted as itself", lambda: load({}, Sub), Sub())
    M3 = dataclasses.dataclass(type("M3", (M2,), {"__module__": __name__}))
    Union.register(B1)(M3)
    b.eq("an indirect subclass", lambda: dump(M3(), B1), {"M3": {}})


class Const17(Converter):
    def __init__(self, n):
        self.n = n

    def convert(self, ctx):
        return self.n


# ----------------------------------------------------------------------------------------------------------------- flow
class NestedFail(Converter):
    def __init__(self, n, deep=0, origin=None):
        self.n, self.deep, self.origin = n, deep, origin
        self.exc = None

    def convert(self, ctx):
        c = ctx
        for i in range(self.deep):
            c = c.spawn(i, int, i)
        self.exc = ConversionError(self.origin or self, c, "x", [(self, ConversionError(self, ctx, f"e{i}")) for i in range(self.n)])
        raise self.exc


class Odd(Converter):
    def __init__(self, exc):
        self.exc = exc

    def convert(self, ctx):
        raise self.exc


def ctx18(v=1, module=None, hint=int, parent=None, direction=Direction.DESERIALIZE):
    return Context(parent, direction, v, TypeHint(hint), Settings(), Context.ROOT, Location.EMPTY, module and module.convert)


def p18(b):
    b.rules.append("failures carrying nested errors, custom converters that do not apply with the mapper, converters registered twice")
    for ns in itertools.product((None, 0, 1, 2), repeat=3):
        m = Module("m")
        cs = [NestedFail(n, deep=i) if n is not None else Odd(NotImplementedError()) for i, n in enumerate(ns)]
        for c in cs:
            m.register(c)
        o = outcome(lambda: m.convert(ctx18(module=m)))
        fails = [c for c in cs if isinstance(c, NestedFail)]
        if len(fails) == 1:
            b.true(f"errors {ns}", o[0] == "CE" and o[1] is fails[0].exc, "the error itself", show_out(o))
        else:
            b.true(f"errors {ns}", o[0] == "CE" and type(o[1]) is NoMatchingConverter and [e for _, e in o[1].errors] == [c.exc for c in fails] and [c for c, _ in o[1].errors] == fails, "each error once, in order", show_out(o) + show(getattr(o[1], "errors", None)))
    c = NestedFail(0)
    m = Module("twice")
    m.register(c)
    m.register(c)
    b.true("registered twice, asked twice", len(list(m.get_converters(ctx18(module=m)))) == 2, "", list(m.get_converters(ctx18(module=m))))
    inner = Module("inner")
    inner.register(Odd(NotImplementedError()))
    m = Module("outer")
    m.register(inner)
    m.register(Const17("late"))
    b.eq("a nested module whose converters do not apply", lambda: m.convert(ctx18(module=m)), "late")
    m = Module("outer")
    m.register(Const17("c"))
    m.register(inner, first=True)
    inner.register(Const17("added later"), first=True)
    b.eq("a converter added to a nested module later", lambda: m.convert(ctx18(module=m)), "added later")
    m.register(Const17("front"), first=True)
    b.eq("first before a nested module", lambda: m.convert(ctx18(module=m)), "front")
    for exc in (KeyError("x"), AttributeError("x"), TypeError("x"), ValueError("x"), RuntimeError("x"), StopIteration() if False else LookupError("x"), AssertionError(), ZeroDivisionError()):
        for rest in ([], [Const17("v")], [NestedFail(0)], [NestedFail(0), Const17("v")]):
            m = Module("m")
            for c in [Odd(exc)] + rest:
                m.register(c)
            o = outcome(lambda: m.convert(ctx18(module=m)))
            b.true(f"{type(exc).__name__} propagates", o[0] == "exc" and o[1] is exc, "", show_out(o))
            for c in reversed([NestedFail(1)]):
                m.register(c, first=True)
            o = outcome(lambda: m.convert(ctx18(module=m)))
            b.true(f"{type(exc).__name__} propagates after a failure", o[0] == "exc" and o[1] is exc, "", show_out(o))
    K = dataclasses.make_dataclass("K18", [("a", int)])
    for given in (Odd(NotImplementedError()), lambda: Odd(NotImplementedError()), NestedFail(2), lambda: NestedFail(0, 3)):
        jc = JsonConverter(given)
        for h, p, v in ((Annotated[int, jc], 3, 3), (Annotated[K, jc], {"a": 1}, K(1)), (Annotated[t.List[int], jc], [1], [1]), (Annotated[t.Optional[int], jc], None, None), (Annotated[t.Union[int, str], jc], "x", "x"),
                        (Annotated[t.Dict[str, int], jc], {"k": 1}, {"k": 1}), (Annotated[Fruit, jc], "FIG", Fruit.FIG)):
            b.eq(f"a custom converter that does not convert {h}", lambda: load(p, h), v)
            b.eq(f"a custom converter that does not convert {h} (dump)", lambda: dump(v, h), p)
            b.eq(f"nested in a list: {h}", lambda: load([p, p], t.List[h]), [v, v])
            b.ce(f"a wrong payload for {h}", lambda: load(Plain(), h))
    only = []

    class OnlyLoad(Converter):
        def deserialize(self, ctx):
            only.append(ctx.value)
            return "loaded"
    h = Annotated[int, JsonConverter(OnlyLoad())]
    b.eq("a custom converter for loading only", lambda: load(1, h), "loaded")
    b.eq("a custom converter for loading only: dump falls back", lambda: dump(1, h), 1)
    b.eq("... and was not asked again", lambda: only, [1])


def p19(b):
    b.rules.append("odd keys, extreme numbers with every relaxed setting, iterables that are no collections, extra keys that cannot be sorted")
    Dec = decimal.Decimal
    lax = Strict(False)
    for P in (Precision(), Precision(prec=1), Precision(prec=2, Emax=3), Precision(Emin=-2), Precision(prec=1, Emax=0, Emin=0, clamp=True), Precision(capitals=False)):
        for v in ("1E400", "9.9999E9999999", "1E-9999999", "NaN", "sNaN", "-Infinity", "x", "", "1E99999999999999999999", "-0E-999999999", "9" * 500, 10**500, float("inf"), float("nan"), 1e308, -1e-320, None, True, b"1", [], {}):
            for s in ([P], [P, lax]):
                b.no_leak(f"load({show(v, 50)}, Decimal, {s})", lambda: load(v, Dec, settings=s))
    for T in (int, float, str, bool, bytes, Dec, uuid.UUID, pathlib.Path, datetime.date, Fruit, Num):
        for v in JSONISH + ODD + ["9" * 5000, "1e99999", "0x10", "１２", "1" + "0" * 400 + ".5", 10**5000, -(10**5000), 1e22, float("nan"), "\x00", "\ud800"]:
            if isinstance(v, types.GeneratorType):
                continue
            for s in ([lax], None):
                b.no_leak(f"load({show(v, 60)}, {T.__name__}, {s})", lambda: load(v, T, settings=s))
                b.no_leak(f"dump({show(v, 60)}, {T.__name__}, {s})", lambda: dump(v, T, settings=s))

    class GetItem:
        def __getitem__(self, i):
            if i > 2:
                raise IndexError
            return i

        def keys(self):
            return ["a"]

    class IterOnly:
        def __iter__(self):
            return iter([1, 2])

    class Sized:
        def __len__(self):
            return 1

    class Weird:
        __hash__ = None

        def __eq__(self, o):
            return NotImplemented

    D = dataclasses.make_dataclass("D19", [("a", int, 0), ("b", t.Optional[str], None)])
    TD = te.TypedDict("TD19", {"a": int})
    NT = t.NamedTuple("NT19", [("a", int), ("b", int)])
    R = dataclasses.make_dataclass("R19", [("a", int, 0), ("r", Annotated[t.Dict[str, int], Remainder()], dataclasses.field(default_factory=dict))])
    Fl = dataclasses.make_dataclass("Fl19", [("f", Annotated[D, Flattened()]), ("x", int, 0)])
    hints = [t.List[int], t.Set[int], t.Tuple[int, int], t.Tuple[int, ...], t.Dict[str, int], t.Mapping[int, str], D, TD, NT, R, Fl, t.Union[int, t.List[int]], t.Literal["a", 1], t.Optional[D], Fruit, t.Deque[int], t.FrozenSet[int],
             Annotated[Carrier, Union({"a": UA}, Union.KEYED)], Annotated[Carrier, Union({"a": UA}, Union.FLAT)], Annotated[Carrier, Union({"a": UA}, Union.NESTED)], Annotated[Carrier, Union({"a": UA, "d": D}, Union.BEST_MATCH)],
             Annotated[Carrier, Union("<import>")], t.Sequence[t.Any], t.List[D], t.Dict[Fruit, D], t.Dict[t.Tuple[int, int], int], t.Set[t.List[int]], t.Dict[t.FrozenSet[int], int], Annotated[Carrier, Union("<import>", Union.FLAT)]]
    vals = [GetItem(), IterOnly(), Sized(), Weird(), iter([1]), iter(()), map(int, "1"), range(2), {"a": 1, 5: 2, None: 3}, {5: 1, "z": 2, (1,): 3, None: 4}, {"a": Weird()}, {("a",): 1}, [Weird()], "ab", b"ab", memoryview(b"a"),
            {"type": Weird()}, {"type": "a", 5: 1, None: 2}, {"type": "a", "a": Weird()}, {"a": {5: 1, "q": 2, None: 3}}, {"type": "a", "a": {5: 1, "q": 2}}, {"type": ["a"]}, {"type": "os"}, {"type": "os.path.join", "x": 1}, {"type": "..", "..": {}},
            {"type": "", "": {}}, {"type": "a.b", "a.b": {}}, {"os": {}, "sys": {}}, {5: {}}, {Weird: 1}, [[1, 2], [3]], [[1], [2, "x"]], {"APPLE": 5}, {"1": 2}, {(1, 2): 3}, {frozenset({1}): 2}, [[[]]], {"x": [], "a": {}},
            {"type": "battery.more.UA", "battery.more.UA": {"x": "no"}}, {"type": "battery", "battery": {}}, {"type": "battery.more.nope", "battery.more.nope": {}}, {"type": "\x00"}, {"type": "a b"}, {"type": " "}, {"type": "builtins.int", "builtins.int": 5}]
    for h in hints:
        for v in vals:
            for s in (None, [lax], [ExtraKeys(True)]):
                b.no_leak(f"load({show(v, 80)}, {h}, {s})", lambda: load(v, h, settings=s))
            if not (isinstance(v, dict) and any(isinstance(k, (tuple, frozenset)) for k in v)):  # (keys that are dumped as lists)
                b.no_leak(f"dump({show(v, 80)}, {h})", lambda: dump(v, h))
        for bad in (GetItem(), IterOnly(), Sized(), iter([1]), Weird()):
            if h != t.Sequence[t.Any] or True:
                b.ce(f"load({show(bad, 80)}, {h})", lambda: load(bad, h))
    for v in (D(a=Weird()), D(a=None), D(b=5), R(0, None), R(0, 5), R(0, {"a": 1}), R(0, {5: 1}), R(0, {"x": Weird()}), Fl(None), Fl(5), Fl(D(Weird())), NT(Weird(), 1), NT(1, None), UA(Weird()), UA(None)):
        for h in hints:
            b.no_leak(f"dump({show(v, 80)}, {h})", lambda: dump(v, h))
            b.no_leak(f"dump({show(v, 80)}, {h}, defaults left out)", lambda: dump(v, h, settings=[SerializeDefaults(False)]))
            b.no_leak(f"load({show(v, 80)}, {h})", lambda: load(v, h))


class ReprErr:
    def __repr__(self):
        raise RuntimeError("repr")

    def __str__(self):
        raise RuntimeError("str")


def p20(b):
    b.rules.append("traces of contexts with keys of every kind, file names that change, locations with only a line or a column; values whose repr fails")
    def lines(ctx):
        return format_context_trace(ctx).splitlines()
    for key in (0, 1, -5, "k", "", "a b", None, True, 1.5, (1, 2), b"k", 10**30, Ellipsis, "Key('x')", float("nan"), frozenset({1})):
        root = ctx18({}, hint=dict)
        o = outcome(lambda: root.spawn(5, int, key))
        b.true(f"spawn with key {key!r}", o[0] == "ok" and o[1].key is key and o[1].parent is root and o[1].value == 5 and o[1].direction is root.direction and o[1].settings is root.settings, "", show_out(o))
        c = o[1]
        o = outcome(lambda: lines(c))
        b.true(f"trace with key {key!r}", o[0] == "ok" and len([x for x in o[1] if x.strip()]) in (2, 3), "one line per context", show_out(o))
        if o[0] == "ok" and key is not None:
            b.true(f"trace shows key {key!r}", (repr(key) in o[1][-1] or str(key) in o[1][-1]), repr(key), o[1][-1])
        b.true(f"trace shows the type for key {key!r}", o[0] == "ok" and "int" in o[1][-1] and any("dict" in x for x in o[1][:-1]), "", show_out(o))
    for fn, line, col in itertools.product((None, "f.json"), (None, 1, 0, 7), (None, 2, 0)):
        root = Context(None, Direction.DESERIALIZE, {}, TypeHint(dict), Settings(), Context.ROOT, Location(fn, line, col), None)
        child = root.spawn(1, int, "a")
        b.true(f"child inherits the file name {fn!r}", child.location.filename == fn and child.location.line is None and child.location.column is None, "", child.location)
        grand = child.spawn(2, str, 0)
        b.true(f"grandchild inherits the file name {fn!r}", grand.location.filename == fn, "", grand.location)
        for c in (root, child, grand):
            o = outcome(lambda: format_context_trace(c))
            b.true(f"trace with location {(fn, line, col)}", o[0] == "ok" and (fn is None or o[1].count(fn) == 1), "the file name once", show_out(o))
            if o[0] == "ok" and fn and line:
                b.true(f"trace shows line {line}", str(line) in o[1], "", o[1])
    root = Context(None, Direction.DESERIALIZE, {}, TypeHint(dict), Settings(), Context.ROOT, Location("one.json", None, None), None)
    mid = dataclasses.replace(root.spawn(1, list, "a"), location=Location("two.json", None, None))
    leaf = mid.spawn(2, int, 3)
    o = outcome(lambda: lines(leaf))
    b.true("two file names", o[0] == "ok" and [("one" in x, "two" in x) for x in o[1] if ".json" in x] == [(True, False), (False, True)], "", show_out(o))
    back = dataclasses.replace(leaf.spawn(2, int, 3), location=Location("one.json", None, None))
    o = outcome(lambda: format_context_trace(back))
    b.true("a file name that comes back", o[0] == "ok" and o[1].count("one.json") == 2 and o[1].count("two.json") == 1, "", show_out(o))
    for n in (1, 2, 5, 30):
        c = ctx18({}, hint=dict)
        for i in range(n):
            c = c.spawn(i, int, i)
        o = outcome(lambda: [x for x in lines(c) if x.strip()])
        b.true(f"{n + 1} contexts", o[0] == "ok" and len(o[1]) in (n + 1, n + 2), f"{n + 1} lines", show_out(o))
        if o[0] == "ok":
            pos = [next((j for j, x in enumerate(o[1]) if str(i) in x.split("TypeHint")[0]), -1) for i in range(min(n, 9))]
            b.true("root-to-leaf order", pos == sorted(pos), "", show_out(o))
    for bad in (ReprErr(), [ReprErr()], {"k": ReprErr()}):
        for h in (int, t.List[int], t.Dict[str, int], t.Optional[str], t.Union[int, str], Fruit, t.Literal["a"]):
            o = outcome(lambda: load(bad, h))
            if o[0] == "CE":
                b.no_leak(f"text of the error for a value without repr as {h}", lambda: str(o[1]))
    # formatting an error never raises, whatever its parts
    for msg in ("m", "", "a\nb", "{x}", "%s"):
        for errs in ([], [(Const17(1), ConversionError(Const17(1), ctx18(), "x"))], [(Const17(1), ConversionError(Const17(1), ctx18(), "x"))] * 3):
            e = ConversionError(Const17(1), ctx18(), msg, errs)
            o = outcome(lambda: str(e))
            b.true(f"text of an error with message {msg!r}", o[0] == "ok" and msg in o[1], "", show_out(o))


# -------------------------------------------------------------------------------------------------------------- schemas
class Gen21(t.Generic[X]):
    pass


@dataclasses.dataclass
class GB21(t.Generic[X]):
    a: X
    b: t.List[X] = dataclasses.field(default_factory=list)


class Undecorated21(GB21[int]):
    pass


class Undecorated21g(GB21[t.List[Y_]]):
    pass


def p21(b):
    b.rules.append("every combination of dataclasses.field parameters and dataclass parameters; undecorated subclasses; slots, frozen and keyword-only classes")
    MISS = dataclasses.MISSING
    for init, repr_, compare, hash_, kw, dflt, meta in itertools.product((True, False), (True, False), (True, False), (None, True, False), (False, True), ("none", "value", "factory"), ({}, {"x": 1})):
        kws = dict(init=init, repr=repr_, compare=compare, hash=hash_, metadata=meta)
        if kw and sys.version_info >= (3, 10):
            kws["kw_only"] = True
        if dflt == "value":
            kws["default"] = 5
        elif dflt == "factory":
            kws["default_factory"] = list
        C = dataclasses.dataclass(type("C21", (), {"__annotations__": {"f": t.Any, "g": t.Optional[int]}, "f": dataclasses.field(**kws), "g": dataclasses.field(default=1, repr=False, compare=False), "__module__": __name__}))
        for conv in (lambda: convert_to_schema(TypeHint(C)),):
            o = outcome(conv)
            ok = o[0] == "ok" and list(o[1].fields) == (["f", "g"] if init else ["g"])
            b.true(f"fields of field({kws})", ok, "", show_out(o))
            if ok and init:
                f = o[1].fields["f"]
                b.true(f"required and default of field({kws})", f.required == (dflt == "none") and f.has_default() == (dflt != "none") and (dflt == "none" or same(f.get_default(), 5 if dflt == "value" else [])), "", f)
            if ok:
                b.true("g", o[1].fields["g"].default == 1 and not o[1].fields["g"].required, "", o[1].fields["g"])
    for params in (dict(frozen=True), dict(eq=False), dict(order=True), dict(repr=False), dict(unsafe_hash=True), dict(slots=True), dict(kw_only=True)):
        C = dataclasses.dataclass(**params)(type("P21", (), {"__annotations__": {"a": int, "b": str}, "b": "x", "__module__": __name__}))
        o = outcome(lambda: convert_to_schema(TypeHint(C)))
        b.true(f"dataclass({params})", o[0] == "ok" and list(o[1].fields) == ["a", "b"] and o[1].fields["a"].required and not o[1].fields["b"].required and o[1].fields["b"].default == "x", "", show_out(o))
        v = C(a=1, b="y")
        o2 = outcome(lambda: load({"a": 1, "b": "y"}, C))
        b.true(f"load as dataclass({params})", o2[0] == "ok" and type(o2[1]) is C and (o2[1].a, o2[1].b) == (1, "y"), "", show_out(o2))
    for C, at in ((Undecorated21, int), (Undecorated21g[str], t.List[str]), (GB21[str], str)):
        o = outcome(lambda: convert_to_schema(TypeHint(C)))
        b.true(f"schema of {C}", o[0] == "ok" and list(o[1].fields) == ["a", "b"] and o[1].fields["a"].datatype == TypeHint(at) and o[1].fields["b"].datatype == TypeHint(t.List[at]), "", show_out(o))
    for bad in (int, t.List[int], Gen21[int], Plain, Fruit, t.Optional[int], t.Union[int, str], t.Any, t.Literal["a"], Annotated[int, 1], t.Optional[GB21[int]]):
        o = outcome(lambda: convert_to_schema(TypeHint(bad)))
        b.true(f"convert_to_schema({bad})", o[0] == "exc" and isinstance(o[1], ValueError), "ValueError", show_out(o))
    InV = dataclasses.dataclass(type("IV21", (), {"__annotations__": {"a": int, "iv": dataclasses.InitVar[int], "cv": t.ClassVar[int], "b": t.Optional[str]}, "cv": 3, "b": "q", "__post_init__": lambda self, iv: None, "__module__": __name__}))
    o = outcome(lambda: convert_to_schema(TypeHint(InV)))
    b.true("class variables are no fields", o[0] != "ok" or "cv" not in o[1].fields, "", show_out(o))


def p22(b):
    b.rules.append("typed dicts with Required settings, total or not, over every pair of base and derived class")
    for tot1, tot2 in itertools.product((True, False), repeat=2):
        for base, der in itertools.product(("plain", "opt", "req", "noreq"), ("plain", "opt", "dflt", "req", "noreq")):
            ann = {"plain": int, "opt": t.Optional[int], "req": Annotated[t.Optional[int], Required()], "noreq": Annotated[int, Required(False)], "dflt": int}
            def mk(nm, bases, k, key, tot):
                ns = {"__annotations__": {key: ann[k]}, "__module__": __name__}
                if k == "dflt":
                    ns[key] = 7
                return types.new_class(nm, bases, {"total": tot}, lambda n: n.update(ns))
            try:
                B = mk("B22", (te.TypedDict,), base, "a", tot1)
                D = mk("D22", (B,), der, "b", tot2)
            except TypeError:
                continue
            o = outcome(lambda: convert_to_schema(TypeHint(D)))
            d = f"typed dict a: {base} (total={tot1}), b: {der} (total={tot2})"
            if o[0] != "ok":
                b.true(d, False, "a schema", show_out(o))
                continue
            b.true("keys of " + d, sorted(o[1].fields) == ["a", "b"], "", show_out(o))
            for key, k, tot in (("a", base, tot1), ("b", der, tot2)):
                f = o[1].fields.get(key)
                if f is None:
                    continue
                want = tot and k not in ("opt", "dflt", "noreq")
                b.true(f"{key} required in {d}", f.required == want, str(want), f)
                if k == "opt":
                    b.true(f"{key} default in {d}", f.default is None, "None", f)
                if k == "dflt":
                    b.true(f"{key} default in {d}", f.default == 7, "7", f)
    for nm in ("keys", "items", "get", "pop", "update", "copy", "values", "clear", "setdefault", "popitem", "fromkeys"):
        T = te.TypedDict("T22", {nm: int})
        o = outcome(lambda: convert_to_schema(TypeHint(T)))
        b.true(f"key {nm!r}", o[0] == "ok" and o[1].fields[nm].required and not o[1].fields[nm].has_default(), "", show_out(o))
        b.eq(f"load with key {nm!r}", lambda: load({nm: 1}, T), {nm: 1})
        b.ce(f"load without key {nm!r}", lambda: load({}, T))
        b.eq(f"dump with key {nm!r}", lambda: dump({nm: 1}, T), {nm: 1})


def p23(b):
    b.rules.append("every decorator parameter, true and false, against the standard decorator; user hooks; inheritance mixes; copies and pickles")
    def mk(deco, params, first_default, base=()):
        ns = {"__annotations__": {"a": int, "b": int, "c": t.List[int]}, "__module__": __name__}
        if first_default:
            ns["a"] = 1
        ns["c"] = (dbdc if deco is dbdc.dataclass else dataclasses).field(default_factory=list)
        return deco(**params)(type("C23", base, ns))
    pars = ["init", "repr", "eq", "order", "unsafe_hash", "frozen"]
    for p in pars + [None]:
        for val in (True, False):
            params = {p: val} if p else {}
            if p == "init" and not val:
                continue
            if p == "eq" and not val:
                pass
            std = mk(dataclasses.dataclass, params, False)
            for fd in (False, True):
                o = outcome(lambda: mk(dbdc.dataclass, params, fd))
                if not b.true(f"dataclass({params}) with{'' if fd else 'out'} a default first", o[0] == "ok", "a class", show_out(o)):
                    continue
                C = o[1]
                x, y = C(a=1, b=2), C(a=1, b=2)
                sx, sy = std(a=1, b=2), std(a=1, b=2)
                d = f"dataclass({params}), default first: {fd}"
                b.true("attributes: " + d, (x.a, x.b, x.c) == (1, 2, []) and x.c is not y.c, "", x)
                b.true("eq: " + d, (x == y) == (sx == sy) and (C(a=1, b=3) == y) == (std(a=1, b=3) == sy), "", "")
                b.true("repr: " + d, ("a=1" in repr(x)) == ("a=1" in repr(sx)), repr(sx), repr(x))
                b.true("order: " + d, outcome(lambda: x < C(a=1, b=3))[0] == outcome(lambda: sx < std(a=1, b=3))[0], "", "")
                b.true("hash: " + d, outcome(lambda: hash(x))[0] == outcome(lambda: hash(sx))[0], show_out(outcome(lambda: hash(sx))), show_out(outcome(lambda: hash(x))))
                b.true("frozen: " + d, outcome(lambda: setattr(x, "a", 9))[0] == outcome(lambda: setattr(sx, "a", 9))[0], "", "")
                b.true("fields: " + d, [f.name for f in dataclasses.fields(C)] == ["a", "b", "c"], "", "")
                b.true("annotations: " + d, C.__annotations__ == {"a": int, "b": int, "c": t.List[int]} and C.__name__ == "C23" and C.__qualname__ == "C23" and C.__module__ == __name__, "", C.__annotations__)
                for args, kw in (((), {}), ((1,), {}), ((), {"a": 1}), ((1, 2), {}), ((1, 2, [3]), {}), ((1, 2, [3], 4), {}), ((1,), {"a": 2}), ((), {"b": 2}), ((), {"zz": 1, "b": 1}), ((1, 2), {"c": [5]}), ((1,), {"b": None})):
                    got = outcome(lambda: C(*args, **kw))
                    bound = dict(zip(["a", "b", "c"], args))
                    bad = len(args) > 3 or set(kw) & set(bound) or set(kw) - {"a", "b", "c"}
                    bound.update(kw)
                    need = {"b"} if fd else {"a", "b"}
                    if bad or need - set(bound):
                        b.true(f"C(*{args}, **{kw}): {d}", got[0] == "exc" and isinstance(got[1], TypeError), "TypeError", show_out(got))
                    else:
                        b.true(f"C(*{args}, **{kw}): {d}", got[0] == "ok" and (got[1].a, got[1].b, got[1].c) == (bound.get("a", 1), bound["b"], bound.get("c", [])), "", show_out(got))
    # inheritance mixes
    for d1, d2 in itertools.product((dataclasses.dataclass, dbdc.dataclass), repeat=2):
        if d2 is dataclasses.dataclass and d1 is dataclasses.dataclass:
            continue
        n = []
        ns1 = {"__annotations__": {"a": int, "b": int}, "b": 2, "__module__": __name__, "__post_init__": lambda self: n.append("base")}
        B = d1(type("B23", (), ns1))
        o = outcome(lambda: d2(type("D23", (B,), {"__annotations__": {"c": int}, "__module__": __name__})))
        if d2 is dataclasses.dataclass:
            b.no_leak if o[0] != "ok" else None
            if o[0] != "ok":
                continue
        D = o[1]
        n.clear()
        o = outcome(lambda: D(a=1, c=3))
        d = f"{d1.__module__} base, {d2.__module__} derived"
        b.true(d, o[0] == "ok" and (o[1].a, o[1].b, o[1].c) == (1, 2, 3) and n == ["base"], "", show_out(o) + show(n))
        b.exc("without c: " + d, lambda: D(a=1), TypeError) if d2 is dbdc.dataclass else None
        b.exc("without a: " + d, lambda: D(c=1), TypeError)
        n.clear()

        def post(self):
            super(D2, self).__post_init__()
            n.append(("derived", self.a, self.c))
        if d2 is dbdc.dataclass:
            D2 = d2(type("E23", (B,), {"__annotations__": {"c": int}, "__post_init__": post, "__module__": __name__}))
            n.clear()
            o = outcome(lambda: D2(a=1, c=3))
            b.true("post-init calls super: " + d, o[0] == "ok" and n == ["base", ("derived", 1, 3)], "", show_out(o) + show(n))
    f = dbdc.field(annotations=[Alias("x")], metadata={"k": 1}, default=3, repr=False)
    C = dbdc.dataclass(type("M23", (), {"__annotations__": {"a": int, "b": int}, "a": f, "__module__": __name__}))
    ff = {x.name: x for x in dataclasses.fields(C)}
    b.true("metadata next to annotations", ff["a"].metadata.get("k") == 1 and len(ff["a"].metadata) == 2 and ff["a"].repr is False, "", ff["a"].metadata)
    b.true("no annotations, metadata as given", dict(dbdc.field(metadata={"k": 2}).metadata) in ({"k": 2},) or len(dbdc.field(metadata={"k": 2}).metadata) == 2, "", "")
    for kw in (dict(default=0), dict(default=None), dict(default=False), dict(default_factory=list), dict(default=0, kw_only=True), dict(init=False, default=4), dict(compare=False, default=1), dict(hash=True, default=1)):
        if "kw_only" in kw:
            continue
        C = dbdc.dataclass(type("N23", (), {"__annotations__": {"a": t.Any, "b": int}, "a": dbdc.field(**kw), "__module__": __name__}))
        v = C(b=1)
        b.true(f"field({kw})", same(v.a, kw["default"] if "default" in kw else []), "", v.a)


# ---------------------------------------------------------------------------------------------------------------- whole
@dataclasses.dataclass
class UA24:
    a: int
    l: t.List[int]


def p24(b):
    b.rules.append("results share no mutable container with the input or with the defaults; conversions in changing order")
    D = dataclasses.make_dataclass("D24", [("l", t.List[int], dataclasses.field(default_factory=lambda: [1])), ("d", t.Dict[str, t.List[int]], dataclasses.field(default_factory=dict))])
    R = dataclasses.make_dataclass("R24", [("a", int), ("r", Annotated[t.Dict[str, int], Remainder()])])
    Fl = dataclasses.make_dataclass("Fl24", [("x", int), ("f", Annotated[UA24, Flattened()])])
    cases = [(t.List[int], [1, 2]), (t.List[str], ["a"]), (t.List[t.Any], [1, "x"]), (t.Sequence[t.Any], [1]), (t.List[t.List[t.Any]], [[1], []]), (t.Dict[str, int], {"a": 1}), (t.Dict[str, t.Any], {"a": 1, "b": None}), (t.Mapping[str, t.Any], {"a": 1}),
             (dict[str, t.List[int]], {"a": [1]}), (D, {"l": [1], "d": {"x": [1]}}), (R, {"a": 1, "b": 2}), (Fl, {"x": 1, "a": 2, "l": [3]}), (te.TypedDict("T24", {"l": t.List[int], "a": t.Any}), {"l": [1], "a": 5}), (t.Set[str], ["a", "b"]), (t.Tuple[t.List[int], ...], [[1], [2]]),
             (Annotated[Carrier, Union({"a": UA}, Union.FLAT)], {"type": "a", "x": 1}), (Annotated[Carrier, Union({"a": UC}, Union.FLAT)], {"type": "a", "q": 1}), (Annotated[Carrier, Union({"a": UA}, Union.KEYED)], {"a": {"x": 1}}), (t.Optional[t.List[int]], [1])]

    def containers(x, out):
        if isinstance(x, (list, dict, set, collections.deque)):
            out.append(id(x))
        for y in (x.items() if isinstance(x, dict) else x if isinstance(x, (list, tuple, set)) else [getattr(x, f.name) for f in dataclasses.fields(x)] if dataclasses.is_dataclass(x) else ()):
            containers(y, out)
        return out
    for h, w in cases:
        w0 = copy.deepcopy(w)
        v = load(w, h)
        b.true(f"load {w} as {h}: payload unchanged", w == w0, show(w0), w)
        b.true(f"load {w} as {h}: new containers", not set(containers(v, [])) & set(containers(w, [])), "", "")
        v0 = copy.deepcopy(v)
        w2 = dump(v, h)
        b.true(f"dump {v} as {h}: value unchanged", same(v, v0), show(v0), v)
        b.true(f"dump {v} as {h}: new containers", not set(containers(v, [])) & set(containers(w2, [])), "", "")
        b.eq(f"dump {v} as {h}: again", lambda: dump(v, h), w2)
        b.eq(f"load {w} as {h}: again", lambda: load(w, h), v0)
    m = get_object_mapper()
    hs = [(h, w) for h, w in cases] * 2
    b.rng.shuffle(hs)
    for h, w in hs:
        b.eq(f"load {w} as {h} with a mapper used before", lambda: m.deserialize(w, h), load(w, h))
    # converting one type must not change another type with the same name or fields
    A1 = dataclasses.make_dataclass("Same24", [("a", int)])
    A2 = dataclasses.make_dataclass("Same24", [("a", str), ("b", int, 1)])
    T1, T2 = te.TypedDict("SameT24", {"a": int}), te.TypedDict("SameT24", {"a": str, "b": t.Optional[int]})
    E1, E2 = enum.Enum("SameE24", "A B"), enum.Enum("SameE24", "B C")
    for _ in range(2):
        for x in (m.deserialize, load):
            b.eq("first of two types of one name", lambda: x({"a": 1}, A1), A1(1))
            b.eq("second of two types of one name", lambda: x({"a": "q", "b": 2}, A2), A2("q", 2))
            b.ce("first of two types of one name, payload of the second", lambda: x({"a": "q"}, A1))
            b.eq("typed dict", lambda: x({"a": 1}, T1), {"a": 1})
            b.eq("typed dict 2", lambda: x({"a": "q"}, T2), {"a": "q", "b": None})
            b.eq("enum", lambda: x("B", E1), E1.B)
            b.eq("enum 2", lambda: x("B", E2), E2.B)
    G1 = GB21
    for _ in range(2):
        b.eq("generic, int", lambda: m.deserialize({"a": 1, "b": [2]}, G1[int]), G1(1, [2]))
        b.eq("generic, str", lambda: m.deserialize({"a": "x", "b": ["y"]}, G1[str]), G1("x", ["y"]))
        b.ce("generic, int given str", lambda: m.deserialize({"a": "x"}, G1[int]))
    # settings objects and lists are left as they were
    for s in ([Strict(False)], [SerializeDefaults(False), Strict(True)], []):
        for f, v, h in ((load, {"a": 1}, A1), (dump, A1(1), A1), (m.deserialize, {"a": 1}, A1), (m.serialize, A1(1), A1)):
            s0 = list(s)
            f(v, h, settings=s)
            b.true("list of settings unchanged", s == s0 and all(x is y for x, y in zip(s, s0)), "", s)
    st = Settings(global_settings=[Strict(False)])
    before = (list(st.global_settings), dict(st.local_settings), list(st.providers), st.parent)
    for _ in range(3):
        m.deserialize("5", int, settings=st)
        outcome(lambda: m.deserialize("x", int, settings=st))
    b.true("settings object unchanged", (list(st.global_settings), dict(st.local_settings), list(st.providers), st.parent) == before, "", "")
    b.eq("mapper unchanged", lambda: (m.deserialize(5, int), outcome(lambda: m.deserialize("5", int))[0]), (5, "CE"))
    for cls in (list, dict, set):
        hint = {list: t.List[int], dict: t.Dict[str, int], set: t.Set[int]}[cls]
        T = dataclasses.make_dataclass("Df24", [("v", hint, dataclasses.field(default_factory=cls))])
        a, c = load({}, T), load({}, T)
        b.true(f"default factory {cls.__name__} made anew", a.v is not c.v and a.v == cls(), "", (a, c))


def p25(b):
    b.rules.append("parameters of dumps, absent keys of typed dicts, defaults inside flattened types, round trips of subclasses and of edge values")
    import json
    D = dataclasses.make_dataclass("D25", [("z", int), ("a", t.List[int]), ("é", t.Optional[str], None)])
    v = D(1, [1, 2], "ü")
    for ind, sk in itertools.product((None, 0, 1, 4, "", "  ", "\t"), (False, True)):
        b.eq(f"dumps(indent={ind!r}, sort_keys={sk})", lambda: dumps(v, D, indent=ind, sort_keys=sk), json.dumps(dump(v, D), indent=ind, sort_keys=sk))
        b.eq(f"loads(dumps(indent={ind!r}, sort_keys={sk}))", lambda: loads(dumps(v, D, indent=ind, sort_keys=sk), D), v)
    b.eq("dumps order of keys", lambda: list(json.loads(dumps(v, D))), ["z", "a", "é"])
    T = types.new_class("T25", (te.TypedDict("T25b", {"a": int, "b": t.Optional[int]}),), {"total": False}, lambda n: n.update({"__annotations__": {"c": int}, "__module__": __name__}))
    for d, w in (({"a": 1}, {"a": 1}), ({"a": 1, "b": None}, {"a": 1, "b": None}), ({"a": 1, "c": 2}, {"a": 1, "c": 2}), ({"a": 1, "b": 3, "c": 4}, {"a": 1, "b": 3, "c": 4})):
        b.eq(f"dump {d}", lambda: dump(d, T), w)
        b.eq(f"load of {w}", lambda: load(w, T), {**d, "b": d.get("b")})
    In = dataclasses.make_dataclass("In25", [("p", int, 1), ("q", t.List[int], dataclasses.field(default_factory=list)), ("r", Annotated[t.Optional[str], Alias("ar")], None)])
    Fl = dataclasses.make_dataclass("Fl25", [("n", str), ("f", Annotated[In, Flattened()])])
    for x in (In(), In(2), In(1, [1]), In(1, [], "t"), In(3, [4], "")):
        for s in (None, [SerializeDefaults(False)]):
            b.eq(f"round trip of Fl('n', {x}), settings {s}", lambda: load(dump(Fl("n", x), Fl, settings=s), Fl), Fl("n", x))
            b.eq(f"round trip of {x}, settings {s}", lambda: load(dump(x, In, settings=s), In), x)
            b.eq(f"text round trip of {x}, settings {s}", lambda: loads(dumps(x, In, settings=s), In), x)
    for h, vals in ((float, [0.1, 1e308, 5e-324, -0.0, 2.0**53]), (int, [0, -1, 10**60]), (str, ["", "\u0000", "\U0001f600", "\"\\\n"]), (bytes, [b"", bytes(range(256))]), (bool, [True, False]), (decimal.Decimal, [decimal.Decimal("1.10"), decimal.Decimal("1E+5")]),
                    (datetime.date, [datetime.date.min.replace(year=1000), datetime.date.max]), (uuid.UUID, [uuid.UUID(int=0), uuid.UUID(int=2**128 - 1)]), (pathlib.PurePosixPath, [pathlib.PurePosixPath("."), pathlib.PurePosixPath("/")]),
                    (t.List[t.Optional[int]], [[], [None], [None, 1]]), (t.Dict[str, t.Optional[t.List[int]]], [{}, {"": None}, {"a": []}]), (t.Tuple[int, ...], [(), (1,)]), (t.Set[Fruit], [set(), {Fruit.FIG, Fruit.PEAR}]), (t.FrozenSet[str], [frozenset({"a"})]),
                    (t.Deque[int], [collections.deque([1, 2])]), (t.Dict[int, str] if False else t.Dict[uuid.UUID, str], [{uuid.UUID(int=1): "x"}]), (t.Tuple[int, t.Tuple[str, t.Optional[bool]]], [(1, ("x", None))]), (t.Union[int, str, t.List[int]], [1, "1", [1]])):
        for x in vals:
            b.eq(f"round trip of {x!r} as {h}", lambda: load(dump(x, h), h), x)
            b.eq(f"text round trip of {x!r} as {h}", lambda: loads(dumps(x, h), h), x)
            N = dataclasses.make_dataclass("W25", [("v", h)])
            b.eq(f"text round trip of {x!r} as {h} in a dataclass", lambda: loads(dumps(N(x), N), N), N(x))
    for txt, e in (("1", 1), ("[1, 2]", [1, 2]), ('{"a": null}', {"a": None}), ('"x"', "x"), ("null", None), ("NaN", float("nan")), ("1.0", 1.0)):
        b.eq(f"loads({txt!r}, Any)", lambda: loads(txt, t.Any), e)
    for bad in ("{", "", "[1", "nope", "'x'"):
        o = outcome(lambda: loads(bad, t.Any))
        b.true(f"loads({bad!r})", o[0] == "exc" and isinstance(o[1], ValueError), "the decoder's error", show_out(o))
    for name, f in (("load", lambda **k: load("x", int, **k)), ("loads", lambda **k: loads('"x"', int, **k)), ("dump", lambda **k: dump("x", int, **k)), ("dumps", lambda **k: dumps("x", int, **k))):
        for fn in (None, "", "a.json"):
            o = outcome(lambda: f(filename=fn))
            b.true(f"{name}(filename={fn!r})", o[0] == "CE" and o[1].context.location.filename == fn, "", show_out(o))
