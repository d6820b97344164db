"""A reference model of types, their values and their wire form, independent of the implementation."""
import base64, collections, dataclasses, datetime, decimal, enum, pathlib, sys, typing as t, uuid
from typing import Annotated

import databind.core.dataclasses as dbdc
from databind.core import Alias, Flattened, Remainder, Required, Union
from nr.date import duration

from .lib import *

_n = [0]


def fresh(prefix):
    _n[0] += 1
    return f"{prefix}{_n[0]}"


class T:
    hashable = False
    strkey = False      # usable as a JSON object key
    kind = "other"      # kind of wire form, for best-match unions
    depth = 0

    def __init__(self):
        self.hint = None

    def gen(self, rng):
        raise NotImplementedError

    def wire(self, v):
        return v

    def __repr__(self):
        return f"{type(self).__name__}<{self.hint}>"


class Simple(T):
    hashable = True

    def __init__(self, hint, gen, wire=lambda v: v, kind="other", strkey=False):
        self.hint, self.gen, self.wire, self.kind, self.strkey = hint, gen, wire, kind, strkey


class Unhash(Simple):
    hashable = False


class Fruit(enum.Enum):
    APPLE = 1
    PEAR: Annotated[int, Alias("pear", "birne")] = 2
    FIG = 3


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


def _fw(v):
    return {"APPLE": "APPLE", "PEAR": "pear", "FIG": "FIG"}[v.name]


SIMPLE = [
    Simple(int, lambda r: r.randint(-9, 9), kind="int"),
    Simple(str, lambda r: r.choice(["", "a", "b", "type", "é", "null"]) + str(r.randint(0, 99)), kind="str", strkey=True),
    Simple(bool, lambda r: r.random() < .5, kind="bool"),
    Simple(float, lambda r: r.choice([0.5, -1.25, 3.75]) * r.randint(1, 9), kind="float"),
    Simple(bytes, lambda r: bytes([r.randrange(256)] * r.randint(0, 4)), lambda v: base64.b64encode(v).decode(), kind="str", strkey=True),
    Simple(decimal.Decimal, lambda r: decimal.Decimal(r.randint(-999, 999)) / 8, str, kind="str", strkey=True),
    Simple(uuid.UUID, lambda r: uuid.UUID(int=r.getrandbits(128)), str, kind="str", strkey=True),
    Simple(pathlib.PurePosixPath, lambda r: pathlib.PurePosixPath(r.choice(["/", "a/"]) + str(r.randint(0, 9))), str, kind="str", strkey=True),
    Simple(datetime.date, lambda r: datetime.date(2000 + r.randint(0, 50), 1, r.randint(1, 28)), lambda v: v.isoformat(), kind="str", strkey=True),
    Unhash(duration, lambda r: duration(days=r.randint(1, 9), hours=r.randint(1, 9)), str, kind="str"),
    Simple(Fruit, lambda r: r.choice(list(Fruit)), _fw, kind="str", strkey=True),
    Simple(Num, lambda r: r.choice(list(Num)), int, kind="int"),
    Simple(t.Literal["lit", 7], lambda r: r.choice(["lit", 7]), kind="lit"),
    Simple(datetime.datetime, lambda r: datetime.datetime(2020, 1, r.randint(1, 28), 1, 2, 3, tzinfo=datetime.timezone.utc),
           lambda v: None, kind="str"),
]
SIMPLE = SIMPLE[:-1]  # (texts of datetimes are checked separately)


class AnyT(T):
    kind = "any"

    def __init__(self):
        self.hint = t.Any

    def gen(self, rng):
        return rand_json(rng, 2)


class Opt(T):
    def __init__(self, inner):
        self.inner = inner
        self.hint = t.Optional[inner.hint]
        self.hashable = inner.hashable
        self.kind = "other"

    def gen(self, rng):
        return None if rng.random() < .3 else self.inner.gen(rng)

    def wire(self, v):
        return None if v is None else self.inner.wire(v)


class Coll(T):
    def __init__(self, hintf, py, inner):
        self.inner, self.py = inner, py
        self.hint = hintf(inner.hint)
        self.hashable = py in (tuple, frozenset) and inner.hashable
        self.kind = "list"

    def gen(self, rng):
        return self.py([self.inner.gen(rng) for _ in range(rng.choice([0, 1, 2, 3]))])

    def wire(self, v):
        return [self.inner.wire(x) for x in v]


class Tup(T):
    def __init__(self, inners):
        self.inners = inners
        self.hint = t.Tuple[tuple(i.hint for i in inners)] if inners else t.Tuple[()]
        self.hashable = all(i.hashable for i in inners)
        self.kind = "list"

    def gen(self, rng):
        return tuple(i.gen(rng) for i in self.inners)

    def wire(self, v):
        return [i.wire(x) for i, x in zip(self.inners, v)]


class Map(T):
    kind = "map"

    def __init__(self, key, val, rng):
        self.key, self.val = key, val
        self.py = rng.choice([dict, dict, collections.OrderedDict])
        self.hint = (t.Dict if self.py is dict else t.OrderedDict)[key.hint, val.hint]

    def gen(self, rng):
        return self.py((self.key.gen(rng), self.val.gen(rng)) for _ in range(rng.choice([0, 1, 2, 3])))

    def wire(self, v):
        return {self.key.wire(k): self.val.wire(x) for k, x in v.items()}


class F:
    """A field of a structured type."""
    def __init__(self, name, typ, aliases=(), default=None, flattened=False, remainder=False, required=False):
        self.name, self.typ, self.aliases, self.default = name, typ, aliases, default
        self.flattened, self.remainder, self.required = flattened, remainder, required

    def key(self):
        return self.aliases[0] if self.aliases else self.name

    def hint(self):
        m = []
        if self.aliases:
            m.append(Alias(*self.aliases))
        if self.flattened:
            m.append(Flattened())
        if self.remainder:
            m.append(Remainder())
        if self.required:
            m.append(Required())
        if not m:
            return self.typ.hint
        h = self.typ.hint
        return Annotated.__class_getitem__((h, *m)) if hasattr(Annotated, "__class_getitem__") else Annotated[(h, *m)]

    def __repr__(self):
        s = f"{self.name}: {self.typ.hint}"
        for a in ("aliases", "default", "flattened", "remainder", "required"):
            if getattr(self, a):
                s += f" {a}={getattr(self, a)!r}"
        return s


def wire_keys(fields):
    out = []
    for f in fields:
        if f.flattened:
            out += wire_keys(f.typ.fields)
        elif not f.remainder:
            out.append(f.key())
    return out


class Struct(T):
    kind = "map"

    def __init__(self, fields, style, rng):
        self.fields, self.style = fields, style
        name = fresh({"dc": "D", "dbdc": "X", "td": "TD", "nt": "NT"}[style])
        if style in ("dc", "dbdc"):
            ns = {"__annotations__": {f.name: f.hint() for f in fields}, "__module__": __name__}
            field = dataclasses.field if style == "dc" else dbdc.field
            for f in fields:
                if f.default is not None:
                    kind, val = f.default
                    ns[f.name] = val if kind == "value" else field(default_factory=val)
            self.cls = (dataclasses.dataclass if style == "dc" else dbdc.dataclass)(type(name, (), ns))
        elif style == "td":
            req = {f.name: f.hint() for f in fields if f.default is None}
            opt = {f.name: f.hint() for f in fields if f.default is not None}
            if req and opt:
                base = t.TypedDict(name + "B", req)
                base.__module__ = __name__
                self.cls = type(t.TypedDict("x", {}))(name, (base,), {"__annotations__": opt, "__module__": __name__}, total=False)
            elif opt:
                self.cls = t.TypedDict(name, opt, total=False)
            else:
                self.cls = t.TypedDict(name, req)
            self.cls.__module__ = __name__
        else:
            self.cls = t.NamedTuple(name, [(f.name, f.hint()) for f in fields])
            self.cls.__module__ = __name__
            self.cls._field_defaults = {f.name: f.default[1] for f in fields if f.default is not None}
            self.cls.__new__.__defaults__ = tuple(self.cls._field_defaults.values())
        self.hint = self.cls

    def make(self, vals):
        if self.style == "td":
            return dict(vals)
        return self.cls(**vals)

    def gen(self, rng):
        vals = {}
        for f in self.fields:
            if f.default is not None and rng.random() < .4 and not (self.style == "td" and isinstance(f.typ, Opt)):
                if self.style != "td":
                    kind, val = f.default
                    vals[f.name] = val() if kind == "factory" else val
                continue
            if f.remainder:
                taken = set(wire_keys(self.fields))
                vals[f.name] = f.typ.py((k, v) for k, v in f.typ.gen(rng).items() if k not in taken)
            else:
                vals[f.name] = f.typ.gen(rng)
        return self.make(vals)

    def get(self, v, f):
        return v[f.name] if self.style == "td" else getattr(v, f.name)

    def present(self, v):
        return [f for f in self.fields if self.style != "td" or f.name in v]

    def wire(self, v):
        out = {}
        for f in self.present(v):
            w = f.typ.wire(self.get(v, f))
            if f.flattened or f.remainder:
                assert not set(out) & set(w), (out, w)
                out.update(w)
            else:
                assert f.key() not in out
                out[f.key()] = w
        return out

    def __repr__(self):
        return f"{self.cls.__name__}[{self.style}]({'; '.join(map(repr, self.fields))})"


class UnionT(T):
    kind = "map"

    def __init__(self, members, style, rng, key="type", nesting=None, decorated=False):
        self.members, self.style, self.key, self.nesting = members, style, key, nesting
        u = Union({k: m.hint for k, m in members.items()}, style, key, nesting)
        self.hint = Annotated[t.Union[tuple(m.hint for m in members.values())], u]

    def gen(self, rng):
        return rng.choice(list(self.members.values())).gen(rng)

    def wire(self, v):
        for k, m in self.members.items():
            if type(v) is m.hint:
                w = m.wire(v)
                if self.style == "nested":
                    return {self.key: k, self.nesting or k: w}
                if self.style == "flat":
                    return {self.key: k, **w}
                return {k: w}
        raise AssertionError(v)


class BestT(T):
    def __init__(self, members):
        self.members = members
        self.hint = t.Union[tuple(m.hint for m in members)]
        self.hashable = all(m.hashable for m in members)

    def gen(self, rng):
        return rng.choice(self.members).gen(rng)

    def wire(self, v):
        for m in self.members:
            if type(v) is m.hint:
                return m.wire(v)
        raise AssertionError(v)


NAMES = ["a", "b", "c", "x", "y", "name", "value", "items", "keys", "get", "type_", "data", "id", "kind", "ctx", "result", "fields", "source"]


class Gen:
    def __init__(self, rng, strict_json=False, max_depth=3):
        self.rng, self.strict_json, self.max_depth = rng, strict_json, max_depth

    def typ(self, d=None):
        d = self.max_depth if d is None else d
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < .3:
            return rng.choice(SIMPLE)
        if r < .38:
            i = self.typ(d - 1)
            while isinstance(i, (AnyT, Opt)) or i.hint is type(None):
                i = self.typ(d - 1)
            return Opt(i)
        if r < .52:
            return self.coll(d)
        if r < .58:
            return Tup([self.typ(d - 1) for _ in range(rng.randint(0, 3))])
        if r < .66:
            return self.map(d)
        if r < .68:
            return AnyT()
        if r < .9:
            return self.struct(d)
        if r < .97:
            return self.union(d)
        return self.best()

    def coll(self, d):
        rng = self.rng
        i = self.typ(d - 1)
        opts = [(lambda h: t.List[h], list), (lambda h: t.Tuple[h, ...], tuple), (lambda h: t.Deque[h], collections.deque), (lambda h: t.Sequence[h], list), (lambda h: list[h], list)]
        if i.hashable:
            opts += [(lambda h: t.Set[h], set), (lambda h: t.FrozenSet[h], frozenset)]
        return Coll(*rng.choice(opts), i)

    def map(self, d):
        keys = [s for s in SIMPLE if s.strkey or not self.strict_json and s.hashable and s.kind != "bool" and s.kind != "lit"]
        return Map(self.rng.choice(keys), self.typ(d - 1), self.rng)

    def struct(self, d, style=None, avoid=(), flat=False):
        rng = self.rng
        style = style or rng.choice(["dc", "dc", "dc", "dbdc", "td", "nt"])
        n = rng.randint(0 if style != "nt" else 1, 5)
        names = [x for x in NAMES if style != "nt" or x not in ("keys_", "count", "index")]
        if style in ("dbdc",):
            names = [x for x in names if True]
        used = set(avoid)
        names = [x for x in rng.sample(names, len(names))]
        fields, had_default, rem = [], False, False
        for _ in range(n):
            name = None
            while names:
                c = names.pop()
                if c not in used:
                    name = c
                    break
            if name is None:
                break
            r = rng.random()
            if r < .25 and d > 1 and style in ("dc", "td"):
                sub = self.struct(d - 1, style=rng.choice(["dc", "td"]), avoid=used | {name} | {f.name for f in fields}, flat=True)
                keys = set(wire_keys(sub.fields)) | all_names(sub.fields)
                if any(f.remainder for f in all_fields(sub.fields)) or keys & used or name in keys:
                    continue
                used |= keys | {name}
                # a key of the sub-fields must not be the name of a later field either
                names = [x for x in names if x not in keys]
                if any(f.default is not None for f in all_fields(sub.fields)) and style == "dc" and had_default:
                    continue
                if had_default and style == "dc":
                    continue
                dflt = ("factory", (lambda sub=sub, seed=rng.random(): sub.gen(random.Random(seed)))) if style == "dc" and rng.random() < .4 else None
                had_default = had_default or dflt is not None
                fields.append(F(name, sub, flattened=True, default=dflt))
                continue
            if r < .32 and not rem and style == "dc" and not flat and not had_default:
                rem = True
                fields.append(F(name, Map(SIMPLE[1], self.typ(d - 2), rng), remainder=True))
                used.add(name)
                continue
            typ = self.typ(d - 1)
            aliases = ()
            if rng.random() < .35:
                c = [a for a in (fresh("al"), name.upper(), fresh("z-"))][: rng.randint(1, 3)]
                if not set(c) & used:
                    aliases = tuple(c)
            default = None
            required = False
            if style in ("dc", "dbdc", "td") and (had_default and style == "dc" or rng.random() < .35):
                default = ("value", typ.gen(rng)) if typ.hashable and not isinstance(typ, Struct) else (
                    "factory", (lambda typ=typ, seed=rng.random(): typ.gen(random.Random(seed))))
                had_default = True
                required = style != "td" and rng.random() < .1
            if style == "nt" and (had_default or rng.random() < .3):
                default, had_default = ("value", typ.gen(rng)), True
            used |= {name} | set(aliases)
            names = [x for x in names if x not in used]
            fields.append(F(name, typ, aliases, default, required=required))
        return Struct(fields, style, rng)

    def union(self, d):
        rng = self.rng
        style = rng.choice(["nested", "flat", "keyed"])
        key = rng.choice(["type", "type", "$t", "kind!"])
        members = {}
        for _ in range(rng.randint(1, 3)):
            m = self.struct(d - 1, style=rng.choice(["dc", "dbdc"]), avoid=(key,)) if style == "flat" or rng.random() < .7 else rng.choice(SIMPLE[:2])
            if any(m.hint == o.hint for o in members.values()) or (style == "flat" and any(f.remainder for f in m.fields)):
                continue
            members[rng.choice(["m", "n", "Z."]) + str(len(members))] = m
        if len(members) < 1:
            members["one"] = Struct([], "dc", rng)
        if len(members) == 1:
            members["two"] = Struct([], "dc", rng)
        return UnionT(members, style, rng, key, rng.choice([None, "parameters"]) if style == "nested" else None)

    def best(self):
        rng = self.rng
        opts = [SIMPLE[0], SIMPLE[1], SIMPLE[2]]
        ms = rng.sample(opts, rng.randint(2, 3))
        return BestT(ms)


def all_fields(fields):
    out = []
    for f in fields:
        out.append(f)
        if f.flattened:
            out += all_fields(f.typ.fields)
    return out


def all_names(fields):
    return {f.name for f in all_fields(fields)} | {a for f in all_fields(fields) for a in f.aliases}
