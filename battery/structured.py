"""P09-P12: loading and dumping structured types."""
import collections, copy, functools
from typing import Annotated

import typing_extensions as te

from databind.core import *
from databind.core import Alias, Converter, ConversionError, ExtraKeys, Flattened, Remainder, Required, SerializeDefaults, Settings
import databind.core.dataclasses as dbdc
from databind.core.schema import Field, Schema, convert_to_schema, get_fields_expanded
from databind.json import dump, load, get_object_mapper

from typeapi import ClassTypeHint, TypeHint

from .lib import *
from .model import *

INT = SIMPLE[0]
STR = SIMPLE[1]


def keys_of(f):
    return f.aliases or (f.name,)


def load_spec(S, payload, flat_parent=False):
    """Expected outcome of loading *payload* as S whose field types are scalars (or flattened structs)."""
    used = set()
    vals = {}

    def go(S):
        out = {}
        for f in S.fields:
            if f.flattened:
                out[f.name] = go(f.typ)
                continue
            hit = next((k for k in keys_of(f) if k in payload), None)
            if hit is not None:
                used.add(hit)
                v = payload[hit]
                if f.typ is INT and type(v) is not int or f.typ is STR and type(v) is not str:
                    raise ValueError
                out[f.name] = v
            elif f.required:
                raise ValueError
            elif f.default is not None:
                if S.style != "td":
                    out[f.name] = f.default[1]() if f.default[0] == "factory" else f.default[1]
            elif isinstance(f.typ, Opt):
                out[f.name] = None
            else:
                raise ValueError
        return S.make(out)

    try:
        v = go(S)
        if set(payload) - used:
            return ("CE",)
        return "ok", v
    except ValueError:
        return ("CE",)


def scalar_struct(rng, style, n=None, avoid=(), flat_depth=0):
    names = [x for x in NAMES if x not in avoid]
    rng.shuffle(names)
    fields, had = [], False
    used = set(avoid)
    pool_ = ["p%d" % i for i in range(12)]
    rng.shuffle(pool_)
    for i in range(rng.randint(1, 5) if n is None else n):
        if not names:
            break
        name = names.pop()
        if name in used:
            continue
        if flat_depth and rng.random() < .4 and style in ("dc",) and not had:
            sub = scalar_struct(rng, rng.choice(["dc", "td"]), avoid=used | {name} | {f.name for f in fields} | set(x for f in fields for x in f.aliases), flat_depth=flat_depth - 1)
            ks = all_names(sub.fields)
            if ks & used or name in ks:
                continue
            used |= ks | {name}
            names = [x for x in names if x not in used]
            fields.append(F(name, sub, flattened=True))
            continue
        typ = rng.choice([INT, STR])
        aliases = tuple(a for a in (pool_.pop() for _ in range(rng.randint(0, 3))) if a not in used) if rng.random() < .6 and len(pool_) > 3 else ()
        if aliases and rng.random() < .2:
            aliases += (name,)
        used |= {name} | set(aliases)
        default, required = None, False
        if style != "nt" and (had and style == "dc" or rng.random() < .4):
            default = rng.choice([("value", typ.gen(rng)), ("factory", lambda v=typ.gen(rng): v)])
            had = True
            required = style != "td" and rng.random() < .3
        elif rng.random() < .25 and style in ("dc", "dbdc"):
            typ = Opt(typ)
            if had and style == "dc":
                default = ("value", None)
        fields.append(F(name, typ, aliases, default, required=required))
        if style == "dc" and default is not None:
            had = True
    return Struct(fields, style, rng)


def typ_ok(typ, v):
    return True


def opt_check(S):
    return not any(isinstance(f.typ, Opt) for f in all_fields(S.fields))


def random_payload(rng, S):
    p = {}
    for f in all_fields(S.fields):
        if f.flattened:
            continue
        base = f.typ.inner if isinstance(f.typ, Opt) else f.typ
        for k in keys_of(f):
            if rng.random() < .6:
                p[k] = base.gen(rng) if rng.random() < .95 else rng.choice([1.5, [], {}])
        if rng.random() < .06:
            p[f.name] = base.gen(rng)
    if rng.random() < .25:
        p[rng.choice(["extra", "unk", "name2", 7])] = 1
    items = list(p.items())
    rng.shuffle(items)
    return dict(items)


def spec_with_opt(S, payload):
    """load_spec with optional types (None stays None)."""
    return load_spec(S, payload)


def p09(b):
    b.rules.append("random dataclasses/typed dicts/named tuples with aliases, defaults, required and optional fields x random payloads (several aliases present, missing, extra, wrong values)")
    rng = b.rng
    for _ in b.times(260):
        S = scalar_struct(rng, rng.choice(["dc", "dc", "dbdc", "td", "nt"]))
        hints = [S.hint, Annotated[S.hint, "x"]] if rng.random() < .3 else [S.hint]
        for _ in range(5):
            p = random_payload(rng, S)
            sp = load_spec(S, p)
            if any(isinstance(f.typ, Opt) for f in S.fields):
                # wrong value kinds of optional fields
                for f in S.fields:
                    if isinstance(f.typ, Opt):
                        hit = next((k for k in keys_of(f) if k in p), None)
                        if hit is not None and p[hit] is not None and type(p[hit]) is not (int if f.typ.inner is INT else str):
                            sp = ("CE",)
            payload = rng.choice([lambda: p, lambda: collections.OrderedDict(p), lambda: types.MappingProxyType(p)])()
            for h in hints:
                b.spec(f"load({show(payload, 300)}, {S})", lambda: load(payload, h), sp)
        for v in (None, 1, "x", [], [1], (), True, b"x", [("a", 1)], set(), Plain(), S.hint, iter([])):
            if rng.random() < .4:
                b.ce(f"load({show(v)}, {S})", lambda: load(v, S.hint))
    # aliases from settings
    class D0:
        pass
    @dataclasses.dataclass
    class A:
        x: int
        y: Annotated[int, Alias("why")] = 3
    m = get_object_mapper()
    m.settings.add_conditional(lambda c: c.key == "x", Alias("ex", "xx"))
    b.eq("alias from a conditional setting", lambda: m.deserialize({"ex": 1}, A), A(1, 3))
    b.eq("second alias", lambda: m.deserialize({"xx": 1, "why": 2}, A), A(1, 2))
    b.eq("first alias wins", lambda: m.deserialize({"xx": 1, "ex": 2}, Annotated[A, ExtraKeys()]), A(2, 3))
    b.ce("own name is not a key then", lambda: m.deserialize({"x": 1}, A))
    b.ce("own name is not a key if aliased", lambda: load({"x": 1, "y": 2}, A))
    b.eq("dump with alias from a conditional setting", lambda: m.serialize(A(1, 2), A), {"ex": 1, "why": 2})
    # values found under a key that is None / falsy count as present
    @dataclasses.dataclass
    class N:
        a: t.Optional[int] = 5
        b: Annotated[t.Optional[str], Required()] = "q"
        c: t.Any = 7
    for p, e in (({"a": None, "b": None, "c": None}, N(None, None, None)), ({"a": 0, "b": "", "c": []}, N(0, "", [])), ({"b": "z"}, N(5, "z", 7))):
        b.eq(f"load({p}, N)", lambda: load(p, N), e)
    b.ce("load({}, N) misses the required b", lambda: load({}, N))
    # defaults made by any kind of factory are fresh for each load
    class Callable_:
        def __call__(self):
            return [1]

        def method(self):
            return {"k": []}
    def function():
        return [2]
    for fac in (list, dict, set, lambda: [], lambda: [[]], function, Callable_(), Callable_().method, functools.partial(list, (1, 2)), [5].copy, collections.OrderedDict, Plain):
        for dec in (dataclasses.dataclass, dbdc.dataclass):
            Fr = dec(type(fresh("Fr"), (), {"__annotations__": {"x": int, "f": t.Any, "g": Annotated[t.Any, Alias("gg")]}, "x": 3, "f": dataclasses.field(default_factory=fac), "g": dataclasses.field(default_factory=fac), "__module__": __name__}))
            o = outcome(lambda: [load({}, Fr), load({"x": 1}, Fr), load({"gg": 1}, Fr)] + load([{}, {}], t.List[Fr]))
            ok = o[0] == "ok"
            if ok:
                made = [v for r in o[1] for v in (r.f, r.g) if v != 1]
                ok = len(made) == 9 and len({id(v) for v in made}) == 9 and all(type(v) is type(fac()) and (type(v) is Plain or v == fac()) for v in made)
            b.true(f"defaults made by {fac!r}", ok, "fresh values", show_out(o))
    # schemas with fields that have no default and are not required: left out
    got = []
    sch = Schema({"a": Field(TypeHint(int), required=False), "b": Field(TypeHint(int))}, lambda **k: got.append(k) or k, dict)
    from databind.json.converters import SchemaConverter
    class SC(SchemaConverter):
        def _get_schema(self, ctx):
            return sch
    mp = get_object_mapper()
    mp.module.register(SchemaConverter(convert_to_schema=lambda h: sch if h.hint is D0 else (_ for _ in ()).throw(ValueError("no"))), first=True)
    b.eq("not required without default is left out", lambda: mp.deserialize({"b": 1}, D0), {"b": 1})
    b.eq("constructor called with exactly these", lambda: mp.deserialize({"b": 1, "a": 2}, D0), {"b": 1, "a": 2})
    # nested positions
    for _ in b.times(30):
        S = scalar_struct(rng, rng.choice(["dc", "dbdc", "td"]))
        ps = [random_payload(rng, S) for _ in range(3)]
        sps = [load_spec(S, p) for p in ps]
        if opt_check(S):
            sp = ("ok", [x[1] for x in sps]) if all(x[0] == "ok" for x in sps) else ("CE",)
            b.spec(f"load({show(ps)}, List[{S}])", lambda: load(ps, t.List[S.hint]), sp)
    # DeserializeAs
    @dataclasses.dataclass
    class Base:
        a: int

    @dataclasses.dataclass
    class Derived(Base):
        b: int = 2

    @dataclasses.dataclass
    class H:
        f: Annotated[Base, DeserializeAs(Derived)]
    b.eq("DeserializeAs", lambda: load({"f": {"a": 1, "b": 5}}, H), H(Derived(1, 5)))


def p10(b):
    b.rules.append("random structs x payloads with extra keys x where/how ExtraKeys or Remainder is given")
    rng = b.rng
    for _ in b.times(250):
        S = scalar_struct(rng, rng.choice(["dc", "dbdc", "td", "nt"]), flat_depth=rng.choice([0, 1]))
        p = {}
        for f in all_fields(S.fields):
            if not f.flattened and (f.default is None and not isinstance(f.typ, Opt) or f.required or rng.random() < .5):
                base = f.typ.inner if isinstance(f.typ, Opt) else f.typ
                ks = list(keys_of(f))
                p[rng.choice(ks)] = base.gen(rng)
                if len(ks) > 1 and rng.random() < .3:
                    p[ks[0]] = base.gen(rng)
        sp = load_spec(S, p)
        used = set()
        for f in all_fields(S.fields):
            if not f.flattened:
                hit = next((k for k in keys_of(f) if k in p), None)
                used.add(hit)
        shadow = set(p) - used  # later aliases next to an earlier one
        extra = {k: rng.choice([1, None, "v", [1]]) for k in rng.sample(["e1", "e2", "e3", "", "x y", 5, None], rng.randint(0, 3))}
        for f in all_fields(S.fields):
            if f.aliases and f.name not in f.aliases and rng.random() < .15:
                extra[f.name] = 1  # the field name is no key if there are aliases
        q = {**p, **extra}
        unknown = shadow | set(extra)
        base_sp = ("ok", load_spec(S, {k: v for k, v in p.items() if k not in shadow})[1])
        calls = []
        kinds = [None, ExtraKeys(), ExtraKeys(False), ExtraKeys(True, lambda c, k: calls.append((c, k))), ExtraKeys(False, lambda c, k: calls.append((c, k)))]
        ek = rng.choice(kinds)
        how = rng.choice(["call", "hint", "global"])
        h, s, m = S.hint, None, get_object_mapper()
        if ek is not None:
            if how == "hint":
                h = Annotated[h, ek]
            elif how == "call":
                s = [ek]
            else:
                m.settings.add_global(ek)
        sp = base_sp if not unknown or (ek is not None and ek.allow) else ("CE",)
        d = f"load({show(q, 300)}, {S}) with {ek and (ek.allow, bool(ek.recorder), how)}"
        b.spec(d, lambda: m.deserialize(q, h, settings=s), sp)
        want = 1 if unknown and ek is not None and ek.allow and ek.recorder else 0
        ok = len(calls) == want and all(set(k) == unknown and isinstance(c, Context) for c, k in calls)
        if want:
            calls_ok = calls and calls[0][0].value is q
            ok = ok and calls_ok
        b.true("recorder of " + d, ok, f"{want} call(s) with {unknown}", [k for _, k in calls])
        # remainder
        if S.style == "dc" and opt_check(S) and not any(f.default is not None for f in S.fields):
            kt = t.Any if any(type(k) is not str for k in q) else str
            R = Struct(S.fields + [F("rest_", AnyMap(kt), remainder=True)], "dc", rng)
            pos = rng.randint(0, len(S.fields))
            R = Struct(S.fields[:pos] + [F("rest_", AnyMap(kt), remainder=True)] + S.fields[pos:], "dc", rng)
            base = base_sp[1]
            vals = {f.name: getattr(base, f.name) for f in S.fields}
            vals["rest_"] = {k: q[k] for k in unknown}
            calls.clear()
            b.eq(f"load({show(q, 300)}, {R}) with {ek and ek.allow}", lambda: m.deserialize(q, R.hint if how != "hint" or ek is None else Annotated[R.hint, ek], settings=s), R.make(vals))
            b.true("no recorder call with a remainder field", not calls, "", calls)
    # the values of the remainder are converted as its type
    @dataclasses.dataclass
    class RI:
        a: int
        r: Annotated[t.Dict[str, int], Remainder()]
    b.eq("remainder of ints", lambda: load({"a": 1, "x": 2, "y": 3}, RI), RI(1, {"x": 2, "y": 3}))
    b.ce("remainder with a bad value", lambda: load({"a": 1, "x": "2"}, RI))
    b.eq("empty remainder", lambda: load({"a": 1}, RI), RI(1, {}))
    b.eq("key named like the remainder field", lambda: load({"a": 1, "r": 5}, RI), RI(1, {"r": 5}))

    @dataclasses.dataclass
    class Two:
        a: Annotated[t.Dict[str, int], Remainder()]
        b: Annotated[t.Dict[str, int], Remainder()]
    b.ce("two remainder fields", lambda: load({"x": 1}, Two))
    b.ce("two remainder fields, empty payload", lambda: load({}, Two))
    b.ce("two remainder fields, dump", lambda: dump(Two({}, {}), Two))

    @dataclasses.dataclass
    class Off:
        a: Annotated[t.Dict[str, int], Remainder(False)]
        b: Annotated[t.Dict[str, int], Remainder()]
    b.eq("disabled remainder", lambda: load({"a": {"q": 1}, "x": 2}, Off), Off({"q": 1}, {"x": 2}))

    @ExtraKeys()
    @dataclasses.dataclass
    class E1:
        a: int

    @dataclasses.dataclass
    class E2(E1):
        pass

    @dataclasses.dataclass
    class Outer:
        e: E1
        f: E2
    b.eq("class decorator", lambda: load({"a": 1, "z": 2}, E1), E1(1))
    b.ce("the decorator is not inherited", lambda: load({"a": 1, "z": 2}, E2))
    b.ce("nor used for the enclosing type", lambda: load({"e": {"a": 1}, "f": {"a": 1}, "z": 1}, Outer))
    b.eq("nested with decorator", lambda: load({"e": {"a": 1, "z": 1}, "f": {"a": 2}}, Outer), Outer(E1(1), E2(2)))
    b.ce("nested without", lambda: load({"e": {"a": 1}, "f": {"a": 2, "z": 1}}, Outer))
    got = []
    st = [ExtraKeys(True, lambda c, k: got.append((c.datatype.type, set(k))))]
    b.eq("recorder at several places", lambda: load({"e": {"a": 1, "z": 1}, "f": {"a": 2, "y": 1, "w": 2}, "v": 3}, Outer, settings=st), Outer(E1(1), E2(2)))
    b.true("recorder calls", sorted(map(repr, got)) == sorted(map(repr, [(E2, {"y", "w"}), (Outer, {"v"})])), "", got)


class AnyMap(T):
    kind = "map"

    def __init__(self, kt):
        self.hint = t.Dict[kt, t.Any]
        self.py = dict

    def gen(self, rng):
        return {k: rand_json(rng, 1) for k in rng.sample(["r1", "r2", "r3"], rng.randint(0, 3))}


def p11(b):
    b.rules.append("random structs x values equal to their defaults or not x SerializeDefaults given at several places x remainder/required fields")
    rng = b.rng
    for _ in b.times(300):
        S = scalar_struct(rng, rng.choice(["dc", "dc", "dbdc", "td", "nt"]), flat_depth=rng.choice([0, 0, 1]))
        v = S.gen(rng)
        if rng.random() < .5 and S.style in ("dc", "dbdc"):
            for f in S.fields:
                if f.default is not None and rng.random() < .5:
                    setattr(v, f.name, f.default[1]() if f.default[0] == "factory" else f.default[1])
                elif isinstance(f.typ, Opt) and rng.random() < .4:
                    setattr(v, f.name, None)
        setting = rng.choice([None, True, False, False, False])
        how = rng.choice(["call", "hint", "global"])
        h, s, m = S.hint, None, get_object_mapper()
        if setting is not None:
            x = SerializeDefaults(setting)
            if how == "call":
                s = [x]
            elif how == "hint":
                h = Annotated[h, x]
            else:
                m.settings.add_global(x)

        def wire(S, v, on):
            out = {}
            for f in S.present(v):
                x = S.get(v, f)
                if f.flattened:
                    # the setting at the parent's annotation does not apply to the sub-field's type
                    out.update(wire(f.typ, x, on if how != "hint" else None))
                    continue
                has, dflt = f.default is not None and S.style != "td", None
                if has:
                    dflt = f.default[1]() if f.default[0] == "factory" else f.default[1]
                elif isinstance(f.typ, Opt):
                    has = True
                if on is False and has and not f.required and x == dflt:
                    continue
                out[f.key()] = f.typ.wire(x)
            return out
        b.eq(f"dump({show(v)}, {S}, SerializeDefaults={setting} {how})", lambda: m.serialize(v, h, settings=s), wire(S, v, setting))
        for w in rng.sample([None, 1, "x", [], {}, Plain(), S.hint, object(), True, DictSub(a=1)], 4):
            if S.style == "td" and isinstance(w, dict):
                continue
            b.ce(f"dump({show(w)}, {S})", lambda: dump(w, S.hint))
        if S.style == "td":
            for f in S.fields:
                w = dict(v)
                w.pop(f.name, None)
                if f.default is None:
                    b.ce(f"dump({show(w)}, {S}) misses a required key", lambda: dump(w, S.hint))
                else:
                    b.eq(f"dump({show(w)}, {S}) without a not required key", lambda: dump(w, S.hint), S.wire(w))
    @dataclasses.dataclass
    class R:
        a: Annotated[int, Alias("al", "bl")]
        r: Annotated[t.Dict[str, int], Remainder()] = dataclasses.field(default_factory=dict)
        c: int = 4
    for on in (None, True, False):
        s = None if on is None else [SerializeDefaults(on)]
        for r in ({}, {"x": 1}, {"x": 1, "y": 2}, {"a": 3}, {"bl": 3}, {"r": 1}):
            for c in (4, 5):
                exp = {"al": 1, **r, **({} if on is False and c == 4 else {"c": c})}
                b.eq(f"dump(R(1, {r}, {c})) SerializeDefaults={on}", lambda: dump(R(1, r, c), R, settings=s), exp)
        b.ce("remainder clashes with an alias", lambda: dump(R(1, {"al": 1}, 5), R, settings=s))
        b.ce("remainder clashes with a name", lambda: dump(R(1, {"x": 2, "c": 1}, 5), R, settings=s))
    b.eq("remainder with the key of an omitted field", lambda: dump(R(1, {"c": 1}, 4), R, settings=[SerializeDefaults(False)]), {"al": 1, "c": 1})

    @dataclasses.dataclass
    class RB:
        r: Annotated[t.List[int], Remainder()]
    b.ce("remainder that is no mapping", lambda: dump(RB([1]), RB))

    @dataclasses.dataclass
    class Q:
        a: Annotated[int, Required()] = 1
        b: Annotated[t.Optional[int], Required()] = None
        c: Annotated[int, Required(False)] = 2
        d: t.List[int] = dataclasses.field(default_factory=list)
        e: t.Optional[int] = None
        f: bool = True
    off = [SerializeDefaults(False)]
    b.eq("dump(Q()) without defaults", lambda: dump(Q(), Q, settings=off), {"a": 1, "b": None})
    b.eq("dump(Q) with one non-default", lambda: dump(Q(d=[0]), Q, settings=off), {"a": 1, "b": None, "d": [0]})
    b.eq("falsy values that are no defaults", lambda: dump(Q(a=0, c=0, e=0, f=False), Q, settings=off), {"a": 0, "b": None, "c": 0, "e": 0, "f": False})
    b.eq("dump(Q())", lambda: dump(Q(), Q), {"a": 1, "b": None, "c": 2, "d": [], "e": None, "f": True})

    @dataclasses.dataclass
    class Sub(Q):
        g: int = 0
    b.eq("dump of a subclass instance as the base", lambda: dump(Sub(g=9), Q), {"a": 1, "b": None, "c": 2, "d": [], "e": None, "f": True})
    b.ce("dump of a base instance as the subclass", lambda: dump(Q(), Sub))

    @SerializeDefaults(False) if callable(SerializeDefaults(False)) else (lambda c: c)
    @dataclasses.dataclass
    class Outer:
        q: Annotated[Q, SerializeDefaults(False)]
        z: int = 1
        w: t.Optional[Q] = None
    b.eq("setting at a nested place only", lambda: dump(Outer(Q()), Outer), {"q": {"a": 1, "b": None}, "z": 1, "w": None})
    b.eq("setting for a call, nested", lambda: dump(Outer(Q(), w=Q(c=3)), Outer, settings=off), {"q": {"a": 1, "b": None}, "w": {"a": 1, "b": None, "c": 3}})


def flat_struct(rng, depth, avoid):
    return scalar_struct(rng, "dc", n=rng.randint(1, 4), avoid=avoid, flat_depth=depth)


def p12(b):
    b.rules.append("random structs with flattened fields (depth <= 3) x values/payloads; clashes at every depth; expansions against a model")
    rng = b.rng
    for _ in b.times(250):
        S = scalar_struct(rng, "dc", flat_depth=rng.choice([1, 2, 3]))
        if not any(f.flattened for f in S.fields):
            continue
        v = S.gen(rng)
        w = S.wire(v)
        b.eq(f"dump({show(v)}, {S})", lambda: dump(v, S.hint), w)
        b.eq(f"load({show(w)}, {S})", lambda: load(w, S.hint), v)
        p = random_payload(rng, S)
        if opt_check(S):
            b.spec(f"load({show(p)}, {S})", lambda: load(p, S.hint), load_spec(S, p))

        def expand(S):
            out = {}
            for f in S.fields:
                if f.flattened:
                    sub = {g.name: g for g in f.typ.fields if not g.flattened}
                    for d in expand(f.typ).values():
                        sub.update(d)
                    out[f.name] = sub
            return out
        exp = {k: set(d) for k, d in expand(S).items()}
        got = outcome(lambda: {k: set(d) for k, d in get_fields_expanded(convert_to_schema(TypeHint(S.hint))).items()})
        b.true(f"get_fields_expanded({S})", got[0] == "ok" and got[1] == exp, show(exp), show_out(got))
        # a sub-field whose name is that of another field of the type
        sub = next(f for f in S.fields if f.flattened)
        names = [f.name for f in all_fields(sub.typ.fields) if not f.flattened]
        if names:
            nm = rng.choice(names)
            others = [f for f in S.fields if f.default is None]
            clash = Struct([F(nm, INT)] + others, "dc", rng) if rng.random() < .5 else Struct(others + [F(nm, INT)], "dc", rng)
            o = outcome(lambda: get_fields_expanded(convert_to_schema(TypeHint(clash.hint))))
            b.true(f"get_fields_expanded of clashing {clash}", o[0] == "exc", "an error", show_out(o))
            o = outcome(lambda: load({**w, nm: 1}, clash.hint))
            b.true(f"load of clashing {clash}", o[0] != "ok", "an error", show_out(o))
    # three levels, aliases at every level
    @dataclasses.dataclass
    class L3:
        e: Annotated[int, Alias("E", "E2")]
        f: int = 6

    @dataclasses.dataclass
    class L2:
        l3: Annotated[L3, Flattened()]
        d: Annotated[int, Alias("D")] = 4

    @dataclasses.dataclass
    class L1:
        a: int
        l2: Annotated[L2, Flattened()]
        r: Annotated[t.Dict[str, int], Remainder()] = dataclasses.field(default_factory=dict)
    b.eq("load three levels", lambda: load({"a": 1, "E2": 5, "D": 7, "zz": 3}, L1), L1(1, L2(L3(5), 7), {"zz": 3}))
    b.eq("dump three levels", lambda: dump(L1(1, L2(L3(5, 9), 7), {"zz": 3}), L1), {"a": 1, "E": 5, "f": 9, "D": 7, "zz": 3})
    b.ce("missing required sub-field", lambda: load({"a": 1, "D": 7}, L1))
    b.ce("remainder clashes with a flattened key", lambda: dump(L1(1, L2(L3(5), 7), {"E": 3}), L1))
    b.ce("sub-field under its name although aliased", lambda: load({"a": 1, "e": 5}, L2))

    @dataclasses.dataclass
    class NotMap:
        a: Annotated[t.List[int], Flattened()]
    b.ce("flattened value that is no mapping", lambda: dump(NotMap([1]), NotMap))

    @dataclasses.dataclass
    class FO:
        x: int
        m: Annotated[t.Dict[str, int], Flattened()]
    b.eq("flattened mapping is merged", lambda: dump(FO(1, {"p": 2, "q": 3}), FO), {"x": 1, "p": 2, "q": 3})
    b.ce("entries must not get lost in a clash", lambda: dump(FO(1, {"x": 2}), FO))

    @dataclasses.dataclass
    class FL:
        m: Annotated[t.Dict[str, int], Flattened()]
        x: Annotated[int, Alias("ex")]
    b.ce("nor with a later field", lambda: dump(FL({"ex": 2}, 3), FL))
    b.eq("a key that is the name of an aliased field does not clash", lambda: dump(FL({"x": 2}, 3), FL), {"x": 2, "ex": 3})

    @dataclasses.dataclass
    class FSub:
        p: Annotated[int, Alias("q")]

    @dataclasses.dataclass
    class FTwo:
        s: Annotated[FSub, Flattened()]
        q: int
    b.ce("alias of a sub-field that is the key of a later field", lambda: dump(FTwo(FSub(1), 2), FTwo))

    @dataclasses.dataclass
    class FOff:
        a: Annotated[L3, Flattened(False)]
    b.eq("Flattened(False) is nested", lambda: load({"a": {"E": 1}}, FOff), FOff(L3(1)))
    b.eq("Flattened(False) is nested, dump", lambda: dump(FOff(L3(1)), FOff), {"a": {"E": 1, "f": 6}})
