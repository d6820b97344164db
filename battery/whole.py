"""P19, P24, P25: properties of whole conversions, over random types."""
import copy, json, pickle

from databind.core import *
from databind.core import Alias, Remainder
from databind.json import dump, dumps, load, loads, get_object_mapper

from .lib import *
from .model import *


def p25(b):
    b.rules.append("random types (depth <= 3) with random values against a reference model of the wire form")
    for i in b.times(300):
        g = Gen(b.rng, strict_json=True, max_depth=b.rng.choice([1, 2, 2, 3]))
        T = g.typ() if i % 4 else g.struct(2, "dc")
        for _ in range(3):
            v = T.gen(b.rng)
            w = T.wire(v)
            d = f"{T} value {show(v)}"
            if not b.eq("dump " + d, lambda: dump(v, T.hint), w):
                continue
            b.eq(f"load {show(w)} as {T}", lambda: load(w, T.hint), v)
            sk, ind = b.rng.random() < .3, b.rng.choice([None, None, 2])
            b.eq(f"dumps(indent={ind}, sort_keys={sk}) " + d, lambda: dumps(v, T.hint, indent=ind, sort_keys=sk), json.dumps(dump(v, T.hint), indent=ind, sort_keys=sk))
            b.eq("json.loads(dumps) " + d, lambda: json.loads(dumps(v, T.hint)), json.loads(json.dumps(w)))
            b.eq(f"loads {show(w)} as {T}", lambda: loads(json.dumps(w), T.hint), v)
            m = get_object_mapper()
            b.eq("mapper.serialize " + d, lambda: m.serialize(v, T.hint), w)
            b.eq("mapper.deserialize " + d, lambda: m.deserialize(w, T.hint), v)
    # file name and settings are honoured by every entry point
    from databind.core import Strict
    for nm, f, bad in (("load", load, "x"), ("loads", loads, '"x"'), ("dump", dump, "x"), ("dumps", dumps, "x"),
                       ("deserialize", get_object_mapper().deserialize, "x"), ("serialize", get_object_mapper().serialize, "x")):
        o = outcome(lambda: f(bad, int, filename="some-file.json"))
        b.true(f"{nm} reports the file name", o[0] == "CE" and o[1].context.location.filename == "some-file.json" and "some-file.json" in str(o[1]), "", show_out(o))
        o = outcome(lambda: f(bad, int, "pos-file.json"))
        b.true(f"{nm} takes the file name as third argument", o[0] == "CE" and o[1].context.location.filename == "pos-file.json", "", show_out(o))
    b.eq("load with settings", lambda: load("5", int, settings=[Strict(False)]), 5)
    b.eq("load with positional settings", lambda: load("5", int, None, [Strict(False)]), 5)
    b.eq("loads with settings", lambda: loads('"5"', int, settings=[Strict(False)]), 5)
    b.eq("deserialize with settings", lambda: get_object_mapper().deserialize("5", int, settings=[Strict(False)]), 5)
    b.eq("deserialize with mapper settings", lambda: get_object_mapper(Settings(global_settings=[Strict(False)])).deserialize("5", int), 5)
    D = Struct([F("a", SIMPLE[0], default=("value", 3)), F("b", SIMPLE[1])][::-1], "dc", b.rng)
    v = D.cls(b="q", a=3)
    for nm, f in (("dump", lambda: dump(v, D.cls, settings=[SerializeDefaults(False)])), ("dumps", lambda: json.loads(dumps(v, D.cls, settings=[SerializeDefaults(False)]))),
                  ("serialize", lambda: get_object_mapper().serialize(v, D.cls, settings=[SerializeDefaults(False)]))):
        b.eq(f"{nm} with SerializeDefaults(False)", f, {"b": "q"})
    b.eq("dumps non-ASCII", lambda: dumps("é", str), json.dumps("é"))
    b.eq("dumps indent string", lambda: dumps([1], t.List[int], indent="\t"), json.dumps([1], indent="\t"))
    for s in ("{", "", "nul", "[1,]"):
        b.exc(f"loads({s!r})", lambda: loads(s, t.Any), ValueError)


def frozen(x):
    """A structural snapshot for comparison."""
    return copy.deepcopy(x)


def mutate_payload(rng, w, depth=0):
    """A payload that differs from *w* at some places."""
    r = rng.random()
    if r < .25 or depth > 4:
        return rng.choice([None, True, 0, 1.5, "", "zz", [], {}, [1], {"a": 1}, b"x", Plain(), {1: 2}, [[]], "yes", float("nan"), {"type": []}, 10**400, object, {(): ()}])
    if isinstance(w, dict) and w:
        k = rng.choice(list(w))
        w = dict(w)
        if r < .45:
            del w[k]
        elif r < .6:
            w[rng.choice(["extra", 5, None, (1,), "type", ""])] = rng.choice([1, None, {}, Plain()])
        elif r < .65:
            w[5] = w.pop(k)
        else:
            w[k] = mutate_payload(rng, w[k], depth + 1)
        return w
    if isinstance(w, list) and w:
        w = list(w)
        i = rng.randrange(len(w))
        if r < .4:
            del w[i]
        elif r < .5:
            w.append(w[i])
        else:
            w[i] = mutate_payload(rng, w[i], depth + 1)
        return w
    return rng.choice([None, True, 0, 1.5, "", "zz", [], {}, [1], {"a": 1}, b"x", Plain(), "no", 3.0, -1, "1"])


def p19(b):
    b.rules.append("random types x corrupted payloads/values, and every type x every value of a pool of odd values")
    rng = b.rng
    for i in b.times(150):
        T = Gen(rng, max_depth=rng.choice([1, 2, 3])).typ()
        for _ in range(6):
            v = T.gen(rng)
            w = T.wire(v)
            p = mutate_payload(rng, w)
            if rng.random() < .3:
                p = mutate_payload(rng, p)
            d = f"load {show(p)} as {T}"
            if b.no_leak(d, lambda: load(p, T.hint)):
                o = outcome(lambda: load(p, T.hint))
                if o[0] == "CE":
                    b.no_leak("str(error) of " + d, lambda: str(o[1]))
            q = mutate_payload(rng, v) if rng.random() < .5 else rng.choice(JSONISH + ODD)
            b.no_leak(f"dump {show(q)} as {T}", lambda: dump(q, T.hint))
    g = Gen(rng, max_depth=2)
    types_ = list(SIMPLE) + [Opt(SIMPLE[0]), AnyT(), Tup([SIMPLE[0], SIMPLE[1]])] + [g.coll(1) for _ in range(4)] + [g.map(1), g.map(2)] + [g.struct(2, s) for s in ("dc", "dbdc", "td", "nt")] + \
        [g.union(2) for _ in range(6)] + [g.best(), BestT(SIMPLE[:3])]
    for T in types_:
        for v in JSONISH + ODD:
            if isinstance(v, types.GeneratorType):
                continue
            b.no_leak(f"load {show(v)} as {T}", lambda: load(v, T.hint))
            b.no_leak(f"dump {show(v)} as {T}", lambda: dump(v, T.hint))
    from nr.date import duration
    for h in (datetime.datetime, datetime.time, pathlib.Path, duration, frozenset, t.FrozenSet[t.Tuple[int, str]], t.Optional[t.List[t.Dict[str, t.Set[int]]]]):
        for v in JSONISH + ODD:
            if isinstance(v, types.GeneratorType):
                continue
            b.no_leak(f"load {show(v)} as {h}", lambda: load(v, h))
            b.no_leak(f"dump {show(v)} as {h}", lambda: dump(v, h))
            for s in ([Strict(False)], [Precision(prec=2)], [DateFormat("%Y")]):
                b.no_leak(f"load {show(v)} as {h} with {s}", lambda: load(v, h, settings=s))


def p24(b):
    b.rules.append("random types/values: inputs compared before/after, repeated conversions compared, histories of operations on settings and mappers against a model")
    rng = b.rng
    for i in b.times(120):
        T = Gen(rng, max_depth=rng.choice([1, 2, 3])).typ()
        v = T.gen(rng)
        w = T.wire(v)
        v0, w0 = frozen(v), frozen(w)
        m = get_object_mapper()
        sets = [Strict(rng.random() < .5)]
        r1 = outcome(lambda: m.serialize(v, T.hint, settings=sets))
        b.true(f"dump leaves the value unchanged: {T} {show(v0)}", same(v, v0), show(v0), v)
        r2 = outcome(lambda: m.serialize(v, T.hint, settings=sets))
        b.true(f"dump twice: {T} {show(v0)}", r1[0] == r2[0] and (r1[0] != "ok" or same(r1[1], r2[1])), show_out(r1), show_out(r2))
        l1 = outcome(lambda: m.deserialize(w, T.hint, settings=sets))
        b.true(f"load leaves the payload unchanged: {T} {show(w0)}", same(w, w0), show(w0), w)
        l2 = outcome(lambda: m.deserialize(w, T.hint, settings=sets))
        b.true(f"load twice: {T} {show(w0)}", l1[0] == l2[0] and (l1[0] != "ok" or same(l1[1], l2[1])), show_out(l1), show_out(l2))
        b.true("settings list unchanged", len(sets) == 1, "", sets)
        p = mutate_payload(rng, w)
        try:
            p0 = frozen(p)
        except Exception:
            continue
        outcome(lambda: m.deserialize(p, T.hint))
        if not isinstance(p, Plain) and "Plain" not in repr(p):
            b.true(f"failing load leaves the payload unchanged: {T} {show(p0)}", same(p, p0), show(p0), p)
        l3 = outcome(lambda: m.deserialize(w, T.hint, settings=sets))
        b.true(f"load after a failed load: {T} {show(w0)}", l1[0] == l3[0] and (l1[0] != "ok" or same(l1[1], l3[1])), show_out(l1), show_out(l3))

    # fresh defaults
    for style in ("dc", "dbdc"):
        made = []

        def fac():
            made.append([])
            return made[-1]
        D = Struct([F("a", Coll(lambda h: t.List[h], list, SIMPLE[0]), default=("factory", fac))], style, rng)
        x, y = load({}, D.cls), load({}, D.cls)
        b.true("default factories are called for each load", x.a is not y.a and x.a == [] == y.a, "", (x, y))
        x.a.append(1)
        b.eq("load after mutating a default", lambda: load({}, D.cls).a, [])
    # settings histories against a model
    class S1(Setting):
        def __init__(self, n, p):
            self.n, self.priority = n, p

        def __repr__(self):
            return f"S1({self.n}, {self.priority!r})"

    from databind.core import Context, Location
    from databind.core.context import Direction
    def ctx_for(tp):
        from typeapi import TypeHint
        return Context(None, Direction.DESERIALIZE, None, TypeHint(tp), None, Context.ROOT, Location.EMPTY, None)

    def expect(model, tp):
        allof = model["local"].get(tp, []) + [s for pr in model["prov"] for s in pr(tp)] + model["glob"]
        best = None
        for s in allof:
            if best is None or s.priority > best.priority:
                best = s
        return best

    for i in b.times(60):
        src = [S1(rng.random(), rng.choice(list(Priority))) for _ in range(rng.randint(0, 2))]
        objs = [(Settings(global_settings=src), {"glob": list(src), "local": {}, "prov": []})]
        hist = [f"Settings(global_settings={src})"]
        for step in range(rng.randint(2, 10)):
            k = rng.randrange(len(objs))
            s, mdl = objs[k]
            op = rng.randrange(6)
            x = S1(rng.random(), rng.choice(list(Priority)))
            tp = rng.choice([int, str])
            if op == 0:
                s.add_global(x)
                mdl["glob"].append(x)
                hist.append(f"{k}.add_global({x})")
            elif op == 1:
                s.add_local(tp, x)
                mdl["local"].setdefault(tp, []).append(x)
                hist.append(f"{k}.add_local({tp.__name__}, {x})")
            elif op == 2:
                s.add_conditional(lambda c, tp=tp: c.datatype.type is tp, x)
                mdl["prov"].append(lambda t_, tp=tp, x=x: [x] if t_ is tp else [])
                hist.append(f"{k}.add_conditional(type is {tp.__name__}, {x})")
            elif op == 3 and len(objs) < 4:
                objs.append((s.copy(), {"glob": list(mdl["glob"]), "local": {a: list(c) for a, c in mdl["local"].items()}, "prov": list(mdl["prov"])}))
                hist.append(f"{k}.copy() -> {len(objs) - 1}")
            elif op == 4:
                src.append(x)
                hist.append(f"source list append {x}")
            else:
                s.add_provider(lambda c, x=x: [x, x])
                mdl["prov"].append(lambda t_, x=x: [x, x])
                hist.append(f"{k}.add_provider([{x}])")
            for kk, (s2, m2) in enumerate(objs):
                for tp2 in (int, str, bool):
                    got = outcome(lambda: s2.get_setting(ctx_for(tp2), S1))
                    b.true(f"setting of {kk} for {tp2.__name__} after {hist}", got[0] == "ok" and got[1] is expect(m2, tp2), show(expect(m2, tp2)), show_out(got))
    # mapper copies
    from databind.core import Converter

    class Const(Converter):
        def __init__(self, n):
            self.n = n

        def convert(self, ctx):
            return self.n
    for i in b.times(15):
        m1 = get_object_mapper()
        if rng.random() < .5:
            m1.settings.add_global(Strict(False))
        m2 = m1.copy()
        b.true("copy behaves alike", same(outcome(lambda: m1.deserialize("1", int))[0], outcome(lambda: m2.deserialize("1", int))[0]), "", "")
        b.true("copy keeps the type", type(m2) is type(m1), "", "")
        first, second = (m1, m2) if rng.random() < .5 else (m2, m1)
        before = outcome(lambda: second.deserialize("1", int))[0]
        first.module.register(Const("c"), first=True)
        b.eq("registered converter used", lambda: first.deserialize("1", int), "c")
        b.true("the other mapper is not affected by register", outcome(lambda: second.deserialize("1", int))[0] == before, before, "")
        first.settings.add_local(str, Strict(False))
        first.settings.add_conditional(lambda c: True, Strict(False, priority=Priority.ULTIMATE))
        b.true("the other mapper is not affected by settings", outcome(lambda: second.deserialize("1", int))[0] == before, before, "")
        b.ce("nor for local settings", lambda: second.deserialize(1, str)) if before == "CE" else None
    # settings of one call
    m = get_object_mapper(Settings(global_settings=[Strict(False)]))
    for _ in range(2):
        b.eq("mapper setting", lambda: m.deserialize("1", int), 1)
        b.ce("call setting with a higher priority", lambda: m.deserialize("1", int, settings=[Strict(True)]))
        b.eq("mapper setting next to unrelated call setting", lambda: m.deserialize("1", int, settings=[SerializeDefaults(False)]), 1)
        b.eq("mapper setting after the call", lambda: m.deserialize("1", int), 1)
        b.eq("empty list of call settings", lambda: m.deserialize("1", int, settings=[]), 1)
    m = get_object_mapper()
    for _ in range(2):
        b.eq("call setting", lambda: m.deserialize("1", int, settings=[Strict(False)]), 1)
        b.ce("call setting is gone", lambda: m.deserialize("1", int))
        b.eq("load call setting", lambda: load("1", int, settings=[Strict(False)]), 1)
        b.ce("load call setting is gone", lambda: load("1", int))
    own = Settings(global_settings=[Strict(False)])
    b.eq("settings provider for one call", lambda: m.deserialize("1", int, settings=own), 1)
    b.ce("settings provider is gone", lambda: m.deserialize("1", int))
    b.ce("a settings provider replaces those of the mapper", lambda: get_object_mapper(own).deserialize("1", int, settings=Settings()))

    class Cnt(Settings):
        pass
    b.true("copy of a subclass of Settings", type(Cnt().copy()) is Cnt, "", "")
    par = Settings(global_settings=[Strict(False)])
    child = Settings(par)
    cc = child.copy()
    b.eq("copy keeps the parent", lambda: get_object_mapper(cc).deserialize("1", int), 1)
    par.add_global(Strict(True, priority=Priority.HIGH))
    b.ce("parent settings are looked up live", lambda: get_object_mapper(cc).deserialize("1", int))
