"""P13-P15: unions and their member registries."""
import abc, collections, dataclasses as dc
from typing import Annotated

from databind.core import *
from databind.core import Alias, ConversionError, Converter, Settings, Strict, Union
from databind.core.union import ChainUnionMembers, EntrypointUnionMembers, ImportUnionMembers, StaticUnionMembers, UnionMembers
from databind.json import dump, load, get_object_mapper
from typeapi import ClassTypeHint, TypeHint

from .lib import *
from .model import *


@dc.dataclass
class A:
    x: int = 1


@dc.dataclass
class B(A):
    y: t.Optional[str] = None


@dc.dataclass
class C:
    z: Annotated[t.List[int], Alias("zed")] = dc.field(default_factory=list)


@dc.dataclass
class Empty:
    pass


class Outside:
    pass


class Carrier:
    """The annotated type that carries a union (Any and object would be passed through)."""


X = t.TypeVar("X")


@dc.dataclass
class G(t.Generic[X]):
    g: X


def p13(b):
    b.rules.append("styles x discriminator/nesting keys x member sets (including scalars and generic aliases) x values, and payloads damaged at every relevant place")
    rng = b.rng
    vals = {A: lambda: A(rng.randint(0, 9)), B: lambda: B(rng.randint(0, 9), rng.choice([None, "q"])), C: lambda: C([rng.randint(0, 3)] * rng.randint(0, 2)),
            Empty: lambda: Empty(), int: lambda: rng.randint(0, 5), str: lambda: "s%d" % rng.randint(0, 5), list: None}
    for _ in b.times(260):
        style = rng.choice([Union.NESTED, Union.FLAT, Union.KEYED])
        key = rng.choice(["type", "type", "kind", "$", "a b", ""])
        nest = rng.choice([None, None, "parameters", "n"]) if style == Union.NESTED else rng.choice([None, "ignored"])
        ms = rng.sample([A, B, C, Empty] + ([int, str] if style != Union.FLAT else []), rng.randint(1, 4))
        ids = rng.sample(["a", "b", "m.n", "Type", "x1", "1", "type2", ""] if style != Union.NESTED or nest else ["a", "b", "m.n", "Type", "x1", "1", "type2"], len(ms))
        if style == Union.NESTED and (nest == key or key in ids and not nest):
            continue
        table = dict(zip(ids, ms))
        u = Union(dict(table), style, key, nest)
        form = rng.randrange(4)
        if form == 0:
            h, s = Annotated[t.Union[tuple(ms)] if len(ms) > 1 else Carrier, u], None
        elif form == 1:
            Base = type(fresh("Base"), (), {})
            h, s = u(Base), None
        elif form == 2:
            deferred = {k: (lambda v=v: v) for k, v in table.items()}
            u = Union([{k: v} for k, v in deferred.items()] if rng.random() < .5 else deferred, style, key, nest)
            h, s = Annotated[Carrier, u], None
        else:
            u = Union({k: TypeHint(v) for k, v in table.items()}, style, key, nest)
            h, s = Annotated[Carrier, u, "x"], None

        def shape(i, w):
            if style == Union.NESTED:
                return {key: i, nest or i: w}
            if style == Union.FLAT:
                return {**w, key: i}
            return {i: w}
        desc = f"Union({ {k: v.__name__ for k, v in table.items()} }, {style}, {key!r}, {nest!r}) form {form}"
        for i, M in table.items():
            if i == "" and style == Union.NESTED and not nest:
                continue
            v = vals[M]()
            w = dump(v, M)
            if style == Union.FLAT and key in w:
                continue
            sh = shape(i, w)
            b.eq(f"dump({v!r}) as {desc}", lambda: dump(v, h), sh)
            b.eq(f"load({sh!r}) as {desc}", lambda: load(sh, h), v)
            keep = copy_of(sh)
            outcome(lambda: load(sh, h))
            b.true(f"load({sh!r}) leaves the payload", same(sh, keep), show(keep), sh)
            # damaged payloads
            if style in (Union.NESTED, Union.FLAT):
                for bad in ({k: x for k, x in sh.items() if k != key}, {**sh, key: None}, {**sh, key: 1}, {**sh, key: [i]}, {**sh, key: True}, {**sh, key: i + "?"}, {**sh, key: {}}, {**sh, key: i.encode()}):
                    b.ce(f"load({bad!r}) as {desc}", lambda: load(bad, h))
                for j in table:
                    if j != i and style == Union.NESTED and (nest or not j == ""):
                        bad = {**sh, key: j}
                        if nest:
                            # selected by the discriminator alone
                            o = outcome(lambda: load(w, table[j]))
                            b.spec(f"load({bad!r}) as {desc}", lambda: load(bad, h), ("ok", o[1]) if o[0] == "ok" else ("CE",))
                        else:
                            b.ce(f"load({bad!r}) as {desc}", lambda: load(bad, h))
                    elif j != i and style == Union.FLAT:
                        bad = {**sh, key: j}
                        o = outcome(lambda: load(w, table[j]))
                        b.spec(f"load({bad!r}) as {desc}", lambda: load(bad, h), ("ok", o[1]) if o[0] == "ok" else ("CE",))
                if style == Union.NESTED:
                    bad = {k: x for k, x in sh.items() if k != (nest or i)}
                    b.ce(f"load({bad!r}) as {desc}", lambda: load(bad, h))
                    for bad_w in (None, Plain(), "zz9", [], {"nope": 1}):
                        o = outcome(lambda: load(bad_w, M))
                        bad = {**sh, (nest or i): bad_w}
                        b.spec(f"load({bad!r}) as {desc}", lambda: load(bad, h), ("ok", o[1]) if o[0] == "ok" else ("CE",))
                else:
                    b.ce(f"flat with an extra key, {desc}", lambda: load({**sh, "nope!": 1}, h))
            else:
                for bad in ({}, {**sh, i + "z": w}, {i + "zz": w}, {1: w}, {None: w}, {(1,): w}, {i: Plain()}, {**sh, 5: 5}):
                    b.ce(f"load({bad!r}) as {desc}", lambda: load(bad, h))
        for bad in (None, 1, "a", [], [1], list(table), True, (), Plain(), set(table)):
            b.ce(f"load({bad!r}) as {desc}", lambda: load(bad, h))
        for bad in (None, 1.5, Outside(), Outside, b"x", [], {}, A if A in table.values() else C, type("A", (A,), {})(), type("B", (B,), {})()):
            b.ce(f"dump({bad!r}) as {desc}", lambda: dump(bad, h))
        for M in (A, B, C, Empty):
            if M not in table.values():
                b.ce(f"dump({M.__name__}) as {desc}", lambda: dump(vals[M](), h))
    # generic aliases match by class; value of the alias parameter is honoured
    u = Union({"gi": G[int], "s": str}, Union.KEYED)
    h = Annotated[Carrier, u]
    um = Union({"gi": TypeHint(G[int]), "s": str}, Union.KEYED)
    for hh in (Annotated[Carrier, um],):
        b.eq("dump generic alias member", lambda: dump(G(1), hh), {"gi": {"g": 1}})
        b.eq("load generic alias member", lambda: load({"gi": {"g": 1}}, hh), G(1))
        b.ce("load generic alias member with a wrong parameter", lambda: load({"gi": {"g": "x"}}, hh))
    # nested unions
    inner = Annotated[Carrier, Union({"a": A, "c": C}, Union.FLAT)]
    outer = Annotated[Carrier, Union({"l": TypeHint(t.List[inner]), "e": Empty}, Union.KEYED)]
    b.eq("nested unions", lambda: load({"l": [{"type": "a", "x": 2}, {"type": "c", "zed": []}]}, outer), [A(2), C([])])
    flat_any = Annotated[Carrier, Union({"i": int, "a": A}, Union.FLAT)]
    b.ce("flat union with a scalar member, dump", lambda: dump(1, flat_any))
    b.eq("two ids of one type: first is used", lambda: dump(A(1), Annotated[Carrier, Union({"p": A, "q": A}, Union.KEYED)]), {"p": {"x": 1}})
    b.eq("two ids of one type: both load", lambda: load({"q": {"x": 1}}, Annotated[Carrier, Union({"p": A, "q": A}, Union.KEYED)]), A(1))
    for st in ("bogus", "", "NESTED"):
        hb = Annotated[Carrier, Union({"a": A}, st)]
        b.ce(f"unsupported style {st!r}, load", lambda: load({"type": "a", "a": {"x": 1}}, hb))
        b.ce(f"unsupported style {st!r}, dump", lambda: dump(A(1), hb))
    imp = Annotated[Carrier, Union("<import>")]
    qn = A.__module__ + ".A"
    b.eq("import union", lambda: load({"type": qn, qn: {"x": 3}}, imp), A(3))
    b.eq("import union, dump", lambda: dump(A(3), imp), {"type": qn, qn: {"x": 3}})
    for bad in ("nope.mod.X", "battery.unions.NOPE", "battery.nope", "", ".", "os", "os.getcwd"):
        b.ce(f"import union id {bad!r}", lambda: load({"type": bad, bad: {"x": 3}}, imp))


def copy_of(x):
    import copy
    return copy.deepcopy(x)


def p14(b):
    b.rules.append("plain unions of members with known acceptance sets x pool values against 'first member that converts'; member consultation order recorded")
    rng = b.rng
    mem = [int, str, bool, float, bytes, decimal.Decimal, uuid.UUID, Fruit, Num, A, B, C, Empty, datetime.date, pathlib.PurePath]
    vals = [v for v in JSONISH + ODD if not isinstance(v, types.GeneratorType)] + [
        A(1), B(2, "x"), C([1]), Empty(), {"x": 1}, {"x": 1, "y": "s"}, {"zed": [1]}, {"y": None}, "APPLE", "FIG", Fruit.FIG, Num.ONE, "00000000-0000-0000-0000-000000000005",
        uuid.UUID(int=3), pathlib.PurePath("a"), datetime.date(2020, 1, 1)]
    for _ in b.times(45):
        ms = rng.sample(mem, rng.randint(2, 5))
        U = t.Union[tuple(ms)]
        hints = [U, Annotated[U, fresh("x")]]  # (typing caches equal unions of another order)
        ids = ["i%d" % i for i in range(len(ms))]
        hints.append(Annotated[Carrier, Union(dict(zip(ids, ms)), Union.BEST_MATCH)])
        for v in rng.sample(vals, 40):
            for f, nm in ((load, "load"), (dump, "dump")):
                exp = ("CE",)
                for M in ms:
                    o = outcome(lambda: f(v, M))
                    if o[0] == "ok":
                        exp = ("ok", o[1])
                        break
                h = rng.choice(hints)
                b.spec(f"{nm}({show(v)}, {h})", lambda: f(v, h), exp)
    # consultation order
    for _ in b.times(60):
        ms = rng.sample([A, B, C, Empty, int, str], rng.randint(2, 5))
        fails = {M: rng.random() < .6 for M in ms}
        res = {M: rng.choice([("R", M), ("R", M), None, False, 0, "", [], {}]) for M in ms}
        seen = []

        class Rec(Converter):
            def convert(self, ctx):
                d = ctx.datatype
                if isinstance(d, ClassTypeHint) and d.type in fails:
                    seen.append(d.type)
                    if fails[d.type]:
                        raise ConversionError(self, ctx, "no")
                    return res[d.type]
                raise NotImplementedError
        m = ObjectMapper()
        from databind.json.converters import UnionConverter
        m.module.register(Rec())
        m.module.register(UnionConverter())
        h = rng.choice([t.Union[tuple(ms)], Annotated[t.Union[tuple(ms)], fresh("x")], Annotated[Carrier, Union({str(i): M for i, M in enumerate(ms)}, Union.BEST_MATCH)]])
        first = next((M for M in ms if not fails[M]), None)
        f = rng.choice([m.serialize, m.deserialize])
        d = f"members {[M.__name__ for M in ms]}, failing {[M.__name__ for M in ms if fails[M]]}, {h}"
        b.spec(d, lambda: f("v", h), ("ok", res[first]) if first else ("CE",))
        want = ms[: ms.index(first) + 1] if first else ms
        b.true("consulted: " + d, seen == want, show(want), seen)
    # other exceptions propagate
    class Boom(Converter):
        def convert(self, ctx):
            if isinstance(ctx.datatype, ClassTypeHint) and ctx.datatype.type is int:
                raise KeyError("boom")
            raise NotImplementedError
    m = get_object_mapper()
    m.module.register(Boom(), first=True)
    b.exc("an exception that is no ConversionError propagates", lambda: m.deserialize("x", t.Union[int, str]), KeyError)


class Mod:
    class Inner:
        class Deep:
            pass


def p15(b):
    b.rules.append("random histories of registrations/lookups on static and chained registries against a dict model; import registry over importable and other names")
    rng = b.rng
    classes = [A, B, C, Empty, Outside, int, str, G]
    for _ in b.times(150):
        n_eval = collections.Counter()

        def build():
            table, truth = {}, {}
            for i in rng.sample(["a", "b", "c", "d", "e", "f"], rng.randint(0, 5)):
                c = rng.choice(classes)
                k = rng.randrange(4)
                if k == 0:
                    def f(i=i, c=c):
                        n_eval[id(table), i] += 1
                        return c
                    table[i] = f
                elif k == 1:
                    table[i] = TypeHint(c) if c is not G else TypeHint(G[int])
                else:
                    table[i] = c
                truth[i] = c
            return table, truth
        def norm(x):
            return x.type if isinstance(x, ClassTypeHint) else x

        def first(truth, c):
            return next((i for i, x in truth.items() if x is c), None)
        regs = []
        for _ in range(rng.randint(1, 3)):
            table, truth = build()
            m = StaticUnionMembers(table) if rng.random() < .7 else StaticUnionMembers()
            if m.members is not table and not m.members:
                for i, c in table.items():
                    m.members[i] = c
            for _ in range(rng.randint(0, 2)):
                c = rng.choice([A, B, C, Empty])
                nm = rng.choice([None, "reg1", "reg2"])
                key = nm or c.__name__
                if key in truth and norm(m.get_type_by_id(key)) is not c:
                    continue
                r = m.register(nm)(c)
                b.true("register returns the class", r is c, "", "")
                truth[key] = c
            regs.append((m, truth))
        for m, truth in regs:
            d = f"StaticUnionMembers { {k: v.__name__ for k, v in truth.items()} }"
            for _ in range(2):
                b.eq("ids of " + d, m.get_type_ids, list(truth))
                for i in list(truth) + ["zz", "", "A?"]:
                    if i in truth:
                        o = outcome(lambda: m.get_type_by_id(i))
                        b.true(f"get_type_by_id({i!r}) of {d}", o[0] == "ok" and norm(o[1]) is truth[i], show(truth[i]), show_out(o))
                    else:
                        b.exc(f"get_type_by_id({i!r}) of {d}", lambda: m.get_type_by_id(i), ValueError)
                for c in classes + [bool, object]:
                    i = first(truth, c)
                    if i is None:
                        b.exc(f"get_type_id({c.__name__}) of {d}", lambda: m.get_type_id(c), ValueError)
                    else:
                        b.eq(f"get_type_id({c.__name__}) of {d}", lambda: m.get_type_id(c), i)
                for junk in (None, 5, "a", t.List[int]):
                    b.exc(f"get_type_id({junk!r}) of {d}", lambda: m.get_type_id(junk), ValueError)
        b.true("deferred types are evaluated at most once", all(v <= 1 for v in n_eval.values()), "", dict(n_eval))
        imp = rng.random() < .3
        ch = ChainUnionMembers(*[m for m, _ in regs], *([ImportUnionMembers()] if imp else []))
        d = f"chain of {[ {k: v.__name__ for k, v in tr.items()} for _, tr in regs]}{' + import' if imp else ''}"
        ids = []
        for _, tr in regs:
            ids += [i for i in tr if i not in ids]
        b.eq("ids of " + d, ch.get_type_ids, ids)
        for i in ids + ["zz9"]:
            src = next((tr for _, tr in regs if i in tr), None)
            if src is None:
                b.exc(f"get_type_by_id({i!r}) of {d}", lambda: ch.get_type_by_id(i), ValueError)
            else:
                o = outcome(lambda: ch.get_type_by_id(i))
                b.true(f"get_type_by_id({i!r}) of {d}", o[0] == "ok" and norm(o[1]) is src[i], show(src[i]), show_out(o))
        for c in classes + [bool]:
            src = next((tr for _, tr in regs if first(tr, c) is not None), None)
            if src is not None:
                b.eq(f"get_type_id({c.__name__}) of {d}", lambda: ch.get_type_id(c), first(src, c))
            elif imp:
                b.eq(f"get_type_id({c.__name__}) of {d}", lambda: ch.get_type_id(c), f"{c.__module__}.{c.__qualname__}")
            else:
                b.exc(f"get_type_id({c.__name__}) of {d}", lambda: ch.get_type_id(c), ValueError)
    I = ImportUnionMembers()
    import email.mime.text, xml.etree.ElementTree as ET, json.decoder
    for c in (A, Mod.Inner, Mod.Inner.Deep, int, collections.OrderedDict, decimal.Decimal, email.mime.text.MIMEText, ET.Element, json.decoder.JSONDecoder, Union, pathlib.PurePath):
        q = f"{c.__module__}.{c.__qualname__}"
        b.eq(f"import id of {q}", lambda: I.get_type_id(c), q)
        b.true(f"import of {q}", outcome(lambda: I.get_type_by_id(q))[1] is c, "", show_out(outcome(lambda: I.get_type_by_id(q))))
    class Local:
        pass
    for c in (Local, 5, None, "battery.unions.A", t.List[int], A()):
        b.exc(f"import id of {show(c)}", lambda: I.get_type_id(c), ValueError)
    for s in ("nope_mod.X", "os.nope", "os.path", "os", "battery.unions.Mod.Nope", "battery.unions.p13", "battery.unions.A.x.y", "json.nope.deep", "", ".", "a..b", "os.getcwd", "battery"):
        b.exc(f"import of {s!r}", lambda: I.get_type_by_id(s), ValueError)
    b.exc("import registry cannot list", I.get_type_ids, NotImplementedError)
    E = EntrypointUnionMembers("databind.verif.no-such-group")
    b.eq("entry point registry without entries", E.get_type_ids, [])
    b.exc("unknown entry point", lambda: E.get_type_by_id("x"), ValueError)
    b.exc("unknown entry point type", lambda: E.get_type_id(A), ValueError)
    # entry points of a group that exists here (console_scripts are functions; compare objects)
    from importlib.metadata import entry_points
    eps = {}
    for ep in entry_points(group="pytest11"):
        eps[ep.name] = ep
    E = EntrypointUnionMembers("pytest11")
    b.eq("entry point ids", E.get_type_ids, list(eps))
