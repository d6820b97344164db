"""P18, P20: dispatch over converters, contexts and error traces."""
import copy
from typing import Annotated

from typeapi import ClassTypeHint, TypeHint

from databind.core import *
from databind.core import (
    Alias, ConversionError, Context, Converter, DelegateToClassmethodConverter, ExtraKeys, Flattened, Location, Module, NoMatchingConverter, ObjectMapper, Priority,
    Remainder, Setting, Settings, Strict, Union, format_context_trace,
)
from databind.core.context import Direction
from databind.json import JsonModule, dump, get_object_mapper, load
from databind.json.settings import JsonConverter

from .lib import *
from .model import *


class SubError(Exception):
    pass


KINDS = [KeyError, RuntimeError, ValueError, TypeError, AttributeError, AssertionError, RecursionError, OverflowError, OSError, LookupError,
         SubError, ImportError, StopAsyncIteration, ArithmeticError, Exception, UnicodeError, NameError]


class Fake(Converter):
    n = 0

    def __init__(self, name, mode, log):
        self.name, self.mode, self.log = name, mode, log
        self.exc = None
        Fake.n += 1
        self.kind = KINDS[Fake.n % len(KINDS)]  # what "boom" raises

    def __repr__(self):
        return f"{self.name}:{self.mode}"

    def convert(self, ctx):
        self.log.append(self)
        if self.mode == "skip":
            raise NotImplementedError
        if self.mode == "skipmsg":
            raise NotImplementedError("no")
        if self.mode == "fail":
            self.exc = ConversionError(self, ctx, "no " + self.name)
            raise self.exc
        if self.mode == "nomatch":
            self.exc = NoMatchingConverter(self, ctx, [])
            raise self.exc
        if self.mode == "boom":
            self.exc = self.kind("boom")
            raise self.exc
        return {"none": None, "val": ("R", self.name), "false": False}[self.mode]


def root_ctx(value, hint, direction, module, settings=None, filename=None):
    return Context(None, direction, value, TypeHint(hint), settings or Settings(), Context.ROOT, Location(filename, None, None), module.convert)


def p18(b):
    b.rules.append("random module trees and registration histories of converters that return, do not apply, fail or raise; result, errors and consultation order against a model; JsonConverter and class-method delegation")
    rng = b.rng
    for _ in b.times(900):
        log = []
        n = [0]

        def conv():
            n[0] += 1
            return Fake(f"c{n[0]}", rng.choice(["skip"] * 4 + ["fail"] * 4 + ["skipmsg", "nomatch", "boom", "none", "val", "false"]), log)

        def module(depth):
            m, model = Module(f"m{depth}"), []
            for _ in range(rng.randint(0, 4)):
                if depth and rng.random() < .35:
                    c, e = module(depth - 1)
                else:
                    c = e = conv()
                first = rng.random() < .3
                if first:
                    m.register(c, True)
                    model.insert(0, e)
                elif rng.random() < .5:
                    m.register(c)
                    model.append(e)
                else:
                    m.register(c, first=False)
                    model.append(e)
            return m, model

        def flat(model):
            return [y for x in model for y in (flat(x) if isinstance(x, list) else [x])]

        m, model = module(3)
        order = flat(model)
        direction = rng.choice(list(Direction))
        ctx = root_ctx(rng.choice([None, 1, "x"]), int, direction, m)
        o = outcome(lambda: list(m.get_converters(ctx)))
        b.true(f"get_converters of {model}", o[0] == "ok" and len(o[1]) == len(order) and all(x is y for x, y in zip(o[1], order)), show(order), show_out(o))
        stop = next((c for c in order if c.mode in ("none", "val", "false", "boom")), None)
        want = order[: order.index(stop) + 1] if stop else order
        for call in (lambda: m.convert(ctx), ctx.convert):
            log.clear()
            o = outcome(call)
            d = f"convert with {model}"
            b.true("consulted: " + d, len(log) == len(want) and all(x is y for x, y in zip(log, want)), show(want), show(log))
            fails = [c for c in want if c.mode in ("fail", "nomatch")]
            if stop is not None and stop.mode == "boom":
                b.true(d, o[0] == "exc" and o[1] is stop.exc, "the " + stop.kind.__name__, show_out(o))
            elif stop is not None:
                e = {"none": None, "val": ("R", stop.name), "false": False}[stop.mode]
                b.true(d, o[0] == "ok" and same(o[1], e), show(e), show_out(o))
            elif len(fails) == 1:
                b.true(d, o[0] == "CE" and o[1] is fails[0].exc, "the error of " + show(fails[0]), show_out(o))
            else:
                ok = o[0] == "CE" and type(o[1]) is NoMatchingConverter and o[1].context is ctx and o[1].origin is m
                ok = ok and len(o[1].errors) == len(fails) and all(c is f and e is f.exc for (c, e), f in zip(o[1].errors, fails))
                b.true(d, ok, f"NoMatchingConverter with the errors of {fails}", show_out(o) + show(getattr(o[1], "errors", None)))
                b.true("str of it", isinstance(outcome(lambda: str(o[1]))[1], str), "", "")
    # default dispatch of a converter
    class SD(Converter):
        def serialize(self, ctx):
            return "S"

        def deserialize(self, ctx):
            return "D"

    m = Module("x")
    m.register(SD())
    b.eq("serialize()", lambda: m.convert(root_ctx(1, int, Direction.SERIALIZE, m)), "S")
    b.eq("deserialize()", lambda: m.convert(root_ctx(1, int, Direction.DESERIALIZE, m)), "D")
    class Nothing(Converter):
        pass
    m = Module("y")
    m.register(Nothing())
    for dr in Direction:
        b.exc("a converter without methods does not apply", lambda: m.convert(root_ctx(1, int, dr, m)), NoMatchingConverter)
    b.exc("empty module", lambda: Module("z").convert(root_ctx(1, int, Direction.SERIALIZE, m)), NoMatchingConverter)
    for bad in (None, 5, Fake, "x"):
        o = outcome(lambda: Module("w").register(bad))
        b.true(f"register({bad!r})", o[0] == "exc", "an error", show_out(o))
    # JsonConverter: asked before the built-in converters, wherever it is given
    for _ in b.times(150):
        log = []
        mode = rng.choice(["val", "none", "skip", "fail", "boom"])
        f = Fake("custom", mode, log)
        made = []
        given = rng.choice([f, lambda: (made.append(1), f)[1]])
        jc = JsonConverter(given)
        K = dataclasses.dataclass(type(fresh("K"), (), {"__annotations__": {"a": int}, "__module__": __name__}))
        typ, payload, builtin = rng.choice([(K, {"a": 1}, K(1)), (int, 3, 3), (str, "s", "s"), (t.List[int], [1], [1]), (t.Optional[int], None, None), (t.Any, 5, 5), (uuid.UUID, str(uuid.UUID(int=1)), uuid.UUID(int=1)), (Fruit, "APPLE", Fruit.APPLE)])
        mp = get_object_mapper()
        how = rng.choice(["hint", "call", "local", "cond", "global", "class"])
        h, s = typ, None
        if how == "hint" or how == "class" and typ is not K or how == "local" and (typ is t.Any or not isinstance(typ, type)):
            h = Annotated.__class_getitem__((typ, jc))
        elif how == "call":
            s = [jc]
        elif how == "local":
            mp.settings.add_local(typ, jc)
        elif how == "cond":
            mp.settings.add_conditional(lambda c: c.parent is None, jc)
        elif how == "global":
            mp.settings.add_global(jc)
        else:
            jc(K)
        d = f"JsonConverter({mode}) for {typ} given by {how}"
        f_ = rng.choice([mp.deserialize, mp.serialize])
        v = payload if f_ == mp.deserialize else builtin
        o = outcome(lambda: f_(v, h, settings=s))
        b.true("asked: " + d, bool(log) and log[0] is f, "", show(log))
        if mode in ("val", "none"):
            b.true(d, o[0] == "ok" and same(o[1], ("R", "custom") if mode == "val" else None), "result of the custom converter", show_out(o))
        elif mode == "boom":
            b.true(d, o[0] == "exc" and o[1] is f.exc, "KeyError", show_out(o))
        else:
            # falls through to the built-in converters
            if how in ("hint", "local", "class", "cond") or typ in (int, str, uuid.UUID, Fruit, t.Any):
                e = builtin if f_ == mp.deserialize else payload
                b.true(d, o[0] == "ok" and same(o[1], e), show(e), show_out(o))
        if given is not f:
            b.true("supplier called: " + d, len(made) >= 1, "", "")
    # two settings: priority and order
    a1, a2 = Fake("a1", "val", []), Fake("a2", "val", [])
    b.eq("first of two JsonConverters", lambda: load(1, Annotated[int, JsonConverter(a1), JsonConverter(a2)]), ("R", "a1"))
    b.eq("subclasses are not affected by a decorated base", lambda: load({"a": 1}, SubK), SubK(1))
    # class-method delegation
    calls = []

    @JsonConverter.using_classmethods(str, serialize="to_text", deserialize="of")
    class Txt:
        def __init__(self, s):
            self.s = s

        def __eq__(self, o):
            return type(o) is type(self) and o.s == self.s

        def to_text(self):
            calls.append(("to", self))
            return "<" + self.s + ">"

        @classmethod
        def of(cls, s):
            calls.append(("of", cls, s))
            return cls(s[1:-1])

    class SubTxt(Txt):
        def to_text(self):
            return "sub"

    for h in (Txt, Annotated[Txt, "x"], Annotated[Txt, "x", 5]):
        b.eq(f"load as {h}", lambda: load("<a>", h), Txt("a"))
        calls.clear()
        b.eq(f"dump as {h}", lambda: dump(Txt("b"), h), "<b>")
        b.true("the method is called once", len(calls) == 1, "", calls)
        calls.clear()
        for bad in (1, None, ["<a>"], b"<a>", Txt("x")):
            b.ce(f"load({bad!r}) as {h}", lambda: load(bad, h))
        for bad in (1, None, "<a>", Plain()):
            b.ce(f"dump({bad!r}) as {h}", lambda: dump(bad, h))
        b.true("methods are not called for values of another type", not calls, "", calls)
    b.eq("in a list", lambda: load(["<a>", "<b>"], t.List[Txt]), [Txt("a"), Txt("b")])
    b.eq("in a dict", lambda: dump({"k": Txt("b")}, t.Dict[str, Txt]), {"k": "<b>"})
    for ser, de, st in ((None, "of", None), ("to_text", None, None), (None, None, str), ("to_text", "of", (str, int)), ("to_text", "of", None)):
        jc = JsonConverter.using_classmethods(st, serialize=ser, deserialize=de)
        class T2(Txt):
            pass
        h = Annotated[T2, jc]
        d = f"using_classmethods({st}, serialize={ser}, deserialize={de})"
        if de:
            b.eq("load " + d, lambda: load("<q>", h), T2("q"))
            b.exc("load of an int " + d, lambda: load(5, h), (TypeError if st in (None, (str, int)) else ConversionError))
        else:
            b.ce("load does not apply " + d, lambda: load("<q>", h))
        if ser:
            b.eq("dump " + d, lambda: dump(T2("q"), h), "<q>")
            b.ce("dump of a base instance " + d, lambda: dump(Txt("q"), h))
        else:
            b.ce("dump does not apply " + d, lambda: dump(T2("q"), h))
        b.ce("no class hint " + d, lambda: load("<q>", Annotated[t.Union[int, str], jc]) if False else load(Plain(), Annotated[t.Union[int, str], jc]))
    b.eq("dump calls the method of the declared type", lambda: dump(SubTxt("q"), Txt), "<q>")

    class ValErr:
        @classmethod
        def of(cls, s):
            raise KeyError(s)
    b.exc("exceptions of the method propagate", lambda: load("x", Annotated[ValErr, JsonConverter.using_classmethods(deserialize="of")]), KeyError)
    # registered modules of mappers
    for _ in b.times(20):
        log = []
        mp = get_object_mapper()
        fs = [Fake(f"f{i}", rng.choice(["skip", "fail", "val"]), log) for i in range(3)]
        for f in fs:
            mp.module.register(f, first=True)
        log.clear()
        o = outcome(lambda: mp.deserialize(4, int))
        want = list(reversed(fs))
        st = next((f for f in want if f.mode == "val"), None)
        e = ("R", st.name) if st else 4
        b.true(f"mapper with {want} first", o[0] == "ok" and same(o[1], e), show(e), show_out(o))


@JsonConverter(Fake("decorated", "val", []))
@dataclasses.dataclass
class DecK:
    a: int


@dataclasses.dataclass
class SubK(DecK):
    pass


class Rec(Converter):
    def __init__(self):
        self.seen = []

    def convert(self, ctx):
        self.seen.append(ctx)
        raise NotImplementedError


def path_of(ctx):
    p = []
    while ctx is not None:
        p.append(ctx.key)
        ctx = ctx.parent
    return p[::-1]


BAD = Plain()


def damage(T_, w, v, rng, load_):
    """(path, damaged value): replace one place of *w* (loading; *v* is the value it was dumped from) or of *v* (dumping)."""
    cur = w if load_ else v
    opts = []
    if isinstance(T_, Simple):
        return [], BAD
    if isinstance(T_, AnyT) or isinstance(T_, BestT):
        return None
    here = ([], BAD)
    if isinstance(T_, Opt):
        if v is None:
            return [None], BAD
        r = damage(T_.inner, w, v, rng, load_)
        return r and ([None] + r[0], r[1])
    if isinstance(T_, (Coll, Tup)):
        if not cur or rng.random() < .15 or isinstance(cur, (set, frozenset)) or isinstance(v, (set, frozenset)):
            return here
        i = rng.randrange(len(cur))
        it = T_.inner if isinstance(T_, Coll) else T_.inners[i]
        r = damage(it, list(w)[i], list(v)[i], rng, load_)
        if r is None:
            return here
        out = list(cur)
        out[i] = r[1]
        return [i] + r[0], out if load_ else (collections.deque(out) if type(cur) is collections.deque else type(cur)(out))
    if isinstance(T_, Map):
        if not cur or rng.random() < .15:
            return here
        kw, kv = rng.choice([(T_.key.wire(k), k) for k in v])
        r = damage(T_.val, w[kw], v[kv], rng, load_)
        if r is None:
            return here
        out = type(cur)(cur)
        out[kw if load_ else kv] = r[1]
        return [kw if load_ else kv] + r[0], out
    if isinstance(T_, Struct):
        fs = T_.present(v)
        if not fs or rng.random() < .15:
            return here
        f = rng.choice(fs)
        x = T_.get(v, f)
        if load_:
            if f.flattened:
                sub = f.typ.wire(x)
                fs2 = [g for g in f.typ.fields if not g.flattened and not g.remainder and g.key() in w and (g.name in x if f.typ.style == "td" else True)]
                if not fs2:
                    return here
                g = rng.choice(fs2)
                r = damage(g.typ, w[g.key()], f.typ.get(x, g), rng, True)
                return (here if r is None else ([f.name, g.name] + r[0], {**w, g.key(): r[1]}))
            if f.remainder:
                if not x:
                    return here
                k = rng.choice(list(x))
                kw = f.typ.key.wire(k)
                r = damage(f.typ.val, w[kw], x[k], rng, True)
                return here if r is None else ([f.name, kw] + r[0], {**w, kw: r[1]})
            r = damage(f.typ, w[f.key()], x, rng, True)
            return here if r is None else ([f.name] + r[0], {**w, f.key(): r[1]})
        r = damage(f.typ, None if f.flattened or f.remainder else T_.wire(v)[f.key()], x, rng, False) if not (f.flattened or f.remainder) else damage(f.typ, f.typ.wire(x), x, rng, False)
        if r is None:
            return here
        if T_.style == "td":
            out = {**v, f.name: r[1]}
        elif T_.style == "nt":
            out = v._replace(**{f.name: r[1]})
        else:
            out = copy.copy(v)
            object.__setattr__(out, f.name, r[1])
        return [f.name] + r[0], out
    if isinstance(T_, UnionT):
        i, m = next((i, m) for i, m in T_.members.items() if type(v) is m.hint)
        if rng.random() < .15:
            return here
        if not load_:
            if not isinstance(m, Struct):
                return None
            r = damage(m, m.wire(v), v, rng, False)
            return here if r is None or r[1] is BAD else ([None] + r[0], r[1])
        if T_.style == "flat":
            sub = {k: x for k, x in w.items() if k != T_.key}
            r = damage(m, sub, v, rng, True)
            return here if r is None or r[1] is BAD else ([None] + r[0], {**r[1], T_.key: i})
        k = (T_.nesting or i) if T_.style == "nested" else i
        r = damage(m, w[k], v, rng, True)
        return here if r is None else ([k] + r[0], {**w, k: r[1]})
    raise AssertionError(T_)


def p20(b):
    b.rules.append("random types x payloads/values damaged at one random place: the context chain of the error spells the path; contexts of all conversions recorded; traces of random context chains; str of errors over odd values and keys")
    rng = b.rng
    for _ in b.times(420):
        g = Gen(rng, max_depth=rng.choice([1, 2, 3, 4]))
        T_ = g.typ()
        v = T_.gen(rng)
        w = T_.wire(v)
        for load_ in (True, False):
            r = damage(T_, w, v, rng, load_)
            if r is None:
                continue
            path, bad = r
            rec = Rec()
            m = get_object_mapper()
            m.module.register(rec, first=True)
            fname = rng.choice([None, "f.json"])
            d = f"{'load' if load_ else 'dump'}({show(bad, 400)}, {T_})"
            fn = m.deserialize if load_ else m.serialize
            o = outcome(lambda: fn(bad, T_.hint, fname))
            if o[0] != "CE":
                b.bad(d, "a ConversionError", show_out(o))
                continue
            ctx = o[1].context
            got = path_of(ctx)
            b.true("error path of " + d, same(got, [Context.ROOT] + path), show(path), show(got))
            b.true("value at the error of " + d, ctx.value is BAD, "", show(ctx.value))
            chk_contexts(b, d, rec, m, load_, bad, fname)
            s = outcome(lambda: str(o[1]))
            b.true("str of the error of " + d, s[0] == "ok" and isinstance(s[1], str), "a string", show_out(s))
        # contexts of a successful conversion
        rec = Rec()
        m = get_object_mapper()
        m.module.register(rec, first=True)
        o = outcome(lambda: m.deserialize(w, T_.hint, "g"))
        chk_contexts(b, f"load({show(w, 300)}, {T_})", rec, m, True, w, "g")
        exp = sorted(map(repr, [[Context.ROOT] + p for p in load_paths(T_, w, v)]))
        got = sorted(map(repr, [path_of(c) for c in rec.seen if not is_key(c)]))
        if exp is not None and not has(T_, (BestT,)):
            b.true(f"contexts of load({show(w, 300)}, {T_})", exp == got, show(exp), show(got))
    # traces
    hints = [int, str, t.List[int], t.Dict[str, int], Annotated[int, 1], t.Optional[str], t.Any, Fruit]
    keys = ["a", "b c", 0, 1, 17, -1, True, None, 1.5, ("x", 1), b"k", Fruit.FIG, Plain(), "", frozenset({1}), StrSub("q")]
    for _ in b.times(300):
        names = [None, None, "a.json", "b.json", "dir/c", "x\u00e9"]
        fn = rng.choice(names)
        st = Settings()
        c = Context(None, rng.choice(list(Direction)), 0, TypeHint(rng.choice(hints)), st, Context.ROOT, Location(fn, rng.choice([None, 3]), rng.choice([None, 4])), lambda c: ("conv", c))
        chain = [c]
        for _ in range(rng.randint(0, 8)):
            k, h = rng.choice(keys), rng.choice(hints)
            loc = None
            if rng.random() < .4:
                f2 = rng.choice([x for x in names if x is not None or c.location.filename is None])
                loc = Location(f2, rng.choice([None, 1, 7]), rng.choice([None, 2]))
            val = object()
            p = c
            c = p.spawn(val, h if rng.random() < .5 else TypeHint(h), k, *([loc] if loc else []))
            ok = c.parent is p and c.value is val and same(c.key, k) and c.direction is p.direction and c.settings is p.settings and c.convert_func is p.convert_func
            ok = ok and c.datatype == TypeHint(h) and c.location == (loc or Location(p.location.filename, None, None))
            b.true(f"spawn(.., {h}, {k!r}, {loc})", ok, "fields of the new context", show(c))
            chain.append(c)
        up = outcome(lambda: list(c.iter_hierarchy_up()))
        b.true(f"iter_hierarchy_up of {[x.key for x in chain]}", up[0] == "ok" and len(up[1]) == len(chain) and all(x is y for x, y in zip(up[1], reversed(chain))), "", show_out(up))
        b.true("convert() calls the convert function with the context", c.convert()[1] is c, "", "")
        exp = []
        prev = None
        for x in chain:
            if x.location.filename is not None and x.location.filename != prev:
                exp.append(("file", x.location.filename))
                prev = x.location.filename
            exp.append(("ctx", x))
        o = outcome(lambda: format_context_trace(c))
        ok = o[0] == "ok"
        if ok:
            lines = o[1].split("\n")
            ok = len(lines) == len(exp)
            for ln, (kind, x) in zip(lines, exp):
                if kind == "file":
                    ok = ok and x in ln
                else:
                    ok = ok and str(x.datatype) in ln and (x.key is Context.ROOT or x.key is None or str(x.key) in ln)
                    for num in (x.location.line, x.location.column):
                        ok = ok and (num is None or str(num) in ln)
        b.true(f"trace of {[(x.key, str(x.datatype), x.location.filename) for x in chain]}", ok, "one line per context and file change", show_out(o))
        e = ConversionError(Rec(), c, "msg", [(Rec(), ConversionError(Rec(), chain[0], "sub"))] if rng.random() < .5 else None)
        o = outcome(lambda: str(e))
        b.true("str(ConversionError)", o[0] == "ok" and "msg" in o[1] and all(str(x.datatype) in o[1] for x in chain), "message and trace", show_out(o))

    class BadRepr:
        def __repr__(self):
            raise RuntimeError("no repr")

    class BadHash(BadRepr):
        def __str__(self):
            raise RuntimeError("no str")
    for v in (BadRepr(), [BadRepr()], {"a": BadRepr()}, "\ud800", {"\ud800": Plain()}, BadHash()):
        for h in (int, str, t.List[int], t.Dict[str, int], t.Dict[int, str], t.Optional[int], t.Union[int, str], t.Tuple[int, str], Fruit, uuid.UUID, t.Set[str]):
            o = outcome(lambda: load(v, h))
            if o[0] == "CE":
                s = outcome(lambda: str(o[1]))
                b.true(f"str of the error for {type(v).__name__} as {h}", s[0] == "ok" and isinstance(s[1], str), "a string", show_out(s))
    for k in (BadRepr(), BadHash(), Plain()):
        e = ConversionError(Rec(), root_ctx(1, int, Direction.SERIALIZE, Module("m")).spawn(2, int, k), "msg", [(BadRepr(), ValueError("x"))])
        s = outcome(lambda: str(e))
        b.true(f"str of an error with the key {type(k).__name__}", s[0] == "ok" and isinstance(s[1], str), "a string", show_out(s))


def has(T_, kinds):
    if isinstance(T_, kinds):
        return True
    subs = getattr(T_, "inners", None) or [x for x in (getattr(T_, "inner", None), getattr(T_, "key", None), getattr(T_, "val", None)) if isinstance(x, T)]
    if isinstance(T_, Struct):
        subs = [f.typ for f in T_.fields]
    if isinstance(T_, UnionT):
        subs = list(T_.members.values())
    return any(has(s, kinds) for s in subs)


def is_key(c):
    while c is not None:
        if isinstance(c.key, str) and c.key.startswith("Key("):
            return True
        c = c.parent
    return False


def load_paths(T_, w, v):
    """The paths of all values converted when loading *w* (dumped from *v*)."""
    out = [[]]

    def add(k, sub):
        out.extend([k] + p for p in sub)
    if isinstance(T_, Opt):
        if v is not None:
            add(None, load_paths(T_.inner, w, v))
    elif isinstance(T_, (Coll, Tup)):
        for i, (x, y) in enumerate(zip(w, v)):
            add(i, load_paths(T_.inner if isinstance(T_, Coll) else T_.inners[i], x, y))
    elif isinstance(T_, Map):
        for k in v:
            kw = T_.key.wire(k)
            add(kw, load_paths(T_.val, w[kw], v[k]))
    elif isinstance(T_, Struct):
        for f in T_.present(v):
            x = T_.get(v, f)
            add(f.name, load_paths(f.typ, f.typ.wire(x), x))
    elif isinstance(T_, UnionT):
        i, m = next((i, m) for i, m in T_.members.items() if type(v) is m.hint)
        k = {"flat": None, "keyed": i, "nested": T_.nesting or i}[T_.style]
        add(k, load_paths(m, m.wire(v), v))
    return out


def chk_contexts(b, d, rec, m, load_, root, fname):
    ids = {id(c) for c in rec.seen}
    ok = bool(rec.seen) and rec.seen[0].parent is None and rec.seen[0].value is root and rec.seen[0].key is Context.ROOT
    for c in rec.seen:
        ok = ok and c.direction is (Direction.DESERIALIZE if load_ else Direction.SERIALIZE) and c.settings is rec.seen[0].settings and c.location.filename == fname
        ok = ok and (c.parent is None or id(c.parent) in ids)
    b.true("contexts of " + d, ok, "parents, direction, settings and file name inherited", show(rec.seen))
