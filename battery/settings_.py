"""P16, P17: lookup of settings, class decorators."""
from typing import Annotated

from typeapi import TypeHint

from databind.core import *
from databind.core import (
    Alias, ClassDecoratorSetting, Context, ExtraKeys, ObjectMapper, Priority, Setting, Settings, SettingsProvider, Strict, Union,
    get_annotation_setting, get_class_setting, get_class_settings, get_highest_setting,
)
from databind.core.context import Direction, Location
from databind.core.settings import BooleanSetting
from databind.core.union import StaticUnionMembers
from databind.json import dump, get_object_mapper, load

from .lib import *
from .model import fresh


class _P:
    def __init__(self, priority, name):
        super().__init__()
        self.priority, self.name = priority, name

    def __repr__(self):
        return f"{self.name}:{int(self.priority)}"


class S1(_P, Setting):
    pass


class S1b(S1):
    pass


class S2(_P, Setting):
    pass


class D1(_P, ClassDecoratorSetting):
    pass


class D2(_P, ClassDecoratorSetting):
    pass


class Falsy(_P, Setting):
    def __bool__(self):
        return False


KINDS = [S1, S1b, S2, D1, D2, Falsy]
X = t.TypeVar("X")


def ctx_of(hint, settings, key="k", parent=True):
    root = Context(None, Direction.DESERIALIZE, None, TypeHint(int), settings, Context.ROOT, Location.EMPTY, lambda c: None)
    return root.spawn(None, hint, key) if parent else Context(None, Direction.DESERIALIZE, None, TypeHint(hint), settings, Context.ROOT, Location.EMPTY, lambda c: None)


def highest(items):
    best = None
    for s in items:
        if best is None or s.priority > best.priority:
            best = s
    return best


def p16(b):
    b.rules.append("random histories of adding settings at every place (annotation, class, local, provider, global, chain of parents) with random types and priorities; every lookup against 'first of the highest'; get_highest_setting on random lists")
    rng = b.rng
    n = [0]

    def mk(kinds=KINDS):
        n[0] += 1
        return rng.choice(kinds)(rng.choice(list(Priority)), f"s{n[0]}")

    for _ in b.times(400):
        base = type(fresh("Cls"), (), {})
        sub = type(fresh("Sub"), (base,), {})
        other = type(fresh("Oth"), (), {})
        gen = type(t.Generic)(fresh("Gen"), (), {}) if False else types.new_class(fresh("Gen"), (t.Generic[X],))
        classes = [base, sub, other, gen]
        decor = {c: [] for c in classes}
        for c in rng.sample(classes, rng.randint(0, 4)):
            for _ in range(rng.randint(0, 3)):
                s = mk([D1, D2])
                s(c)
                decor[c].append(s)
        chain = []
        for level in range(rng.randint(1, 3)):
            g = [mk() for _ in range(rng.randint(0, 2))]
            st = Settings(chain[-1][0] if chain else None, list(g) if g or rng.random() < .5 else None)
            loc = {}
            provs = []
            for _ in range(rng.randint(0, 5)):
                r = rng.randrange(5)
                if r == 0:
                    s = mk()
                    st.add_global(s)
                    g.append(s)
                elif r == 1:
                    s, c = mk(), rng.choice(classes + [int, list, dict, tuple])
                    st.add_local(c, s)
                    loc.setdefault(c, []).append(s)
                elif r == 2:
                    s = mk()
                    keys = set(rng.sample(["k", "q", 1, None, Context.ROOT], 3))
                    st.add_conditional(lambda c, keys=keys: c.key in keys, s)
                    provs.append(lambda c, keys=keys, s=s: [s] if c.key in keys else [])
                elif r == 3:
                    ss = [mk() for _ in range(rng.randint(0, 3))]
                    st.add_provider(lambda c, ss=ss: ss)
                    provs.append(lambda c, ss=ss: ss)
                else:
                    ss = [mk() for _ in range(rng.randint(1, 2))]
                    st.add_provider(lambda c, ss=ss: iter(ss) if c.parent else [])
                    provs.append(lambda c, ss=ss: ss if c.parent else [])
            chain.append((st, g, loc, provs))

        def ref(level, ctx, meta, cls, T_):
            st, g, loc, provs = chain[level]
            items = list(meta)
            if cls is not None:
                items += decor.get(cls, []) + loc.get(cls, [])
            for p in provs:
                items += p(ctx)
            items += g
            items = [s for s in items if isinstance(s, T_)]
            if level:
                s = ref(level - 1, ctx, meta, cls, T_)
                if s is not None:
                    items.append(s)
            return highest(items)

        for _ in range(8):
            inner, cls = rng.choice([(base, base), (sub, sub), (other, other), (gen, gen), (gen[int], gen), (t.Union[base, other], None), (t.List[base], list),
                                     (t.Optional[base], None), (t.Literal["a"], None), (int, int), (bool, bool), (t.Tuple[int, str], tuple)])
            meta, h = [], inner
            for _ in range(rng.randint(0, 2)):
                ms = [rng.choice([mk(), mk(), "junk", S1, 7]) for _ in range(rng.randint(1, 3))]
                h = Annotated.__class_getitem__((h, *ms))
                meta += [m for m in ms if isinstance(m, Setting)]
            level = rng.randrange(len(chain))
            ctx = ctx_of(h, chain[level][0], rng.choice(["k", "q", 1, None, "zz"]), rng.random() < .8)
            T_ = rng.choice(KINDS + [Setting, ClassDecoratorSetting, Alias])
            e = ref(level, ctx, meta, cls, T_)
            d = f"get_setting({T_.__name__}) for {h} key {ctx.key!r}: decorated {decor}, levels {[(g, loc) for _, g, loc, _ in chain[:level + 1]]}"
            o = outcome(lambda: ctx.get_setting(T_))
            b.true(d, o[0] == "ok" and o[1] is e, show(e), show_out(o))
            o = outcome(lambda: chain[level][0].get_setting(ctx, T_))
            b.true("(Settings) " + d, o[0] == "ok" and o[1] is e, show(e), show_out(o))
            ea = highest([s for s in meta if isinstance(s, T_)])
            o = outcome(lambda: get_annotation_setting(TypeHint(h), T_))
            b.true(f"get_annotation_setting({h}, {T_.__name__})", o[0] == "ok" and o[1] is ea, show(ea), show_out(o))
        for c in classes:
            for T_ in (D1, D2, ClassDecoratorSetting, Union):
                e = [s for s in decor[c] if isinstance(s, T_)]
                o = outcome(lambda: list(get_class_settings(c, T_)))
                b.true(f"get_class_settings({c.__name__}, {T_.__name__}) with {decor}", o[0] == "ok" and len(o[1]) == len(e) and all(x is y for x, y in zip(o[1], e)), show(e), show_out(o))
                o = outcome(lambda: get_class_setting(c, T_))
                b.true(f"get_class_setting({c.__name__}, {T_.__name__}) with {decor}", o[0] == "ok" and o[1] is highest(e), show(highest(e)), show_out(o))
        items = [mk() for _ in range(rng.randint(0, 6))]
        for it in (items, iter(items), tuple(items)):
            o = outcome(lambda: get_highest_setting(it))
            b.true(f"get_highest_setting({items})", o[0] == "ok" and o[1] is highest(items), show(highest(items)), show_out(o))
    # a parent that is no Settings object, and settings given to a call
    class Prov(SettingsProvider):
        def __init__(self, s):
            self.s = s

        def get_setting(self, context, setting_type):
            return self.s if isinstance(self.s, setting_type) else None
    for pa in Priority:
        for pb in Priority:
            sa, sb = S1(pa, "parent"), S1(pb, "own")
            st = Settings(Prov(sa), [sb])
            e = sa if pa > pb else sb
            o = outcome(lambda: st.get_setting(ctx_of(int, st), S1))
            b.true(f"parent provider {sa}, own global {sb}", o[0] == "ok" and o[1] is e, show(e), show_out(o))
    # effect on conversions: levels and priorities
    for _ in b.times(150):
        levels = []
        m = get_object_mapper()
        h = int
        call = None
        places = rng.sample(["hint", "local", "cond", "global", "call"], rng.randint(1, 5))
        vals = {p: (rng.random() < .5, rng.choice(list(Priority))) for p in places}
        for p, (en, pr) in vals.items():
            s = Strict(en, pr)
            if p == "hint":
                h = Annotated[int, s]
            elif p == "local":
                m.settings.add_local(int, s)
            elif p == "cond":
                m.settings.add_conditional(lambda c: True, s)
            elif p == "global":
                m.settings.add_global(s)
            else:
                call = [s]
        # the settings of the call come before everything else of the mapper, but after the annotation
        order = ["hint", "call", "local", "cond", "global"]
        best = highest([Strict(*vals[p]) for p in order if p in vals])
        spec = ("CE",) if best.enabled else ("ok", 12)
        b.spec(f"load('12', int) with Strict at {vals}", lambda: m.deserialize("12", h, settings=call), spec)


def p17(b):
    b.rules.append("random class trees, decoration histories and registrations; settings of every class compared with the model after every step")
    rng = b.rng
    for _ in b.times(200):
        classes = []
        own = {}
        hist = []
        used = []
        for step in range(rng.randint(2, 12)):
            r = rng.random()
            if not classes or r < .4:
                k = min(len(classes), rng.choice([0, 1, 1, 2]))
                bases = []
                for c in rng.sample(classes, k):
                    if not any(issubclass(c, x) or issubclass(x, c) for x in bases):
                        bases.append(c)
                try:
                    c = type(fresh("K"), tuple(bases), {})
                except TypeError:
                    continue
                if rng.random() < .3:
                    c = dataclasses.dataclass(c)
                classes.append(c)
                own[c] = []
                hist.append(f"class {c.__name__}({', '.join(x.__name__ for x in bases)})")
            elif r < .8:
                c = rng.choice(classes)
                s = rng.choice([lambda: D1(Priority.NORMAL, fresh("d")), lambda: ExtraKeys(), lambda: Union({"i": int}), lambda: D2(Priority.LOW, fresh("d"))])()
                hist.append(f"{type(s).__name__} on {c.__name__}")
                o = outcome(lambda: s(c))
                b.true("; ".join(hist), o[0] == "ok" and o[1] is c, "the class itself", show_out(o))
                own[c].append(s)
                used.append(s)
            elif used:
                s, c = rng.choice(used), rng.choice(classes)
                hist.append(f"again {type(s).__name__} on {c.__name__}")
                b.exc("; ".join(hist), lambda: s(c), RuntimeError)
            for c in classes:
                for T_ in (ClassDecoratorSetting, D1, ExtraKeys, Union):
                    e = [s for s in own[c] if isinstance(s, T_)]
                    o = outcome(lambda: list(get_class_settings(c, T_)))
                    b.true(f"settings of {c.__name__} after " + "; ".join(hist), o[0] == "ok" and len(o[1]) == len(e) and all(x is y for x, y in zip(o[1], e)), show(e), show_out(o))
                    st = Settings()
                    o = outcome(lambda: st.get_setting(ctx_of(c, st), T_))
                    b.true(f"setting in effect for {c.__name__} after " + "; ".join(hist), o[0] == "ok" and o[1] is highest(e), show(highest(e)), show_out(o))
    for bad in (5, None, "int", t.List[int]):
        o = outcome(lambda: ExtraKeys()(bad))
        b.true(f"decorating {bad!r}", o[0] == "exc", "an error", show_out(o))
    for cls in (Setting, ClassDecoratorSetting, BooleanSetting):
        b.exc(f"{cls.__name__}()", cls, TypeError)
    # union registration through the base class
    for _ in b.times(120):
        bases = []
        for _ in range(rng.randint(1, 3)):
            parent = rng.choice([object] + [x for x, _ in bases]) if rng.random() < .4 else object
            B = type(fresh("UB"), (parent,), {})
            style = rng.choice([Union.NESTED, Union.KEYED, Union.FLAT])
            Union(style=style)(B)
            bases.append((B, {}))
        hist = []
        for _ in range(rng.randint(1, 6)):
            i = rng.randrange(len(bases))
            B, reg = bases[i]
            P = rng.choice([B] + list(reg.values()))
            C = type(fresh("UM"), (P,), {"__annotations__": {"x": int}})
            C.__module__ = __name__
            C = dataclasses.dataclass(C)
            name = rng.choice([None, None, fresh("nm"), "same"])
            if name == "same" and name in reg:
                name = None
            o = outcome(lambda: Union.register(B, name)(C) if name else rng.choice([lambda: Union.register(B)(C), lambda: Union.register(B, None)(C)])())
            hist.append(f"{C.__name__} as {name!r} in {B.__name__}")
            b.true("register " + "; ".join(hist), o[0] == "ok" and o[1] is C, "the class itself", show_out(o))
            reg[name or C.__name__] = C
            for B2, reg2 in bases:
                mem = get_class_setting(B2, Union).members
                b.eq(f"members of {B2.__name__} after " + "; ".join(hist), mem.get_type_ids, list(reg2))
                for k, v in reg2.items():
                    b.true(f"member {k} of {B2.__name__}", mem.get_type_by_id(k) is v, show(v), show(mem.get_type_by_id(k)))
                    b.eq(f"id of {v.__name__} in {B2.__name__}", lambda: mem.get_type_id(v), k)
                    b.eq(f"registering leaves {v.__name__} undecorated", lambda: [s for s in get_class_settings(v, Union)], [])
            b.eq(f"load/dump as {B.__name__}", lambda: load(dump(C(3), B), B), C(3))
        B, reg = rng.choice(bases)
        Not = type(fresh("Not"), (), {})
        before = list(reg)
        for nm in (None, "x", "same", fresh("nm")):
            b.exc(f"register a class that is no subclass of {B.__name__} as {nm}", lambda: Union.register(B, nm)(Not), TypeError)
            b.exc(f"register something that is no class as {nm}", lambda: Union.register(B, nm)("C"), TypeError)
        b.exc("register something that is no class", lambda: Union.register(B)(5), TypeError)
        if reg:
            M = next(iter(reg.values()))
            o = outcome(lambda: Union.register(M)(type(fresh("S"), (M,), {})))
            b.true("a member class is no union base by inheritance", o[0] == "exc", "an error", show_out(o))
        o = outcome(lambda: Union.register(Not))
        b.true("register with a base that is no union", o[0] == "exc" and isinstance(o[1], ValueError), "ValueError", show_out(o))
        b.exc("register with a base that is no class", lambda: Union.register(5), TypeError)
        b.eq("failed registrations leave the members", get_class_setting(B, Union).members.get_type_ids, before)
    @Union("<import>")
    class Imp:
        pass
    b.exc("register with a base whose members are not static", lambda: Union.register(Imp), TypeError)
