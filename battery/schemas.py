"""P21-P23: schemas of dataclasses and typed dicts, extended dataclasses."""
import inspect, sys as _sys
from typing import Annotated

import typing_extensions as te
from typeapi import TypeHint

import databind.core.dataclasses as dbdc
from databind.core import *
from databind.core import Alias, Flattened, Required, Strict
from databind.core.schema import Field, Schema, convert_dataclass_to_schema, convert_to_schema, convert_typed_dict_to_schema
from databind.core.utils import NotSet

from .lib import *
from .model import fresh

X = t.TypeVar("X")
Y = t.TypeVar("Y")


AL = Alias("a")


class EqAll:
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 0


class NoBool:
    """A value whose comparisons have no truth value (like an array)."""
    def __eq__(self, other):
        class B:
            def __bool__(self):
                raise ValueError("ambiguous")
        return B()
    __ne__ = __eq__
    __hash__ = object.__hash__


def mods(n):
    out = []
    for i in range(n):
        m = types.ModuleType(fresh("verif_mod"))
        _sys.modules[m.__name__] = m
        m.t, m.Annotated = t, Annotated
        m.Ref = type(f"Ref_{m.__name__}", (), {})
        m.AL = AL
        m.Alias, m.Required, m.Flattened = Alias, Required, Flattened
        m.X, m.Y = X, Y
        out.append(m)
    return out


SPECS = [  # (annotation text, optional?, explicit required, flat)
    ("int", False, None, False), ("str", False, None, False), ("Ref", False, None, False), ("t.List[Ref]", False, None, False), ("t.List['Ref']", False, None, False),
    ("t.Dict[str, Ref]", False, None, False), ("t.Optional[int]", True, None, False), ("t.Optional['Ref']", True, None, False), ("t.Union[int, Ref, None]", True, None, False),
    ("t.Union[int, str]", False, None, False), ("t.Any", False, None, False), ("Annotated[int, AL]", False, None, False), ("Annotated[t.Optional[int], AL]", True, None, False),
    ("Annotated[int, Required()]", False, True, False), ("Annotated[int, Required(False)]", False, False, False), ("Annotated[t.Optional[int], Required()]", True, True, False),
    ("Annotated[t.Optional[Ref], Required(False)]", True, False, False), ("Annotated[Ref, Flattened()]", False, None, True), ("Annotated[Ref, Flattened(False)]", False, None, False),
    ("Annotated[Ref, Flattened(), Required()]", False, True, True), ("Annotated[t.List[Annotated[int, Required(False)]], 'x']", False, None, False), ("t.Tuple[int, ...]", False, None, False),
    ("t.List[t.Optional[int]]", False, None, False), ("t.Literal['a', None]", False, None, False),
]
DEFAULTS = [None, 0, "", "x", 1, (), False, 5.5, EqAll(), NoBool()]
RESOLVED = {}


def ev(text, mod):
    h = eval(text, vars(mod))
    return h


def resolved(text, mod):
    return eval(text.replace("'Ref'", "Ref"), vars(mod))


def chk_field(b, d, f, hint, optional, req, flat, default):
    ok = isinstance(f, Field)
    if default is None:
        has = False
    else:
        has = True
    required = req if req is not None else not (optional or has)
    e = f"type {hint}, required={required}, flattened={flat}, default {default}"
    ok = ok and f.datatype == TypeHint(hint) and repr(f.datatype) == repr(TypeHint(hint)) and f.required is required and f.flattened is flat
    if has:
        kind, v = default
        if kind == "value":
            ok = ok and f.default is v and f.default_factory is NotSet.Value and f.has_default() and f.get_default() is v
        else:
            ok = ok and f.default is NotSet.Value and f.default_factory is v and f.has_default() and f.get_default() == v()
    elif not required:
        ok = ok and f.default is None and f.default_factory is NotSet.Value
    else:
        ok = ok and not f.has_default()
    b.true(d, ok, e, show(f))


def p21(b):
    b.rules.append("random dataclass hierarchies (several modules with equal names, string annotations, overridden fields, diamonds, init=False, ClassVar/InitVar, both decorators) and generic chains against a reference; non-structured types")
    rng = b.rng
    for _ in b.times(220):
        ms = mods(rng.randint(1, 3))
        classes = []  # (cls, effective: name -> (mod, spec, default, init))
        hist = []
        style = rng.choice(["dc", "dbdc", "mixed"])
        for _ in range(rng.randint(1, 5)):
            mod = rng.choice(ms)
            k = min(len(classes), rng.choice([0, 1, 1, 2]))
            bases = []
            for c in rng.sample(classes, k):
                if not any(issubclass(c[0], x[0]) or issubclass(x[0], c[0]) for x in bases):
                    bases.append(c)
            db = style == "dbdc" or style == "mixed" and rng.random() < .5
            ann, ns, own = {}, {}, {}
            names = rng.sample(["a", "b", "c", "d", "items", "type"], rng.randint(0, 4))
            for name in names:
                spec = rng.choice(SPECS)
                init = rng.random() < .9
                default = rng.choice([None, None, None, ("value", rng.choice(DEFAULTS)), ("factory", list), ("factory", lambda: {"k": 1})])
                if not init and default is None:
                    default = ("value", 3)
                hint = spec[0] if rng.random() < .5 else ev(spec[0], mod)
                ann[name] = hint
                fld = dbdc.field if db else dataclasses.field
                if default is not None:
                    if default[0] == "value" and init and rng.random() < .6:
                        ns[name] = default[1]
                    else:
                        ns[name] = fld(**{"default" if default[0] == "value" else "default_factory": default[1]}, init=init)
                elif rng.random() < .3:
                    ns[name] = fld()
                own[name] = (mod, spec, default, init)
            extra = {}
            if rng.random() < .2:
                ann["CV"] = rng.choice([t.ClassVar[int], t.ClassVar])
                ns["CV"] = 5
            if rng.random() < .15 and not db:
                ann["IV"] = dataclasses.InitVar[int]
                ns["IV"] = 0
                ns["__post_init__"] = lambda self, *a: None
            ns["__annotations__"] = ann
            ns["__module__"] = mod.__name__
            nm = fresh("C")
            plain = rng.random() < .1 and bool(bases)
            d = f"class {nm}({', '.join(x[0].__name__ for x in bases)}) {'plain' if plain else 'ext' if db else 'std'} in {mod.__name__}: { {k: (v[1][0], v[2], v[3]) for k, v in own.items()} }"
            try:
                raw = type(nm, tuple(x[0] for x in bases), ns)
            except TypeError:
                continue
            for n, (mod_, spec, default, init) in list(own.items()):
                if default is None and n not in ns:
                    # a class attribute of a base class is the default, as in standard dataclasses
                    c = next((c for c in raw.__mro__[1:] if n in vars(c)), None)
                    if c is not None:
                        own[n] = (mod_, spec, ("value", vars(c)[n]), init)
            if plain:
                for n in list(ns):
                    if n in own or n in ("CV", "IV"):
                        try:
                            delattr(raw, n)
                        except AttributeError:
                            pass
                raw.__annotations__ = {}
                own = {}
                cls = raw
            else:
                try:
                    cls = (dbdc.dataclass if db else dataclasses.dataclass)(raw)
                except TypeError as exc:
                    if "non-default argument" in str(exc) and (not db or style == "mixed"):
                        continue
                    raise
                except ValueError as exc:
                    if "mutable default" in str(exc):
                        continue
                    raise
            setattr(mod, nm, cls)
            eff = {}
            byc = {c: e for c, e in classes}
            for c in cls.__mro__[-1:0:-1]:
                if c in byc:
                    eff.update(byc[c])
            if not plain:
                eff.update(own)
            else:
                # a plain subclass has the fields of the first dataclass in its MRO
                eff = dict(next((byc[c] for c in cls.__mro__[1:] if c in byc), {}))
            classes.append((cls, eff))
            hist.append(d)
            full = "; ".join(hist)
            hint = rng.choice([cls, TypeHint(cls)])
            o = outcome(lambda: convert_dataclass_to_schema(hint))
            want = {n: s for n, s in eff.items() if s[3]}
            if o[0] != "ok":
                b.bad(full, "a schema", show_out(o))
                continue
            sch = o[1]
            b.true("fields of " + full, set(sch.fields) == set(want) and sch.type is cls and sch.constructor is cls and sch.annotations == [], show(list(want)), show(sch.fields))
            for n, (mod_, spec, default, _) in want.items():
                if n in sch.fields:
                    chk_field(b, f"field {n} of " + full, sch.fields[n], resolved(spec[0], mod_), *spec[1:], default)
            if rng.random() < .3:
                h = Annotated[cls, "x", Alias("q")]
                o = outcome(lambda: convert_to_schema(TypeHint(h)))
                b.true("Annotated: " + full, o[0] == "ok" and len(o[1].annotations) == 2 and o[1].annotations[0] == "x" and o[1].fields == sch.fields or any(x[2] and isinstance(x[2][1], (EqAll, NoBool)) for x in want.values()), "same fields, with annotations", show_out(o))
        for m in ms:
            _sys.modules.pop(m.__name__, None)
    # generics
    this = _sys.modules[__name__]
    for _ in b.times(120):
        args = [int, str, t.List[int], t.Optional[int], t.Dict[str, float]]
        A0 = types.new_class(fresh("G"), (t.Generic[X, Y],), {}, lambda ns: ns.update({"__annotations__": {"a": X, "b": t.List[Y], "c": t.Dict[str, t.Tuple[X, Y]], "d": int, "e": t.Optional[X], "f": Annotated[Y, Alias("ff")]}, "__module__": __name__}))
        dec = rng.choice([dataclasses.dataclass, dbdc.dataclass])
        A0 = dec(A0)
        p, q, r = (rng.choice(args) for _ in range(3))
        B0 = dec(types.new_class(fresh("G"), (A0[X, p], t.Generic[X]), {}, lambda ns: ns.update({"__annotations__": {"g": t.List[X], "d": str} if rng.random() < .5 else {"g": t.List[X]}, "__module__": __name__})))
        C0 = dec(types.new_class(fresh("G"), (B0[q],), {}, lambda ns: ns.update({"__annotations__": {"h": int}, "__module__": __name__})))
        D0 = dec(types.new_class(fresh("G"), (B0[t.List[Y]], t.Generic[Y]), {}, lambda ns: ns.update({"__annotations__": {"i": Y}, "__module__": __name__})))
        dd = str if "d" in B0.__annotations__ else int
        E0 = dec(types.new_class(fresh("G"), (A0[Y, t.List[X]], t.Generic[X, Y]), {}, lambda ns: ns.update({"__annotations__": {"j": X}, "__module__": __name__})))
        F0 = dec(types.new_class(fresh("G"), (B0[Y], t.Generic[X, Y]), {}, lambda ns: ns.update({"__annotations__": {"k": X}, "__module__": __name__})))
        G0 = dec(types.new_class(fresh("G"), (E0[X, q], t.Generic[X]), {}, lambda ns: ns.update({"__annotations__": {"l": X}, "__module__": __name__})))

        def fa(x, y):
            return {"a": x, "b": t.List[y], "c": t.Dict[str, t.Tuple[x, y]], "d": int, "e": t.Optional[x], "f": Annotated[y, Alias("ff")]}
        PP = p
        cases = [(A0[p, q], fa(p, q)), (B0[r], {**fa(r, p), "d": dd, "g": t.List[r]}), (C0, {**fa(q, p), "d": dd, "g": t.List[q], "h": int}),
                 (E0[p, q], {**fa(q, t.List[p]), "j": p}), (F0[p, q], {**fa(q, PP), "d": dd, "g": t.List[q], "k": p}), (G0[r], {**fa(q, t.List[r]), "j": r, "l": r}),
                 (D0[r], {**fa(t.List[r], p), "d": dd, "g": t.List[t.List[r]], "i": r})]
        for h, want in cases:
            d = f"schema of {h} (bases {p}, {q}, {r})"
            o = outcome(lambda: {k: f.datatype for k, f in convert_to_schema(TypeHint(h)).fields.items()})
            ok = o[0] == "ok" and set(o[1]) == set(want)
            for k, w in want.items():
                if k == "f":
                    ok = ok and repr(o[1][k][0]) == repr(TypeHint(w)[0]) and o[1][k].metadata[0].aliases == ("ff",)
                else:
                    ok = ok and o[1][k] == TypeHint(w) and repr(o[1][k]) == repr(TypeHint(w))
            b.true(d, ok, show(want), show_out(o))
    for bad in (int, str, t.List[int], t.Optional[int], t.Any, dict, t.Dict[str, int], type("K", (), {}), t.Union[int, str], t.Tuple[int], Annotated[int, 1], t.Literal["a"], t.NamedTuple("N", [("a", int)])):
        b.exc(f"convert_to_schema({bad})", lambda: convert_to_schema(TypeHint(bad)), ValueError)
    # schemas do not share state
    @dataclasses.dataclass
    class S:
        a: int
    h = TypeHint(Annotated[S, "m"])
    convert_to_schema(h).annotations.append("zzz")
    convert_to_schema(h).fields.clear()
    b.eq("a schema is made anew", lambda: (convert_to_schema(h).annotations, list(convert_to_schema(h).fields)), (["m"], ["a"]))


def p22(b):
    b.rules.append("random typed dicts (totality, inheritance, class-level defaults, keys named like dict methods) against a reference")
    rng = b.rng
    specs = [s for s in SPECS if "Required" not in s[0]] + [s for s in SPECS if "Required" in s[0]]
    for _ in b.times(320):
        mod = mods(1)[0]
        TD = rng.choice([t.TypedDict, te.TypedDict])
        classes, hist = [], []
        for _ in range(rng.randint(1, 3)):
            bases = rng.sample(classes, min(len(classes), rng.choice([0, 1, 2])))
            bases = [x for x in bases if not any(x is not y and x[0] in y[3] for y in bases)]
            total = rng.random() < .6
            names = rng.sample(["a", "b", "items", "keys", "get", "values", "pop", "update", "copy", "type", "clear"], rng.randint(0, 4))
            ann, ns, own = {}, {}, {}
            for n in names:
                if any(n in x[1] for x in bases):
                    continue
                spec = rng.choice(specs)
                default = ("value", rng.choice([0, "", None, "x", 7, ()])) if rng.random() < .3 else None
                ann[n] = spec[0] if rng.random() < .4 else ev(spec[0], mod)
                own[n] = (spec, default, total)
            ns = {"__annotations__": ann, "__module__": mod.__name__, **{n: s[1][1] for n, s in own.items() if s[1] is not None}}
            nm = fresh("TD")
            eff = {}
            for x in bases:
                eff.update({n: (s, None, tot) for n, (s, dflt, tot) in x[1].items() if dflt is None})
                if any(dflt is not None for _, dflt, _ in x[1].values()):
                    eff = None
                    break
            if eff is None:
                continue
            eff.update(own)
            cls = type(TD("q", {}))(nm, tuple(x[0] for x in bases), ns, total=total) if bases else types.new_class(nm, (TD,), {"total": total}, lambda d: d.update(ns))
            setattr(mod, nm, cls)
            classes.append((cls, eff, nm, [x[0] for x in bases]))
            hist.append(f"class {nm}({', '.join(x[2] for x in bases)}, total={total}): { {k: (v[0][0], v[1]) for k, v in own.items()} }")
            full = "; ".join(hist)
            hint = rng.choice([cls, TypeHint(cls)])
            o = outcome(lambda: convert_typed_dict_to_schema(hint))
            if o[0] != "ok":
                b.bad(full, "a schema", show_out(o))
                continue
            sch = o[1]
            b.true("fields of " + full, set(sch.fields) == set(eff) and sch.type is cls and sch.constructor is cls, show(list(eff)), show(sch.fields))
            for n, (spec, default, tot) in eff.items():
                if n not in sch.fields:
                    continue
                f = sch.fields[n]
                hint = resolved(spec[0], mod)
                _, optional, req, flat = spec
                setting = req if req is not None else not (optional or default is not None)
                required = setting and tot
                ok = f.datatype == TypeHint(hint) and repr(f.datatype) == repr(TypeHint(hint)) and f.required is required and f.flattened is flat and f.default_factory is NotSet.Value
                if default is not None:
                    ok = ok and same(f.default, default[1])
                elif optional and req is None:
                    ok = ok and f.default is None
                elif required:
                    ok = ok and not f.has_default()
                elif not tot and setting:
                    ok = ok and not f.has_default()
                b.true(f"key {n} of " + full, ok, f"type {hint}, required={required}, flattened={flat}, default {default}", show(f))
            b.eq("repeated: " + full, lambda: sorted(convert_to_schema(TypeHint(cls)).fields), sorted(eff))
        _sys.modules.pop(mod.__name__, None)
    F1 = t.TypedDict("F1", {"with space": int, "class": str, "a-b": t.Optional[int]})
    b.eq("functional typed dict", lambda: {k: (f.datatype.type if k != "a-b" else None, f.required) for k, f in convert_to_schema(TypeHint(F1)).fields.items()}, {"with space": (int, True), "class": (str, True), "a-b": (None, False)})
    F2 = t.TypedDict("F2", {"year": int, "n": str})
    F2.year = 0
    b.eq("default assigned afterwards", lambda: [(f.default, f.required) for f in [convert_to_schema(TypeHint(F2)).fields["year"]]], [(0, False)])
    for bad in (int, dict, TypeHint(t.Optional[int])):
        o = outcome(lambda: convert_typed_dict_to_schema(bad))
        b.true(f"convert_typed_dict_to_schema({bad})", o[0] == "exc", "an error", show_out(o))


def p23(b):
    b.rules.append("random class hierarchies with the package's decorator x random calls, against a reference binder (and the standard decorator where that accepts the class)")
    rng = b.rng
    pyvals = [0, 1, "s", None, (), EqAll(), NoBool(), 2.5, True]
    for _ in b.times(320):
        hist = []
        log = []
        parent = None
        model = {}  # name -> dict(default, init, kind)
        post = None
        has_iv = False
        cvs = set()
        for lvl in range(rng.randint(1, 3)):
            ann, ns = {}, {}
            model = dict(model)
            txt = []
            strann = rng.random() < .3
            for n in rng.sample(["a", "b", "c", "d", "e", "f"], rng.randint(0, 4)):
                r = rng.random()
                if n in cvs:
                    continue
                if r < .08:
                    if n in model:
                        continue
                    cvs.add(n)
                    ann[n] = rng.choice([t.ClassVar[int], t.ClassVar, "t.ClassVar[int]"])
                    ns[n] = 9
                    txt.append(f"{n}: ClassVar = 9")
                    continue
                kind = "field"
                if r < .14 and lvl == 0 and not has_iv:
                    kind, has_iv = "initvar", True
                if n in model and model[n]["kind"] == "initvar":
                    continue
                ann[n] = (dataclasses.InitVar[int] if kind == "initvar" else rng.choice([int, t.Any, "int", t.List[int]]))
                dflt = rng.choice([None, None, ("value", rng.choice(pyvals)), ("factory", lambda: [1])])
                init = kind == "initvar" or rng.random() < .9
                if kind == "initvar" and dflt and dflt[0] == "factory":
                    dflt = None
                kwonly = rng.random() < .1
                kw = {}
                if not init:
                    kw["init"] = False
                if kwonly and init:
                    kw["kw_only"] = True
                if dflt:
                    if dflt[0] == "value" and not kw and rng.random() < .6:
                        ns[n] = dflt[1]
                    else:
                        ns[n] = dbdc.field(**{"default" if dflt[0] == "value" else "default_factory": dflt[1]}, **kw)
                elif kw or rng.random() < .3:
                    ns[n] = dbdc.field(**kw)
                if dflt is None and n not in ns and parent and hasattr(parent, n):
                    # a class attribute of a base class is the default, as in standard dataclasses
                    dflt = ("value", getattr(parent, n))
                model[n] = {"default": dflt, "init": init, "kind": kind, "kw": bool(kw.get("kw_only"))}
                txt.append(f"{n}: {kind} default={dflt and (dflt[0], show(dflt[1], 40))} {kw}")
            if rng.random() < .4 or has_iv and post is None:
                i = lvl

                def __post_init__(self, *iv, i=i):
                    log.append((i, iv, dict(self.__dict__)))
                ns["__post_init__"] = __post_init__
                post = lvl
            ns["__annotations__"] = ann
            ns["__module__"] = __name__
            raw = type(fresh("E"), (parent,) if parent else (), ns)
            opts = {k: v for k, v in (("frozen", True), ("eq", False), ("order", False)) if rng.random() < .1 and k != "frozen"}
            parent = dbdc.dataclass(**opts)(raw) if opts else rng.choice([dbdc.dataclass, dbdc.dataclass()])(raw)
            hist.append(f"class {parent.__name__}: " + ", ".join(txt) + (" +post_init" if "__post_init__" in ns else ""))
        cls = parent
        d = "; ".join(hist)
        init_fields = [n for n, f in model.items() if f["init"]]
        pos_fields = [n for n in init_fields if not model[n]["kw"]]
        names = [f.name for f in dataclasses.fields(cls)]
        b.true("fields() of " + d, names == [n for n, f in model.items() if f["kind"] == "field"], show(list(model)), show(names))
        for _ in range(8):
            k = rng.randint(0, max(0, len(pos_fields) + (rng.random() < .1)))
            args = [rng.choice(pyvals) for _ in range(k)]
            kwargs = {}
            for n in init_fields:
                taken = n in pos_fields[:k]
                if taken and rng.random() > .03:
                    continue
                if rng.random() < (.85 if model[n]["default"] is None else .4):
                    kwargs[n] = rng.choice(pyvals)
            if rng.random() < .04:
                kwargs["zz"] = 1
            # reference binder
            bound, err = {}, False
            if k > len(pos_fields) or "zz" in kwargs:
                err = True
            for n, v in zip(pos_fields, args):
                bound[n] = v
            for n, v in kwargs.items():
                if n in bound:
                    err = True
                bound[n] = v
            for n in init_fields:
                if n not in bound and not err:
                    df = model[n]["default"]
                    if df is None:
                        err = True
                    else:
                        bound[n] = df[1]() if df[0] == "factory" else df[1]
            log.clear()
            dd = f"{d} called with {show(args)} {show(kwargs)}"
            o = outcome(lambda: cls(*args, **kwargs))
            if err:
                b.true(dd, o[0] == "exc" and isinstance(o[1], TypeError), "TypeError", show_out(o))
                b.true("no post-init hook: " + dd, not log, "", log)
                continue
            if o[0] != "ok":
                b.bad(dd, "an instance", show_out(o))
                continue
            ok = type(o[1]) is cls
            attrs = {}
            for n, f in model.items():
                if f["kind"] == "initvar":
                    continue
                if f["init"]:
                    exp = bound[n]
                elif f["default"] is None:
                    ok = ok and n not in vars(o[1])
                    continue
                else:
                    exp = f["default"][1]() if f["default"][0] == "factory" else f["default"][1]
                attrs[n] = exp
                got = getattr(o[1], n, "<nothing>")
                ok = ok and (got is exp or type(got) is list and got == exp)
            b.true(dd, ok, show(attrs), show(vars(o[1])))
            facts = [n for n, f in model.items() if f["default"] and f["default"][0] == "factory" and n not in kwargs and n not in pos_fields[:k]]
            o2 = outcome(lambda: cls(*args, **kwargs))
            b.true("fresh factory values: " + dd, all(getattr(o2[1], n) is not getattr(o[1], n) for n in facts), "", "")
            if post is not None:
                ivs = tuple(bound[n] for n, f in model.items() if f["kind"] == "initvar")
                ok = len(log) == 2 and log[0][0] == post and len(log[0][1]) == len(ivs) and all(x is y for x, y in zip(log[0][1], ivs))
                ok = ok and all(n in log[0][2] and (log[0][2][n] is v or type(v) is list) for n, v in attrs.items() if model[n]["init"])
                b.true("post-init hook once per instance, after initialisation: " + dd, ok, f"hook of level {post} with {ivs}", show(log))
            else:
                b.true("no hook", not log, "", log)
    # no trace of the placeholder
    @dbdc.dataclass
    class P:
        a: int = 1
        b: str
        c: t.List[int] = dbdc.field(default_factory=list)
        d: float
    b.eq("arguments by name", lambda: dataclasses.asdict(P(b="x", d=1.5)), {"a": 1, "b": "x", "c": [], "d": 1.5})
    b.eq("arguments by position", lambda: dataclasses.asdict(P(2, "y", [1], 2.5)), {"a": 2, "b": "y", "c": [1], "d": 2.5})
    b.eq("replace", lambda: dataclasses.replace(P(b="x", d=1.5), b="z"), P(1, "z", [], 1.5))
    b.true("equality", P(b="x", d=1.5) == P(b="x", d=1.5) != P(b="y", d=1.5), "", "")
    b.true("no class attribute is left for fields without default", not hasattr(P, "b") and not hasattr(P, "d") and P.a == 1, "", "")
    for kw in ({}, {"b": "x"}, {"d": 1}, {"a": 1, "c": []}):
        b.exc(f"P(**{kw})", lambda: P(**kw), TypeError)

    @dbdc.dataclass
    class Q(P):
        e: int
        a: int
    b.exc("redeclared without a default in a subclass", lambda: Q(b="x", d=1, e=2) if False else Q(), TypeError)

    @dbdc.dataclass(frozen=True)
    class Fz:
        a: int = 1
        b: str
    b.eq("frozen", lambda: (Fz(b="x").a, Fz(2, "y").b), (1, "y"))
    b.exc("frozen instance", lambda: setattr(Fz(b="x"), "a", 2), dataclasses.FrozenInstanceError)
    b.exc("frozen without argument", lambda: Fz(1), TypeError)

    @dbdc.dataclass(order=True)
    class Od:
        a: int = 1
        b: int
    b.true("order", Od(b=1) < Od(b=2), "", "")
    @dbdc.dataclass(slots=True)
    class Sl:
        a: int = 1
        b: str
    b.eq("slots", lambda: (Sl(b="x").a, Sl(2, "y").b), (1, "y"))
    b.exc("slots without argument", lambda: Sl(1), TypeError)

    @dbdc.dataclass(kw_only=True)
    class Kw:
        a: int = 1
        b: str
    b.eq("kw_only", lambda: (Kw(b="x").a, Kw(b="y", a=2).b), (1, "y"))
    b.exc("kw_only without argument", lambda: Kw(a=1), TypeError)
    # a subclass does not change its base
    @dbdc.dataclass
    class Bs:
        a: int
        b: t.List[int] = dbdc.field(default_factory=list)
        c: str = "c"

    def snap():
        return [(f.name, f.type, f.default, f.default_factory, f.init, f._field_type) for f in dataclasses.fields(Bs)], {k: v for k, v in vars(Bs).items() if k in "abc"}
    before = snap()

    @dbdc.dataclass
    class Sb(Bs):
        a: str
        b: int
        c: str = "d"
        d: int
    b.eq("redeclaring fields leaves the base class", lambda: snap() == before, True)
    b.eq("instances of both", lambda: (vars(Bs(1)), vars(Sb("x", 2, d=3))), ({"a": 1, "b": [], "c": "c"}, {"a": "x", "b": 2, "c": "d", "d": 3}))
    b.exc("redeclared without default", lambda: Sb("x", d=3), TypeError)
    # annotations and metadata
    for meta in (None, {}, {"k": 1}, types.MappingProxyType({"k": 2})):
        for anns in (["x"], [Alias("q"), 5], None, []):
            keep = dict(meta or {})
            f = outcome(lambda: dbdc.field(annotations=anns, metadata=meta))
            exp = {**keep, **({dbdc.ANNOTATIONS_METADATA_KEY: anns} if anns else {})}
            b.true(f"field(annotations={anns}, metadata={meta})", f[0] == "ok" and isinstance(f[1], dataclasses.Field) and dict(f[1].metadata) == exp and dict(meta or {}) == keep, show(exp), show_out(f))
    shared = {"k": 1}
    f1, f2, f3 = dbdc.field(annotations=["one"], metadata=shared), dbdc.field(annotations=["two"], metadata=shared), dbdc.field(metadata=shared)
    b.true("metadata shared by fields", f1.metadata[dbdc.ANNOTATIONS_METADATA_KEY] == ["one"] and f2.metadata[dbdc.ANNOTATIONS_METADATA_KEY] == ["two"] and dict(f3.metadata) == {"k": 1}, "", show((f1.metadata, f2.metadata, f3.metadata)))
    for kw in ({"default": 3}, {"default_factory": list}, {"init": False}, {"repr": False}, {"compare": False}, {"kw_only": True}):
        f = dbdc.field(**kw)
        k, v = next(iter(kw.items()))
        b.true(f"field({kw})", getattr(f, k) == v, "", "")
