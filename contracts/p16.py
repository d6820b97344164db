"""P16: which setting is in effect."""
import z3
from pyvc.lib import *


class World:
    """Arbitrary settings, as (guard, number, term) per source in the order of precedence; `sets`: settings of one source may
    come in groups (providers)."""

    def __init__(self, c):
        from databind.core.settings import Setting
        self.c, self.e, self.rt = c, c.e, c.rt
        e, rt = c.e, c.rt
        self.cls = type_sv(z3.Const("setting_type", V))
        c.assume(NOT(e.sub(e.typeof(e.const(None)), self.cls.t)))  # None is no setting
        self.pri = e.fn("priority", V, Int)
        rt.shapes[("setting", "priority")] = lambda rt, sv: SI(self.pri(sv.t))
        # the settings of a class are looked up in its own namespace, and only settings are found there
        # (an attribute of the class that is found by getattr() may be inherited)
        rt.type_x["vars"] = lambda rt, T: SV(e.fn("vars", V, V)(T.t), None, map=True, val=self.listval)
        rt.shapes[("pytype", "__dict__")] = rt.type_x["vars"]
        rt.shapes[("pytype", "__databind_settings__")] = self.inherited
        self.sources = []

    def inherited(self, rt, T):
        e = self.e
        if not e.fork(e.fn("has_inherited_settings", V, Bool)(T.t)):
            raise AttributeError("__databind_settings__")
        t = e.fn("inherited_settings", V, V)(T.t)
        e.add_once(z3.Implies(e.has(e.fn("vars", V, V)(T.t), e.const("__databind_settings__")), t == self.own(T.t)))
        return SV(t, list, elem=self.elem)

    def own(self, T):
        e = self.e
        return e.mget(e.fn("vars", V, V)(T), e.const("__databind_settings__"))

    def elem(self, rt, sv, t):
        return SV(t, None, shape="setting")

    def listval(self, rt, sv, k):
        return SV(rt.e.mget(sv.t, k), list, elem=self.elem)

    def add(self, guard, seq):
        self.sources.append((guard, self.e.length(seq), lambda j: (TRUE, self.e.sat(seq, j)), None))

    def applies(self, t):
        return self.e.sub(self.e.typeof(t), self.cls.t)

    def elems(self, s):
        """(bound variables, formula that they are a place in source s, term)."""
        guard, n, at, inner = self.sources[s]
        j, k = z3.Ints(f"s{s}! t{s}!")
        if inner is None:
            g, t = at(j)
            return [j], AND(guard, 0 <= j, j < n, g), t
        g, m, sub = inner(j)
        return [j, k], AND(guard, 0 <= j, j < n, g, 0 <= k, k < m), sub(k)

    def all(self, pred):
        """pred(source, indices, term) for all settings of the type in all sources."""
        fs = []
        for s in range(len(self.sources)):
            vs, there, t = self.elems(s)
            fs.append(z3.ForAll(vs, z3.Implies(AND(there, self.applies(t)), pred(s, vs, t))))
        return AND(fs)

    def is_effective(self, what, r):
        """r is the setting in effect: of the highest priority, and the first of these."""
        c = self.c
        if r is None:
            c.cover(f"{what}: none")
            return c.prove(f"{what}: None only if no setting applies", self.all(lambda s, vs, t: FALSE))
        if not isinstance(r, SV):
            return c.never(f"{what}: gives a setting", repr(r))
        c.cover(f"{what}: found")
        here, earlier = [], []
        for s in range(len(self.sources)):
            vs, there, t = self.elems(s)
            ws = self.position(s, r.t)
            if ws is None:
                continue
            sub = list(zip(vs, ws))
            inst = lambda f: z3.substitute(f, *sub)

            def before(s2, us, u, s=s, ws=ws):
                if s2 < s:
                    return TRUE
                if s2 > s:
                    return FALSE
                return us[0] < ws[0] if len(ws) == 1 else OR(us[0] < ws[0], AND(us[0] == ws[0], us[1] < ws[1]))
            here.append(AND(inst(there), inst(t) == r.t, self.applies(r.t), self.all(
                lambda s2, us, u: z3.If(before(s2, us, u), self.pri(u) < self.pri(r.t), self.pri(u) <= self.pri(r.t)))))
        c.prove(f"{what}: the first of the settings of the highest priority that apply", OR(here) if here else FALSE)

    def position(self, s, t):
        """The indices of the term in the source, read off the term."""
        vs, there, gen = self.elems(s)
        m = match(gen, t, {})
        if m is None:
            return None
        return [m.get(v.decl().name()) if m.get(v.decl().name()) is not None else z3.IntVal(0) for v in vs]


def match(gen, t, m):
    """One-way matching of terms; the variables of gen are the integer constants whose name ends with '!'."""
    if z3.is_const(gen) and gen.decl().name().endswith("!") and gen.sort() == Int:
        n = gen.decl().name()
        if n in m:
            return m if m[n].eq(t) else None
        return {**m, n: t}
    if gen.eq(t):
        return m
    if gen.num_args() != t.num_args() or not gen.num_args() or gen.decl() != t.decl():
        return None
    for a, b in zip(gen.children(), t.children()):
        m = match(a, b, m)
        if m is None:
            return None
    return m


@contract("Settings.get_setting", ["Settings.get_setting", "get_highest_setting", "get_class_settings", "Context.get_setting"], "P16")
def lookup(c):
    from databind.core.settings import Settings
    e, rt = c.e, c.rt
    w = World(c)
    hint, inner, kind = c.any_hint(KINDS3)
    annotated = hint is not inner
    s = object.__new__(Settings)
    gl = z3.Const("global_settings", V)
    loc = z3.Const("local_settings", V)
    provs, np = e.fn("provider", Int, V), z3.Int("providers_n")
    c.assume(np >= 0)
    given, ng = e.fn("provides", V, V, V, V), None
    parent = SettingsStub2(c, w) if c.choose("parent", "root") == "parent" else None
    s.__dict__.update(
        parent=parent, global_settings=SV(gl, list, elem=w.elem),
        local_settings=SV(loc, dict, val=w.listval),
        providers=IdxSeq(np, lambda j: SV(provs(j), None, call=provide, w=w), None, lambda j: provs(j)))
    if annotated:
        w.add(TRUE, e.fn("hint_metadata", V, V)(hint.t))
        rt.shapes[("hint", "metadata")] = lambda rt, h: SV(e.fn("hint_metadata", V, V)(h.t), tuple, elem=w.elem)
    if kind in ("class", "tuple"):
        if kind == "tuple":
            T = e.const(tuple)
            c.assume(NOT(e.has(e.fn("vars", V, V)(T), e.const("__databind_settings__"))))
        else:
            T = inner.type.t
        vt = e.fn("vars", V, V)(T)
        if kind == "class":
            w.add(e.has(vt, e.const("__databind_settings__")), w.own(T))
        w.add(e.has(loc, T), e.mget(loc, T))
    from databind.core.context import Direction
    ctx = c.context(c.value("v"), hint, Direction.DESERIALIZE, settings=s)
    # providers
    j = z3.Int("j!")

    def group(j):
        g = e.fn("provided", V, V, V)(provs(j), hint.t)
        return TRUE, e.length(g), lambda k: e.sat(g, k)
    w.sources.append((TRUE, np, None, group))
    w.add(TRUE, gl)
    if parent is not None:
        has, t = parent.answer(hint.t, w.cls.t)
        w.sources.append((has, z3.IntVal(1), lambda j: (TRUE, t), None))
    c.protect(s, "the settings")
    via = c.choose("context", "settings")
    o = c.run(ctx.get_setting, w.cls) if via == "context" else c.run(s.get_setting, ctx, w.cls)
    if not o.ret:
        return c.never("the lookup does not fail", repr(o))
    w.is_effective("lookup", o.value)


def provide(rt, f, args, kw):
    """A provider (user code): assumed to be a pure function of the context, giving a list of settings."""
    e = rt.e
    (ctx,) = args
    e.prove(f"{rt.contract.name}: providers are asked about the context itself", rt.contract.same_ctx(ctx)) if rt.contract.mine("P16") else None
    g = e.fn("provided", V, V, V)(f.t, rt.lift(ctx.datatype))
    e.add_once(e.length(g) >= 0)
    return SV(g, list, elem=f.x["w"].elem)


class SettingsStub2(Stub):
    """An arbitrary parent provider."""

    def __init__(self, c, w):
        self.c, self.w = c, w

    def __bool__(self):
        return True

    def answer(self, hint, cls):
        e = self.c.e
        return e.fn("parent_has", V, V, Bool)(hint, cls), e.fn("parent_setting", V, V, V)(hint, cls)

    def get_setting(self, ctx, cls):
        e = self.c.e
        has, t = self.answer(self.c.rt.lift(ctx.datatype), self.c.rt.lift(cls))
        if not e.fork(has):
            return None
        e.add_once(e.sub(e.typeof(t), self.c.rt.lift(cls)))     # the contract of get_setting: the result is of the type
        e.add_once(t != e.const(None))
        return SV(t, None, shape="setting", truthy=True, isa=None)


@contract("get_class_setting / get_annotation_setting", ["get_class_setting", "get_annotation_setting", "get_class_settings", "get_highest_setting"], "P16", "P17")
def direct(c):
    from databind.core.settings import get_annotation_setting, get_class_setting
    e, rt = c.e, c.rt
    w = World(c)
    if c.choose("class", "annotation") == "class":
        T = type_sv(z3.Const("T", V), **rt.type_x)
        w.add(e.has(e.fn("vars", V, V)(T.t), e.const("__databind_settings__")), w.own(T.t))
        o = c.run(get_class_setting, T, w.cls)
        what = "class setting"
    else:
        hint, inner, kind = c.any_hint(KINDS3)
        rt.shapes[("hint", "metadata")] = lambda rt, h: SV(e.fn("hint_metadata", V, V)(h.t), tuple, elem=w.elem)
        if hint is not inner:
            w.add(TRUE, e.fn("hint_metadata", V, V)(hint.t))
        o = c.run(get_annotation_setting, hint, w.cls)
        what = "annotation setting"
    if not o.ret:
        return c.never(f"{what}: the lookup does not fail", repr(o))
    w.is_effective(what, o.value)


def some_list(c, name):
    """A list object of arbitrary content, and its content."""
    e = c.e
    f, n = e.fn(name + "_at", Int, V), z3.Int(name + "_n")
    c.assume(n >= 0)
    seq = IdxSeq(n, lambda j: SV(f(j)), None, lambda j: f(j))
    return c.listobj(seq), seq


def some_settings(c):
    """Settings of arbitrary content: parent, global settings, local settings of a class T, local settings of others, providers."""
    from databind.core.settings import Settings
    e = c.e
    s = object.__new__(Settings)
    gl, gseq = some_list(c, "global")
    tl, tseq = some_list(c, "local_T")
    pl, pseq = some_list(c, "provider")
    T = type_sv(z3.Const("T", V))
    loc = VDict()
    has = c.choose("others", "T") == "T"
    other = e.fn("other_type", Int, V)
    m = z3.Int("others_n")
    c.assume(m >= 0)
    j, k = z3.Ints("j! k!")
    if e.bounded is None:
        c.assume(z3.ForAll([j], other(j) != T.t, patterns=[other(j)]))
        c.assume(z3.ForAll([j, k], z3.Implies(AND(0 <= j, j < k, k < m), other(j) != other(k)), patterns=[z3.MultiPattern(other(j), other(k))]))
        f = e.fn("others!", Int, Int)
        i = z3.Int("others_k")
        e.add(z3.ForAll([j], f(j) == 0, patterns=[f(j)]))
        loc.entries.append(Rec(PathFn(f, []), i, m, [(0, [], [Item(SV(other(i)), SV(e.fn("local_of", V, V)(other(i)), list))])]))
    else:
        c.assume(AND(m <= 1, other(z3.IntVal(0)) != T.t))
        if e.fork(m == 1):
            loc.entries.append(Item(SV(other(z3.IntVal(0))), SV(e.fn("local_of", V, V)(other(z3.IntVal(0))), list)))
    if has:
        loc.entries.append(Item(T, tl))
    parent = SettingsStub2(c, None)
    s.__dict__.update(parent=parent, global_settings=gl, local_settings=loc, providers=pl)
    return s, parent, T, has, (gl, gseq), (tl, tseq), (pl, pseq), (loc, other, m)


def appended(before, after, x):
    return len(after) == len(before) + 1 and all(a is b for a, b in zip(before, after)) and isinstance(after[-1], Item) and after[-1].value is x


@contract("Settings.add_*", ["Settings.add_global", "Settings.add_local", "Settings.add_conditional", "Settings.add_provider"], "P16")
def adding(c):
    e, rt = c.e, c.rt
    s, parent, T, has, (gl, _), (tl, _), (pl, _), (loc, _, _) = some_settings(c)
    snap = [list(x.entries) for x in (gl, tl, pl, loc)]
    new = SV(z3.Const("new", V))
    what = c.choose("add_global", "add_local", "add_conditional", "add_provider")
    asked = []

    class Pred(Stub):
        def vcall(self, args, kw):
            asked.append(args)
            return SB(z3.Bool("predicate"))
    f = {"add_global": lambda: s.add_global(new), "add_local": lambda: s.add_local(T, new),
         "add_conditional": lambda: s.add_conditional(Pred(), new), "add_provider": lambda: s.add_provider(new)}[what]
    o = c.run(f)
    if not o.ret:
        return c.never(f"{what}: does not fail", repr(o))
    same = lambda x, i: len(x.entries) == len(snap[i]) and all(a is b for a, b in zip(x.entries, snap[i]))
    c.prove(f"{what}: the settings of the object are still its own", s.global_settings is gl and s.local_settings is loc and s.providers is pl)
    if what != "add_global":
        c.prove(f"{what}: global settings are as before", same(gl, 0))
    if what != "add_local":
        c.prove(f"{what}: local settings are as before", same(tl, 1) and same(loc, 3))
    if what in ("add_global", "add_local"):
        c.prove(f"{what}: providers are as before", same(pl, 2))
    if what == "add_global":
        c.prove("add_global: comes last", appended(snap[0], gl.entries, new))
    elif what == "add_provider":
        c.prove("add_provider: comes last", appended(snap[2], pl.entries, new))
    elif what == "add_local":
        if has:
            return c.prove("add_local: comes last for its class, and for no other", appended(snap[1], tl.entries, new) and same(loc, 3))
        after = loc.entries
        ok = len(after) == len(snap[3]) + 1 and all(a is b for a, b in zip(snap[3], after)) and isinstance(after[-1], Item) \
            and isinstance(after[-1].value, VList) and len(after[-1].value.entries) == 1 and after[-1].value.entries[0].value is new
        c.prove("add_local: is the only one for its class, and for no other", AND(ok, c.same(after[-1].key, T)) if ok else FALSE)
    else:
        if not (len(pl.entries) == len(snap[2]) + 1 and all(a is b for a, b in zip(snap[2], pl.entries))):
            return c.never("add_conditional: adds one provider, last", repr(pl.entries))
        ctx = c.context(c.value("v"), c.hint("hint", "class"), c.direction())
        o = c.run(pl.entries[-1].value, ctx)
        r = rt.nativize(o.value) if o.ret else None
        c.prove("add_conditional: the condition is asked about the context", len(asked) == 1 and asked[0] == [ctx])
        c.prove("add_conditional: applies exactly if the condition holds", AND(
            isinstance(r, (list, tuple)), z3.Bool("predicate") == z3.BoolVal(bool(r)), all(x is new for x in r), len(r) <= 1) if r is not None else FALSE)


@contract("Settings.copy", ["Settings.copy", "Settings.__init__"], "P24")
def copying(c):
    from databind.core.settings import Settings
    e, rt = c.e, c.rt
    if c.choose("init", "copy") == "init":
        gl, gseq = some_list(c, "global")
        before = list(gl.entries)
        parent = SettingsStub2(c, None)
        o = c.run(Settings, parent, gl)
        if not o.ret:
            return c.never("init: does not fail", repr(o))
        s = o.value
        c.prove("init: keeps no reference to the list it is given", s.global_settings is not gl)
        c.prove("init: does not modify the list it is given", len(before) == len(gl.entries) and all(a is b for a, b in zip(before, gl.entries)))
        c.prove("init: has the parent, and no other settings", AND(s.parent is parent, c.len(s.local_settings) == 0, c.len(s.providers) == 0))
        return c.log_is("init: has the settings given, in order", s.global_settings.entries, gseq.n, lambda j: [(None, gseq.at(j))])
    s, parent, T, has, (gl, gseq), (tl, tseq), (pl, pseq), (loc, other, m) = some_settings(c)
    c.protect(s, "the original")
    snap = [list(x.entries) for x in (gl, tl, pl, loc)]
    o = c.run(s.copy)
    if not o.ret:
        return c.never("copy: does not fail", repr(o))
    n = o.value
    c.prove("copy: does not modify the original", all(len(x.entries) == len(snap[i]) and all(a is b for a, b in zip(x.entries, snap[i])) for i, x in enumerate((gl, tl, pl, loc))))
    c.prove("copy: is of the same class, with the same parent", type(n) is type(s) and n is not s and n.parent is parent)
    c.prove("copy: shares no container with the original", n.global_settings is not gl and n.local_settings is not loc and n.providers is not pl)
    which = c.choose("global", "providers", "local")
    if which == "global":
        return c.log_is("copy: the same global settings, in order", n.global_settings.entries, gseq.n, lambda j: [(None, gseq.at(j))])
    if which == "providers":
        return c.log_is("copy: the same providers, in order", n.providers.entries, pseq.n, lambda j: [(None, pseq.at(j))])
    ents = list(n.local_settings.entries)
    last = None
    if has:
        if not ents or not isinstance(ents[-1], Item):
            raise Unsupported("local settings of a copy")
        last = ents.pop()
    def fresh_copy(l, src):
        return AND(isinstance(l, VList), l is not src)
    if has and c.choose("T", "others") == "T":
        c.prove("copy: the local settings of a class are a new list", AND(fresh_copy(last.value, tl), c.same(last.key, T)))
        return c.log_is("copy: the same local settings, in order", last.value.entries, tseq.n, lambda j: [(None, tseq.at(j))])
    c.log_is("copy: local settings of the same classes, as new lists", ents, m, lambda j: [(SV(other(j)), lambda l: AND(isinstance(l, VList)))])
