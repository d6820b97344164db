"""P17: class decorators.  (That the settings of a class are those of its own list is get_class_setting's contract, in p16.)"""
import z3
from pyvc.lib import *
from contracts import p16  # noqa: F401
from contracts.p16 import appended, some_list

ATTR = "__databind_settings__"


class Namespace:
    """An arbitrary class with an own list of settings, an inherited one, both or none.  Writes are recorded."""

    def __init__(self, c, name="T"):
        e, rt = c.e, c.rt
        self.writes, self.own, self.inh = [], None, None
        case = c.choose("neither", "own", "inherited", "both")
        self.ns = VDict()
        if case in ("own", "both"):
            self.own, self.ownseq = some_list(c, name + "_own")
            self.ns.entries.append(Item(ATTR, self.own))
        if case in ("inherited", "both"):
            self.inh, _ = some_list(c, name + "_inherited")
        self.snap_own = list(self.own.entries) if self.own is not None else None
        self.snap_inh = list(self.inh.entries) if self.inh is not None else None
        self.T = type_sv(z3.Const(name, V), vars=lambda rt, T: self.ns, setattr=self.setattr)
        rt.shapes[("pytype", "__dict__")] = lambda rt, T: self.ns
        rt.shapes[("pytype", ATTR)] = self.getattr
        rt.shapes[("pytype", "__bases__")] = rt.shapes[("pytype", "__mro__")] = lambda rt, T: SV(e.fn("bases_of", V, V)(T.t), tuple)

    def getattr(self, rt, T):
        if self.own is not None:
            return self.own
        if self.inh is not None:
            return self.inh
        raise AttributeError(ATTR)

    def setattr(self, rt, T, name, v):
        self.writes.append((name, v))
        if name == ATTR:
            self.own = v
            self.ns.entries[:] = [Item(ATTR, v)]

    def untouched(self):
        return not self.writes and (self.snap_own is None or self.same(self.own, self.snap_own)) and self.inherited_untouched()

    def inherited_untouched(self):
        return self.snap_inh is None or self.same(self.inh, self.snap_inh)

    @staticmethod
    def same(l, snap):
        return isinstance(l, VList) and len(l.entries) == len(snap) and all(a is b for a, b in zip(l.entries, snap))


@contract("ClassDecoratorSetting.__call__", ["ClassDecoratorSetting.__call__"], "P17")
def decorate(c):
    from databind.core.settings import ClassDecoratorSetting
    e, rt = c.e, c.rt
    w = Namespace(c)
    own0 = w.own

    class S(ClassDecoratorSetting):
        pass
    s = object.__new__(S)
    used = c.choose("new", "used") == "used"
    U = type_sv(z3.Const("U", V))
    if used:
        s.__dict__["bound_to"] = U
    elif c.choose("class attribute", "own attribute") == "own attribute":
        s.__dict__["bound_to"] = None
    o = c.run(s, w.T)
    if used:
        c.prove("a setting that decorates a class already: an error", o.raised(RuntimeError))
        return c.prove("a setting that decorates a class already: nothing changes", w.untouched() and s.__dict__ == {"bound_to": U})
    if not o.ret:
        return c.never("decorating does not fail", repr(o))
    c.prove("returns the class", c.same(o.value, w.T))
    c.prove("the setting knows its class", c.same(s.bound_to, w.T) if s.bound_to is not None else FALSE)
    c.prove("the settings of the base classes are as before", w.inherited_untouched())
    c.prove("nothing but the settings of the class is written", all(n == ATTR for n, _ in w.writes))
    if not isinstance(w.own, VList) or w.own is w.inh:
        return c.never("the class has a list of settings of its own", repr(w.own))
    c.cover("done")
    if w.snap_own is not None and w.own is own0:
        return c.prove("the setting is added to those of the class", appended(w.snap_own, w.own.entries, s))
    if w.snap_own is None:
        return c.prove("the setting is the only one of the class", len(w.own.entries) == 1 and isinstance(w.own.entries[0], Item) and w.own.entries[0].value is s)
    n = w.ownseq.n
    c.prove("the number of settings", c.len(w.own) == n + 1)
    j = e.fresh("j", Int)
    c.assume(AND(0 <= j, j <= n))
    x = rt.getitem(w.own, SI(j))
    if e.fork(j == n):
        return c.prove("the setting is the last of the class", x is s)
    c.prove("the settings already there are kept in order", c.same(x, w.ownseq.at(j)))


@contract("Union.register", ["Union.register", "StaticUnionMembers.register", "check_instance_of", "check_subclass_of", "check_not_none"], "P17")
def register(c):
    from databind.core import settings as S
    from databind.core.union import ChainUnionMembers, StaticUnionMembers
    e, rt = c.e, c.rt
    T = type_sv(z3.Const("extends", V))
    sub = type_sv(z3.Const("subtype", V)) if c.choose("class", "object") == "class" else c.value("subtype")
    if sub.cls is None:
        c.assume(NOT(c.isa(sub, type)))
    name = SV(z3.Const("name", V), str) if c.choose("name", "no name") == "name" else None
    if name is not None:
        c.assume(c.truthy(name))
    m = object.__new__(StaticUnionMembers)
    held, before = VDict(), []
    e_n, e_at = z3.Int("members_n"), e.fn("member_id", Int, V)
    c.assume(e_n >= 0)
    if e.bounded is None:
        f, k, j = e.fn("members!", Int, Int), z3.Int("members_k"), z3.Int("j!")
        e.add(z3.ForAll([j], f(j) == 0, patterns=[f(j)]))
        held.entries.append(Rec(PathFn(f, []), k, e_n, [(0, [], [Item(SV(e_at(k), str), SV(e.fn("member", V, V)(e_at(k))))])]))
    else:
        c.assume(e_n <= 1)
        if e.fork(e_n == 1):
            held.entries.append(Item(SV(e_at(z3.IntVal(0)), str), SV(e.fn("member", V, V)(e_at(z3.IntVal(0))))))
    before = list(held.entries)
    m.__dict__.update(members=held, _eval_cache=VDict())
    u = object.__new__(S.Union)
    kind = c.choose("static", "other members", "no union")
    u.__dict__.update(members=m if kind == "static" else object.__new__(ChainUnionMembers), style="nested", discriminator_key="type", nesting_key=None)
    asked = []

    def setting_of(cls, what):
        asked.append((cls, what))
        if not (isinstance(cls, SV) and cls.t.eq(T.t)) or what is not S.Union:
            return None if kind == "no union" else SV(z3.Const("another_setting", V))
        return None if kind == "no union" else u
    c.stub(S.get_class_setting, setting_of)
    unchanged = lambda: len(held.entries) == len(before) and all(a is b for a, b in zip(held.entries, before)) and m.members is held
    o = c.run(lambda: rt.call(rt.call(S.Union.register, *([T] if name is None and c.choose("given", "default") == "default" else [T, name])), sub))
    ok = AND(kind == "static", c.isa(sub, type), e.sub(sub.t, T.t))
    if not o.ret:
        c.prove("an error only if there is no union or no subclass", AND(NOT(ok), o.raised(ValueError, TypeError)))
        return c.prove("an error: nothing is registered", unchanged())
    c.cover("registered")
    c.prove("needs a union base and a subclass of it", ok)
    c.prove("returns the class", c.same(o.value, sub))
    if len(held.entries) != len(before) + 1 or not all(a is b for a, b in zip(held.entries, before)) or not isinstance(held.entries[-1], Item) or m.members is not held:
        raise Unsupported("registration is not one more entry")
    want = name if name is not None else SV(e.fn("attr__name__", V, V)(sub.t), str)
    x = held.entries[-1]
    c.prove("is registered under the name (by default its own), and nothing else is", AND(c.same(x.key, want), c.same(x.value, sub)) if isinstance(x.value, SV) else FALSE)
