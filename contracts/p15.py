"""P15: registries of union members."""
import types
import z3
from pyvc.lib import *
from contracts import p17  # noqa: F401
from contracts.p16 import match

FN = types.FunctionType


def registry(c, cached):
    """A static registry of arbitrary members; its evaluations so far contain those of some of its members only."""
    from databind.core.union import StaticUnionMembers
    e, rt = c.e, c.rt
    m = object.__new__(StaticUnionMembers)
    mt = z3.Const("members", V)
    calls = []

    def evaluate(rt, f, args, kw):
        if args or kw:
            c.never("deferred members are called without arguments")
        calls.append(f.t)
        if c.leaks and e.fork(e.fn("deferred_fails", V, Bool)(f.t)):
            raise Leak()
        return SV(e.fn("evaluated", V, Int, V)(f.t, z3.IntVal(len(calls))))
    members = SV(mt, dict, map=True, key=str_elem, val=lambda rt, sv, k: SV(e.mget(sv.t, k), None, call=evaluate))
    cache = VDict()
    m.__dict__.update(members=members, _eval_cache=cache)
    return m, mt, members, cache, calls


@contract("StaticUnionMembers.get_type_by_id", ["StaticUnionMembers.get_type_by_id"], "P15")
def by_id(c):
    """A history of three lookups: of two ids (maybe the same, maybe of the same deferred type), and of the first one again, after
    another member may have been registered under it."""
    e, rt = c.e, c.rt
    m, mt, members, cache, calls = registry(c, True)
    i, other = SV(z3.Const("id", V), str), SV(z3.Const("other_id", V), str)
    results = {}

    def look(i, map_, what):
        before = len(calls)
        o = c.run(m.get_type_by_id, i)
        if not e.fork(e.has(map_, i.t)):
            c.cover("unknown")
            return c.prove(f"{what}: an unknown id is a ValueError, and nothing is evaluated", AND(o.raised(ValueError), not isinstance(o.value, Leak), len(calls) == before))
        member = e.mget(map_, i.t)
        if not e.fork(e.subclass(e.typeof(member), FN)):
            c.cover("plain")
            return c.prove(f"{what}: a type that is not deferred is given as it is", AND(c.same(o.value, SV(member)), len(calls) == before) if o.ret else FALSE)
        c.cover("deferred")
        if not o.ret:
            return c.prove(f"{what}: only an error of the deferred type itself is an error", AND(isinstance(o.value, Leak), len(calls) == before + 1))
        mine = [k for k, f in enumerate(calls) if e.fork(f == member)]
        c.prove(f"{what}: a deferred type is evaluated exactly once", len(mine) == 1)
        c.prove(f"{what}: nothing else is evaluated", len(calls) <= before + 1)
        if mine:
            c.prove(f"{what}: a deferred type: the type it evaluates to", c.same(o.value, SV(e.fn("evaluated", V, Int, V)(member, z3.IntVal(mine[0] + 1)))))
        c.cover("evaluated before" if len(calls) == before else "evaluated now")
    look(i, mt, "first")
    look(other, mt, "second")
    c.prove("the members are kept", m.members is members)
    if c.choose("same member", "another member") == "another member":
        mt2 = z3.Const("members2", V)
        members2 = SV(mt2, dict, map=True, key=str_elem, val=lambda rt, sv, k: SV(e.mget(sv.t, k), None, call=members.x["val"](rt, sv, k).x["call"]))
        m.__dict__["members"] = members2
        mt = mt2
    look(i, mt, "again")


@contract("StaticUnionMembers.get_type_id/get_type_ids", ["StaticUnionMembers.get_type_id", "StaticUnionMembers.get_type_ids"], "P15")
def by_type(c):
    from databind.core.union import StaticUnionMembers
    e, rt = c.e, c.rt
    m, mt, members, cache, calls = registry(c, False)
    ks = rt.keys_seq(members)
    if c.choose("ids", "id") == "ids":
        o = c.run(m.get_type_ids)
        if not o.ret or not isinstance(o.value, VList):
            return c.never("the ids are listed", repr(o))
        return c.log_is("lists the ids in the order of registration", o.value.entries, ks.n, lambda j: [(None, ks.at(j))])
    T = SV(z3.Const("T", V), truthy=True)
    R = e.fn("type_of_id", V, V)

    def lookup(self, i):        # its contract: the type of the id, or a ValueError if unknown
        i = rt.lift(i)
        if e.fork(e.has(mt, i)):
            return SV(R(i), None, isa=None, shape="member")
        raise ValueError(i)
    c.stub(StaticUnionMembers.get_type_by_id, lookup)
    rt.shapes[("member", "type")] = lambda rt, sv: type_sv(e.fn("hint_type", V, V)(sv.t))
    o = c.run(m.get_type_id, T)
    hint = typeapi().ClassTypeHint
    is_it = lambda i: OR(c.eq(SV(R(i)), T), AND(e.subclass(e.typeof(R(i)), hint), c.eq(type_sv(e.fn("hint_type", V, V)(R(i))), T)))
    j = z3.Int("j!")
    if not o.ret:
        c.cover("unknown")
        return c.prove("a type is unknown only if it is that of no id; then a ValueError", AND(
            o.raised(ValueError), z3.ForAll([j], z3.Implies(AND(0 <= j, j < ks.n), NOT(is_it(rt.lift(ks.at(j))))))))
    c.cover("known")
    k = match(rt.lift(ks.at(j)), rt.lift(o.value), {})
    if k is None or "j!" not in k:
        raise Unsupported("the id found is not one of the keys")
    k = k["j!"]
    c.prove("gives the first id of the type", AND(0 <= k, k < ks.n, is_it(rt.lift(ks.at(k))), z3.ForAll([j], z3.Implies(AND(0 <= j, j < k), NOT(is_it(rt.lift(ks.at(j))))))))


class Distinct(Stub):
    """The result of Stream.distinct() on a stream: the elements in the order of their first occurrence (assumed)."""

    def __init__(self, log):
        self.log = log

    def collect(self, f=list):
        if f is not list:
            raise Unsupported("collect")
        return self


@contract("ChainUnionMembers", ["ChainUnionMembers.get_type_id", "ChainUnionMembers.get_type_by_id", "ChainUnionMembers.get_type_ids"], "P15")
def chain(c):
    from nr.stream import Stream
    from databind.core.union import ChainUnionMembers
    e, rt = c.e, c.rt
    n, at = z3.Int("delegates_n"), e.fn("delegate", Int, V)
    c.assume(n >= 0)
    m = object.__new__(ChainUnionMembers)

    def ask(name):
        out, res = e.fn("outcome_" + name, V, V, Int), e.fn("result_" + name, V, V, V)

        def f(sv, x):
            c.protect(x, "the argument") if False else None
            a = out(sv.t, rt.lift(x))
            k = e.choose([a == 0, a == 1, AND(a != 0, a != 1)])
            if k == 0:
                return SV(res(sv.t, rt.lift(x)))
            raise ValueError("unknown") if k == 1 else Odd("not a ValueError")
        rt.shapes[("delegate", name)] = lambda rt, sv: VMethod(sv, name, f)
        return out, res
    ask("get_type_id"), ask("get_type_by_id")
    lists, ids = e.fn("lists_ids", V, Bool), e.fn("ids", V, V)

    def get_type_ids(sv):
        if not e.fork(lists(sv.t)):
            raise NotImplementedError
        return SV(ids(sv.t), list, elem=str_elem)
    rt.shapes[("delegate", "get_type_ids")] = lambda rt, sv: VMethod(sv, "get_type_ids", get_type_ids)
    m.__dict__["delegates"] = IdxSeq(n, lambda j: SV(at(j), None, shape="delegate"), None, lambda j: at(j))
    what = c.choose("get_type_id", "get_type_by_id", "get_type_ids")
    j = z3.Int("j!")
    if what == "get_type_ids":
        def distinct(self, *a, **k):
            if a or k:
                raise Unsupported("distinct with a key")
            l = VList()
            rt._fill(l, self)
            return Distinct(l)
        c.stub(Stream.distinct, distinct)
        o = c.run(m.get_type_ids)
        if not o.ret:
            return c.never("the ids are listed", repr(o))
        if not isinstance(o.value, Distinct):
            raise Unsupported("ids not made by Stream.distinct")

        def spec(j):
            if not e.fork(lists(at(j))):
                return []
            s = ids(at(j))
            return Nested(e.length(s), lambda k: [(None, SV(e.sat(s, k)))])
        return c.log_is("the distinct ids of all that can list theirs, in order", o.value.log.entries, n, spec)
    x = SV(z3.Const("x", V), truthy=True)
    out, res = e.fn("outcome_" + what, V, V, Int), e.fn("result_" + what, V, V, V)
    o = c.run(getattr(m, what), x)
    if o.raised(ValueError):
        c.cover(f"{what}: unknown")
        return c.prove(f"{what}: a ValueError only if no registry knows", z3.ForAll([j], z3.Implies(AND(0 <= j, j < n), out(at(j), x.t) == 1)))
    if o.raised(Odd):
        k = e.fresh("k", Int)
        return c.prove(f"{what}: other errors are those of a registry", NOT(z3.ForAll([j], z3.Implies(AND(0 <= j, j < n), OR(out(at(j), x.t) == 0, out(at(j), x.t) == 1)))))
    if not o.ret:
        return c.never(f"{what}: gives a result or a ValueError", repr(o))
    c.cover(f"{what}: known")
    k = match(res(at(j), x.t), rt.lift(o.value), {})
    if k is None or "j!" not in k:
        raise Unsupported(f"{what}: the result is not one of a registry")
    k = k["j!"]
    c.prove(f"{what}: the answer of the first registry that knows", AND(0 <= k, k < n, out(at(k), x.t) == 0, z3.ForAll([j], z3.Implies(AND(0 <= j, j < k), out(at(j), x.t) == 1))))


class Odd(Exception):
    pass


@contract("ImportUnionMembers.get_type_id", ["ImportUnionMembers.get_type_id"], "P15")
def import_id(c):
    from databind.core.union import ImportUnionMembers
    e, rt = c.e, c.rt
    m = object.__new__(ImportUnionMembers)
    T = type_sv(z3.Const("T", V)) if c.choose("class", "object") == "class" else c.value("T")
    if T.cls is None:
        c.assume(NOT(c.isa(T, type)))
    o = c.run(m.get_type_id, T)
    if T.cls is None:
        return c.prove("what is not a class has no id: a ValueError", o.raised(ValueError))
    mod, qual = (SV(e.fn("attr" + n, V, V)(T.t), str) for n in ("__module__", "__qualname__"))
    if e.fork(c.tobool(rt.contains(qual, "<"))):
        return c.prove("a class that is not at the top level has no id: a ValueError", o.raised(ValueError))
    c.cover("id")
    c.prove("the id is the name of the module and the qualified name", c.text_is(o.value, mod, ".", qual) if o.ret else FALSE)


@contract("EntrypointUnionMembers", ["EntrypointUnionMembers.__init__", "EntrypointUnionMembers._entrypoints", "EntrypointUnionMembers.get_type_id", "EntrypointUnionMembers.get_type_by_id", "EntrypointUnionMembers.get_type_ids"], "P15")
def entrypoints(c):
    """A group of any number of entry points of distinct names; the entry points are looked up at most once."""
    from databind.core import union
    e, rt = c.e, c.rt
    n, at = z3.Int("entrypoints_n"), e.fn("entrypoint", Int, V)
    name, loaded = e.fn("ep_name", V, V), e.fn("ep_type", V, V)
    c.assume(n >= 0)
    a, b = z3.Ints("a! b!")
    c.assume(z3.ForAll([a, b], z3.Implies(AND(0 <= a, a < b, b < n), name(at(a)) != name(at(b))), patterns=[z3.MultiPattern(name(at(a)), name(at(b)))]))
    rt.shapes[("entrypoint", "name")] = lambda rt, sv: SV(name(sv.t), str)
    rt.shapes[("entrypoint", "load")] = lambda rt, sv: VMethod(sv, "load", lambda sv: SV(loaded(sv.t)))
    groups = []

    def lookup(group):
        groups.append(group)
        return IdxSeq(n, lambda j: SV(at(j), None, shape="entrypoint"), None, lambda j: at(j))
    c.stub(union.iter_entry_points, lookup)
    group = c.value("group", str)
    o = c.run(union.EntrypointUnionMembers, group)
    if not o.ret:
        return c.never("a registry is made", repr(o))
    m = o.value
    what = c.choose("get_type_ids", "get_type_id", "get_type_by_id")
    for i in range(2):
        x = SV(z3.Const(f"x{i}", V), str) if what == "get_type_by_id" else SV(z3.Const(f"x{i}", V), truthy=True)
        o = c.run(getattr(m, what), *([] if what == "get_type_ids" else [x]))
        c.prove(f"{what}: the entry points of the group are looked up once", AND(len(groups) == 1, c.same(groups[0], group)) if groups else FALSE)
        j = z3.Int("j!")
        if what == "get_type_ids":
            if not o.ret or not isinstance(o.value, VList):
                return c.never("the ids are listed", repr(o))
            c.log_is("lists the names in order", o.value.entries, n, lambda j: [(None, SV(name(at(j)), str))])
        elif o.raised(ValueError):
            c.cover(f"{what}: unknown")
            same = (lambda k: name(at(k)) == x.t) if what == "get_type_by_id" else (lambda k: c.eq(SV(loaded(at(k))), x))
            c.prove(f"{what}: a ValueError only if there is none", z3.ForAll([j], z3.Implies(AND(0 <= j, j < n), NOT(same(j)))))
        elif not o.ret:
            return c.never(f"{what}: a result or a ValueError", repr(o))
        else:
            c.cover(f"{what}: known")
            k = match((loaded if what == "get_type_by_id" else name)(at(j)), rt.lift(o.value), {})
            if k is None or "j!" not in k:
                raise Unsupported(f"{what}: the result is not one of an entry point")
            k = k["j!"]
            if what == "get_type_by_id":
                c.prove("get_type_by_id: the type of the entry point of that name", AND(0 <= k, k < n, name(at(k)) == x.t))
            else:
                c.prove("get_type_id: the name of the first entry point of that type", AND(0 <= k, k < n, c.eq(SV(loaded(at(k))), x), z3.ForAll([j], z3.Implies(AND(0 <= j, j < k), NOT(c.eq(SV(loaded(at(j))), x))))))


@contract("ImportUnionMembers.get_type_by_id (up to four parts)", ["ImportUnionMembers.get_type_by_id"], "P15")
def import_type(c):
    """Ids of one to four parts (bounded); the parts, what can be imported and what has which attributes are arbitrary.  An error
    while importing is one that the module is missing (its text names it), or another one, which is no answer and propagates."""
    import importlib
    from databind.core.union import ImportUnionMembers
    e, rt = c.e, c.rt
    m = object.__new__(ImportUnionMembers)
    n = 1 + e.choose([z3.BoolVal(True)] * (4 if e.bounded is None else 3))
    parts = [SV(z3.Const(f"part{i}", V), str) for i in range(n)]
    rt.shapes[("id", "split")] = lambda rt, sv: VMethod(sv, "split", lambda sv, sep: list(parts) if sep == "." else c.never("split at dots"))
    out, msg, module = e.fn("import_outcome", V, Int), e.fn("import_error", V, V), e.fn("module", V, V)
    aout, attr = e.fn("attribute_outcome", V, V, Int), e.fn("attribute", V, V, V)
    def missing(name):
        return c.tobool(rt.contains(SV(msg(name.t), str), name))

    def import_module(name, package=None):
        if package is not None:
            raise Unsupported("a relative import")
        name = name if isinstance(name, SV) else SV(rt.lift(name), str)
        k = e.choose([out(name.t) == 0, out(name.t) == 1, AND(out(name.t) != 0, out(name.t) != 1)])
        if k == 0:
            return SV(module(name.t), None)
        if k == 1:
            exc = ImportError(SV(msg(name.t), str))
            raise exc
        raise Leak()
    c.stub(importlib.import_module, import_module)

    def hook(o, name, *default):
        if default:
            raise Unsupported("getattr with a default")
        t = rt.lift(o)
        k = e.choose([aout(t, name.t) == 0, aout(t, name.t) == 1, AND(aout(t, name.t) != 0, aout(t, name.t) != 1)])
        if k == 0:
            return SV(attr(t, name.t), None)
        raise AttributeError("no such attribute") if k == 1 else Leak()
    rt.getattr_hook = hook
    o = c.run(m.get_type_by_id, SV(z3.Const("id", V), str, shape="id"))
    name, target, i = parts[0], None, 0
    while True:
        if e.fork(out(name.t) == 1):
            if i == 0 or e.fork(missing(name)):
                break
            return c.prove("an import that fails otherwise is not hidden", o.raised(ImportError))
        if not e.fork(out(name.t) == 0):
            return c.prove("other errors of imported modules are not hidden", o.raised(Leak))
        target, i = module(name.t), i + 1
        if i == n:
            break
        name = rt.text([name, ".", parts[i]])
    if target is None:
        c.cover("no module")
        return c.prove("an unknown module is a ValueError", AND(o.raised(ValueError), not o.raised(Leak)))
    if i == n and n > 1:
        c.cover("a module")        # a module that has a class of its own name: out of scope
        return c.prove("a module is no class", AND(NOT(o.raised(ImportError, AttributeError)), OR(o.ret, o.raised(ValueError), o.raised(Leak))))
    while i < n:
        if not e.fork(aout(target, parts[i].t) == 0):
            c.cover("no attribute")
            return c.prove("an unknown attribute is a ValueError", AND(o.raised(ValueError), not o.raised(Leak)) if e.fork(aout(target, parts[i].t) == 1) else o.raised(Leak))
        target, i = attr(target, parts[i].t), i + 1
    if not e.fork(e.subclass(e.typeof(target), type)):
        c.cover("no class")
        return c.prove("what is not a class is a ValueError", AND(o.raised(ValueError), not o.raised(Leak)))
    c.cover("a class")
    c.prove("gives the attribute of the longest prefix that can be imported", c.same(o.value, SV(target)) if o.ret else FALSE)
