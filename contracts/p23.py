"""P23: extended dataclasses."""
import dataclasses
import types
import typing
import z3
from pyvc.lib import *
from contracts.p09 import forall


@contract("field", ["field"], "P23")
def field_(c):
    from databind.core import dataclasses as D
    e, rt = c.e, c.rt
    calls = []

    def std(*a, **k):
        calls.append((a, k))
        return SV(z3.Const("the_field", V))
    c.stub(dataclasses.field, std)
    others = {n: c.value(n) for n in ("default", "default_factory", "init", "repr", "compare", "hash", "kw_only")}
    if c.choose("no other options", "options") == "no other options":
        others = {}
    ann = c.value("given_annotations")
    meta = None
    case = c.choose("no metadata", "none given", "metadata")
    if case == "metadata":
        meta = SV(z3.Const("metadata", V), dict, map=True)
    kw = dict(others) if case == "no metadata" else dict(others, metadata=meta)
    has_ann = c.choose("annotations", "none") == "annotations"
    o = c.run(D.field, annotations=ann, **kw) if has_ann else c.run(D.field, **kw)
    if not o.ret or len(calls) != 1 or calls[0][0]:
        return c.never("makes one field of the standard library", repr(o))
    c.prove("gives the field", c.same(o.value, SV(z3.Const("the_field", V))))
    k = dict(calls[0][1])
    got = k.pop("metadata", None)
    c.prove("passes the options on", AND([c.same(k[n], others[n]) if n in k else FALSE for n in others] + [n in others for n in k]))
    if not has_ann or not e.fork(e.truthy(ann.t)):
        # (the standard library takes no metadata and empty metadata for the same)
        if got is None:
            return c.prove("the metadata is that given", meta is None or NOT(e.truthy(meta.t)))
        if isinstance(got, dict) and not got:
            return c.prove("the metadata is that given", meta is None or NOT(e.truthy(meta.t)))
        return c.prove("the metadata is that given", c.same(got, meta))
    c.cover("annotations")
    if isinstance(got, dict):
        d = VDict()
        for n, x in got.items():
            d.entries.append(Item(n, x))
        got = d
    if not isinstance(got, VDict):
        return c.never("the annotations end up in the metadata", repr(got))
    x = e.last_write(got, D.ANNOTATIONS_METADATA_KEY)
    c.prove("the annotations end up in the metadata", c.same(x, ann) if x is not NOTHING else FALSE)
    q = e.fresh("q", V)
    c.assume(q != e.const(D.ANNOTATIONS_METADATA_KEY))
    x = e.last_write(got, SV(q))
    if meta is None:
        return None if x is NOTHING else c.never("there is no other metadata")
    if x is NOTHING:
        c.cover("no such metadata")
        return c.prove("next to all other metadata", NOT(e.has(meta.t, q)))
    c.cover("other metadata")
    c.prove("next to all other metadata", AND(e.has(meta.t, q), c.same(x, SV(e.mget(meta.t, q)))))


class TheClass:
    """An arbitrary class whose attributes may be fields; what is written to the class and to its fields is recorded."""
    _leaf_ = True

    def __init__(self, c):
        from databind.core.utils import NotSet
        self.c, self.e, self.rt = c, c.e, c.rt
        e, rt = c.e, c.rt
        self.attrs, self.inits = VDict(), VDict()       # attribute -> value; field -> default that is set
        self.deleted, self.other = VDict(), []
        self.result, self.made = None, 0
        rt.static(NotSet.Value)
        rt.static(dataclasses.MISSING)
        rt.static(typing.ClassVar)
        self.T = type_sv(z3.Const("T", V), setattr=self.setattr, delattr=self.delattr)
        self.ann = e.fn("own_annotations", V, V)(self.T.t)
        rt.shapes[("pytype", "__annotations__")] = lambda rt, T: SV(self.ann, dict, map=True, key=str_elem, val=self.annotation)
        rt.shapes[("pytype", "__post_init__")] = self.post_init
        rt.shapes[("annotation", "__origin__")] = self.origin
        for n in ("init", "default", "default_factory"):
            rt.shapes[("attribute", n)] = lambda rt, x, n=n: self.field_attr(x, n)
        rt.hasattr_hook, rt.getattr_hook = self.hasattr, self.getattr
        rt.shapes[("pytype", "__dict__")] = lambda rt, T: self.namespace(rt, T)
        self.T.x["vars"] = self.namespace
        self.call_hook = self.no_call
        # the hook is an attribute of the class: its own, or inherited
        own, hook = e.fn("vars", V, V)(self.T.t), e.const("__post_init__")
        self.has_hook, self.hook = z3.Bool("has_post_init"), z3.Const("post_init", V)
        c.assume(z3.Implies(e.has(own, hook), AND(self.has_hook, e.mget(own, hook) == self.hook)))
        c.assume(AND(e.truthy(self.hook), self.hook != e.const(None)))

    def annotation(self, rt, sv, k):
        return SV(self.e.mget(sv.t, k), None, shape="annotation")

    def origin(self, rt, x):
        if not self.e.fork(self.e.fn("has_origin", V, Bool)(x.t)):
            raise AttributeError("__origin__")
        return SV(self.e.fn("origin", V, V)(x.t))

    def class_var(self, k):
        e = self.e
        x, cv = e.mget(self.ann, k), e.const(typing.ClassVar)
        return OR(x == cv, AND(e.fn("has_origin", V, Bool)(x), e.fn("origin", V, V)(x) == cv))

    # the class before it is decorated
    def has0(self, k):
        return self.e.fn("has_attribute", V, V, Bool)(self.T.t, k)

    def attr0(self, k):
        return self.e.fn("attribute", V, V, V)(self.T.t, k)

    def is_field(self, x):
        return self.e.subclass(self.e.typeof(x), dataclasses.Field)

    def flag(self, x, n):
        return self.e.fn("field_" + n, V, V)(x)

    def post_init(self, rt, T):
        if not self.e.fork(self.has_hook):
            raise AttributeError("__post_init__")
        return SV(self.hook, None, call=self.run_hook)

    def no_call(self, rt, f, a, k):
        raise Unsupported("a hook that is called while the class is made")

    def run_hook(self, rt, f, a, k):
        return self.call_hook(rt, f, a, k)

    # what the code does to it
    def hasattr(self, o, name):
        if not isinstance(o, SV) or o is not self.T:
            raise Unsupported("hasattr of something else")
        if self.e.last_write(self.attrs, name) is not NOTHING:
            return True
        return SB(self.has0(self.rt.lift(name)))

    def getattr(self, o, name, *default):
        if not isinstance(o, SV) or o is not self.T:
            raise Unsupported("getattr of something else")
        x = self.e.last_write(self.attrs, name)
        if x is not NOTHING:
            return x
        k = self.rt.lift(name)
        if not self.e.fork(self.has0(k)):
            if default:
                return default[0]
            raise AttributeError("no such attribute")
        return self.attribute(self.attr0(k))

    def attribute(self, t):
        return SV(t, None, shape="attribute", setattr=self.set_field)

    def field_attr(self, x, n):
        e = self.e
        if n == "default":
            w = e.last_write(self.inits, x)
            if w is not NOTHING:
                return w
        return SV(self.flag(x.t, n), bool if n == "init" else None)

    def set_field(self, rt, x, name, v):
        if name != "default":
            self.c.never("nothing but the default of a field is changed", name)
            raise Unsupported("another attribute of a field")
        self.inits.event(Item(x, v))

    def setattr(self, rt, T, name, v):
        if not isinstance(name, Sym):
            self.other.append((name, v))
            return
        self.attrs.event(Item(name, v))

    def delattr(self, rt, T, name):
        self.deleted.event(Item(name, True))

    def namespace(self, rt, T):
        return SV(self.e.fn("vars", V, V)(T.t), types.MappingProxyType, map=True, key=str_elem,
                  val=lambda rt, sv, k: SV(self.e.mget(sv.t, k), None, shape="attribute", call=self.run_hook))

    def new_field(self, *a, **k):
        # (the contract of field(), above: without arguments)
        e = self.e
        if a or any(v is not None for v in k.values()):
            raise Unsupported("a field that is made with arguments")
        f = self.attribute(e.fresh("new_field", V))
        e.add(self.is_field(f.t))
        e.add(AND(self.flag(f.t, "init") == e.const(True), self.flag(f.t, "default") == e.const(dataclasses.MISSING),
                  self.flag(f.t, "default_factory") == e.const(dataclasses.MISSING), e.fn("made_here", V, Bool)(f.t)))
        self.made += 1
        e.add(e.fn("serial_number", V, Int)(f.t) == (e.frames[-1].k if e.frames else self.made))
        return f


@contract("dataclass / _process_class", ["dataclass", "_process_class", "_field_has_default"], "P23")
def decorator(c):
    from databind.core import dataclasses as D
    from databind.core.utils import NotSet
    e, rt = c.e, c.rt
    w = TheClass(c)
    state = []
    opts = {n: c.value(n) for n in ("frozen", "slots", "kw_only")}
    if c.choose("no options", "options") == "no options":
        opts = {}

    def std(cls=None, **k):
        state.append((cls, k, w.attrs.snapshot(), w.inits.snapshot(), list(w.other), w.deleted.snapshot()))
        w.result = type_sv(z3.Const("decorated", V), delattr=w.delattr, setattr=w.setattr, vars=w.namespace)
        return w.result
    c.stub(dataclasses.dataclass, std)
    c.stub(dataclasses.field, w.new_field)
    # the fields of a class are distinct objects, each with one name
    j = z3.Int("j!")
    names = e.mkeys(w.ann)
    name_of = e.fn("name_of_field", V, V)
    x = lambda j: w.attr0(e.sat(names, j))
    c.assume(forall(e, j, e.length(names), lambda j: AND(z3.Implies(w.is_field(x(j)), AND(name_of(x(j)) == e.sat(names, j), NOT(e.fn("made_here", V, Bool)(x(j))))),
                                                         OR(w.flag(x(j), "init") == e.const(True), w.flag(x(j), "init") == e.const(False))), lambda j: [x(j)]))
    if c.choose("with the class", "with options first") == "with the class":
        o = c.run(D.dataclass, w.T, **opts)
    else:
        o = c.run(D.dataclass, **opts)
        if o.ret:
            o = c.run(o.value, w.T)
    if not o.ret:
        return c.never("does not fail", repr(o))
    if len(state) != 1:
        return c.never("makes a dataclass once", repr(state))
    cls, k, attrs, inits, other, deleted = state[0]
    c.prove("gives what the standard decorator gives", c.same(o.value, w.result))
    c.prove("decorates the class itself, with the options given", AND([c.same(cls, w.T)] + [c.same(k[n], opts[n]) if n in k else FALSE for n in opts] + [n in opts for n in k]))
    c.prove("sets the hook and nothing else", [n for n, _ in other] == ["__post_init__"] and w.other == other and not deleted.entries)
    case = c.choose("no annotation", "annotation")
    q = e.fresh("q", V)
    Q = SV(q, str)
    got = e.last_write(attrs, Q)
    if case == "no annotation":
        c.assume(NOT(e.has(w.ann, q)))
        return None if got is NOTHING else c.never("changes annotated attributes only")
    pos = e.fresh("pos", Int)
    c.assume(AND(0 <= pos, pos < e.length(names), e.sat(names, pos) == q, e.has(w.ann, q)))
    had = e.fork(w.has0(q))
    gone = e.last_write(w.deleted, Q) is not NOTHING
    left = AND(e.has(e.fn("vars", V, V)(w.result.t), q), e.mget(e.fn("vars", V, V)(w.result.t), q) == e.const(NotSet.Value))
    none = e.const(dataclasses.MISSING)
    unset = None
    if e.fork(w.class_var(q)):
        c.cover("class variable")
        c.prove("class variables are left alone", AND(got is NOTHING, NOT(gone)))
        f = w.attribute(w.attr0(q))
    elif had:
        c.prove("attributes that are there are not replaced", got is NOTHING)
        f = w.attribute(w.attr0(q))
        unset = AND(w.is_field(f.t), w.flag(f.t, "init") == e.const(True), w.flag(f.t, "default") == none, w.flag(f.t, "default_factory") == none)
    else:
        c.cover("no attribute")
        if got is NOTHING:
            return c.never("annotated attributes without value become fields")
        c.prove("annotated attributes without value become new fields", e.fn("made_here", V, Bool)(rt.lift(got)))
        f, unset = got, TRUE
    if not had and got is NOTHING:
        return
    d = e.last_write(inits, f)
    if unset is None:
        c.assume(w.is_field(f.t))
        return None if d is NOTHING else c.never("class variables are not given a default")
    if d is NOTHING:
        c.cover("default")
        c.prove("fields without default are made optional", NOT(unset))
    else:
        c.cover("no default")
        c.prove("only fields that are required are given a default", unset)
        c.prove("a field that is left out is marked so", d is NotSet.Value)
    if gone:
        c.prove("only markers are removed from the class, again", AND(unset, left))
    else:
        c.prove("no marker is left on the class", NOT(AND(unset, left)))


@contract("dataclass().__post_init__", ["_process_class.__post_init__"], "P23")
def post_init(c):
    from databind.core import dataclasses as D
    from databind.core.utils import NotSet
    e, rt = c.e, c.rt
    w = TheClass(c)
    c.assume(e.length(e.mkeys(w.ann)) == 0)
    c.stub(dataclasses.dataclass, lambda cls, **k: cls)
    o = c.run(D.dataclass, w.T)
    hooks = [v for n, v in w.other if n == "__post_init__"]
    if not o.ret or len(hooks) != 1 or not isinstance(hooks[0], types.FunctionType):
        return c.never("sets a hook", repr(o))
    has_hook = e.fork(w.has_hook)
    calls, ftab, nchecked = [], z3.Const("the_fields", V), []

    def hook(rt, f, a, k):
        if e.frame is not None:
            raise Unsupported("hook called in a summarised loop")
        calls.append((a, k, f))
        if e.fork(z3.Bool("hook_fails")):
            raise Leak("the hook's")
        return SV(z3.Const("hook_result", V))
    w.call_hook = hook
    S = SV(z3.Const("self", V), None)
    n = e.length(ftab)
    at = lambda j: e.sat(ftab, j)
    rt.shapes[("field", "init")] = lambda rt, x: SV(e.fn("field_init", V, V)(x.t), bool)
    rt.shapes[("field", "name")] = lambda rt, x: SV(e.fn("field_name", V, V)(x.t), str)
    c.stub(dataclasses.fields, lambda x: IdxSeq(n, lambda j: SV(at(j), dataclasses.Field, shape="field"), None, at) if x is S else c.never("looks at the fields of the instance"))
    attr = e.fn("value_of", V, V)
    rt.getattr_hook = lambda o, name, *d: SV(attr(rt.lift(name)))
    init = SV(z3.Const("init_vars", V), tuple)
    m = e.length(init.t)
    ns = e.const(NotSet.Value)
    missing_field = lambda j: AND(e.fn("field_init", V, V)(at(j)) == e.const(True), attr(e.fn("field_name", V, V)(at(j))) == ns)
    o = c.run(one_tuple(hooks[0]), S, init)
    j = z3.Int("j!")
    if o.raised(TypeError) and not isinstance(o.value, Leak):
        c.cover("missing")
        c.prove("the hook is not run then", not calls)
        c.assume(forall(e, j, n, lambda j: NOT(missing_field(j)), lambda j: [at(j)]))
        c.assume(forall(e, j, m, lambda j: e.sat(init.t, j) != ns, lambda j: [e.sat(init.t, j)]))
        return c.never("is an error only if something is missing")
    i = e.fresh("i", Int)
    if c.choose("field", "variable") == "field":
        c.assume(AND(0 <= i, i < n))
        c.prove("a field that is left out is an error", NOT(missing_field(i)))
    else:
        c.assume(AND(0 <= i, i < m))
        c.prove("an init-only variable that is left out is an error", e.sat(init.t, i) != ns)
    if not has_hook:
        c.cover("no hook")
        return c.prove("nothing else happens", AND(o.ret, not calls))
    c.cover("hook")
    if len(calls) != 1 or calls[0][1]:
        return c.never("the hook is run once", repr(calls))
    a = calls[0][0]
    c.prove("the class's own or inherited hook is run", calls[0][2].t == w.hook)
    whole = lambda x: c.same(x.seq, init) if isinstance(x, StarSeq) else FALSE
    c.prove("with the instance and the init-only variables", AND(len(a) == 2, c.same(a[0], S), whole(a[1])) if len(a) == 2 else FALSE)
    if e.fork(z3.Bool("hook_fails")):
        return c.prove("an error of the hook is passed on", isinstance(o.value, Leak))
    c.prove("no error otherwise", o.ret)
