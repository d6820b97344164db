"""P05: EnumConverter."""
import enum
import z3
from pyvc.lib import *

ALSO = ["P19", "P24"]


def enum_model(c, T):
    """The enum class T (assumed): its members in order, access by name and by value, the annotations of its members, and the
    aliases in an annotation (contract of get_annotation_setting, see P16)."""
    import typeapi
    from databind.core.settings import Alias
    import databind.core.settings as settings
    import databind.json.converters as converters
    e, rt = c.e, c.rt
    mem, n = e.fn("enum_member", V, Int, V), e.fn("enum_members", V, Int)
    name_of, value_of = e.fn("enum_name", V, V), e.fn("enum_value", V, V)

    def attr(f, cls):
        def get(rt, sv):
            if not e.fork(e.subclass(e.typeof(sv.t), enum.Enum)):
                raise AttributeError
            return SV(f(sv.t), cls)
        return get
    rt.shapes[("member", "name")] = rt.shapes[("member", "_name_")] = attr(name_of, str)
    rt.shapes[("member", "value")] = rt.shapes[("member", "_value_")] = attr(value_of, None)

    def member(t):
        return SV(t, None, shape="member", truthy=True)

    def iterseq(rt, T):
        e.add_once(n(T.t) >= 0)

        def at(j):
            m = mem(T.t, j)
            e.add_once(e.typeof(m) == T.t)
            return member(m)
        return IdxSeq(n(T.t), at, None, lambda j: mem(T.t, j))

    def item(rt, T, x):
        return member(rt.ext("enum_by_name", [T, x], None, (KeyError,)).t)

    def call(rt, T, args, kw):
        if len(args) != 1 or kw:
            raise Unsupported("call of an enum class")
        return member(rt.ext("enum_by_value", [T, args[0]], None, (ValueError,)).t)
    rt.type_x.update(iterseq=iterseq, item=item, call=call)
    anns, none = e.fn("get_annotations", V, V), e.fn("TypeHint_of", V, V)(e.const(None))
    has_ann, of = e.fn("annotation_has_Alias", V, Bool), e.fn("TypeHint_of", V, V)
    c.assume(NOT(has_ann(none)))

    def get_annotations(rt, T):
        return SV(anns(rt.lift(T)), dict)

    def setting(rt, hint, cls):
        if cls is not Alias:
            raise Unsupported("annotation setting " + cls.__name__)
        if not e.fork(has_ann(hint.t)):
            return None
        a = object.__new__(Alias)
        t = e.fn("annotation_Alias", V, V)(hint.t)
        al = SV(e.fn("Alias_aliases", V, V)(t), tuple, elem=str_elem)
        e.add_once(e.length(al.t) >= 1)
        a.__dict__["aliases"] = al
        return a
    for m in (typeapi, converters):
        if hasattr(m, "get_annotations"):
            rt.handle(m.get_annotations, get_annotations)
    rt.handle(settings.get_annotation_setting, setting)

    def alias(name):
        """(the member of this name has aliases, their term)."""
        a = anns(T)
        v = e.fn("mval", V, V, V)(a, name) if False else rt.val_of(SV(a, dict), SV(name, str)).t
        return AND(e.has(a, name), has_ann(of(v))), e.fn("Alias_aliases", V, V)(e.fn("annotation_Alias", V, V)(of(v)))
    return mem, n, name_of, value_of, alias


@contract("EnumConverter.convert", ["EnumConverter.convert", "EnumConverter._discover_alias", "_unwrap_annotated"], "P05", also=ALSO)
def enums(c):
    from databind.core.context import Direction
    from databind.core.converter import ConversionError
    from databind.json.converters import EnumConverter
    e, rt = c.e, c.rt
    hint, inner, kind = c.any_hint(ALL_KINDS)
    d = c.direction()
    T = rt.lift(inner.type) if kind == "class" else None
    mem, n, name_of, value_of, alias = enum_model(c, T)
    text = c.choose("text", "other") == "text" if d is Direction.DESERIALIZE else False
    v = c.value("v", str) if text else c.value("v", shape="member")
    if d is Direction.DESERIALIZE and not text:
        c.assume(NOT(c.isa(v, str)))
    ctx = c.context(v, hint, d)
    o = c.run(EnumConverter().convert, ctx)
    c.well_behaved(o)
    if kind != "class" or not e.fork(c.isa_type(inner.type, enum.Enum)):
        return c.prove("other types do not apply", o.raised(NotImplementedError))
    ints = e.fork(c.isa_type(inner.type, enum.IntEnum))
    if d is Direction.SERIALIZE:
        if not e.fork(c.typ(v) == T):
            return c.prove("dump: a value that is no member of exactly this enum is an error", o.raised(ConversionError))
        c.cover("dump int" if ints else "dump")
        if not o.ret:
            return c.never("dump: every member is dumped", repr(o))
        if ints:
            return c.prove("dump: an IntEnum member as its value", c.same(o.value, SV(value_of(v.t))))
        has, al = alias(name_of(v.t))
        return c.prove("dump: a member as its first alias, else its name",
                       c.same(o.value, SV(z3.If(has, e.sat(al, z3.IntVal(0)), name_of(v.t)))))
    if ints:
        if text or not e.fork(c.isa(v, int)):
            return c.prove("load: an IntEnum takes integers only", o.raised(ConversionError))
        c.cover("load int")
        out = e.fn("outcome_enum_by_value", V, V, Int)(T, v.t)
        return c.prove("load: an IntEnum member by its value", AND(out == 0, c.same(o.value, SV(e.fn("result_enum_by_value", V, V, V)(T, v.t))))
                       if o.ret else AND(out != 0, o.raised(ConversionError)))
    if not text:
        return c.prove("load: takes text only", o.raised(ConversionError))
    j, k = z3.Ints("j! k!")

    def takes(j):
        has, al = alias(name_of(mem(T, j)))
        return has, al

    def none_before(up):
        has, al = takes(j)
        return z3.ForAll([j, k], z3.Implies(AND(0 <= j, j < up, has, 0 <= k, k < e.length(al)), e.sat(al, k) != v.t))
    by_name = e.fn("outcome_enum_by_name", V, V, Int)(T, v.t)
    if o.ret and rt.known(o.value.t == e.fn("result_enum_by_name", V, V, V)(T, v.t)):
        c.cover("load by name")
        return c.prove("load: by name only if no member has the text as an alias", AND(by_name == 0, none_before(n(T))))
    if o.ret:
        c.cover("load by alias")
        m = o.value.t
        if m.decl().name() != "enum_member":
            raise Unsupported("the member found is given by another term")
        w = m.arg(1)
        has, al = takes(w)
        return c.prove("load: the first member with such an alias", AND(0 <= w, w < n(T), m.arg(0) == T, has, z3.Exists([k], AND(0 <= k, k < e.length(al), e.sat(al, k) == v.t)),
                                                                       none_before(w)))
    c.cover("load fails")
    c.prove("load: fails only for text that is neither alias nor name", AND(o.raised(ConversionError), by_name != 0, none_before(n(T))))
