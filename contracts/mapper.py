"""P24, P25 (and P18): the mapper and the entry points."""
import json
import z3
from pyvc.lib import *
from contracts.p16 import some_settings, some_list

P24, P25 = "P24", "P25"


def snapshot(s):
    return [s.parent] + [list(x.entries) for x in (s.global_settings, s.local_settings, s.providers)]


def as_before(s, gl, loc, pl, snap):
    return s.parent is snap[0] and s.global_settings is gl and s.local_settings is loc and s.providers is pl and all(
        len(x.entries) == len(y) and all(a is b for a, b in zip(x.entries, y)) for x, y in zip((gl, loc, pl), snap[1:]))


def mapper(c, settings=None):
    """A mapper with arbitrary settings and an arbitrary list of converters."""
    from databind.core.converter import Module
    from databind.core.mapper import ObjectMapper
    m = object.__new__(ObjectMapper)
    mod = object.__new__(Module)
    convs, seq = some_list(c, "converter")
    mod.__dict__.update(name=SV(z3.Const("module_name", V)), converters=convs)
    m.__dict__.update(module=mod, settings=settings)
    return m, mod, convs, seq


class Provider:
    """A settings provider of the user's."""
    _leaf_ = True


@contract("ObjectMapper.convert", ["ObjectMapper.convert", "Context.convert", "Settings.__init__"], "P24", "P25")
def convert(c):
    from databind.core.context import Context, Location
    from databind.core.converter import Module
    from databind.core.settings import Settings
    e, rt = c.e, c.rt
    s, parent, T, has, (gl, _), (tl, _), (pl, _), (loc, _, _) = some_settings(c)
    snap = snapshot(s)
    m, mod, convs, _ = mapper(c, s)
    before = list(convs.entries)
    asked = []

    def dispatch(*a):
        asked.append(a)
        if e.fork(z3.Bool("fails")):
            raise Leak("an error")
        return SV(z3.Const("converted", V))
    c.stub(Module.convert, dispatch)
    v, d = c.value("v"), c.direction()
    dt = c.hint("hint", "any") if c.choose("a hint", "a type") == "a hint" else type_sv(z3.Const("type", V))
    where = None if c.choose("no location", "location") == "no location" else c.protect(object.__new__(Location), "the location")
    kind = c.choose("no settings", "a list", "a provider")
    given, gseq = None, None
    if kind == "a list":
        given, gseq = some_list(c, "given")
        gsnap = list(given.entries)
    elif kind == "a provider":
        given = Provider()
    o = c.run(m.convert, d, v, dt, where, given)
    if len(asked) != 1 or len(asked[0]) != 2:
        return c.never("converts once", repr(o))
    (module, ctx), = asked
    if not isinstance(ctx, Context):
        return c.never("converts a context")
    want = dt.t if dt.x.get("shape") == "hint" else e.fn("TypeHint_of", V, V)(dt.t)
    c.prove("is converted by the mapper's module", module is mod and m.module is mod)
    c.prove("converts the value as the type, in the direction", AND(ctx.direction is d, c.same(ctx.value, v), rt.lift(ctx.datatype) == want))
    c.prove("the context is that of the root", ctx.parent is None and ctx.key is Context.ROOT)
    loc_ = ctx.location
    c.prove("the context has the location given, or none", loc_ is where if where is not None else loc_ == Location.EMPTY)
    c.prove("an error is passed on", o.raised(Leak)) if e.fork(z3.Bool("fails")) else \
        c.prove("gives what the module gives", c.same(o.value, SV(z3.Const("converted", V))) if o.ret else FALSE)
    c.prove("the mapper's settings and converters are as before",
            as_before(s, gl, loc, pl, snap) and m.settings is s and mod.converters is convs and len(before) == len(convs.entries) and all(a is b for a, b in zip(before, convs.entries)))
    if kind == "no settings":
        return c.prove("the settings are those of the mapper", ctx.settings is s)
    if kind == "a provider":
        return c.prove("a settings provider is used as it is", ctx.settings is given)
    n = ctx.settings
    if type(n) is not Settings:
        raise Unsupported(f"settings of the call: {n!r}")
    c.prove("settings of the call: in addition to those of the mapper", n is not s and n.parent is s)
    c.prove("settings of the call: nothing but them", AND(c.len(n.local_settings) == 0, c.len(n.providers) == 0))
    c.prove("settings of the call: the list is not kept", n.global_settings is not given)
    c.prove("settings of the call: the list is not modified", len(gsnap) == len(given.entries) and all(a is b for a, b in zip(gsnap, given.entries)))
    c.log_is("settings of the call: as given, in order", n.global_settings.entries, gseq.n, lambda j: [(None, gseq.at(j))])


@contract("ObjectMapper.serialize / deserialize", ["ObjectMapper.serialize", "ObjectMapper.deserialize"], "P25")
def entry(c):
    from databind.core.context import Direction, Location
    from databind.core.mapper import ObjectMapper
    e = c.e
    m, *_ = mapper(c)
    asked = []

    def convert(m_, direction, value, datatype, location=None, settings=None):
        asked.append((m_, direction, value, datatype, location, settings))
        if e.fork(z3.Bool("fails")):
            raise Leak("an error")
        return SV(z3.Const("converted", V))
    c.stub(ObjectMapper.convert, convert)
    v, dt, st = c.value("v"), c.value("type"), c.value("settings")
    what = c.choose("serialize", "deserialize")
    named = c.choose("file name", "no file name") == "file name"
    fn = c.value("filename", str) if named else None
    o = c.run(getattr(m, what), v, dt, fn, st)
    if len(asked) != 1:
        return c.never(f"{what}: converts once", repr(o))
    m_, d, v_, dt_, loc, st_ = asked[0]
    c.prove(f"{what}: converts in its direction", AND(m_ is m, d is (Direction.SERIALIZE if what == "serialize" else Direction.DESERIALIZE)))
    c.prove(f"{what}: converts the value as the type", AND(c.same(v_, v), c.same(dt_, dt)))
    c.prove(f"{what}: passes the settings on", c.same(st_, st))
    ok = type(loc) is Location and AND(c.same(loc.filename, fn), c.same(loc.line, None), c.same(loc.column, None))
    c.prove(f"{what}: the location is the file", ok if loc is not None or named else TRUE)
    if e.fork(z3.Bool("fails")):
        return c.prove(f"{what}: an error is passed on", o.raised(Leak))
    c.prove(f"{what}: gives the conversion's result", c.same(o.value, SV(z3.Const("converted", V))) if o.ret else FALSE)


@contract("ObjectMapper.copy", ["ObjectMapper.copy", "ObjectMapper.__init__", "Module.__init__"], "P24")
def copy(c):
    from databind.core.converter import Module
    from databind.core.mapper import ObjectMapper
    from databind.core.settings import Settings
    s, parent, T, has, (gl, _), (tl, _), (pl, _), (loc, _, _) = some_settings(c)
    snap = snapshot(s)
    m, mod, convs, seq = mapper(c, s)
    before = list(convs.entries)
    twin = Settings()
    copied = []

    def cp(x):
        copied.append(x)
        return twin
    c.stub(Settings.copy, cp)
    o = c.run(m.copy)
    if not o.ret:
        return c.never("does not fail", repr(o))
    n = o.value
    if type(n) is not ObjectMapper:
        return c.never("is a mapper")
    c.prove("is another mapper, with another module", n is not m and type(n.module) is Module and n.module is not mod)
    c.prove("has a copy of the settings", n.settings is twin and len(copied) == 1 and copied[0] is s)
    c.prove("shares no list of converters", n.module.converters is not convs)
    c.prove("the original is as before", m.settings is s and m.module is mod and mod.converters is convs and as_before(s, gl, loc, pl, snap)
            and len(before) == len(convs.entries) and all(a is b for a, b in zip(before, convs.entries)))
    ents = n.module.converters.entries if isinstance(n.module.converters, VList) else [Item(None, x) for x in n.module.converters]
    c.log_is("has the same converters, in order", ents, seq.n, lambda j: [(None, seq.at(j))])


@contract("databind.json.load / dump", ["load", "loads", "dump", "dumps"], "P25")
def functions(c):
    import databind.json as J
    from databind.core.mapper import ObjectMapper
    e, rt = c.e, c.rt
    m, *_ = mapper(c)
    log = []

    def conv(what):
        def f(m_, value, datatype, filename=None, settings=None):
            log.append((what, m_, value, datatype, filename, settings))
            if e.fork(z3.Bool("fails")):
                raise Leak("an error")
            return SV(z3.Const("converted", V))
        return f

    def get_mapper(settings=None):
        log.append(("mapper", settings))
        return m

    def js(name, defaults):
        def f(x, **k):
            for n, v in k.items():
                if n not in ("indent", "sort_keys") or name != "dumps":
                    if n not in defaults or v is not defaults[n]:
                        c.never("standard JSON encoding", n)
            log.append((name, x, k))
            if e.fork(z3.Bool("json_fails")):
                raise Leak("an error of json")
            return SV(e.fn("json_" + name, V, V)(rt.lift(x)))
        return f
    c.stub(J.get_object_mapper, get_mapper)
    c.stub(ObjectMapper.serialize, conv("dump"))
    c.stub(ObjectMapper.deserialize, conv("load"))
    c.stub(json.loads, js("loads", dict(cls=None, object_hook=None, parse_float=None, parse_int=None, parse_constant=None, object_pairs_hook=None)))
    c.stub(json.dumps, js("dumps", dict(skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, separators=None, default=None)))
    v, dt, fn, st = c.value("v"), c.value("type"), c.value("filename"), c.value("settings")
    what = c.choose("load", "loads", "dump", "dumps")
    indent, sort = c.value("indent"), c.value("sort_keys")
    kw = {} if what != "dumps" else dict(indent=indent, sort_keys=sort)
    o = c.run(getattr(J, what), v, dt, fn, st, **kw)
    convs = [x for x in log if x[0] in ("dump", "load")]
    text = [x for x in log if x[0] in ("dumps", "loads")]
    strings = what.endswith("s")
    jf, cf = z3.Bool("json_fails"), z3.Bool("fails")
    if len(text) > strings or len(convs) > 1 or any(x[0] != what for x in text) or any(x[0] != what.rstrip("s") for x in convs):
        return c.never(f"{what}: converts once, in its direction", repr(log))
    if what == "loads":
        if len(text) != 1:
            return c.never("loads: reads the JSON text", repr(o))
        c.prove("loads: reads the JSON text", c.same(text[0][1], v))
        if e.fork(jf):
            return c.prove("loads: text that is no JSON is an error", o.raised(Leak) and not convs)
        v = SV(e.fn("json_loads", V, V)(v.t))
    if len(convs) != 1:
        return c.never(f"{what}: converts once, in its direction", repr(log))
    _, m_, v_, dt_, fn_, st_ = convs[0]
    c.prove(f"{what}: by a JSON mapper of its own", m_ is m and sum(x[0] == "mapper" for x in log) == 1 and all(x[0] != "mapper" or x[1] is None for x in log))
    c.prove(f"{what}: converts the value as the type", AND(c.same(v_, v), c.same(dt_, dt)))
    c.prove(f"{what}: honours the file name", c.same(fn_, fn))
    c.prove(f"{what}: honours the settings", c.same(st_, st))
    if e.fork(cf):
        c.cover(f"{what} fails")
        return c.prove(f"{what}: an error is passed on", o.raised(Leak))
    r = SV(z3.Const("converted", V))
    if what == "dumps":
        if len(text) != 1:
            return c.never("dumps: writes the JSON text", repr(o))
        k = text[0][2]
        c.prove("dumps: writes the JSON text", c.same(text[0][1], r))
        c.prove("dumps: as asked for", AND(c.same(k.get("indent"), indent), c.same(k.get("sort_keys", False), sort)))
        if e.fork(jf):
            return c.prove("dumps: an error is passed on", o.raised(Leak))
        r = SV(e.fn("json_dumps", V, V)(r.t))
    c.cover(what)
    c.prove(f"{what}: gives the result", c.same(o.value, r) if o.ret else FALSE)


@contract("get_object_mapper", ["get_object_mapper", "ObjectMapper.__init__", "JsonModule.__init__", "Module.register"], "P18", "P24", "P25")
def json_mapper(c):
    import pathlib
    import databind.json as J
    from databind.core.mapper import ObjectMapper
    from databind.core.settings import Settings
    from databind.json.module import JsonConverterSupport, JsonModule
    given = Settings() if c.choose("settings", "none") == "settings" else None
    o, p = c.run(J.get_object_mapper, given), c.run(J.get_object_mapper)
    if not (o.ret and p.ret):
        return c.never("does not fail", repr((o, p)))
    m, n = o.value, p.value
    if not (isinstance(m, ObjectMapper) and isinstance(m.settings, Settings)):
        return c.never("gives a mapper with settings")
    if c.pid != "P18":
        c.prove("has the settings given, or its own", m.settings is given if given is not None else m.settings is not n.settings)
        c.prove("is a new mapper", m is not n and m.module is not n.module and m.module.converters is not n.module.converters)
    cs = m.module.converters
    if isinstance(cs, VList):
        cs = [x.value if isinstance(x, Item) else None for x in cs.entries]
    c.prove("has the JSON module", len(cs) == 1 and type(cs[0]) is JsonModule)
    if len(cs) != 1 or type(cs[0]) is not JsonModule:
        return
    ks = cs[0].converters
    if isinstance(ks, VList):
        ks = [x.value if isinstance(x, Item) else None for x in ks.entries]
    if any(k is None for k in ks):
        raise Unsupported("converters of the JSON module")
    c.prove("converters that are configured come before all others", [type(k) for k in ks].count(JsonConverterSupport) == 1 and type(ks[0]) is JsonConverterSupport)
