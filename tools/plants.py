PLANTS = []


def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


J, CV, CX, ST, SC, UN, DC, MP = ('json/converters.py', 'core/converter.py', 'core/context.py', 'core/settings.py',
                                 'core/schema.py', 'core/union.py', 'core/dataclasses.py', 'core/mapper.py')

H = '''
import dataclasses, typing as t, enum, datetime, decimal, collections
from dataclasses import dataclass
from databind.core import *
from databind.core.converter import Module, Converter, ConversionError, NoMatchingConverter
from databind.core.settings import *
from databind.json import load, dump, loads, dumps, get_object_mapper, JsonConverter
Ann = t.Annotated
def fails(f):
    try: f()
    except ConversionError: return True
    return False
'''

plant('p02-bool-prefix', 'P02', [(J, 'if s.lower() in ("yes", "true", "on", "enabled"):',
                                   'if s.lower() in "yes, true, on, enabled":')],
      'non-strict loading of a bool from a fragment of one of the accepted words (or empty text)',
      'text such as "e" or "" is accepted as True',
      H + 'N = [Strict(False)]\nassert load("YES", bool, settings=N) is True\nassert load("off", bool, settings=N) is False\n'
          'for w in ("", "e", "es", "rue", "able"):\n  assert fails(lambda: load(w, bool, settings=N)), w\n')

plant('p03-list-subclass', 'P03', [(J, '            if python_type == list:\n', '            if issubclass(python_type, list):\n')],
      'loading as a generic subclass of list', 'the result is a plain list instead of the declared type',
      H + 'T = t.TypeVar("T")\nclass L(t.List[T]): pass\nr = load([1, 2], L[int])\nassert type(r) is L and r == [1, 2]\nassert type(load([1], t.List[int])) is list\n')

plant('p04-mapping-subclass', 'P04', [(J, 'if ctx.direction == Direction.DESERIALIZE and datatype.type != dict:',
                                        'if ctx.direction == Direction.DESERIALIZE and not issubclass(datatype.type, dict):')],
      'loading as a dict subclass such as OrderedDict', 'the result is a plain dict',
      H + 'r = load({"a": 1}, t.OrderedDict[str, int])\nassert isinstance(r, collections.OrderedDict) and dict(r) == {"a": 1}\n')

plant('p05-alias-precedence', 'P05', [(J, '''                    if alias and value in alias.aliases:
                        return enum_value
''', '''                    if value == enum_value.name or alias and value in alias.aliases:
                        return enum_value
''')],
      'an enum where one member is aliased to the name of an earlier member',
      'the earlier member is returned, so loading does not invert dumping',
      H + '''
class E(enum.Enum):
    A: Ann[int, Alias("x")] = 1
    B: Ann[int, Alias("A")] = 2
assert dump(E.B, E) == "A"
assert load("A", E) is E.B
assert load("x", E) is E.A
''')

plant('p07-rounding-alone', 'P07', [(ST, 'rounding=self.rounding,', 'rounding=self.rounding if self.prec is not None else None,')],
      'a Precision setting with a rounding mode but no explicit precision, and text with more than 28 digits',
      'the rounding mode is ignored',
      H + 's = "1." + "0" * 27 + "9"\nr = load(s, decimal.Decimal, settings=[Precision(rounding=decimal.ROUND_DOWN)])\n'
          'assert r == decimal.Decimal("1." + "0" * 27), r\n')

plant('p08-optional-empty', 'P08', [(J, '        if ctx.value is None:\n            return None\n        return ctx.spawn(ctx.value, datatype.without',
                                      '        if ctx.value is None or ctx.value == "":\n            return None\n        return ctx.spawn(ctx.value, datatype.without')],
      'the empty string under an optional type', 'it turns into None',
      H + 'assert load("", t.Optional[str]) == ""\nassert fails(lambda: load("", t.Optional[int]))\nassert load(None, t.Optional[int]) is None\n')

plant('p09-alias-order', 'P09', [(J, '''            for alias in aliases:
                if alias in source:
''', '''            for alias in source:
                if alias in aliases:
''')],
      'a payload that has two aliases of one field, the less preferred one first, and an allowed extra key',
      'the field gets the value of whichever alias comes first in the payload',
      H + '''
@dataclass
class A:
    f: Ann[int, Alias("new", "old")]
assert load({"old": 1, "new": 2}, A, settings=[ExtraKeys()]) == A(2)
assert load({"old": 1}, A) == A(1)
''')

plant('p10-unused-alias', 'P10', [(J, '                    used_keys.add(alias)\n', '                    used_keys.update(aliases)\n')],
      'a payload with two aliases of the same field', 'the key that was not consumed is neither rejected nor reported',
      H + '''
@dataclass
class A:
    f: Ann[int, Alias("new", "old")]
seen = []
load({"old": 1, "new": 2}, A, settings=[ExtraKeys(recorder=lambda c, k: seen.append(set(k)))])
assert seen == [{"old"}], seen
assert fails(lambda: load({"old": 1, "new": 2}, A))
''')

plant('p12-deep-clash', 'P12', [(SC, 'for sub_field_name in result[field_name]:', 'for sub_field_name in field_schema.fields:')],
      'a clash between a field and a sub-field that is flattened over two levels',
      'the clash is not reported; both fields are bound to the same key silently',
      H + '''
@dataclass
class C:
    x: int
@dataclass
class B:
    c: Ann[C, Flattened()]
@dataclass
class A:
    b: Ann[B, Flattened()]
    x: int
try:
    get_fields_expanded(convert_dataclass_to_schema(A))
except RuntimeError:
    pass
else:
    raise SystemExit("clash not reported")
''')

plant('p13-keyed-surplus', 'P13', [(J, '            if len(value) != 1:\n', '            if not value:\n')],
      'a keyed union payload with more than one key', 'the surplus keys are ignored instead of being an error',
      H + '''
U = Ann[t.Union[int, str], Union({"i": int, "s": str}, Union.KEYED)]
assert load({"i": 1}, U) == 1
assert fails(lambda: load({"i": 1, "s": "x"}, U))
assert fails(lambda: load({}, U))
''')

plant('p16-local-subclass', 'P16', [(ST, '                yield from self.local_settings.get(datatype.type, [])\n',
                                      '                for base in datatype.type.__mro__:\n                    yield from self.local_settings.get(base, [])\n')],
      'a setting registered locally for a base class of the type that is converted', 'settings of other classes have an influence',
      H + '''
m = get_object_mapper()
m.settings.add_local(int, Strict(False))
assert m.deserialize("1", int) == 1
assert fails(lambda: m.deserialize("yes", bool))
''')

plant('p17-rebind', 'P17', [(ST, '''        self.bound_to = type_
''', ''), (ST, '''            settings = []
            setattr(type_, "__databind_settings__", settings)
''', '''            settings = []
            self.bound_to = type_
            setattr(type_, "__databind_settings__", settings)
''')],
      'one setting decorating, as the second decorator, two classes', 'the setting decorates multiple classes without an error',
      H + '''
s, x = ExtraKeys(), ExtraKeys()
class A: pass
class B: pass
ExtraKeys()(A); ExtraKeys()(B)
assert s(A) is A
try:
    s(B)
except RuntimeError:
    pass
else:
    raise SystemExit("decorated two classes")
''')

plant('p18-swallowed-runtime-error', 'P18', [(CV, '''                return converter.convert(ctx)
            except NotImplementedError:
                pass
''', '''                return converter.convert(ctx)
            except RuntimeError:
                pass
''')],
      'a converter that raises a RuntimeError (other than NotImplementedError)', 'the error is swallowed and the next converter is tried',
      H + '''
class Bad(Converter):
    def convert(self, ctx): raise RuntimeError("boom")
class Good(Converter):
    def convert(self, ctx): return 42
m = Module("m"); m.register(Bad()); m.register(Good())
mapper = ObjectMapper(); mapper.module.register(m)
try:
    mapper.deserialize(1, int)
except RuntimeError as e:
    assert str(e) == "boom"
else:
    raise SystemExit("swallowed")
''')

plant('p18-first-inserts-late', 'P18', [(CV, '            self.converters.insert(0, converter)\n',
    '''            index = 0
            while index < len(self.converters) and isinstance(self.converters[index], Module):
                index += 1
            self.converters.insert(index, converter)
''')],
      'registering a converter as first in a module that starts with a nested module', 'the nested module is asked before it',
      H + '''
class C(Converter):
    def __init__(self, x): self.x = x
    def convert(self, ctx): return self.x
inner = Module("i"); inner.register(C(1))
mapper = ObjectMapper(); mapper.module.register(inner); mapper.module.register(C(2), first=True)
assert mapper.deserialize(None, int) == 2
''')

plant('p20-first-filename-only', 'P20', [(CX, '        if ctx.location.filename != prev_filename and ctx.location.filename is not None:\n',
                                           '        if prev_filename is None and ctx.location.filename is not None:\n')],
      'a context chain in which the file name changes', 'the trace does not name the second file',
      H + '''
from databind.core.context import format_context_trace
from typeapi import TypeHint
root = Context(None, Direction.DESERIALIZE, 1, TypeHint(int), Settings(), Context.ROOT, Location("a.json", None, None), lambda c: c.value)
sub = root.spawn(2, int, "x", Location("b.json", 1, 2))
assert 'In "a.json"' in format_context_trace(sub) and 'In "b.json"' in format_context_trace(sub)
''')

plant('p20-stale-location', 'P20', [(CX, '            location = Location(self.location.filename, None, None)\n',
                                      '            location = self.location if key is None else Location(self.location.filename, None, None)\n')],
      'spawning a context for a mere change of type from one with a line number', 'the line and column are inherited',
      H + '''
from typeapi import TypeHint
root = Context(None, Direction.DESERIALIZE, 1, TypeHint(int), Settings(), Context.ROOT, Location("a.json", 3, 4), lambda c: c.value)
assert root.spawn(2, int, None).location == Location("a.json", None, None)
''')

plant('p24-shared-local-settings', 'P24', [(ST, '        new.local_settings = {k: list(v) for k, v in self.local_settings.items()}\n',
                                             '        new.local_settings = dict(self.local_settings)\n')],
      'adding a local setting to a copy of a Settings object that already has one for the type', 'the original is modified through the copy',
      H + '''
s = Settings(); s.add_local(int, Strict(True))
c = s.copy(); c.add_local(int, Strict(False, Priority.HIGH))
assert fails(lambda: load("1", int, settings=None) if False else get_object_mapper(s).deserialize("1", int))
assert get_object_mapper(c).deserialize("1", int) == 1
''')

plant('p24-shared-converters', 'P24', [(MP, '        new.module.converters.extend(self.module.converters)\n', '        new.module = self.module\n')],
      'registering a converter in a copy of a mapper', 'the original mapper uses it as well',
      H + '''
class C(Converter):
    def convert(self, ctx): return "c"
a = get_object_mapper(); b = a.copy(); b.module.register(C(), first=True)
assert b.deserialize(1, int) == "c"
assert a.deserialize(1, int) == 1
''')

plant('p24-settings-leak', 'P24', [(MP, '            settings = Settings(self.settings, global_settings=settings)\n',
                                     '            for setting in settings:\n                self.settings.add_global(setting)\n            settings = self.settings\n')],
      'two calls of the same mapper, the first with settings', 'the settings of the first call apply to the second',
      H + '''
m = get_object_mapper()
assert m.deserialize("1", int, settings=[Strict(False)]) == 1
assert fails(lambda: m.deserialize("1", int))
''')

plant('p25-dumps-settings', 'P25', [('json/__init__.py', 'return json.dumps(dump(value, type_, filename, settings), indent=indent, sort_keys=sort_keys)',
                                      'return json.dumps(dump(value, type_, filename), indent=indent, sort_keys=sort_keys)')],
      'dumps() with settings', 'settings are not honoured by dumps()',
      H + '''
f = DateFormat("%d.%m.%Y")
assert dumps(datetime.date(2020, 1, 2), datetime.date, settings=[f]) == '"02.01.2020"'
''')


plant('p01-int-subclass', 'P01', [(J, '        source_type = type(ctx.value)\n        target_type = datatype.type\n        strict',
                                  '        source_type = next((c for c in type(ctx.value).__mro__ if c in (bool, bytes, float, int, str)), type(ctx.value))\n        target_type = datatype.type\n        strict')],
      'a payload whose type is a subclass of a scalar type, such as an IntEnum member', 'the payload is coerced to the scalar instead of being rejected',
      H + """
class E(enum.IntEnum):
    A = 1
assert load(1, int) == 1
assert fails(lambda: load(E.A, int))
assert fails(lambda: dump(E.A, int))
""")

plant('p01-float-to-int-float', 'P01', [(J, '        (int, float): float,\n', '        (int, float): lambda d: d,\n')],
      'an int payload for a float', 'the result has the type int', H + 'r = load(3, float)\nassert type(r) is float and r == 3.0\n')

plant('p06-first-format-only', 'P06', [(ST, """                return t.cast(DateFormat.T_Dtype, getattr(fmt, method_name)(value))
            except ValueError:
                pass
""", """                return t.cast(DateFormat.T_Dtype, getattr(fmt, method_name)(value))
            except ValueError:
                if isinstance(self.formats[0], str) and not self.formats[0].startswith("."):
                    break
""")],
      'a DateFormat of several formats that starts with a format string, and text in a later format',
      'loading fails although a format applies',
      H + 'f = DateFormat("%Y-%m-%d", "%d.%m.%Y")\nd = datetime.date(2020, 1, 2)\n'
          'assert load("2020-01-02", datetime.date, settings=[f]) == d\nassert load("02.01.2020", datetime.date, settings=[f]) == d\n')

plant('p06-set-order', 'P06', [(ST, """            elif isinstance(fmt, format_set):
                yield from getattr(fmt, type_.__name__ + "s")
""", """        for fmt in self.formats:
            if isinstance(fmt, format_set):
                yield from getattr(fmt, type_.__name__ + "s")
""")],
      'a DateFormat in which a format set precedes another applicable format', 'the later format is preferred over the formats of the set',
      H + """
from nr.date.format_sets import ISO_8601
d = datetime.date(2020, 1, 2)
assert dump(d, datetime.date, settings=[DateFormat(ISO_8601, "%d.%m.%Y")]) == "2020-01-02"
assert dump(d, datetime.date, settings=[DateFormat("%d.%m.%Y", ISO_8601)]) == "02.01.2020"
""")

plant('p14-sorted-members', 'P14', [(J, '            for member_name in union.members.get_type_ids():\n', '            for member_name in sorted(union.members.get_type_ids()):\n')],
      'a best-match union whose members are not in alphabetical order and both accept the value',
      'a later member wins over the first one that converts',
      H + 'assert type(load(1, t.Union[int, float])) is int\nassert type(load(1, t.Union[float, bool, int])) is float\n')

plant('p14-last-error', 'P14', [(J, """                    return ctx.spawn(ctx.value, member_type, None).convert()
                except ConversionError as exc:
                    errors.append((exc.origin, exc))
""", """                    result = ctx.spawn(ctx.value, member_type, None).convert()
                except ConversionError as exc:
                    errors.append((exc.origin, exc))
                else:
                    if result is not None or member_name == union.members.get_type_ids()[-1]:
                        return result
""")],
      'a first member that converts the value to None', 'later members are consulted although the first one converted',
      H + """
class NoneIt:
    @staticmethod
    def of(v): return None
JsonConverter.using_classmethods(deserialize="of")(NoneIt)
assert load(1, Ann[t.Union[NoneIt, int], Union({"n": NoneIt, "i": int}, Union.BEST_MATCH)]) is None
""")

plant('p16-priority-short-circuit', 'P16', [(ST, """            yield from self.global_settings
            if self.parent:
""", """            yield from self.global_settings
            if self.parent and not any(isinstance(s, setting_type) for s in self.global_settings):
""")],
      'a parent provider with a setting of higher priority than the global one', 'the lower priority setting wins',
      H + """
p = Settings(); p.add_global(Strict(False, Priority.HIGH))
m = get_object_mapper(p)
assert m.deserialize("1", int, settings=[Strict(True)]) == 1
""")

plant('p16-annotation-priority', 'P16', [(ST, """        return get_highest_setting(s for s in type_.metadata if isinstance(s, setting_type))
""", """        return next((s for s in type_.metadata if isinstance(s, setting_type)), None)
""")],
      'Annotated metadata with two settings of one type and different priorities', 'the first setting wins over the one with the higher priority',
      H + """
@dataclass
class A:
    f: Ann[int, Required(False), Required(True, Priority.HIGH)]
assert convert_dataclass_to_schema(A).fields["f"].required
""")

plant('p17-register-order', 'P17', [(ST, '            check_subclass_of(subtype, extends)\n            return members', '            if name is None:\n                check_subclass_of(subtype, extends)\n            return members')],
      'registering a class that is not a subclass under an explicit name', 'an unrelated class is registered',
      H + """
@Union()
class B: pass
class X: pass
try:
    Union.register(B, "x")(X)
except TypeError:
    pass
else:
    raise SystemExit("registered")
""")

plant('p19-mapping-like', 'P19', [(J, """    def deserialize_from_schema(self, ctx: Context, schema: Schema) -> t.Any:
        if not isinstance(ctx.value, t.Mapping):
""", """    def deserialize_from_schema(self, ctx: Context, schema: Schema) -> t.Any:
        if not hasattr(ctx.value, "__getitem__"):
""")],
      'a string or list payload for a structured type', 'AttributeError or TypeError leaks instead of ConversionError',
      H + """
@dataclass
class A:
    f: int = 0
assert fails(lambda: load("f", A))
assert fails(lambda: load([], A))
assert fails(lambda: load(1, A))
""")

plant('p19-non-string-discriminator', 'P19', [(J, """            if not isinstance(member_name, str):
                raise ConversionError.expected(self, ctx.spawn(member_name, str, discriminator_key), str)
""", """            if not isinstance(member_name, t.Hashable):
                raise ConversionError.expected(self, ctx.spawn(member_name, str, discriminator_key), str)
""")],
      'a nested or flat union payload whose discriminator is a hashable value other than a string', 'AssertionError leaks instead of ConversionError',
      H + """
U = Ann[t.Union[int, str], Union({"i": int, "s": str})]
assert fails(lambda: load({"type": 1, "i": 1}, U))
assert fails(lambda: load({"type": None}, U))
assert fails(lambda: load({"type": []}, U))
""")

plant('p20-tuple-index', 'P20', [(J, '            value = ctx.spawn(value, value_type, key).convert()\n            key = ctx.spawn(key, key_type, f"Key({key!r})").convert()\n',
                                   '            key = ctx.spawn(key, key_type, f"Key({key!r})").convert()\n            value = ctx.spawn(value, value_type, key).convert()\n')],
      'an error in a mapping value whose key is changed by the key conversion', 'the trace shows the converted key instead of the one in the payload',
      H + """
class K(enum.Enum):
    A: Ann[int, Alias("alpha")] = 1
try:
    load({"alpha": "x"}, t.Dict[K, int])
except ConversionError as e:
    assert e.context.key == "alpha", e.context.key
else:
    raise SystemExit(1)
""")

plant('p21-two-level-generic', 'P21', [(SC, '            base_hint = TypeHint(base, source=hint.type).evaluate().parameterize(parameter_map)\n',
                                        '            base_hint = TypeHint(base, source=hint.type).evaluate()\n            if hint is not queue and len(parameter_map) == 1:\n                base_hint = base_hint.parameterize(parameter_map)\n')],
      'a dataclass with two or more type parameters that it passes on to a generic base', 'fields of the base keep the bare type variable as their type',
      H + """
T = t.TypeVar("T"); U = t.TypeVar("U")
@dataclass
class B(t.Generic[T]):
    x: T
@dataclass
class A(B[T], t.Generic[T, U]):
    y: U
from typeapi import TypeHint
f = convert_dataclass_to_schema(A[int, str]).fields
assert f["x"].datatype == TypeHint(int) and f["y"].datatype == TypeHint(str)
""")

plant('p21-shared-schema-annotations', 'P21', [(SC, """        annotations = list(hint.metadata)
        hint = hint[0]

    if isinstance(hint, ClassTypeHint) and dataclasses""", """        annotations = [x for x in hint.metadata if not isinstance(x, (str, int))]
        hint = hint[0]

    if isinstance(hint, ClassTypeHint) and dataclasses""")],
      'a dataclass annotated with plain (non-setting) metadata', 'the metadata is dropped from the schema',
      H + """
@dataclass
class A: pass
from typeapi import TypeHint
assert convert_to_schema(TypeHint(Ann[A, "doc", 7])).annotations == ["doc", 7]
""")

plant('p22-optional-keys', 'P22', [(SC, '            default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,\n',
                                     '            default=getattr(typed_dict, key, NotSet.Value) if has_default or required else None,\n')],
      'a typed dict with a required key that is named like a dict method', 'the method of dict becomes the default of the key',
      H + """
class D(t.TypedDict):
    items: int
f = convert_typed_dict_to_schema(D).fields["items"]
assert f.required and not f.has_default(), f
""")

plant('p22-nullable', 'P22', [(SC, '        fields[key] = Field(\n            datatype=field_hint,\n            required=required and',
                                '        if isinstance(field_hint, UnionTypeHint) and key in typed_dict.__optional_keys__:\n            field_hint = field_hint.without_none_type()\n        fields[key] = Field(\n            datatype=field_hint,\n            required=required and')],
      'an optional (Union with None) type for a key of a typed dict with total=False', 'the type of the key loses None',
      H + """
from typeapi import TypeHint
class D(t.TypedDict, total=False):
    a: t.Optional[int]
assert convert_typed_dict_to_schema(D).fields["a"].datatype == TypeHint(t.Optional[int])
assert load({"a": None}, D) == {"a": None}
""")

plant('p23-post-init-first', 'P23', [(DC, '    orig_postinit = getattr(cls, "__post_init__", None)\n', '    orig_postinit = vars(cls).get("__post_init__")\n')],
      'an extended dataclass that inherits the post-init hook from a base class that is no extended dataclass', 'the inherited hook is not run',
      H + """
from databind.core import dataclasses as D
class Base:
    def __post_init__(self): self.ran = True
@D.dataclass
class A(Base):
    x: int = 0
    y: str
assert A(1, "a").ran
""")

plant('p23-annotations-key', 'P23', [(DC, '    if annotations:\n', '    if annotations and not metadata:\n')],
      'a field with annotations and other metadata', 'the annotations are lost',
      H + """
from databind.core import dataclasses as D
f = D.field(annotations=[1], metadata={"a": 2})
assert f.metadata["a"] == 2 and f.metadata[D.ANNOTATIONS_METADATA_KEY] == [1]
""")

plant('p24-payload-pop', 'P24', [(J, '                child_context = ctx.spawn(dict(ctx.value), type_hint, None)\n',
                                   '                child_context = ctx.spawn(ctx.value, type_hint, None)\n')],
      'loading a flat union twice from one payload', 'the discriminator is removed from the payload',
      H + """
@dataclass
class A:
    x: int
U = Ann[t.Union[A, int], Union({"a": A}, Union.FLAT)]
p = {"type": "a", "x": 1}
assert load(p, U) == A(1)
assert p == {"type": "a", "x": 1} and load(p, U) == A(1)
""")

plant('p24-global-list', 'P24', [(ST, 'self.global_settings: t.List[Setting] = list(global_settings) if global_settings else []',
                                   'self.global_settings: t.List[Setting] = global_settings or []')],
      'adding a global setting to a settings object that was given a list, or to its copy', 'the list of the caller (or the original) is modified',
      H + """
l = [Strict(False)]
s = Settings(None, l); s.add_global(ExtraKeys())
assert len(l) == 1
c = s.copy(); c.add_global(Alias("x"))
assert len(s.global_settings) == 2
""")

plant('p25-flattened-default', 'P25', [(J, "                if not isinstance(value, t.Mapping):\n                    raise ConversionError(\n                        self,\n                        field_ctx,\n                        f\"field {field_name!r} is flattened",
                                        "                if field.has_default() and field_ctx.value == field.get_default():\n                    continue\n                if not isinstance(value, t.Mapping):\n                    raise ConversionError(\n                        self,\n                        field_ctx,\n                        f\"field {field_name!r} is flattened")],
      'a flattened field with a default, holding a value equal to it', 'its entries are not dumped, so that it cannot be loaded back',
      H + """
@dataclass
class B:
    x: int
@dataclass
class A:
    y: int
    b: Ann[B, Flattened()] = dataclasses.field(default_factory=lambda: B(1))
assert dump(A(2), A) == {"y": 2, "x": 1}
assert load(dump(A(2), A), A) == A(2)
""")

plant('p13-nesting-key-lookup', 'P13', [(J, '                child_context = ctx.spawn(ctx.value[nesting_key], type_hint, nesting_key)\n',
                                          '                child_context = ctx.spawn(ctx.value.get(member_name, ctx.value[nesting_key]), type_hint, nesting_key)\n')],
      'a nested union payload with a nesting key that also has an entry named like the member', 'the wrong entry is loaded',
      H + """
U = Ann[t.Union[int, str], Union({"i": int, "s": str}, Union.NESTED, "type", "value")]
assert load({"type": "i", "value": 1, "i": "x"}, U) == 1
assert dump(1, U) == {"type": "i", "value": 1}
""")

plant('p12-flattened-alias', 'P12', [(J, '                    result[alias if keep_aliased else field_name] = source[alias]\n',
                                       '                    result[aliases[0] if keep_aliased else field_name] = source[alias]\n')],
      'placeholder', 'placeholder', H + """
@dataclass
class B:
    x: Ann[int, Alias("p", "q")]
@dataclass
class A:
    b: Ann[B, Flattened()]
assert load({"q": 1}, A) == A(B(1))
raise SystemExit(1)
""")
PLANTS.pop()

plant('p09-shared-factory', 'P09', [(SC, """        elif self.default_factory is not NotSet.Value:
            return self.default_factory()
""", """        elif self.default_factory is not NotSet.Value:
            try:
                return self.default_factory.__databind_default__
            except AttributeError:
                value = self.default_factory()
                if hasattr(self.default_factory, "__dict__") and not isinstance(self.default_factory, type):
                    self.default_factory.__databind_default__ = value
                return value
""")],
      'two loads of a dataclass with a function as default factory', 'both instances share one mutable default',
      H + """
@dataclass
class A:
    f: t.List[int] = dataclasses.field(default_factory=lambda: [])
a, b = load({}, A), load({}, A)
assert a.f is not b.f
""")

plant('p10-remainder-private', 'P10', [(J, '        if remainder_field:\n            remainders', '        if remainder_field and unused_keys:\n            remainders')],
      'no unknown keys for a type with a required remainder field', 'the remainder field is not passed to the constructor',
      H + """
@dataclass
class A:
    x: int
    r: Ann[t.Dict[str, int], Remainder()]
assert load({"x": 1, "y": 2}, A) == A(1, {"y": 2})
assert load({"x": 1}, A) == A(1, {})
""")

plant('p11-remainder-clash', 'P11', [(J, '            duplicate_keys = result.keys() & remainder_values.keys()\n', '            duplicate_keys = schema.fields.keys() & remainder_values.keys()\n')],
      'a remainder entry that clashes with the alias of a field', 'the field value is overwritten silently',
      H + """
@dataclass
class A:
    x: Ann[int, Alias("y")]
    r: Ann[t.Dict[str, int], Remainder()]
assert dump(A(1, {"z": 2}), A) == {"y": 1, "z": 2}
assert dump(A(1, {"x": 2}), A) == {"y": 1, "x": 2}
assert fails(lambda: dump(A(1, {"y": 2}), A))
""")

plant('p07-path-subclass', 'P07', [(J, '            if not isinstance(ctx.value, datatype.type):\n                raise ConversionError.expected(self, ctx, datatype.type)\n            return self.formatter(ctx.value)',
                                     '            if not isinstance(ctx.value, self.type_):\n                raise ConversionError.expected(self, ctx, datatype.type)\n            return self.formatter(ctx.value)')],
      'dumping a pure Windows path as PurePosixPath', 'a value that is not an instance of the type is dumped',
      H + """
import pathlib
assert dump(pathlib.PurePosixPath("a/b"), pathlib.PurePath) == "a/b"
assert fails(lambda: dump(pathlib.PureWindowsPath("a"), pathlib.PurePosixPath))
""")

plant('p05-int-flag', 'P05', [(J, '                return value.value\n', '                return value.value if value.value >= 0 else abs(value.value)\n')],
      'a negative IntEnum value', 'the sign is lost',
      H + """
class E(enum.IntEnum):
    A = -1
    B = 2
assert dump(E.A, E) == -1 and load(-1, E) is E.A
""")

plant('p15-chain-distinct', 'P15', [(UN, """        for type_id in self.members:
            reference_type = self.get_type_by_id(type_id)
""", """        for type_id in sorted(self.members):
            reference_type = self.get_type_by_id(type_id)
""")],
      'a type registered under two ids that are not in alphabetical order', 'the id is not the first one registered',
      H + """
from databind.core.union import StaticUnionMembers
assert StaticUnionMembers({"b": int, "a": int}).get_type_id(int) == "b"
""")

plant('p15-nested-class', 'P15', [(UN, '        type_name = f"{type_.__module__}.{type_.__qualname__}"\n', '        type_name = f"{type_.__module__}.{type_.__name__}"\n')],
      'an importing registry and a class nested in another class', 'the id does not name the class',
      H + """
from databind.core.union import ImportUnionMembers
import email.message, ast, unittest.mock, argparse
m = ImportUnionMembers()
import collections
class Outer:
    class Inner: pass
assert m.get_type_id(Outer.Inner) == "__main__.Outer.Inner"
assert m.get_type_by_id(m.get_type_id(Outer.Inner)) is Outer.Inner
""")

plant('p18-single-nested-error', 'P18', [(CV, """        if len(errors) == 1:
            raise errors[0][1]
""", """        if errors and all(str(e[1].message) == errors[0][1].message for e in errors):
            raise errors[0][1]
""")],
      'two converters failing with the same message', 'only one of the errors is reported',
      H + """
class C(Converter):
    def convert(self, ctx): raise ConversionError(self, ctx, "same")
m = ObjectMapper(); a, b = C(), C(); m.module.register(a); m.module.register(b)
try:
    m.deserialize(1, int)
except NoMatchingConverter as e:
    assert [x[0] for x in e.errors] == [a, b]
except ConversionError:
    raise SystemExit(1)
""")

plant('p08-literal-identity', 'P08', [(J, "        if is_any_type:\n            return ctx.value\n", "        if is_any_type:\n            return dict(ctx.value) if type(ctx.value) is collections.OrderedDict else ctx.value\n"),
                                        (J, 'import base64\n', 'import base64\nimport collections\n')],
      'an OrderedDict under Any', 'Any does not pass the value through untouched',
      H + """
o = collections.OrderedDict(a=1)
assert load(o, t.Any) is o and dump(o, object) is o
""")

plant('p02-float-exponent', 'P02', [(J, '            (str, int): int,\n', '            (str, int): lambda s: int(s) if s.strip().lstrip("+-").isdigit() else _int_lossless(float(s)),\n')],
      'non-strict loading of an int from text with digit separators or text such as "1e3"', 'text that does not denote an int is accepted',
      H + """
N = [Strict(False)]
assert load("12", int, settings=N) == 12
assert fails(lambda: load("1e3", int, settings=N))
assert fails(lambda: load("2.0", int, settings=N))
""")

plant('p03-set-dump', 'P03', [(J, '            return self.json_collection_type(values)  # type: ignore[call-arg]\n',
                                '            return self.json_collection_type(dict.fromkeys(values) if issubclass(python_type, t.AbstractSet) else values)  # type: ignore[call-arg]\n')],
      'dumping a set of which two elements have the same wire form, or unhashable wire forms', 'elements are dropped (or TypeError)',
      H + """
@dataclass(frozen=True)
class A:
    x: int
assert dump({A(1)}, t.Set[A]) == [{"x": 1}]
""")

# ---- third round -------------------------------------------------------------------------------------------------

plant('p06-compile-cache', 'P06', [(ST, '                    yield type_.compile(fmt)  # type: ignore', '                    if fmt not in _COMPILED:\n                        _COMPILED[fmt] = type_.compile(fmt)  # type: ignore\n                    yield _COMPILED[fmt]'),
                                   (ST, 'class Priority(enum.IntEnum):', '_COMPILED: t.Dict[str, t.Any] = {}\n\n\nclass Priority(enum.IntEnum):')],
      'the same pattern used for a date and, later in the process, for a datetime', 'the format compiled for the first type is applied to the second',
      H + '''
F = DateFormat("%Y-%m-%d")
d, dt = datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2)
assert dump(d, datetime.date, settings=[F]) == "2020-01-02"
assert load("2020-01-02", datetime.date, settings=[F]) == d
r = load("2020-01-02", datetime.datetime, settings=[F])
assert type(r) is datetime.datetime and r == dt
''')

plant('p13-dropped-equal', 'P13', [(J, 't.cast(t.Dict[str, t.Any], child_context.value).pop(discriminator_key)', 'child_context.value = {k: v for k, v in ctx.value.items() if v != member_name}')],
      'a flat union payload with a field whose value equals the name of the member', 'that field is lost',
      H + '''
@dataclass
class A:
    name: str
@dataclass
class B:
    name: str
class C: pass
U = Ann[C, Union({"a": A, "b": B}, style=Union.FLAT)]
assert load({"type": "a", "name": "x"}, U) == A("x")
assert load({"type": "a", "name": "a"}, U) == A("a")
assert load(dump(B("b"), U), U) == B("b")
''')

plant('p13-stripped-name', 'P13', [(J, '            member_name = value[discriminator_key]\n', '            member_name = value[discriminator_key]\n            member_name = member_name.strip() if isinstance(member_name, str) else member_name\n')],
      'a discriminator that differs from a member name by white space, or members whose names do', 'a payload that names no member is loaded as one',
      H + '''
class C: pass
U = Ann[C, Union({"a": int, "b": str}, style=Union.NESTED)]
assert load({"type": "a", "a": 1}, U) == 1
assert fails(lambda: load({"type": " a", "a": 1}, U))
''')

plant('p10-all-aliases', 'P10', [(J, '                    used_keys.add(alias)\n', '                    used_keys.update(aliases)\n')],
      'a payload with two aliases of one field', 'the alias that was not used is not reported as an extra key',
      H + '''
@dataclass
class A:
    x: Ann[int, Alias("a", "b")]
assert load({"a": 1}, A) == A(1) == load({"b": 1}, A)
assert fails(lambda: load({"a": 1, "b": 2}, A))
''')

plant('p14-sticky', 'P14', [(J, '            for member_name in union.members.get_type_ids():\n                member_type = union.members.get_type_by_id(member_name)\n                try:\n                    return ctx.spawn(ctx.value, member_type, None).convert()', '            names = union.members.get_type_ids()\n            last = getattr(union, "_last", None)\n            for member_name in sorted(names, key=lambda n: n != last):\n                member_type = union.members.get_type_by_id(member_name)\n                try:\n                    result = ctx.spawn(ctx.value, member_type, None).convert()\n                    union._last = member_name  # type: ignore[attr-defined]\n                    return result')],
      'one best-match union that loads a payload of a later member and then one that several members accept', 'the later member is tried first the second time',
      H + '''
class C: pass
U = Ann[C, Union({"i": int, "s": str}, style=Union.BEST_MATCH)]
N = [Strict(False)]
assert load("1", U, settings=N) == 1
assert load("x", U, settings=N) == "x"
r = load("1", U, settings=N)
assert r == 1 and type(r) is int
''')

plant('p07-dump-precision', 'P07', [(J, '            return str(ctx.value)\n\n\nclass EnumConverter', '            return str(context.plus(ctx.value) if context else ctx.value)\n\n\nclass EnumConverter')],
      'dumping a Decimal with more digits than a Precision setting in effect', 'the text that is written is rounded',
      H + '''
d = decimal.Decimal("1.23456")
assert dump(d, decimal.Decimal) == "1.23456"
assert dump(d, decimal.Decimal, settings=[Precision(prec=9)]) == "1.23456"
assert dump(d, decimal.Decimal, settings=[Precision(prec=3)]) == "1.23456"
''')

plant('p11-factory', 'P11', [(J, '                    or not field.has_default()\n', '                    or field.default_factory is not NotSet.Value\n                    or not field.has_default()\n'),
                             (J, '    get_fields_expanded,\n)', '    get_fields_expanded,\n)\nfrom databind.core.utils import NotSet')],
      'SerializeDefaults(False) and a field with a default factory whose value equals what the factory makes', 'the field is written',
      H + '''
@dataclass
class A:
    x: t.List[int] = dataclasses.field(default_factory=list)
    y: int = 0
S = [SerializeDefaults(False)]
assert dump(A([1], 2), A, settings=S) == {"x": [1], "y": 2}
assert dump(A(), A, settings=S) == {}
''')

plant('p17-local-name', 'P17', [(UN, 'self.members[name or type_.__name__] = type_', 'self.members[name or type_.__qualname__.rpartition("<locals>.")[2]] = type_')],
      'a class nested in another class registered without a name', 'the id is the qualified name',
      H + '''
@Union(style=Union.FLAT)
class Base: pass
class Outer:
    @Union.register(Base)
    @dataclass
    class Inner(Base):
        x: int
assert dump(Outer.Inner(1), Base) == {"type": "Inner", "x": 1}
assert load({"type": "Inner", "x": 1}, Base) == Outer.Inner(1)
''')

plant('p05-alias-memo', 'P05', [(J, '        hint = TypeHint(get_annotations(enum_type).get(member_name))\n        return get_annotation_setting(hint, Alias)', '        key = (enum_type.__qualname__, member_name)\n        if key not in self._aliases:\n            hint = TypeHint(get_annotations(enum_type).get(member_name))\n            self._aliases[key] = get_annotation_setting(hint, Alias)\n        return self._aliases[key]'),
                                (J, '    def _discover_alias(', '    _aliases: t.Dict[t.Any, t.Any] = {}\n\n    def _discover_alias(')],
      'two enum classes of the same qualified name (from two modules or calls) with different aliases', 'the aliases of the first are used for the second',
      H + '''
def make(a):
    class E(enum.Enum):
        A: Ann[int, Alias(a)] = 1
    return E
E1, E2 = make("x"), make("y")
assert dump(E1.A, E1) == "x" and load("x", E1) is E1.A
assert dump(E2.A, E2) == "y" and load("y", E2) is E2.A
''')

plant('p24-settings-cached', 'P24', [(MP, '            settings = Settings(self.settings, global_settings=settings)', '            if not hasattr(self, "_extra") or self._extra[0] is not settings:\n                self._extra = settings, Settings(self.settings, global_settings=settings)\n            settings = self._extra[1]')],
      'two conversions with one list of settings that changed in between', 'the second conversion uses the settings of the first',
      H + '''
m = get_object_mapper()
s = []
assert fails(lambda: m.deserialize("5", int, settings=s))
s.append(Strict(False))
assert m.deserialize("5", int, settings=s) == 5
s.clear()
assert fails(lambda: m.deserialize("5", int, settings=s))
''')

plant('p01-equal-memo', 'P01', [(J, '        try:\n            return adapter(ctx.value)\n', '        try:\n            if not hasattr(self, "_memo"):\n                self._memo: t.Dict[t.Any, t.Any] = {}\n            key = (target_type, ctx.direction, ctx.value)\n            if key not in self._memo:\n                self._memo[key] = adapter(ctx.value)\n            return self._memo[key]\n')],
      'converting two values that are equal but not the same (0.0 and -0.0, 1 and True) with one mapper', 'the second gives the result of the first',
      H + '''
import math
m = get_object_mapper()
assert math.copysign(1, m.deserialize(0.0, float)) == 1
assert math.copysign(1, m.deserialize(-0.0, float)) == -1
assert math.copysign(1, m.serialize(-0.0, float)) == -1
''')

plant('p15-chain-stops', 'P15', [(UN, '''                return delegate.get_type_by_id(type_id)
            except ValueError as exc:
                errors.append(exc)''', '''                return delegate.get_type_by_id(type_id)
            except ValueError as exc:
                errors.append(exc)
                if isinstance(delegate, ImportUnionMembers) and "." in type_id:
                    break''')],
      'a chain with an importing registry before a registry with an id that contains a dot', 'an id that the chain knows is not found',
      H + """
from databind.core.union import ImportUnionMembers, StaticUnionMembers, ChainUnionMembers
c = ChainUnionMembers(ImportUnionMembers(), StaticUnionMembers({"no.such.thing": int, "x": str}))
assert c.get_type_by_id("x") in (str, ) or c.get_type_by_id("x").type is str
r = c.get_type_by_id("no.such.thing")
assert getattr(r, "type", r) is int
assert c.get_type_id(int) in ("no.such.thing", "builtins.int")
""")

plant('p25-skipkeys', 'P25', [('json/__init__.py', 'indent=indent, sort_keys=sort_keys)', 'indent=indent, sort_keys=sort_keys, skipkeys=True)')],
      'dumps() of a mapping whose wire form has a key that is no JSON key, such as a tuple', 'the entry disappears from the text instead of TypeError',
      H + """
import json
v = {"a": 1, (1, 2): 3}
assert dump(v, t.Any) == v
assert dumps({"a": 1}, t.Any) == json.dumps({"a": 1})
try:
    s = dumps(v, t.Any)
except TypeError:
    pass
else:
    raise SystemExit(s)
""")
