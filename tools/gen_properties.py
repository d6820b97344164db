#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
CV = "databind/src/databind/json/converters.py"
SC = "databind/src/databind/core/schema.py"
ST = "databind/src/databind/core/settings.py"
UN = "databind/src/databind/core/union.py"
CO = "databind/src/databind/core/converter.py"
CX = "databind/src/databind/core/context.py"
MP = "databind/src/databind/core/mapper.py"
DC = "databind/src/databind/core/dataclasses.py"
JI = "databind/src/databind/json/__init__.py"
JM = "databind/src/databind/json/module.py"
JS = "databind/src/databind/json/settings.py"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}})

prop("P01", "Strict conversion of bool, int, float, str and bytes",
  "By default, loading a payload as bool, int, float or str succeeds exactly when the payload is of that very type (an int is also accepted for float, and a float with an integral value for int), and the result has the requested type and the payload's value; bytes are loaded from a base64 string. "
  "Dumping is always strict regardless of settings, gives a plain scalar of the same value (base64 text for bytes, also lossless numeric widening), and loading what was dumped gives back the value. "
  "Every other combination of value type and scalar type is a ConversionError: nothing is coerced silently.",
  ["inputs"], "every payload value and every scalar target type, in both directions",
  "Tests convert three literals; the table of (source, target) pairs and the value space (nan, inf, huge ints, bools, subclasses) is not sampled.",
  [CV], [("PlainDatatypeConverter.convert", CV), ("_int_lossless", CV)], ["databind.json.load", "databind.json.dump"])
prop("P02", "Non-strict scalar conversion is opt-in and value-preserving",
  "With a Strict(False) setting in effect, loading additionally accepts the textual form of a number for int and float, the words yes/true/on/enabled (True) and no/false/off/disabled (False) in any case for bool, and a bool, int or float for str (giving its str() text); int and float payloads are also accepted for decimals. "
  "Text that does not denote a value of the requested type is a ConversionError, and every conversion that strict mode accepts has the same result as in strict mode. "
  "Dumping is not affected by the setting, and without it none of these conversions happens.",
  ["inputs", "configurations"], "every payload value, scalar target type and strictness setting",
  "Tests try '42' and 'foobar' as int; word tables, case, whitespace, signs, floats and the interplay with direction are unsampled.",
  [CV, ST], [("PlainDatatypeConverter._nonstrict_adapters", CV), ("_bool_from_str", CV), ("DecimalConverter.convert", CV)], ["databind.json.load"])
prop("P03", "Collections and tuples convert element by element, in order",
  "For a collection type with an element type (list, set, frozenset, deque, Sequence, variadic tuple, ...) loading and dumping convert every element exactly once with the element type, in order, dropping, duplicating and reordering nothing; dumping gives a list and loading gives an instance of the declared type (a list if that type cannot be instantiated). "
  "A fixed-length tuple converts its i-th element with the i-th type, and a value of a different length is a ConversionError in both directions. "
  "A value of the wrong kind is a ConversionError: when loading, anything that is not a collection, and also strings, bytes and mappings; when dumping, anything that is not an instance of the declared type.",
  ["inputs"], "every element count, element value, element type and collection type",
  "Tests use one or two literals of at most three elements per collection type.",
  [CV], [("CollectionConverter.convert", CV)], ["databind.json.load", "databind.json.dump"])
prop("P04", "Mappings convert every key and value",
  "For a mapping type with key and value types, loading and dumping produce one entry per entry of the input, whose key is the input key converted with the key type and whose value is the input value converted with the value type; nothing is dropped, added or attached to another key (for inputs whose converted keys are distinct). "
  "Loading gives an instance of the declared mapping type (or a plain dict if that type cannot be made from one, e.g. because it is abstract). A value that is not a mapping is a ConversionError in both directions.",
  ["inputs"], "every mapping, key type and value type",
  "Tests use one-entry and two-entry literals.",
  [CV], [("MappingConverter.convert", CV)], ["databind.json.load", "databind.json.dump"])
prop("P05", "Enum members map one-to-one to their wire form",
  "A member of a plain enum is dumped as its first alias if it has one and as its name otherwise, and an IntEnum member as its integer value; loading accepts any alias, or the name, of a member (the integer value for IntEnum) and gives that member, so loading inverts dumping for every member of an enum whose names and aliases are unambiguous. "
  "An alias takes precedence over an equal name of another member. Everything else (unknown text, a payload of another type, a value that is not a member of exactly this enum) is a ConversionError.",
  ["inputs", "programs"], "every enum definition with aliases, every member and every payload",
  "Tests check two literal enums with three members.",
  [CV], [("EnumConverter.convert", CV), ("EnumConverter._discover_alias", CV)], ["databind.json.load", "databind.json.dump"])
prop("P06", "Dates and times use the effective DateFormat",
  "A date, time or datetime is dumped as text in the first format of the DateFormat in effect (ISO 8601 if there is none) that applies to its type and can express it, and text is loaded by the first applicable format that parses it. "
  "A payload that already is a value of the requested type is passed through unchanged when loading. "
  "Text that no format parses, values of another type, and a DateFormat without an applicable format are ConversionErrors, and loading what was dumped gives back the value (to the resolution of the format).",
  ["inputs", "configurations"], "every date/time value, payload text and list of formats",
  "Tests use one literal per type with the default format only.",
  [CV, ST], [("DatetimeConverter.convert", CV), ("DateFormat.parse", ST), ("DateFormat.format", ST)], ["databind.json.load", "databind.json.dump"])
prop("P07", "Decimal, UUID, path and duration round-trip through text",
  "Decimals, UUIDs, pure and concrete paths and durations are dumped as their text form, and loading that text as the same type gives back an equal value of that type; a Precision setting in effect is applied when a decimal is loaded. "
  "A payload that is not a string (a duration may also be given as the mapping of its parts), text that the type cannot parse, and dumping a value that is not an instance of the type are ConversionErrors.",
  ["inputs", "configurations"], "every value of these types, every payload and precision setting",
  "Tests use single literals per type.",
  [CV, JM, ST], [("DecimalConverter.convert", CV), ("StringifyConverter.convert", CV), ("Precision.to_decimal_context", ST), ("JsonModule.__init__", JM)], ["databind.json.load", "databind.json.dump"])
prop("P08", "Optional, Literal and Any",
  "For an optional type, None is converted to None without consulting the inner type, and every other value is converted exactly as if the type were not optional. "
  "A literal type accepts exactly the values it lists, returning them unchanged, and rejects all others with a ConversionError. "
  "Any and object pass every value through untouched, in both directions; all of this holds as well when the type is wrapped in Annotated.",
  ["inputs"], "every value, inner type and literal value set, in both directions",
  "Tests check single values; the equivalence with the inner type is universally quantified.",
  [CV], [("OptionalConverter.convert", CV), ("LiteralConverter.convert", CV), ("AnyConverter.convert", CV)], ["databind.json.load", "databind.json.dump"])
prop("P09", "Loading a structured type binds exactly the right keys to fields",
  "When a mapping is loaded as a dataclass, typed dict or typed named tuple, each field gets the converted value found under the first of its aliases (its own name if it has none) that is present in the payload. "
  "If none is present, the field is filled with its default, using a freshly made value for default factories, or left out if it has none, unless it is required, which is a ConversionError. "
  "No value is bound to a field under any other key, and a payload that is not a mapping is a ConversionError.",
  ["inputs", "programs"], "every schema (any number of fields, aliases, defaults) and every payload",
  "Tests use a handful of dataclasses with few fields; alias order x presence x default x required is not enumerated.",
  [CV, SC], [("SchemaConverter.deserialize_from_schema", CV), ("Field.get_default", SC)], ["databind.json.load"])
prop("P10", "Unknown keys are rejected, reported or collected exactly",
  "When a mapping is loaded as a structured type, the keys that no field consumed are: all handed (with their values, converted as that field's type) to the field marked as remainder if there is one; otherwise rejected with a ConversionError, unless the extra-keys setting in effect allows them. "
  "If that setting has a recorder, it is called once with exactly the set of those keys, and it is not called (and nothing is rejected) when there are none. "
  "Two remainder fields in one type are a ConversionError.",
  ["inputs", "configurations", "programs"], "every schema, payload and extra-keys / remainder configuration",
  "Tests use two payloads with one or two extra keys.",
  [CV, ST], [("SchemaConverter.deserialize_from_schema", CV), ("ExtraKeys.inform", ST)], ["databind.json.load"])
prop("P11", "Dumping a structured type emits exactly its fields",
  "Dumping an instance of a dataclass or typed dict gives a mapping with one entry per field, under the field's first alias (its own name if it has none), holding the converted field value; a remainder field's entries are merged in, and a clash with another key is a ConversionError. "
  "If defaults are not to be serialized, exactly the non-required fields whose value equals their default are left out; by default nothing is left out. "
  "A value that is not an instance of the type is a ConversionError; keys absent from a typed dict are skipped if not required and are a ConversionError otherwise.",
  ["inputs", "programs", "configurations"], "every schema, instance and default-serialization setting",
  "Tests dump a few literals; default suppression and remainder interplay are barely sampled.",
  [CV], [("SchemaConverter.serialize_from_schema", CV)], ["databind.json.dump"])
prop("P12", "Flattened fields live in the parent's mapping",
  "The sub-fields of a flattened field, at any depth of flattening, are read from and written to the enclosing mapping under their own aliases, and the flattened value is assembled from exactly those entries, which count as consumed keys of the enclosing type. "
  "Expanding a type lists for each flattened field all of its direct non-flattened and transitively flattened sub-fields, and a sub-field name that clashes with another field of the type is an error rather than being bound silently. "
  "Dumping merges the flattened value's entries without losing any; a flattened value that is not dumped as a mapping is a ConversionError.",
  ["inputs", "programs"], "every schema with flattened fields (any nesting) and every payload or instance",
  "One test checks a single nesting; the expansion is recursive over all schemas.",
  [CV, SC], [("get_fields_expanded", SC), ("SchemaConverter.deserialize_from_schema", CV), ("SchemaConverter.serialize_from_schema", CV)], ["databind.json.load", "databind.json.dump", "databind.core.schema.get_fields_expanded"])
prop("P13", "Discriminated unions: wire shape and inverse",
  "For a union with members id -> type, dumping a value of member type M with id m gives {key: m, n: W} (nested; n is the nesting key if configured, else m), W plus {key: m} (flat) or {m: W} (keyed), where W is the value dumped as M and key is the configured discriminator key; loading reads that shape back as M, so it inverts dumping whenever W itself does not use the discriminator key. "
  "Loading selects the member by the discriminator alone. "
  "A missing or non-string discriminator, an unknown id, a missing nested entry, a keyed mapping without exactly one key, a non-mapping payload and a value of a non-member type are ConversionErrors.",
  ["inputs", "configurations"], "every member set, style, discriminator key, nesting key, value and payload",
  "Tests use int/str members with default keys; custom keys and malformed payloads are unsampled.",
  [CV, ST], [("UnionConverter.convert", CV), ("UnionConverter._get_deserialize_member_name", CV), ("Union.__init__", ST)], ["databind.json.load", "databind.json.dump"])
prop("P14", "Best-match unions take the first member that converts",
  "For a plain union (or a union in best-match style), loading and dumping give the result of the first member, in declaration order, whose conversion does not fail, and later members are not consulted. "
  "Only if every member fails, the result is a ConversionError; unions wrapped in Annotated behave the same.",
  ["inputs"], "every member list, value and success/failure pattern of the members",
  "Tests use two members with disjoint payload types.",
  [CV], [("UnionConverter.convert", CV)], ["databind.json.load", "databind.json.dump"])
prop("P15", "Union member registries map ids and types both ways",
  "In a static registry, looking up a registered id gives its type (deferred types being evaluated at most once), looking up a type gives the first id registered for it (generic aliases match by their class), and the ids are listed in registration order; a chain of registries answers with the first registry that knows the id or type, and lists the distinct ids of all that can list theirs, in order. "
  "An importing registry maps an importable class to its qualified name and that name back to the class. "
  "Asking any of them for an unknown id or type is a ValueError.",
  ["inputs", "histories"], "every sequence of registrations, every chain and every lookup",
  "Tests cover the happy path of single lookups.",
  [UN, ST], [("StaticUnionMembers", UN), ("ChainUnionMembers", UN), ("ImportUnionMembers", UN), ("EntrypointUnionMembers", UN), ("Union.__init__", ST)], ["databind.core.union"])
prop("P16", "Setting lookup: highest priority, then most local",
  "For a setting type, the setting in effect at a place is the one with the highest priority among all that apply there: those in the Annotated metadata of the type, those decorating the class, those registered locally for the class, those supplied by (conditional) providers, the global ones and the one the parent provides; among equal priorities the first in this order, and the first added, wins. "
  "Settings of other types, of other classes, and providers whose condition is false have no influence, and without any applicable setting the lookup gives None.",
  ["configurations", "inputs"], "every collection of settings in every place, with every priority",
  "Tests resolve a few two-setting combinations.",
  [ST], [("Settings.get_setting", ST), ("get_highest_setting", ST), ("get_class_settings", ST), ("get_annotation_setting", ST)], ["databind.core.settings.Settings.get_setting"])
prop("P17", "Class decorators affect exactly the decorated class",
  "Decorating a class with a setting makes that setting (besides those already there) apply to this class and to no other class, in particular not to its base classes, subclasses or siblings, and returns the class itself. "
  "One setting object can decorate one class only, a second use being an error. "
  "Registering a union member through its base class adds it under the given name (its class name by default) to that base's union only, and requires a union base and a real subclass.",
  ["histories", "programs"], "every sequence of decorations and registrations over every class hierarchy",
  "Tests decorate single classes; inheritance histories are not covered.",
  [ST, UN], [("ClassDecoratorSetting.__call__", ST), ("get_class_settings", ST), ("Union.register", ST), ("StaticUnionMembers.register", UN)], ["databind.core.settings"])
prop("P18", "Converter dispatch tries converters in order and aggregates errors",
  "Converters (also those in nested modules) are asked in registration order, those registered as first before the others; the result is that of the first one that returns, and converters that do not apply, or fail with a ConversionError, make the next one be tried. "
  "If none returns, the error is the single ConversionError raised, or a NoMatchingConverter carrying all of them in order; any other exception propagates at once. "
  "A converter configured for a class or type hint by a JSON converter setting is asked before all built-in converters, and class-method delegation calls exactly the named methods with the value, checking the types first.",
  ["configurations", "inputs"], "every list and nesting of converters and every outcome of each",
  "Tests have at most three converters in two outcome patterns.",
  [CO, JM, JS], [("Module.convert", CO), ("Module.get_converters", CO), ("Module.register", CO), ("JsonConverterSupport.get_converters", JM), ("DelegateToClassmethodConverter", CO)], ["ObjectMapper.convert"])
prop("P19", "Malformed payloads only ever raise ConversionError",
  "Loading any payload whatsoever, of any JSON-like or Python type and nesting, as any supported type either succeeds or raises ConversionError; no other exception type leaks for the built-in types, collections, mappings, enums, unions, literals, dates and structured types. "
  "The same holds for dumping any value whose type does not fit.",
  ["inputs"], "every payload for every supported type",
  "Tests feed one or two wrong payloads per type.",
  [CV, CO], [("except clauses and type checks of every converter", CV), ("Module.convert", CO)], ["databind.json.load", "databind.json.dump"])
prop("P20", "Errors point at the offending place",
  "Every value that is converted as part of another one is converted in a context whose parent is the context of the enclosing value, whose key is the index, mapping key or field name under which it is found there (none for a mere change of type), and which inherits direction, settings and file name; so the chain of contexts of a ConversionError spells the path from the root to the offending value. "
  "The printed trace has one line per context in root-to-leaf order with its key and type, preceded by the file name whenever that changes, and formatting an error never raises.",
  ["inputs"], "every nesting of types and every failing position",
  "One test formats a single hand-made trace.",
  [CX, CV, CO, MP], [("Context.spawn", CX), ("Context.iter_hierarchy_up", CX), ("format_context_trace", CX), ("ConversionError.__str__", CO)], ["ConversionError.context", "str(ConversionError)"])
prop("P21", "A dataclass's schema matches the dataclass",
  "The schema of a dataclass has exactly one field per constructor field of the dataclass, inherited ones included, with the type as resolved in the module that declares it and with type parameters substituted, and with the dataclass's own default or default factory. "
  "A field is required exactly if an explicit setting says so or, without one, if it has neither a default nor an optional type; an optional field without default defaults to None; a field is flattened exactly if marked so. "
  "Types that are no dataclass or typed dict are rejected with a ValueError, and Annotated metadata is kept as annotations of the schema.",
  ["programs"], "every dataclass hierarchy (inheritance, overriding, generics, forward references)",
  "Tests have a dozen classes; diamonds, overriding and generics combinations are unbounded.",
  [SC], [("convert_dataclass_to_schema", SC), ("convert_to_schema", SC), ("_is_required", SC), ("_is_flat", SC)], ["databind.core.schema.convert_to_schema"])
prop("P22", "A typed dict's schema matches the typed dict",
  "The schema of a typed dict has exactly one field per key, inherited ones included, with that key's type; a key is required exactly if the typed dict requires it and either an explicit setting says so or, without one, it has neither a default assigned in the class nor an optional type. "
  "A default assigned in the class is the field's default, an optional key without default defaults to None, and keys named like dict methods are ordinary keys.",
  ["programs"], "every typed dict definition, total or not, and every inheritance of them",
  "Tests have two flat typed dicts.",
  [SC], [("convert_typed_dict_to_schema", SC)], ["databind.core.schema.convert_typed_dict_to_schema"])
prop("P23", "Extended dataclasses allow required fields after defaults",
  "A class decorated with the package's dataclass decorator accepts fields without default after fields with default, and its instances are then initialised like those of a standard dataclass with the same fields: arguments bind by position or name, defaults and fresh factory values fill in, and leaving out any field without default is a TypeError. "
  "Class variables, init-only variables, non-init fields, inheritance and a user-defined post-init hook (run once, after initialisation) work as in standard dataclasses, and annotations given for a field end up in its metadata next to any other metadata.",
  ["programs", "inputs"], "every field list with defaults in any positions, every inheritance and every call",
  "Tests have three classes.",
  [DC], [("_process_class", DC), ("field", DC)], ["databind.core.dataclasses"])
prop("P24", "Conversions are isolated from each other and from their inputs",
  "Loading and dumping never modify the payload or value given, the settings, or the type, so that repeating a conversion gives an equal result, and mutable defaults are made anew for each load. "
  "Settings passed for one call take part in that call only, in addition to those of the mapper; copies of settings and mappers are equal in behaviour and independent of the original afterwards; a settings object keeps no reference to the list it was given.",
  ["histories", "inputs"], "every sequence of conversions, copies and settings changes",
  "Tests convert once; histories and aliasing are not examined.",
  [MP, ST, CV, SC], [("ObjectMapper.convert", MP), ("ObjectMapper.copy", MP), ("Settings.copy", ST), ("Settings.__init__", ST), ("Field.get_default", SC)], ["ObjectMapper", "Settings"])
prop("P25", "Load inverts dump for every supported type",
  "For every type built from the supported ones (scalars, dates, decimals, paths, enums, optionals, lists, tuples, sets, mappings, dataclasses with aliases, defaults, flattening and remainders, typed dicts, unions) and every value of it, dumping succeeds with JSON-serializable data and loading that data as the same type gives back an equal value. "
  "The string variants are those of the in-memory variants composed with standard JSON encoding, and file name and settings passed to any entry point are honoured in either direction.",
  ["inputs", "programs"], "every composed type and every value",
  "Tests round-trip a few literals; composition is unbounded.",
  [JI, CV, MP], [("load/loads/dump/dumps", JI), ("all converters", CV), ("ObjectMapper.serialize/deserialize", MP)], ["databind.json.loads", "databind.json.dumps"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
