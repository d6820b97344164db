#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo on which every check has to stay quiet.

usage: refactors.py NAME DIR     applies the edit NAME to the copy of the repository in DIR
       refactors.py --list
       refactors.py --run [NAME ...] [--pids P01,P02] [--jobs N]   applies each edit to a copy of its own and runs the checks
"""
import argparse, concurrent.futures, os, shutil, subprocess, sys, tempfile, time

S = "databind/src/databind/"
C, SC, ST, UN, CV, CX, MP, DC, JI, JS, JM = (S + x for x in (
    "json/converters.py", "core/schema.py", "core/settings.py", "core/union.py", "core/converter.py", "core/context.py",
    "core/mapper.py", "core/dataclasses.py", "json/__init__.py", "json/settings.py", "json/module.py"))

R = {}


def edit(name, pids, *changes):
    R[name] = (pids.split(), changes)


CORE = "P01 P02 P03 P12 P19 P20 P24 P25"

edit("any-helper", "P01 P08 P12 P20 P24 P25", (C, '''        datatype = _unwrap_annotated(ctx.datatype)
        is_any_type = isinstance(datatype, ClassTypeHint) and datatype.type in (object, t.Any)
        if is_any_type:
            return ctx.value
        raise NotImplementedError
''', '''        if not self._accepts(_unwrap_annotated(ctx.datatype)):
            raise NotImplementedError
        return ctx.value

    @staticmethod
    def _accepts(datatype: TypeHint) -> bool:
        if not isinstance(datatype, ClassTypeHint):
            return False
        return datatype.type is object or datatype.type is t.Any
'''))

edit("plain-early-return", "P01 P02 P12 P19 P20 P24 P25", (C, '''        source_type = type(ctx.value)
        target_type = datatype.type
        strict = (
            (ctx.get_setting(Strict) or Strict(self.strict_by_default))
            if ctx.direction == Direction.DESERIALIZE
            else Strict(True)
        )
        adapters = self._strict_adapters if strict.enabled else self._nonstrict_adapters
        adapter = adapters.get((source_type, target_type))

        # The wire format of bytes is a (base64 encoded) string, thus the two adapters for bytes are only
        # applicable in one direction each.
        if target_type is bytes and source_type is not (bytes if ctx.direction == Direction.SERIALIZE else str):
            adapter = None

        if adapter is None:
            raise ConversionError.expected(self, ctx, target_type, source_type)
''', '''        target_type, source_type = datatype.type, type(ctx.value)

        if self._is_strict(ctx):
            adapters = self._strict_adapters
        else:
            adapters = self._nonstrict_adapters

        key = (source_type, target_type)
        if key not in adapters:
            raise ConversionError.expected(self, ctx, target_type, source_type)

        # The wire format of bytes is a (base64 encoded) string, thus the two adapters for bytes are only
        # applicable in one direction each.
        if target_type is bytes:
            wire_type = bytes if ctx.direction == Direction.SERIALIZE else str
            if source_type is not wire_type:
                raise ConversionError.expected(self, ctx, target_type, source_type)

        adapter = adapters[key]
'''), (C, '''    def __init__(self, strict_by_default: bool = True) -> None:
        self.strict_by_default = strict_by_default

    def convert(self, ctx: Context) -> t.Any:
        datatype = _unwrap_annotated(ctx.datatype)
        if not isinstance(datatype, ClassTypeHint):
            raise NotImplementedError
        if datatype.type not in {k[0] for k in self._strict_adapters}:
            raise NotImplementedError
''', '''    def __init__(self, strict_by_default: bool = True) -> None:
        self.strict_by_default = strict_by_default

    def _is_strict(self, ctx: Context) -> bool:
        if ctx.direction != Direction.DESERIALIZE:
            return True
        setting = ctx.get_setting(Strict)
        if setting is None:
            return self.strict_by_default
        return setting.enabled

    def convert(self, ctx: Context) -> t.Any:
        datatype = _unwrap_annotated(ctx.datatype)
        if not isinstance(datatype, ClassTypeHint) or not any(datatype.type == src for src, _ in self._strict_adapters):
            raise NotImplementedError
'''))

edit("plain-split-exceptions", "P01 P02 P12 P19 P20 P24 P25", (C, '''        try:
            return adapter(ctx.value)
        except (ValueError, OverflowError) as exc:
            raise ConversionError(self, ctx, str(exc)) from exc
''', '''        value = ctx.value
        try:
            result = adapter(value)
        except ValueError as exc:
            raise ConversionError(self, ctx, str(exc)) from exc
        except OverflowError as exc:
            raise ConversionError(self, ctx, str(exc)) from exc
        else:
            return result
'''), (C, '''    if v % 1.0 != 0.0:
        raise ValueError(f"expected int, got {v!r}")
    return int(v)
''', '''    if v % 1.0 == 0.0:
        return int(v)
    raise ValueError("expected int, got {!r}".format(v))
'''), (C, '''    if s.lower() in ("yes", "true", "on", "enabled"):
        return True
    if s.lower() in ("no", "false", "off", "disabled"):
        return False
    raise ValueError(f"not a truthy keyword: {s!r}")
''', '''    keyword = s.lower()
    for value, keywords in (
        (True, {"yes", "true", "on", "enabled"}),
        (False, {"no", "false", "off", "disabled"}),
    ):
        if keyword in keywords:
            return value
    raise ValueError(f"not a truthy keyword: {s!r}")
'''))

edit("collection-loop", "P03 P12 P19 P20 P24 P25", (C, '''        def _convert_items() -> t.Iterator[t.Any]:
            # NOTE: Must not touch the value before it is iterated over, as its type is only checked below.
            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator)):
                yield ctx.spawn(val, item_type, idx).convert()

        values: t.Iterable[t.Any] = _convert_items()
''', '''        def _convert_items() -> t.List[t.Any]:
            items = []
            index = 0
            for val, item_type in zip(ctx.value, item_types_iterator):
                child = ctx.spawn(val, item_type, index)
                items.append(child.convert())
                index += 1
            return items
'''), (C, '''            _length_check()
            return self.json_collection_type(values)  # type: ignore[call-arg]
''', '''            _length_check()
            return self.json_collection_type(_convert_items())  # type: ignore[call-arg]
'''), (C, '''            _length_check()
            values = list(values)
            if python_type == list:
''', '''            _length_check()
            values = _convert_items()
            if python_type == list:
'''))

edit("collection-genexpr", "P03 P12 P19 P20 P24 P25", (C, '''        def _convert_items() -> t.Iterator[t.Any]:
            # NOTE: Must not touch the value before it is iterated over, as its type is only checked below.
            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator)):
                yield ctx.spawn(val, item_type, idx).convert()

        values: t.Iterable[t.Any] = _convert_items()
''', '''        def _convert_items() -> t.Iterator[t.Any]:
            yield from (
                ctx.spawn(val, item_type, idx).convert()
                for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator))
            )

        values: t.Iterable[t.Any] = _convert_items()
'''), (C, '''            candidates = set()
            for current in datatype.recurse_bases():
                if issubclass(current.type, t.Collection) and len(current.args) == 1:
                    candidates.add(current.args[0])
''', '''            candidates = {
                current.args[0]
                for current in datatype.recurse_bases()
                if issubclass(current.type, t.Collection) and len(current.args) == 1
            }
'''))

edit("collection-listcomp", "P03 P12 P19 P20 P24 P25", (C, '''            values = list(values)
            if python_type == list:
                return values
            elif hasattr(python_type, "_fields"):  # For collections.namedtuple
''', '''            values = [v for v in values]
            if python_type == list:
                return values
            if hasattr(python_type, "_fields"):  # For collections.namedtuple
'''), (C, '''            if not isinstance(ctx.value, t.Collection) or isinstance(ctx.value, self._FORBIDDEN_COLLECTIONS):
                raise ConversionError.expected(self, ctx, t.Collection)
            _length_check()
''', '''            if isinstance(ctx.value, self._FORBIDDEN_COLLECTIONS):
                raise ConversionError.expected(self, ctx, t.Collection)
            if not isinstance(ctx.value, t.Collection):
                raise ConversionError.expected(self, ctx, t.Collection)
            _length_check()
'''))

edit("mapping-comprehension", "P04 P12 P19 P20 P24 P25", (C, '''        result = {}
        for key, value in ctx.value.items():
            value = ctx.spawn(value, value_type, key).convert()
            key = ctx.spawn(key, key_type, f"Key({key!r})").convert()
            result[key] = value
''', '''        result = dict(self._convert_item(ctx, k, v, key_type, value_type) for k, v in ctx.value.items())
'''), (C, '''        if ctx.direction == Direction.DESERIALIZE and datatype.type != dict:
            # We assume''', '''        return self._construct(ctx, datatype, result)

    @staticmethod
    def _convert_item(ctx: Context, key: t.Any, value: t.Any, key_type: t.Any, value_type: t.Any) -> t.Any:
        new_value = ctx.spawn(value, value_type, key).convert()
        new_key = ctx.spawn(key, key_type, f"Key({key!r})").convert()
        return new_key, new_value

    def _construct(self, ctx: Context, datatype: ClassTypeHint, result: t.Dict[t.Any, t.Any]) -> t.Any:
        if ctx.direction == Direction.DESERIALIZE and datatype.type != dict:
            # We assume'''))

edit("mapping-locals", "P04 P12 P19 P20 P24 P25", (C, '''        result = {}
        for key, value in ctx.value.items():
            value = ctx.spawn(value, value_type, key).convert()
            key = ctx.spawn(key, key_type, f"Key({key!r})").convert()
            result[key] = value
''', '''        result = {}
        source = ctx.value
        for item in source.items():
            raw_key = item[0]
            raw_value = item[1]
            value_ctx = ctx.spawn(raw_value, value_type, raw_key)
            converted = value_ctx.convert()
            key_ctx = ctx.spawn(raw_key, key_type, "Key(" + repr(raw_key) + ")")
            result[key_ctx.convert()] = converted
'''), (C, '''        candidates = set()
        for current in datatype.recurse_bases():
            if issubclass(current.type, t.Mapping) and len(current.args) == 2:
                candidates.add(current.args)
        if len(candidates) == 0:
            raise ConversionError(self, ctx, f"could not find key/value type in {datatype}")
        elif len(candidates) > 1:
            raise ConversionError(self, ctx, f"found multiple key/value types in {datatype}: {candidates}")

        key_type, value_type = next(iter(candidates))
''', '''        candidates = {
            base.args for base in datatype.recurse_bases() if issubclass(base.type, t.Mapping) and len(base.args) == 2
        }
        if not candidates:
            raise ConversionError(self, ctx, f"could not find key/value type in {datatype}")
        if len(candidates) > 1:
            raise ConversionError(self, ctx, f"found multiple key/value types in {datatype}: {candidates}")

        (key_type, value_type), = candidates
'''))

edit("enum-helpers", "P05 P12 P19 P20 P24 P25", (C, '''        if ctx.direction == Direction.SERIALIZE:
            if type(value) is not enum_type:
                raise ConversionError.expected(self, ctx, enum_type, type(value))
            if issubclass(enum_type, enum.IntEnum):
                return value.value
            if issubclass(enum_type, enum.Enum):
                alias = self._discover_alias(enum_type, value.name)
                if alias and alias.aliases:
                    return alias.aliases[0]
                return value.name
            assert False, enum_type

        else:
            if issubclass(enum_type, enum.IntEnum):
                if not isinstance(value, int):
                    raise ConversionError.expected(self, ctx, int, type(value))
                try:
                    return enum_type(value)
                except ValueError as exc:
                    raise ConversionError(self, ctx, str(exc))
            if issubclass(enum_type, enum.Enum):
                if not isinstance(value, str):
                    raise ConversionError.expected(self, ctx, str, type(value))
                for enum_value in enum_type:
                    alias = self._discover_alias(enum_type, enum_value.name)
                    if alias and value in alias.aliases:
                        return enum_value
                try:
                    return enum_type[value]
                except KeyError:
                    raise ConversionError(self, ctx, f"{value!r} is not a member of enumeration {datatype}")
            assert False, enum_type
''', '''        if ctx.direction == Direction.SERIALIZE:
            return self._dump(ctx, enum_type, value)
        return self._load(ctx, datatype, enum_type, value)

    def _dump(self, ctx: Context, enum_type: t.Type[enum.Enum], value: t.Any) -> t.Any:
        if type(value) is not enum_type:
            raise ConversionError.expected(self, ctx, enum_type, type(value))
        if issubclass(enum_type, enum.IntEnum):
            return value.value
        alias = self._discover_alias(enum_type, value.name)
        return alias.aliases[0] if alias and alias.aliases else value.name

    def _load(self, ctx: Context, datatype: ClassTypeHint, enum_type: t.Type[enum.Enum], value: t.Any) -> t.Any:
        if issubclass(enum_type, enum.IntEnum):
            if not isinstance(value, int):
                raise ConversionError.expected(self, ctx, int, type(value))
            try:
                return enum_type(value)
            except ValueError as exc:
                raise ConversionError(self, ctx, str(exc))
        if not isinstance(value, str):
            raise ConversionError.expected(self, ctx, str, type(value))
        member = self._find_by_alias(enum_type, value)
        if member is not None:
            return member
        try:
            return enum_type[value]
        except KeyError:
            raise ConversionError(self, ctx, f"{value!r} is not a member of enumeration {datatype}")

    def _find_by_alias(self, enum_type: t.Type[enum.Enum], value: str) -> t.Optional[enum.Enum]:
        for member in enum_type:
            alias = self._discover_alias(enum_type, member.name)
            if alias is None:
                continue
            if value in alias.aliases:
                return member
        return None
'''))

edit("enum-next", "P05 P12 P19 P20 P24 P25", (C, '''                for enum_value in enum_type:
                    alias = self._discover_alias(enum_type, enum_value.name)
                    if alias and value in alias.aliases:
                        return enum_value
                try:
                    return enum_type[value]
                except KeyError:
                    raise ConversionError(self, ctx, f"{value!r} is not a member of enumeration {datatype}")
''', '''                for enum_value in enum_type:
                    alias = self._discover_alias(enum_type, enum_value.name)
                    if not alias or value not in alias.aliases:
                        continue
                    return enum_value
                if value not in enum_type.__members__:
                    raise ConversionError(self, ctx, f"{value!r} is not a member of enumeration {datatype}")
                return enum_type[value]
'''))

edit("datetime-table", "P06 P12 P19 P20 P24 P25", (C, '''        datefmt = ctx.get_setting(DateFormat) or (
            self.DEFAULT_DATE_FMT
            if date_type == datetime.date
            else (
                self.DEFAULT_TIME_FMT
                if date_type == datetime.time
                else self.DEFAULT_DATETIME_FMT
                if date_type == datetime.datetime
                else None
            )
        )
        assert datefmt is not None

        if ctx.direction == Direction.DESERIALIZE:
            if isinstance(ctx.value, date_type):
                return ctx.value
            elif isinstance(ctx.value, str):
                try:
                    dt: t.Any = datefmt.parse(date_type, ctx.value)
                except ValueError as exc:
                    raise ConversionError(self, ctx, str(exc))
                assert isinstance(dt, date_type)
                return dt
            raise ConversionError.expected(self, ctx, date_type, type(ctx.value))

        else:
            if not isinstance(ctx.value, date_type):
                raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
            try:
                return datefmt.format(ctx.value)  # type: ignore[type-var]
            except ValueError as exc:
                raise ConversionError(self, ctx, str(exc))
''', '''        datefmt = ctx.get_setting(DateFormat)
        if datefmt is None:
            datefmt = self._default_format(date_type)

        value = ctx.value
        if ctx.direction == Direction.SERIALIZE:
            if not isinstance(value, date_type):
                raise ConversionError.expected(self, ctx, date_type, type(value))
            try:
                return datefmt.format(value)  # type: ignore[type-var]
            except ValueError as exc:
                raise ConversionError(self, ctx, str(exc))

        if isinstance(value, date_type):
            return value
        if not isinstance(value, str):
            raise ConversionError.expected(self, ctx, date_type, type(value))
        try:
            dt: t.Any = datefmt.parse(date_type, value)
        except ValueError as exc:
            raise ConversionError(self, ctx, str(exc))
        assert isinstance(dt, date_type)
        return dt

    def _default_format(self, date_type: type) -> DateFormat:
        if date_type == datetime.date:
            return self.DEFAULT_DATE_FMT
        if date_type == datetime.time:
            return self.DEFAULT_TIME_FMT
        return self.DEFAULT_DATETIME_FMT
'''))

edit("decimal-invert", "P02 P12 P19 P20 P24 P25", (C, '''        strict = ctx.get_setting(Strict) or Strict(self.strict_by_default)
        precision = ctx.get_setting(Precision)
        context = precision.to_decimal_context() if precision else None

        if ctx.direction == Direction.DESERIALIZE:
            if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                try:
                    return context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
                except decimal.DecimalException:
                    raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}")
            raise ConversionError.expected(self, ctx, str, type(ctx.value))

        else:
            if not isinstance(ctx.value, decimal.Decimal):
                raise ConversionError.expected(self, ctx, decimal.Decimal, type(ctx.value))
            return str(ctx.value)
''', '''        if ctx.direction != Direction.DESERIALIZE:
            if isinstance(ctx.value, decimal.Decimal):
                return str(ctx.value)
            raise ConversionError.expected(self, ctx, decimal.Decimal, type(ctx.value))

        precision = ctx.get_setting(Precision)
        strict = ctx.get_setting(Strict) or Strict(self.strict_by_default)
        accepted: t.Tuple[type, ...] = (str,) if strict.enabled else (str, int, float)
        if not isinstance(ctx.value, accepted):
            raise ConversionError.expected(self, ctx, str, type(ctx.value))

        try:
            if precision is None:
                return decimal.Decimal(ctx.value)
            return precision.to_decimal_context().create_decimal(ctx.value)
        except decimal.DecimalException:
            raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}")
'''))

edit("stringify-parser", "P07 P12 P19 P20 P24 P25", (C, '''            try:
                # The datatype may be a subclass of the type, which is what must be returned then.
                return (datatype.type if self.parser is self.type_ else self.parser)(ctx.value)
            except (TypeError, ValueError) as exc:
                raise ConversionError(self, ctx, str(exc))
''', '''            parser: t.Any = self.parser
            if parser is self.type_:
                # The datatype may be a subclass of the type, which is what must be returned then.
                parser = datatype.type
            try:
                result = parser(ctx.value)
            except TypeError as exc:
                raise ConversionError(self, ctx, str(exc))
            except ValueError as exc:
                raise ConversionError(self, ctx, str(exc))
            return result
'''))

edit("optional-literal", "P08 P09 P12 P19 P20 P24 P25", (C, '''        if not isinstance(datatype, UnionTypeHint) or not datatype.has_none_type():
            raise NotImplementedError
        if ctx.value is None:
            return None
        return ctx.spawn(ctx.value, datatype.without_none_type(), None).convert()
''', '''        if isinstance(datatype, UnionTypeHint) and datatype.has_none_type():
            value = ctx.value
            if value is not None:
                inner = datatype.without_none_type()
                return ctx.spawn(value, inner, None).convert()
            return None
        raise NotImplementedError
'''), (C, '''        if ctx.value not in datatype.values:
            raise ConversionError(
                self,
                ctx,
                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, datatype.values))}",
            )

        return ctx.value
''', '''        if ctx.value in datatype.values:
            return ctx.value

        expected = "|".join(repr(v) for v in datatype.values)
        raise ConversionError(self, ctx, f"literal value mismatch: got {ctx.value!r}, expected {expected}")
'''))

edit("literal-any", "P08 P09 P12 P19 P20 P24 P25", (C, '''        if ctx.value not in datatype.values:
            raise ConversionError(''', '''        if not any(ctx.value is v or ctx.value == v for v in datatype.values):
            raise ConversionError('''))

SER = "P09 P10 P11 P12 P16 P19 P20 P24 P25"
edit("ser-helpers", SER, (C, '''        try:
            is_instance = isinstance(ctx.value, schema.type)
        except TypeError:
            # The type may not support isinstance() checks (e.g. typing.TypedDict).
            if is_typed_dict(schema.type) and not isinstance(ctx.value, t.Mapping):
                raise ConversionError.expected(self, ctx, t.Mapping)
        else:
            if not is_instance:
                raise ConversionError.expected(self, ctx, schema.type)

        serialize_defaults = (ctx.get_setting(SerializeDefaults) or SerializeDefaults(self.serialize_defaults)).enabled
        result = self.json_mapping_type()
''', '''        self._check_type(ctx, schema)

        defaults_setting = ctx.get_setting(SerializeDefaults)
        serialize_defaults = defaults_setting.enabled if defaults_setting is not None else self.serialize_defaults
        result = self.json_mapping_type()
'''), (C, '''    def serialize_from_schema(self, ctx: Context, schema: Schema)''', '''    def _check_type(self, ctx: Context, schema: Schema) -> None:
        try:
            is_instance = isinstance(ctx.value, schema.type)
        except TypeError:
            # The type may not support isinstance() checks (e.g. typing.TypedDict).
            if is_typed_dict(schema.type) and not isinstance(ctx.value, t.Mapping):
                raise ConversionError.expected(self, ctx, t.Mapping)
            return
        if not is_instance:
            raise ConversionError.expected(self, ctx, schema.type)

    def serialize_from_schema(self, ctx: Context, schema: Schema)'''))

edit("ser-flatten-loop", SER, (C, '''                duplicate_keys = result.keys() & value.keys()
                if duplicate_keys:
                    raise ConversionError(
                        self, field_ctx, f"keys of flattened field collide with other fields: {duplicate_keys}"
                    )
                result.update(value)
            else:
''', '''                duplicate_keys = {k for k in value if k in result}
                if duplicate_keys:
                    raise ConversionError(
                        self, field_ctx, f"keys of flattened field collide with other fields: {duplicate_keys}"
                    )
                for sub_key, sub_value in value.items():
                    result[sub_key] = sub_value
            else:
'''))

edit("ser-emit-flag", SER, (C, '''                if (
                    serialize_defaults
                    or field.required
                    or not field.has_default()
                    or field_ctx.value != field.get_default()
                ):
                    alias =''', '''                emit = serialize_defaults or field.required
                if not emit:
                    emit = not field.has_default() or field_ctx.value != field.get_default()
                if emit:
                    alias ='''), (C, '''            if isinstance(ctx.value, t.Mapping):
                return ctx.value[field_name]
            else:
                return getattr(ctx.value, field_name)
''', '''            if not isinstance(ctx.value, t.Mapping):
                return getattr(ctx.value, field_name)
            return ctx.value[field_name]
'''))

edit("ser-continue", SER, (C, '''                result.update(value)
            else:
                if (
                    serialize_defaults
                    or field.required
                    or not field.has_default()
                    or field_ctx.value != field.get_default()
                ):
                    alias = self._get_alias_setting(field_ctx, field_name).aliases[0]
                    if remainder and remainder.enabled:
                        if not isinstance(value, t.Mapping):
                            raise ConversionError(
                                self,
                                ctx,
                                f"cannot expand remainder field {field_name!r} of type {type(value).__name__}",
                            )
                        remainder_values = value
                    else:
                        if alias in result:
                            raise ConversionError(self, field_ctx, f"key {alias!r} collides with another field")
                        result[alias] = value
''', '''                result.update(value)
                continue

            if (
                not serialize_defaults
                and not field.required
                and field.has_default()
                and not field_ctx.value != field.get_default()
            ):
                continue

            if remainder and remainder.enabled:
                if not isinstance(value, t.Mapping):
                    raise ConversionError(
                        self,
                        ctx,
                        f"cannot expand remainder field {field_name!r} of type {type(value).__name__}",
                    )
                remainder_values = value
                continue

            alias = self._get_alias_setting(field_ctx, field_name).aliases[0]
            if alias in result:
                raise ConversionError(self, field_ctx, f"key {alias!r} collides with another field")
            result[alias] = value
'''))

DES = "P09 P10 P11 P12 P16 P19 P20 P24 P25"
edit("des-extract-next", DES, (C, '''            for alias in aliases:
                if alias in source:
                    result[alias if keep_aliased else field_name] = source[alias]
                    used_keys.add(alias)
                    break
            else:
                if field.required:
''', '''            found = None
            for alias in aliases:
                if alias in source:
                    found = alias
                    break
            if found is not None:
                target = found if keep_aliased else field_name
                result[target] = source[found]
                used_keys.add(found)
            else:
                if field.required:
'''))

edit("des-rename", DES, (C, '''        unused_keys = source.keys() - used_keys
        if remainder_field:
            remainders = {k: ctx.value[k] for k in unused_keys}
            result[remainder_field[0]] = ctx.spawn(
                remainders, remainder_field[1].datatype, remainder_field[0]
            ).convert()
        elif unused_keys:
            extra_keys = ctx.get_setting(ExtraKeys) or ExtraKeys(False)
            extra_keys.inform(self, ctx, unused_keys)

        return schema.constructor(**result)
''', '''        unused_keys = source.keys() - used_keys
        if remainder_field is not None:
            remainder_name, remainder_schema_field = remainder_field
            remainders = {}
            for key in unused_keys:
                remainders[key] = source[key]
            remainder_ctx = ctx.spawn(remainders, remainder_schema_field.datatype, remainder_name)
            result[remainder_name] = remainder_ctx.convert()
        else:
            if unused_keys:
                self._handle_extra_keys(ctx, unused_keys)

        return schema.constructor(**result)

    def _handle_extra_keys(self, ctx: Context, keys: t.Set[str]) -> None:
        setting = ctx.get_setting(ExtraKeys)
        if setting is None:
            setting = ExtraKeys(False)
        setting.inform(self, ctx, keys)
'''))

edit("des-unused-set", DES, (C, '''        unused_keys = source.keys() - used_keys
''', '''        unused_keys = set(source) - used_keys
'''))

edit("des-main-loop", DES, (C, '''            if field.flattened:
                assert field_name in expanded, field_name
                value = ctx.spawn(_extract_fields(expanded[field_name]), field.datatype, field_name).convert()
            else:
                container = _extract_field({}, field_name, field, False)
                if not container:
                    assert not field.required or (remainder_field and remainder_field[0] == field_name)
                    if field.has_default():
                        result[field_name] = field.get_default()
                    continue
                value = ctx.spawn(container[field_name], field.datatype, field_name).convert()
            result[field_name] = value
''', '''            if field.flattened:
                assert field_name in expanded, field_name
                raw = _extract_fields(expanded[field_name])
            else:
                container = _extract_field({}, field_name, field, False)
                if field_name not in container:
                    if field.has_default():
                        result[field_name] = field.get_default()
                    continue
                raw = container[field_name]
            field_context = ctx.spawn(raw, field.datatype, field_name)
            result[field_name] = field_context.convert()
'''))

edit("get-schema", DES, (C, '''        deserialize_as = ctx.get_setting(DeserializeAs)
        if deserialize_as is not None:
            datatype = TypeHint(deserialize_as.type)
        else:
            datatype = _unwrap_annotated(ctx.datatype)

        try:
            return self.convert_to_schema(datatype)
        except ValueError as exc:
            raise NotImplementedError(str(exc))
''', '''        override = ctx.get_setting(DeserializeAs)
        datatype = _unwrap_annotated(ctx.datatype) if override is None else TypeHint(override.type)

        try:
            schema = self.convert_to_schema(datatype)
        except ValueError as exc:
            raise NotImplementedError(str(exc))
        return schema
'''), (C, '''        schema = self._get_schema(ctx)
        return self.deserialize_from_schema(ctx, schema)
''', '''        return self.deserialize_from_schema(ctx, self._get_schema(ctx))
'''), (C, '''        return ctx.get_setting(Alias) or Alias(field_name)
''', '''        setting = ctx.get_setting(Alias)
        if setting is None:
            return Alias(field_name)
        return setting
'''))

U = "P13 P14 P15 P19 P20 P24 P25"
edit("union-shape", U, (C, '''        if is_deserialize:
            return result

        else:
            self._check_style_compatibility(ctx, style, result)
            # Bring the serialized value into shape.
            if style == Union.NESTED:
                result = {discriminator_key: member_name, nesting_key: result}
            elif style == Union.FLAT:
                assert isinstance(result, t.Mapping), type(result)
                # NOTE: Don't modify the result, it may not be ours (e.g. if it comes from a custom converter).
                result = {**result, discriminator_key: member_name}
            elif style == Union.KEYED:
                result = {member_name: result}
            elif style == Union.BEST_MATCH:
                pass
            else:
                raise ConversionError(self, ctx, f"unsupported union style: {style!r}")

        return result
''', '''        if is_deserialize:
            return result

        self._check_style_compatibility(ctx, style, result)
        # Bring the serialized value into shape.
        if style == Union.NESTED:
            shaped = {discriminator_key: member_name}
            shaped[nesting_key] = result
            return shaped
        if style == Union.FLAT:
            assert isinstance(result, t.Mapping), type(result)
            # NOTE: Don't modify the result, it may not be ours (e.g. if it comes from a custom converter).
            flat = dict(result)
            flat[discriminator_key] = member_name
            return flat
        if style == Union.KEYED:
            return {member_name: result}
        raise ConversionError(self, ctx, f"unsupported union style: {style!r}")
'''))

edit("union-child", U, (C, '''            elif style == Union.FLAT:
                child_context = ctx.spawn(dict(ctx.value), type_hint, None)
                # Don't pass down the discriminator key.
                t.cast(t.Dict[str, t.Any], child_context.value).pop(discriminator_key)
''', '''            elif style == Union.FLAT:
                # Don't pass down the discriminator key.
                payload = {k: v for k, v in ctx.value.items() if k != discriminator_key}
                child_context = ctx.spawn(payload, type_hint, None)
'''))

edit("union-best-match", U, (C, '''            errors = []
            for member_name in union.members.get_type_ids():
                member_type = union.members.get_type_by_id(member_name)
                try:
                    return ctx.spawn(ctx.value, member_type, None).convert()
                except ConversionError as exc:
                    errors.append((exc.origin, exc))
            raise ConversionError(
                self,
                ctx,
                f"unable to {ctx.direction.name.lower()} any union member",
                errors,
            )
''', '''            return self._convert_best_match(ctx, union)
'''), (C, '''    def convert(self, ctx: Context) -> t.Any:
        datatype = ctx.datatype
        union: t.Optional[Union] = None
''', '''    def _convert_best_match(self, ctx: Context, union: Union) -> t.Any:
        errors: t.List[t.Tuple[Converter, Exception]] = []
        members = union.members
        for type_id in members.get_type_ids():
            child = ctx.spawn(ctx.value, members.get_type_by_id(type_id), None)
            try:
                result = child.convert()
            except ConversionError as exc:
                errors += [(exc.origin, exc)]
            else:
                return result
        action = ctx.direction.name.lower()
        raise ConversionError(self, ctx, f"unable to {action} any union member", errors)

    def convert(self, ctx: Context) -> t.Any:
        datatype = ctx.datatype
        union: t.Optional[Union] = None
'''))

edit("union-member-name", U, (C, '''        self._check_style_compatibility(ctx, style, value)

        # TODO (@NiklasRosenstein): Support Union.BEST_MATCH
        if style in (Union.NESTED, Union.FLAT):
            if discriminator_key not in value:
                raise ConversionError(self, ctx, f"missing discriminator key {discriminator_key!r} in mapping")
            member_name = value[discriminator_key]
            if not isinstance(member_name, str):
                raise ConversionError.expected(self, ctx.spawn(member_name, str, discriminator_key), str)
        elif style == Union.KEYED:
            if len(value) != 1:
                raise ConversionError(
                    self, ctx, f"expected exactly one key to act as the discriminator, got {len(value)} key(s)"
                )
            member_name = next(iter(value))
            if not isinstance(member_name, str):
                raise ConversionError.expected(self, ctx.spawn(member_name, str, None), str)
        else:
            raise ConversionError(self, ctx, f"unsupported Union.style: {style!r}")

        assert isinstance(member_name, str), (member_name, value)
        return member_name
''', '''        self._check_style_compatibility(ctx, style, value)

        key: t.Optional[str]
        if style == Union.NESTED or style == Union.FLAT:
            if discriminator_key not in value:
                raise ConversionError(self, ctx, f"missing discriminator key {discriminator_key!r} in mapping")
            key, member_name = discriminator_key, value[discriminator_key]
        elif style == Union.KEYED:
            if len(value) != 1:
                raise ConversionError(
                    self, ctx, f"expected exactly one key to act as the discriminator, got {len(value)} key(s)"
                )
            key, member_name = None, list(value)[0]
        else:
            raise ConversionError(self, ctx, f"unsupported Union.style: {style!r}")

        if not isinstance(member_name, str):
            raise ConversionError.expected(self, ctx.spawn(member_name, str, key), str)
        return member_name
'''))

edit("static-members", "P13 P14 P15 P24 P25", (UN, '''        for type_id in self.members:
            reference_type = self.get_type_by_id(type_id)
''', '''        for type_id in list(self.members.keys()):
            reference_type = self.get_type_by_id(type_id)
'''), (UN, '''            if reference_type == type_ or isinstance(reference_type, ClassTypeHint) and reference_type.type == type_:
                return type_id
''', '''            if reference_type == type_:
                return type_id
            if isinstance(reference_type, ClassTypeHint):
                if reference_type.type == type_:
                    return type_id
'''), (UN, '''        try:
            member = self.members[type_id]
        except KeyError:
            raise ValueError(f"{type_id!r} is not a type ID of {self}")

        if isinstance(member, types.FunctionType):
            # NOTE: Not cached by the type ID, as another member may be registered under it later.
            if member not in self._eval_cache:
                self._eval_cache[member] = member()
            return self._eval_cache[member]

        return member
''', '''        if type_id not in self.members:
            raise ValueError(f"{type_id!r} is not a type ID of {self}")
        member = self.members[type_id]

        if not isinstance(member, types.FunctionType):
            return member

        try:
            return self._eval_cache[member]
        except KeyError:
            evaluated = member()
            self._eval_cache[member] = evaluated
            return evaluated
'''), (UN, '''        return list(self.members.keys())
''', '''        return [type_id for type_id in self.members]
'''))

edit("chain-members", "P13 P14 P15 P24 P25", (UN, '''        errors = []
        for delegate in self.delegates:
            try:
                return delegate.get_type_id(type_)
            except ValueError as exc:
                errors.append(exc)
        raise ValueError(f"{type_!r} is not a member of {self}\\n" + "- \\n".join(map(str, errors)))
''', '''        messages: t.List[str] = []
        for delegate in self.delegates:
            try:
                type_id = delegate.get_type_id(type_)
            except ValueError as exc:
                messages.append(str(exc))
                continue
            return type_id
        raise ValueError(f"{type_!r} is not a member of {self}\\n" + "- \\n".join(messages))
'''), (UN, '''        from nr.stream import Stream

        def _gen() -> t.Iterator[str]:
            for delegate in self.delegates:
                try:
                    yield from delegate.get_type_ids()
                except NotImplementedError:
                    pass

        return Stream(_gen()).distinct().collect()
''', '''        result: t.List[str] = []
        for delegate in self.delegates:
            try:
                type_ids = delegate.get_type_ids()
            except NotImplementedError:
                continue
            for type_id in type_ids:
                if type_id not in result:
                    result.append(type_id)
        return result
'''))

edit("chain-dict", "P13 P14 P15 P24 P25", (UN, '''        from nr.stream import Stream

        def _gen() -> t.Iterator[str]:
            for delegate in self.delegates:
                try:
                    yield from delegate.get_type_ids()
                except NotImplementedError:
                    pass

        return Stream(_gen()).distinct().collect()
''', '''        def _gen() -> t.Iterator[str]:
            for delegate in self.delegates:
                try:
                    yield from delegate.get_type_ids()
                except NotImplementedError:
                    pass

        return list(dict.fromkeys(_gen()))
'''))

edit("entrypoint-members", "P13 P14 P15 P24 P25", (UN, '''        if self._entrypoints_cache is None:
            self._entrypoints_cache = {}
            for ep in iter_entry_points(self.group):
                self._entrypoints_cache[ep.name] = ep
        return self._entrypoints_cache
''', '''        cache = self._entrypoints_cache
        if cache is None:
            cache = {ep.name: ep for ep in iter_entry_points(self.group)}
            self._entrypoints_cache = cache
        return cache
'''), (UN, '''        for ep in self._entrypoints.values():
            if ep.load() == type_:
                return ep.name
        raise''', '''        for name, ep in self._entrypoints.items():
            loaded = ep.load()
            if loaded == type_:
                return name
        raise'''))

edit("settings-list", "P17 P18 P20", (ST, '''        from nr.stream import Stream

        def _all_settings() -> t.Iterator[t.Any]:
            datatype = context.datatype
            if isinstance(datatype, AnnotatedTypeHint):
                yield from (s for s in datatype.metadata if isinstance(s, setting_type))
                datatype = datatype[0]
            if isinstance(datatype, ClassTypeHint):
                yield from get_class_settings(datatype.type, setting_type)  # type: ignore[type-var]
                yield from self.local_settings.get(datatype.type, [])
            for provider in self.providers:
                yield from provider(context)
            yield from self.global_settings
            if self.parent:
                setting = self.parent.get_setting(context, setting_type)
                if setting is not None:
                    yield setting

        return get_highest_setting(Stream(_all_settings()).of_type(setting_type))
''', '''        candidates: t.List[t.Any] = []
        datatype = context.datatype
        if isinstance(datatype, AnnotatedTypeHint):
            candidates.extend(datatype.metadata)
            datatype = datatype[0]
        if isinstance(datatype, ClassTypeHint):
            candidates.extend(get_class_settings(datatype.type, setting_type))  # type: ignore[type-var]
            candidates.extend(self.local_settings.get(datatype.type, []))
        for provider in self.providers:
            candidates.extend(provider(context))
        candidates.extend(self.global_settings)
        if self.parent is not None:
            inherited = self.parent.get_setting(context, setting_type)
            if inherited is not None:
                candidates.append(inherited)

        return get_highest_setting(s for s in candidates if isinstance(s, setting_type))
'''))

edit("settings-highest-loop", "P17 P18 P20", (ST, '''    try:
        return max(settings, key=lambda s: s.priority)
    except ValueError:
        return None
''', '''    best: "T_Setting | None" = None
    for setting in settings:
        if best is None or setting.priority > best.priority:
            best = setting
    return best
'''), (ST, '''    for item in vars(type_).get("__databind_settings__", []):
        if isinstance(item, setting_type):
            yield item
''', '''    attached = vars(type_).get("__databind_settings__")
    if attached is None:
        return
    yield from (item for item in attached if isinstance(item, setting_type))
'''))

edit("settings-highest-default", "P17 P18 P20", (ST, '''    try:
        return max(settings, key=lambda s: s.priority)
    except ValueError:
        return None
''', '''    return max(settings, key=lambda s: s.priority, default=None)
'''), (ST, '''        new = type(self)(self.parent, self.global_settings)
        new.local_settings = {k: list(v) for k, v in self.local_settings.items()}
        new.providers = list(self.providers)
        return new
''', '''        new = type(self)(self.parent, self.global_settings)
        for type_, settings in self.local_settings.items():
            new.local_settings[type_] = list(settings)
        new.providers.extend(self.providers)
        return new
'''), (ST, '''        self.local_settings.setdefault(type_, []).append(setting)
''', '''        if type_ not in self.local_settings:
            self.local_settings[type_] = []
        self.local_settings[type_].append(setting)
'''))

edit("settings-decorator", "P17 P18 P20", (ST, '''        settings = vars(type_).get("__databind_settings__")
        if settings is None:
            settings = []
            setattr(type_, "__databind_settings__", settings)
        settings.append(self)

        return type_
''', '''        if "__databind_settings__" in vars(type_):
            vars(type_)["__databind_settings__"].append(self)
        else:
            setattr(type_, "__databind_settings__", [self])

        return type_
'''), (ST, '''        if self.allow is False:
            raise ConversionError(origin, ctx, f"encountered extra keys: {extra_keys}")
        elif self.recorder is not None:
            self.recorder(ctx, extra_keys)
''', '''        if self.allow is not False:
            if self.recorder is not None:
                self.recorder(ctx, extra_keys)
            return
        raise ConversionError(origin, ctx, f"encountered extra keys: {extra_keys}")
'''), (ST, '''        def _provider(context: "Context") -> t.List[Setting]:
            if predicate(context):
                return [setting]
            return []

        self.providers.append(_provider)
''', '''        self.add_provider(lambda context: [setting] if predicate(context) else [])
'''))

edit("module-convert", "P12 P18 P19 P20 P24 P25", (CV, '''        errors: t.List[t.Tuple[Converter, Exception]] = []
        for converter in self.get_converters(ctx):
            try:
                return converter.convert(ctx)
            except NotImplementedError:
                pass
            except ConversionError as exc:
                errors.append((converter, exc))
        if len(errors) == 1:
            raise errors[0][1]
        raise NoMatchingConverter(self, ctx, errors)
''', '''        errors: t.List[t.Tuple[Converter, Exception]] = []
        for converter in self.get_converters(ctx):
            try:
                result = converter.convert(ctx)
            except NotImplementedError:
                continue
            except ConversionError as exc:
                errors.append((converter, exc))
                continue
            return result
        if len(errors) != 1:
            raise NoMatchingConverter(self, ctx, errors)
        ((_, error),) = errors
        raise error
'''), (CV, '''        for converter in self.converters:
            if isinstance(converter, Module):
                yield from converter.get_converters(ctx)
            else:
                yield converter
''', '''        for converter in self.converters:
            if not isinstance(converter, Module):
                yield converter
                continue
            for child in converter.get_converters(ctx):
                yield child
'''), (CV, '''        if first:
            self.converters.insert(0, converter)
        else:
            self.converters.append(converter)
''', '''        self.converters.insert(0 if first else len(self.converters), converter)
'''))

edit("converter-dispatch", "P12 P18 P19 P20 P24 P25", (CV, '''        if ctx.direction.is_serialize():
            return self.serialize(ctx)
        elif ctx.direction.is_deserialize():
            return self.deserialize(ctx)
        else:
            raise RuntimeError(f"unexpected direction: {ctx.direction!r}")
''', '''        direction = ctx.direction
        if direction.is_serialize():
            method = self.serialize
        elif direction.is_deserialize():
            method = self.deserialize
        else:
            raise RuntimeError(f"unexpected direction: {direction!r}")
        return method(ctx)
'''), (CV, '''        datatype = ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
        if self._serialize is None or not isinstance(datatype, ClassTypeHint):
            raise NotImplementedError
        if not isinstance(ctx.value, datatype.type):
            raise ConversionError.expected(self, ctx, datatype.type)
        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._serialize)
        return method(ctx.value)
''', '''        type_ = self._get_type(ctx)
        if self._serialize is None or type_ is None:
            raise NotImplementedError
        if not isinstance(ctx.value, type_):
            raise ConversionError.expected(self, ctx, type_)
        return getattr(type_, self._serialize)(ctx.value)

    @staticmethod
    def _get_type(ctx: "Context") -> "t.Type[t.Any] | None":
        datatype = ctx.datatype
        if isinstance(datatype, AnnotatedTypeHint):
            datatype = datatype[0]
        return datatype.type if isinstance(datatype, ClassTypeHint) else None
'''))

edit("context", "P12 P18 P19 P20 P24 P25", (CX, '''        if not isinstance(datatype, TypeHint):
            datatype = TypeHint(datatype)

        if location is None:
            location = Location(self.location.filename, None, None)

        return Context(self, self.direction, value, datatype, self.settings, key, location, self.convert_func)
''', '''        return Context(
            parent=self,
            direction=self.direction,
            value=value,
            datatype=datatype if isinstance(datatype, TypeHint) else TypeHint(datatype),
            settings=self.settings,
            key=key,
            location=Location(self.location.filename, None, None) if location is None else location,
            convert_func=self.convert_func,
        )
'''), (CX, '''        current: t.Optional[Context] = self
        while current:
            yield current
            current = current.parent
''', '''        current: t.Optional[Context] = self
        while current is not None:
            yield current
            current = current.parent
'''), (CX, '''        if ctx.location.filename != prev_filename and ctx.location.filename is not None:
            lines.append(f'In "{ctx.location.filename}"')
            prev_filename = ctx.location.filename

        if ctx.key is Context.ROOT:
            key = "$"
        elif isinstance(ctx.key, str):
            key = f".{ctx.key}"
        elif isinstance(ctx.key, int):
            key = f"[{ctx.key}]"
        elif ctx.key is None:
            key = "^"
        else:
            key = f"[{ctx.key!r}]"

        line =''', '''        filename = ctx.location.filename
        if filename is not None and filename != prev_filename:
            lines.append(f'In "{filename}"')
            prev_filename = filename

        key = _format_key(ctx.key)
        line ='''), (CX, '''def format_context_trace(''', '''def _format_key(key: t.Any) -> str:
    if key is Context.ROOT:
        return "$"
    if key is None:
        return "^"
    if isinstance(key, str):
        return "." + key
    if isinstance(key, int):
        return f"[{key}]"
    return f"[{key!r}]"


def format_context_trace('''))

edit("mapper", "P17 P18 P22", (MP, '''        if not isinstance(datatype, TypeHint):
            datatype = TypeHint(datatype)
        if isinstance(settings, list):
            settings = Settings(self.settings, global_settings=settings)

        context = Context(
            parent=None,
            direction=direction,
            value=value,
            datatype=datatype,
            settings=settings or self.settings,
            key=Context.ROOT,
            location=location or Location.EMPTY,
            convert_func=self.module.convert,
        )

        return context.convert()
''', '''        provider = settings
        if isinstance(provider, list):
            provider = Settings(self.settings, provider)
        elif not provider:
            provider = self.settings

        hint = datatype if isinstance(datatype, TypeHint) else TypeHint(datatype)
        where = location or Location.EMPTY
        return Context(None, direction, value, hint, provider, Context.ROOT, where, self.module.convert).convert()
'''), (MP, '''        new = type(self)(self.settings.copy())
        new.module.converters.extend(self.module.converters)
        return new
''', '''        new = type(self)(self.settings.copy())
        for converter in self.module.converters:
            new.module.converters.append(converter)
        return new
'''))

edit("json-entry", "P17 P18 P22 P24", (JI, '''    return load(json.loads(value), type_, filename, settings)
''', '''    payload = json.loads(value)
    return load(payload, type_, filename=filename, settings=settings)
'''), (JI, '''    return get_object_mapper().deserialize(value, type_, filename, settings)
''', '''    mapper = get_object_mapper()
    return mapper.deserialize(value, type_, settings=settings, filename=filename)
'''), (JI, '''    return json.dumps(dump(value, type_, filename, settings), indent=indent, sort_keys=sort_keys)
''', '''    payload = dump(value, type_, filename, settings)
    return json.dumps(payload, sort_keys=sort_keys, indent=indent)
'''), (JM, '''        converter_setting = ctx.get_setting(JsonConverter)
        if converter_setting is not None:
            yield converter_setting.supplier()
        yield from super().get_converters(ctx)
''', '''        setting = ctx.get_setting(JsonConverter)
        if setting is not None:
            converter = setting.supplier()
            yield converter
        for converter in super().get_converters(ctx):
            yield converter
'''), (JS, '''        if isinstance(supplier, Converter):
            self.supplier = lambda: supplier
        else:
            self.supplier = supplier
''', '''        self.supplier = (lambda: supplier) if isinstance(supplier, Converter) else supplier
'''))

SCH = "P09 P10 P11 P16 P20 P21 P25"
edit("schema-origin", SCH, (SC, '''    base_queue = [hint.type]
    while base_queue:
        base_type = base_queue.pop(0)
        # NOTE: Not is_dataclass(), as the annotations of a class that only inherits from a dataclass are no fields.
        if "__dataclass_fields__" in vars(base_type):
            annotations = get_annotations(base_type)
            for field in dataclasses.fields(base_type):
                # A base class may define a field that is not the one inherited by the dataclass.
                if effective_fields.get(field.name) is not field:
                    continue
                if field.name in annotations and field.name not in field_origin:
                    field_origin[field.name] = base_type
        base_queue += base_type.__bases__
''', '''    base_queue = [hint.type]
    while len(base_queue) > 0:
        base_type = base_queue.pop(0)
        base_queue.extend(base_type.__bases__)
        # NOTE: Not is_dataclass(), as the annotations of a class that only inherits from a dataclass are no fields.
        if "__dataclass_fields__" not in vars(base_type):
            continue
        annotations = get_annotations(base_type)
        for field in dataclasses.fields(base_type):
            # A base class may define a field that is not the one inherited by the dataclass.
            if effective_fields.get(field.name) is field and field.name in annotations:
                field_origin.setdefault(field.name, base_type)
'''))

edit("schema-field-helper", SCH, (SC, '''                # NOTE(NiklasRosenstein): In Python 3.6, Mypy complains about "Callable does not accept self argument",
                #       but we also cannot ignore it because of warn_unused_ignores.
                _field_default_factory = getattr(field, "default_factory")

                default = NotSet.Value if field.default is MISSING else field.default
                default_factory = NotSet.Value if _field_default_factory is MISSING else _field_default_factory
                has_default = default is not NotSet.Value or default_factory is not NotSet.Value
                required = _is_required(field_hint, not has_default)

                fields[field.name] = Field(
                    datatype=field_hint,
                    required=required,
                    default=None if not required and not has_default else default,
                    default_factory=default_factory,
                    flattened=_is_flat(field_hint, False),
                )
''', '''                fields[field.name] = _make_field(field, field_hint)
'''), (SC, '''    from dataclasses import MISSING

    hint: ClassTypeHint
''', '''    hint: ClassTypeHint
'''), (SC, '''def convert_dataclass_to_schema(dataclass_type''', '''def _make_field(field: "dataclasses.Field[t.Any]", field_hint: TypeHint) -> Field:
    default = field.default
    if default is dataclasses.MISSING:
        default = NotSet.Value
    default_factory = getattr(field, "default_factory")
    if default_factory is dataclasses.MISSING:
        default_factory = NotSet.Value
    has_default = default is not NotSet.Value or default_factory is not NotSet.Value
    required = _is_required(field_hint, not has_default)
    if not has_default and not required:
        default = None
    return Field(field_hint, required, default, default_factory, _is_flat(field_hint, False))


def convert_dataclass_to_schema(dataclass_type'''))

edit("schema-conditions", SCH, (SC, '''                if not field.init:
                    # If we cannot initialize the field in the constructor, we should also
                    # exclude it from the definition of the type for de-/serializing.
                    continue
                if field.name in fields:
                    # Subclasses override their parent's fields.
                    continue
                if field_origin.get(field.name) != hint.type:
                    # If this field does not belong to the current type
                    continue
''', '''                name = field.name
                # Subclasses override their parent's fields, the field must belong to the current type and we must be
                # able to initialize it in the constructor.
                if name in fields or field_origin.get(name) != hint.type or not field.init:
                    continue
'''), (SC, '''    annotations = []
    if isinstance(hint, AnnotatedTypeHint):
        annotations = list(hint.metadata)
        hint = hint[0]
''', '''    if isinstance(hint, AnnotatedTypeHint):
        annotations = list(hint.metadata)
        hint = hint[0]
    else:
        annotations = []
'''), (SC, '''    if isinstance(hint, ClassTypeHint) and dataclasses.is_dataclass(hint.type):
        schema = convert_dataclass_to_schema(hint)
    elif isinstance(hint, ClassTypeHint) and is_typed_dict(hint.type):
        # TODO(@NiklasRosenstein): Pass in the original TypeHint which will contain information about
        #   TypeVar parametrization that is lost when we just pass the generic type.
        schema = convert_typed_dict_to_schema(hint.type)
    else:
        raise''', '''    schema: t.Optional[Schema] = None
    if isinstance(hint, ClassTypeHint):
        if dataclasses.is_dataclass(hint.type):
            schema = convert_dataclass_to_schema(hint)
        elif is_typed_dict(hint.type):
            # TODO(@NiklasRosenstein): Pass in the original TypeHint which will contain information about
            #   TypeVar parametrization that is lost when we just pass the generic type.
            schema = convert_typed_dict_to_schema(hint.type)
    if schema is None:
        raise'''))

edit("schema-expanded", SCH, (SC, '''    result = {}
    for field_name, field in schema.fields.items():
        if field.flattened:
            field_schema = convert_to_schema(field.datatype)
            result[field_name] = {
                **{k: v for k, v in field_schema.fields.items() if not v.flattened},
                **{k: v for sf in get_fields_expanded(field_schema).values() for k, v in sf.items()},
            }
            for sub_field_name in result[field_name]:
                if sub_field_name in schema.fields and sub_field_name != field_name:
                    raise RuntimeError(f"field {sub_field_name!r} occurs multiple times")
    return result
''', '''    result: t.Dict[str, t.Dict[str, Field]] = {}
    for field_name, field in schema.fields.items():
        if not field.flattened:
            continue
        field_schema = convert_to_schema(field.datatype)
        expanded: t.Dict[str, Field] = {}
        for sub_name, sub_field in field_schema.fields.items():
            if not sub_field.flattened:
                expanded[sub_name] = sub_field
        for nested in get_fields_expanded(field_schema).values():
            expanded.update(nested)
        for sub_name in expanded:
            if sub_name != field_name and sub_name in schema.fields:
                raise RuntimeError(f"field {sub_name!r} occurs multiple times")
        result[field_name] = expanded
    return result
'''))

edit("schema-typed-dict", SCH, (SC, '''        # NOTE: Not hasattr(), as that would find methods of the dict type for keys like "items".
        has_default = key in vars(typed_dict)
        required = _is_required(field_hint, not has_default)
        fields[key] = Field(
            datatype=field_hint,
            required=required and key in typed_dict.__required_keys__,
            default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,
            flattened=_is_flat(field_hint, False),
        )
''', '''        # NOTE: Not hasattr(), as that would find methods of the dict type for keys like "items".
        has_default = key in vars(typed_dict)
        required = _is_required(field_hint, not has_default)
        default: t.Any
        if has_default:
            default = getattr(typed_dict, key)
        elif required:
            default = NotSet.Value
        else:
            default = None
        is_required = key in typed_dict.__required_keys__ and required
        fields[key] = Field(field_hint, is_required, default, flattened=_is_flat(field_hint, False))
'''), (SC, '''    required = get_annotation_setting(datatype, Required)
    if required:
        return required.enabled

    if isinstance(datatype, AnnotatedTypeHint):
        datatype = datatype[0]

    if isinstance(datatype, UnionTypeHint) and datatype.has_none_type():
        return False

    return default
''', '''    required = get_annotation_setting(datatype, Required)
    if required is not None:
        return required.enabled

    inner = datatype[0] if isinstance(datatype, AnnotatedTypeHint) else datatype
    is_optional = isinstance(inner, UnionTypeHint) and inner.has_none_type()
    return default and not is_optional
'''), (SC, '''    return (get_annotation_setting(datatype, Flattened) or Flattened(default)).enabled
''', '''    setting = get_annotation_setting(datatype, Flattened)
    return default if setting is None else setting.enabled
'''), (SC, '''        if self.default is not NotSet.Value:
            return self.default
        elif self.default_factory is not NotSet.Value:
            return self.default_factory()
        else:
            raise RuntimeError("Field does not have a default value")
''', '''        if not self.has_default():
            raise RuntimeError("Field does not have a default value")
        if self.default is not NotSet.Value:
            return self.default
        return self.default_factory()
'''))

edit("dataclasses", "P23", (DC, '''        for f in fields(self):
            if f.init and getattr(self, f.name) is NotSet.Value:
                raise TypeError(f"missing required argument {f.name!r}")
        if any(value is NotSet.Value for value in init_vars):
            raise TypeError("missing required argument (InitVar)")
        if orig_postinit:
            orig_postinit(self, *init_vars)
''', '''        for field_ in fields(self):
            if not field_.init:
                continue
            if getattr(self, field_.name) is NotSet.Value:
                raise TypeError(f"missing required argument {field_.name!r}")
        for value in init_vars:
            if value is NotSet.Value:
                raise TypeError("missing required argument (InitVar)")
        if orig_postinit is not None:
            orig_postinit(self, *init_vars)
'''), (DC, '''    return any(x is not MISSING for x in (field.default, field.default_factory))  # type: ignore
''', '''    return field.default is not MISSING or field.default_factory is not MISSING  # type: ignore
'''), (DC, '''        metadata = {**(metadata or {}), ANNOTATIONS_METADATA_KEY: annotations}
''', '''        metadata = dict(metadata) if metadata else {}
        metadata[ANNOTATIONS_METADATA_KEY] = annotations
'''))

edit("dataclasses-process", "P23", (DC, '''        if not hasattr(cls, key):
            f = field()
            setattr(cls, key, f)
        else:
            f = getattr(cls, key)
            if not isinstance(f, Field):
                continue
        if f.init and not _field_has_default(f):
''', '''        if hasattr(cls, key):
            f = getattr(cls, key)
        else:
            f = field()
            setattr(cls, key, f)
        if not isinstance(f, Field):
            continue
        if f.init and not _field_has_default(f):
'''), (DC, '''    def wrap(cls):
        return _process_class(cls, **kwargs)

    if cls is not None:
        return wrap(cls)

    return wrap
''', '''    if cls is None:
        return lambda cls: _process_class(cls, **kwargs)
    return _process_class(cls, **kwargs)
'''), (DC, '''    for key in no_default_fields:
        if vars(cls).get(key) is NotSet.Value:  # Must not delete the descriptors of a class with slots
            delattr(cls, key)
''', '''    for key in no_default_fields:
        # Must not delete the descriptors of a class with slots
        if key in vars(cls) and vars(cls)[key] is NotSet.Value:
            delattr(cls, key)
'''))

edit("dateformat", "P06 P20", (ST, '''        for fmt in self.__iter_formats(format_t):
            try:
                return t.cast(DateFormat.T_Dtype, getattr(fmt, method_name)(value))
            except ValueError:
                pass
        raise''', '''        for fmt in self.__iter_formats(format_t):
            parse = getattr(fmt, method_name)
            try:
                result = parse(value)
            except ValueError:
                continue
            return t.cast(DateFormat.T_Dtype, result)
        raise'''), (ST, '''        type_: t.Type[t.Any] = next(x for x in (datetime.datetime, datetime.date, datetime.time) if isinstance(dt, x))
        format_t: t.Type[DateFormat.Formatter]
        format_t, method_name = {  # type: ignore
            datetime.date: (date_format, "format_date"),
            datetime.time: (time_format, "format_time"),
            datetime.datetime: (datetime_format, "format_datetime"),
        }[type_]
''', '''        format_t: t.Type[DateFormat.Formatter]
        if isinstance(dt, datetime.datetime):
            format_t, method_name = datetime_format, "format_datetime"  # type: ignore
        elif isinstance(dt, datetime.date):
            format_t, method_name = date_format, "format_date"  # type: ignore
        else:
            assert isinstance(dt, datetime.time), type(dt)
            format_t, method_name = time_format, "format_time"  # type: ignore
'''))


def apply(name, root):
    for path, old, new in R[name][1]:
        path = os.path.join(root, path)
        with open(path) as f:
            text = f.read()
        if text.count(old) != 1:
            raise SystemExit(f"{name}: {text.count(old)} matches in {path} of\n{old}")
        with open(path, "w") as f:
            f.write(text.replace(old, new))


def one(name, pids, here, tier):
    tmp = tempfile.mkdtemp(prefix="refac-", dir="/tmp")
    repo = os.path.join(tmp, "repo")
    out = []
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        apply(name, repo)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "databind"], cwd=repo, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONPATH=os.path.join(repo, "databind/src"), PYTHONDONTWRITEBYTECODE="1"))
        out.append((name, "tests", r.returncode, 0, r.stdout.strip().splitlines()[-1:]))
        vf = os.path.join(tmp, "verif")
        shutil.copytree(here, vf, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        for pid in pids:
            t0 = time.time()
            r = subprocess.run([sys.executable, os.path.join(vf, "check.py"), pid, "--tier", tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1"))
            und = ""
            try:
                import json
                with open(os.path.join(vf, "evidence", pid + ".json")) as f:
                    ev = json.load(f)
                und = [(u["function"], u["reason"][:160]) for u in ev["coverage"].get("undecided", [])]
            except (OSError, ValueError):
                pass
            out.append((name, pid, r.returncode, round(time.time() - t0, 1), (r.stdout.strip().splitlines()[-6:] if r.returncode else ""), und))
    finally:
        shutil.rmtree(tmp)
    return out


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("names", nargs="*")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--run", action="store_true")
    ap.add_argument("--pids")
    ap.add_argument("--skip", default="")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--tier", default="quick")
    a = ap.parse_args()
    if a.list:
        for k, (p, ch) in R.items():
            print(k, *p)
    elif a.run:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
            jobs = []
            for n in a.names or R:
                pids = a.pids.split(",") if a.pids else R[n][0]
                pids = [p for p in pids if p in R[n][0] and p not in a.skip.split(",")]
                jobs.append(ex.submit(one, n, pids, here, a.tier))
            for j in jobs:
                for row in j.result():
                    print(*row, flush=True)
    else:
        apply(*a.names)
