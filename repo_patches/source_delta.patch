From ab2d56259d7591bf2549fa47316f760f2287c86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 01/41] fix: non-strict deserialization of "no", "false", "off"
 and "disabled" must give False

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e04df80..12ea1a5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -52,7 +52,7 @@ def _bool_from_str(s: str) -> bool:
     if s.lower() in ("yes", "true", "on", "enabled"):
         return True
     if s.lower() in ("no", "false", "off", "disabled"):
-        return True
+        return False
     raise ValueError(f"not a truthy keyword: {s!r}")
 
 
-- 
2.43.0


From fff3cb4986a45d197e1128833e7f8ea111a77ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 02/41] fix: report a lossy float to int conversion as
 ConversionError, not AssertionError

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 12ea1a5..cb51ad5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -42,7 +42,8 @@ T = t.TypeVar("T")
 def _int_lossless(v: float) -> int:
     """Convert *v* to an integer only if the conversion is lossless, otherwise raise an error."""
 
-    assert v % 1.0 == 0.0, f"expected int, got {v!r}"
+    if v % 1.0 != 0.0:
+        raise ValueError(f"expected int, got {v!r}")
     return int(v)
 
 
-- 
2.43.0


From 115d5a3d9c03dc233c3199e1bbbd4d94899ee93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 03/41] fix: report an int that is too large for a float field
 as ConversionError

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index cb51ad5..31cf5a8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -435,7 +435,7 @@ class PlainDatatypeConverter(Converter):
 
         try:
             return adapter(ctx.value)
-        except ValueError as exc:
+        except (ValueError, OverflowError) as exc:
             raise ConversionError(self, ctx, str(exc)) from exc
 
 
-- 
2.43.0


From 081380d5d9c018849270803c01c2b1365575b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 04/41] fix: do not encode bytes when deserializing and do not
 decode strings when serializing bytes

---
 databind/src/databind/json/converters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 31cf5a8..3fb02f5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -430,6 +430,11 @@ class PlainDatatypeConverter(Converter):
         adapters = self._strict_adapters if strict.enabled else self._nonstrict_adapters
         adapter = adapters.get((source_type, target_type))
 
+        # The wire format of bytes is a (base64 encoded) string, thus the two adapters for bytes are only
+        # applicable in one direction each.
+        if target_type is bytes and source_type is not (bytes if ctx.direction == Direction.SERIALIZE else str):
+            adapter = None
+
         if adapter is None:
             raise ConversionError.expected(self, ctx, target_type, source_type)
 
-- 
2.43.0


From a81d197aa41d0e8039b8b3df6b470d3c2a289bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 05/41] fix: report a malformed decimal string as
 ConversionError, not decimal.InvalidOperation

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 3fb02f5..2edbef2 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -238,7 +238,10 @@ class DecimalConverter(Converter):
 
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
-                return decimal.Decimal(ctx.value, context)
+                try:
+                    return decimal.Decimal(ctx.value, context)
+                except decimal.DecimalException:
+                    raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}")
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-- 
2.43.0


From 149f38ce0ad6066756aaa769ce8e9215bec992ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 06/41] fix: apply the Precision setting when deserializing a
 decimal (the Decimal constructor does not round)

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 2edbef2..df8c3e9 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -239,7 +239,7 @@ class DecimalConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                 try:
-                    return decimal.Decimal(ctx.value, context)
+                    return context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
                 except decimal.DecimalException:
                     raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}")
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
-- 
2.43.0


From ccd781e4cff4f662ff082bde71eab7e62f04e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 07/41] fix: support Literal type hints wrapped in Annotated

---
 databind/src/databind/json/converters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index df8c3e9..75f758c 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -871,14 +871,15 @@ class LiteralConverter(Converter):
     or #None."""
 
     def convert(self, ctx: Context) -> t.Any:
-        if not isinstance(ctx.datatype, LiteralTypeHint):
+        datatype = _unwrap_annotated(ctx.datatype)
+        if not isinstance(datatype, LiteralTypeHint):
             raise NotImplementedError
 
-        if ctx.value not in ctx.datatype.values:
+        if ctx.value not in datatype.values:
             raise ConversionError(
                 self,
                 ctx,
-                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, ctx.datatype.values))}",
+                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, datatype.values))}",
             )
 
         return ctx.value
-- 
2.43.0


From 7f65d73546202db0b8a1e41efc9f7fdedc19f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 08/41] fix: support plain unions wrapped in Annotated without
 a Union setting

---
 databind/src/databind/json/converters.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 75f758c..c8f31ff 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -771,8 +771,13 @@ class UnionConverter(Converter):
 
     def convert(self, ctx: Context) -> t.Any:
         datatype = ctx.datatype
-        union: t.Optional[Union]
-        if isinstance(datatype, UnionTypeHint):
+        union: t.Optional[Union] = None
+        if isinstance(datatype, (AnnotatedTypeHint, ClassTypeHint)):
+            union = ctx.get_setting(Union)
+            datatype = _unwrap_annotated(datatype)
+        if union is not None:
+            pass
+        elif isinstance(datatype, UnionTypeHint):
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
             if not all(isinstance(a, ClassTypeHint) for a in datatype):
@@ -781,10 +786,6 @@ class UnionConverter(Converter):
             if len(members) != len(datatype):
                 raise NotImplementedError(f"members of plain Union cannot have overlapping type names: {datatype}")
             union = Union(members, Union.BEST_MATCH)
-        elif isinstance(datatype, (AnnotatedTypeHint, ClassTypeHint)):
-            union = ctx.get_setting(Union)
-            if union is None:
-                raise NotImplementedError
         else:
             raise NotImplementedError
 
-- 
2.43.0


From c1b54d8b609eafd0ca94e8f5c7dcaf1a5f25760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 09/41] fix: serialize nested unions under the nesting_key that
 deserialization reads

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c8f31ff..474cb97 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -851,7 +851,7 @@ class UnionConverter(Converter):
             self._check_style_compatibility(ctx, style, result)
             # Bring the serialized value into shape.
             if style == Union.NESTED:
-                result = {discriminator_key: member_name, member_name: result}
+                result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
                 result[discriminator_key] = member_name
-- 
2.43.0


From 92e837acb511c906b8e618f477ab73cf104697c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 10/41] fix: report an unknown union member as ConversionError,
 not ValueError

---
 databind/src/databind/json/converters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 474cb97..e0c0940 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -813,12 +813,14 @@ class UnionConverter(Converter):
             if not isinstance(ctx.value, t.Mapping):
                 raise ConversionError.expected(self, ctx, t.Mapping)
             member_name = self._get_deserialize_member_name(ctx, ctx.value, style, discriminator_key)
-            member_type = union.members.get_type_by_id(member_name)
 
-        else:
-            # Identify the member type based on the Python value type.
-            member_name = union.members.get_type_id(type(ctx.value))
+        try:
+            if not is_deserialize:
+                # Identify the member type based on the Python value type.
+                member_name = union.members.get_type_id(type(ctx.value))
             member_type = union.members.get_type_by_id(member_name)
+        except ValueError as exc:
+            raise ConversionError(self, ctx, str(exc)) from exc
 
         nesting_key = union.nesting_key or member_name
         type_hint = TypeHint(member_type) if not isinstance(member_type, TypeHint) else member_type
-- 
2.43.0


From 876aa4adb436e09be48e9bce9d1833e8348f5833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 11/41] fix: report a non-string key of a keyed union as
 ConversionError, not AssertionError

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e0c0940..66a09d7 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -758,7 +758,8 @@ class UnionConverter(Converter):
                     self, ctx, f"expected exactly one key to act as the discriminator, got {len(value)} key(s)"
                 )
             member_name = next(iter(value))
-            assert isinstance(member_name, str)
+            if not isinstance(member_name, str):
+                raise ConversionError.expected(self, ctx.spawn(member_name, str, None), str)
         else:
             raise ConversionError(self, ctx, f"unsupported Union.style: {style!r}")
 
-- 
2.43.0


From 986808325bc1c3c17081eb9d549af728f4645e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 12/41] fix: leave typed dictionaries to the SchemaConverter

---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 66a09d7..c66d10b 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -12,6 +12,7 @@ from typeapi import (
     TypeHint,
     UnionTypeHint,
     get_annotations,
+    is_typed_dict,
     type_repr,
 )
 
@@ -331,6 +332,9 @@ class MappingConverter(Converter):
         # Find the key and value types of the mapping.
         if not isinstance(datatype, ClassTypeHint) or not issubclass(datatype.type, t.Mapping):
             raise NotImplementedError
+        # Typed dictionaries are handled by the SchemaConverter.
+        if is_typed_dict(datatype.type):
+            raise NotImplementedError
         candidates = set()
         for current in datatype.recurse_bases():
             if issubclass(current.type, t.Mapping) and len(current.args) == 2:
-- 
2.43.0


From 273024d78568db245aeb7903092a9fd8dcd849fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 13/41] fix: derive defaults and required keys of a typed dict
 from its own keys, also when inherited

---
 databind/src/databind/core/schema.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index dafd295..e408639 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -303,11 +303,12 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
     for key in typed_dict.__required_keys__ | typed_dict.__optional_keys__:
         field_hint = TypeHint(annotations[key]).evaluate(eval_context)
 
-        has_default = hasattr(typed_dict, key)
+        # NOTE: Not hasattr(), as that would find methods of the dict type for keys like "items".
+        has_default = key in vars(typed_dict)
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-            required=required and typed_dict.__total__,
+            required=required and key in typed_dict.__required_keys__,
             default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,
             flattened=_is_flat(field_hint, False),
         )
-- 
2.43.0


From 32bb2f5a0b9dc1630cfa63a83eee0efee4be2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 14/41] fix: serialize typed dictionaries that leave out
 non-required keys

---
 databind/src/databind/json/converters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c66d10b..0f05e42 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -501,7 +501,7 @@ class SchemaConverter(Converter):
 
         def _get_field_value(field_name: str, field: Field) -> t.Any:
             if isinstance(ctx.value, t.Mapping):
-                return ctx.value[field_name]  # TODO (@NiklasRosenstein): Respect non-required fields
+                return ctx.value[field_name]
             else:
                 return getattr(ctx.value, field_name)
 
@@ -509,6 +509,10 @@ class SchemaConverter(Converter):
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
 
         for field_name, field in schema.fields.items():
+            if isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
+                if field.required:
+                    raise ConversionError(self, ctx, f"missing required field: {field_name!r}")
+                continue
             field_ctx = ctx.spawn(_get_field_value(field_name, field), field.datatype, field_name)
             remainder = field_ctx.get_setting(Remainder)
             if remainder and remainder.enabled:
-- 
2.43.0


From 4cf23904e4283dadee3fddb46812d33c8b00ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 15/41] fix: serialize a remainder field that has its default
 value when defaults are not serialized

---
 databind/src/databind/json/converters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 0f05e42..9afae35 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -548,8 +548,7 @@ class SchemaConverter(Converter):
                     else:
                         result[alias] = value
 
-        if remainder_field:
-            assert remainder_values is not None
+        if remainder_values is not None:
             duplicate_keys = result.keys() & remainder_values.keys()
             if duplicate_keys:
                 raise ConversionError(
-- 
2.43.0


From 78c2f217c9ca7bdb116a91a32752cd839ea8ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 16/41] fix: always serialize required fields, even if they
 have their default value

---
 databind/src/databind/json/converters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 9afae35..83bf61a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -535,7 +535,12 @@ class SchemaConverter(Converter):
                 assert result.keys().isdisjoint(value.keys()), result.keys() & value.keys()
                 result.update(value)
             else:
-                if serialize_defaults or not field.has_default() or field_ctx.value != field.get_default():
+                if (
+                    serialize_defaults
+                    or field.required
+                    or not field.has_default()
+                    or field_ctx.value != field.get_default()
+                ):
                     alias = self._get_alias_setting(field_ctx, field_name).aliases[0]
                     if remainder and remainder.enabled:
                         if not isinstance(value, t.Mapping):
-- 
2.43.0


From 8b44c6efcd410ca33a56d319630e559d4b6958d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 17/41] fix: list the type IDs of chained union members instead
 of their characters

---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 95bb90d..0a19718 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -245,4 +245,4 @@ class ChainUnionMembers(UnionMembers):
                 except NotImplementedError:
                     pass
 
-        return Stream(_gen()).concat().distinct().collect()
+        return Stream(_gen()).distinct().collect()
-- 
2.43.0


From 11358a87b7e1ad62aee1b44629cee7bb36a6f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 18/41] fix: do not add the settings that decorate a subclass
 to its base class

---
 databind/src/databind/core/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 5777529..7c2eca1 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -176,7 +176,8 @@ class ClassDecoratorSetting(Setting):
             raise RuntimeError("cannot decorate multiple types with the same setting instance")
 
         self.bound_to = type_
-        settings = getattr(type_, "__databind_settings__", None)
+        # NOTE: Not getattr(), as that would find (and the below would then modify) the settings of a base class.
+        settings = vars(type_).get("__databind_settings__")
         if settings is None:
             settings = []
             setattr(type_, "__databind_settings__", settings)
-- 
2.43.0


From e6942d5b8d4c52b0e38daed715d2d41002eab978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 19/41] fix: support ClassVar, InitVar and field(init=False) in
 databind.core.dataclasses

---
 databind/src/databind/core/dataclasses.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index ef61477..72ac113 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -65,7 +65,9 @@ def _process_class(cls, **kwargs):
     # Make sure each annotated field actually has a #Field. For fields without
     # defaults, we will set #Field.default to #NotSet.Value so we can later
     # check if the field was set in __post_init__().
-    for key in annotations.keys():
+    for key, annotation in annotations.items():
+        if annotation is t.ClassVar or getattr(annotation, "__origin__", None) is t.ClassVar:
+            continue
         if not hasattr(cls, key):
             f = existing_fields.get(key, field())
             setattr(cls, key, f)
@@ -73,7 +75,7 @@ def _process_class(cls, **kwargs):
             f = getattr(cls, key)
             if not isinstance(f, Field):
                 continue
-        if not _field_has_default(f):
+        if f.init and not _field_has_default(f):
             # This prevents a SyntaxError if non-default arguments follow default arguments.
             f.default = NotSet.Value
             no_default_fields.append(key)
@@ -81,13 +83,16 @@ def _process_class(cls, **kwargs):
     # Override the `__post_init__` method that is called by the dataclass `__init__`.
     orig_postinit = getattr(cls, "__post_init__", None)
 
-    def __post_init__(self):
-        # Ensure that no field has a "uninitialized" value.
-        for key in self.__dataclass_fields__.keys():
-            if getattr(self, key) == NotSet.Value:
-                raise TypeError(f"missing required argument {key!r}")
+    def __post_init__(self, *init_vars):
+        # Ensure that no field has a "uninitialized" value. Note that the values of InitVar fields are passed in
+        # as arguments instead of being set on the instance.
+        for f in fields(self):
+            if f.init and getattr(self, f.name) == NotSet.Value:
+                raise TypeError(f"missing required argument {f.name!r}")
+        if any(value is NotSet.Value for value in init_vars):
+            raise TypeError("missing required argument (InitVar)")
         if orig_postinit:
-            orig_postinit(self)
+            orig_postinit(self, *init_vars)
 
     cls.__post_init__ = __post_init__
 
-- 
2.43.0


From 5b1a63972dd98c5b26d70d0d77ad2ecaa85ab03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 20/41] fix: raise ValueError for type IDs that cannot be
 imported, as documented

---
 databind/src/databind/core/union.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 0a19718..8a78880 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -181,7 +181,10 @@ class ImportUnionMembers(UnionMembers):
         parts = type_id.split(".")
         offset = 1
         module_name = parts[0]
-        module = importlib.import_module(module_name)
+        try:
+            module = importlib.import_module(module_name)
+        except ImportError as exc:
+            raise ValueError(f"{type_id!r} does not point to a type ({exc})")
 
         # Import as many modules as we can.
         for offset, part in enumerate(parts[offset:], offset):
@@ -197,7 +200,10 @@ class ImportUnionMembers(UnionMembers):
         # Read the class.
         target = module
         for offset, part in enumerate(parts[offset:], offset):
-            target = getattr(target, part)
+            try:
+                target = getattr(target, part)
+            except AttributeError as exc:
+                raise ValueError(f"{type_id!r} does not point to a type ({exc})")
 
         if not isinstance(target, type):  # type: ignore[unreachable]
             raise ValueError(f"{type_id!r} does not point to a type (got {type(target).__name__} instead)")
-- 
2.43.0


From 9a9d92708bd40e312fb22ddf31a9843d99b190c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 21/41] fix: derive the schema of a dataclass with multiple
 bases from the fields that it actually inherits

---
 databind/src/databind/core/schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index e408639..02f6564 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -181,12 +181,16 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
     # forward references in field annotations; we can't just use the target
     # dataclass if it was defined in a different module.
     field_origin: t.Dict[str, type] = {}
+    effective_fields = {field.name: field for field in dataclasses.fields(hint.type)}
     base_queue = [hint.type]
     while base_queue:
         base_type = base_queue.pop(0)
         if dataclasses.is_dataclass(base_type):
             annotations = get_annotations(base_type)
             for field in dataclasses.fields(base_type):
+                # A base class may define a field that is not the one inherited by the dataclass.
+                if effective_fields.get(field.name) is not field:
+                    continue
                 if field.name in annotations and field.name not in field_origin:
                     field_origin[field.name] = base_type
         base_queue += base_type.__bases__
@@ -217,7 +221,7 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
                 if field.name in fields:
                     # Subclasses override their parent's fields.
                     continue
-                if field_origin[field.name] != hint.type:
+                if field_origin.get(field.name) != hint.type:
                     # If this field does not belong to the current type
                     continue
 
-- 
2.43.0


From 81ffeda41d9c35bd7886e078db588070ce9fd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 22/41] fix: deserialize subclasses of a stringified type as
 the subclass

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 83bf61a..ab3c9d9 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -678,7 +678,8 @@ class StringifyConverter(Converter):
             if not isinstance(ctx.value, str):
                 raise ConversionError.expected(self, ctx, str)
             try:
-                return self.parser(ctx.value)
+                # The datatype may be a subclass of the type, which is what must be returned then.
+                return (datatype.type if self.parser is self.type_ else self.parser)(ctx.value)
             except (TypeError, ValueError) as exc:
                 raise ConversionError(self, ctx, str(exc))
 
-- 
2.43.0


From 0fa48fc9f08a8121004bbf9c611db19c44c1adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 23/41] fix: format the error trace for mapping keys that are
 neither string nor integer

---
 databind/src/databind/core/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/context.py b/databind/src/databind/core/context.py
index 7248791..fd238f6 100644
--- a/databind/src/databind/core/context.py
+++ b/databind/src/databind/core/context.py
@@ -150,7 +150,7 @@ def format_context_trace(ctx: Context) -> str:
         elif ctx.key is None:
             key = "^"
         else:
-            raise TypeError(f"encountered unexpected type in Context.key: {ctx.key.__class__.__name__!r}")
+            key = f"[{ctx.key!r}]"
 
         line = f"  {key}: {ctx.datatype}"
         if ctx.location.line or ctx.location.column:
-- 
2.43.0


From 06382ef7755941679ae86adb446528ae7c7a1614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 24/41] fix: delegate to the class methods of a type that is
 wrapped in Annotated

---
 databind/src/databind/core/converter.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/converter.py b/databind/src/databind/core/converter.py
index 3696ab9..b98e757 100644
--- a/databind/src/databind/core/converter.py
+++ b/databind/src/databind/core/converter.py
@@ -3,7 +3,7 @@ import logging
 import typing as t
 from textwrap import indent
 
-from typeapi import ClassTypeHint, type_repr
+from typeapi import AnnotatedTypeHint, ClassTypeHint, type_repr
 
 from databind.core.utils import exception_safe_str
 
@@ -166,17 +166,19 @@ class DelegateToClassmethodConverter(Converter):
         self._deserialize = deserialize
 
     def serialize(self, ctx: "Context") -> t.Any:
-        if self._serialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+        if self._serialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
-        if not isinstance(ctx.value, ctx.datatype.type):
-            raise ConversionError.expected(self, ctx, ctx.datatype.type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._serialize)
+        if not isinstance(ctx.value, datatype.type):
+            raise ConversionError.expected(self, ctx, datatype.type)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._serialize)
         return method(ctx.value)
 
     def deserialize(self, ctx: "Context") -> t.Any:
-        if self._deserialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+        if self._deserialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
         if self._serialized_type is not None and not isinstance(ctx.value, self._serialized_type):
             raise ConversionError.expected(self, ctx, self._serialized_type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._deserialize)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._deserialize)
         return method(ctx.value)
-- 
2.43.0


From dcceb697f22126f4bee9dc54e0d7392424d71578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 25/41] fix: report a date format that cannot format the value
 as ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index ab3c9d9..a55facb 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -219,7 +219,10 @@ class DatetimeConverter(Converter):
         else:
             if not isinstance(ctx.value, date_type):
                 raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
-            return datefmt.format(ctx.value)  # type: ignore[type-var]
+            try:
+                return datefmt.format(ctx.value)  # type: ignore[type-var]
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc))
 
 
 class DecimalConverter(Converter):
-- 
2.43.0


From 1f8b7420923fcdebf8403244b1974c66f4bbe418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 26/41] fix: report a value that is not iterable as
 ConversionError, not TypeError

---
 databind/src/databind/json/converters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index a55facb..22c768f 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -145,10 +145,12 @@ class CollectionConverter(Converter):
             def _length_check() -> None:
                 pass
 
-        values: t.Iterable[t.Any] = (
-            ctx.spawn(val, item_type, idx).convert()
-            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator))
-        )
+        def _convert_items() -> t.Iterator[t.Any]:
+            # NOTE: Must not touch the value before it is iterated over, as its type is only checked below.
+            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator)):
+                yield ctx.spawn(val, item_type, idx).convert()
+
+        values: t.Iterable[t.Any] = _convert_items()
 
         if ctx.direction == Direction.SERIALIZE:
             if not isinstance(ctx.value, python_type):
-- 
2.43.0


From 508c9c2cdcf12647971d1ff322ff7c4b352fcada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 27/41] fix: report a value that is not a mapping as
 ConversionError when serializing a typed dict

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 22c768f..bce0030 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -496,7 +496,8 @@ class SchemaConverter(Converter):
             is_instance = isinstance(ctx.value, schema.type)
         except TypeError:
             # The type may not support isinstance() checks (e.g. typing.TypedDict).
-            pass
+            if is_typed_dict(schema.type) and not isinstance(ctx.value, t.Mapping):
+                raise ConversionError.expected(self, ctx, t.Mapping)
         else:
             if not is_instance:
                 raise ConversionError.expected(self, ctx, schema.type)
-- 
2.43.0


From dba64572c3a3347d5faae0aad76f9893e9165e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 28/41] fix: Settings.add_conditional() fails with a NameError

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 7c2eca1..942e9f8 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -70,7 +70,7 @@ class Settings(SettingsProvider):
     def add_conditional(self, predicate: t.Callable[["Context"], bool], setting: "Setting") -> None:
         """Adds a setting conditional on the given *predicate*."""
 
-        def _provider(context: Context) -> t.List[Setting]:
+        def _provider(context: "Context") -> t.List[Setting]:
             if predicate(context):
                 return [setting]
             return []
-- 
2.43.0


From 9c95787b37d1c7377d9ba4e4590d46d4a1eb2712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 29/41] fix: dumping loses values when several fields have the
 same key

---
 databind/src/databind/json/converters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index bce0030..e1cea80 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -538,7 +538,11 @@ class SchemaConverter(Converter):
                         f"field {field_name!r} is flattened but its serialized form is not "
                         f"a mapping (got {type(value).__name__!r})",
                     )
-                assert result.keys().isdisjoint(value.keys()), result.keys() & value.keys()
+                duplicate_keys = result.keys() & value.keys()
+                if duplicate_keys:
+                    raise ConversionError(
+                        self, field_ctx, f"keys of flattened field collide with other fields: {duplicate_keys}"
+                    )
                 result.update(value)
             else:
                 if (
@@ -557,6 +561,8 @@ class SchemaConverter(Converter):
                             )
                         remainder_values = value
                     else:
+                        if alias in result:
+                            raise ConversionError(self, field_ctx, f"key {alias!r} collides with another field")
                         result[alias] = value
 
         if remainder_values is not None:
-- 
2.43.0


From 76072563a34e56f66dc38c71c0fa7254bdb26211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 30/41] fix: extended dataclasses reject values that compare
 equal to everything

---
 databind/src/databind/core/dataclasses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 72ac113..70085c3 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -50,7 +50,7 @@ ANNOTATIONS_METADATA_KEY = "databind.core.annotations"
 
 
 def _field_has_default(field: Field) -> bool:
-    return any(x != MISSING for x in (field.default, field.default_factory))  # type: ignore
+    return any(x is not MISSING for x in (field.default, field.default_factory))  # type: ignore
 
 
 def _process_class(cls, **kwargs):
@@ -87,7 +87,7 @@ def _process_class(cls, **kwargs):
         # Ensure that no field has a "uninitialized" value. Note that the values of InitVar fields are passed in
         # as arguments instead of being set on the instance.
         for f in fields(self):
-            if f.init and getattr(self, f.name) == NotSet.Value:
+            if f.init and getattr(self, f.name) is NotSet.Value:
                 raise TypeError(f"missing required argument {f.name!r}")
         if any(value is NotSet.Value for value in init_vars):
             raise TypeError("missing required argument (InitVar)")
-- 
2.43.0


From 6412d31510e9fc429a4820a78cfb6a99efdbb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 31/41] fix: schema loses dataclass defaults that compare equal
 to everything

---
 databind/src/databind/core/schema.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 02f6564..a9cdca8 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -231,9 +231,9 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
                 #       but we also cannot ignore it because of warn_unused_ignores.
                 _field_default_factory = getattr(field, "default_factory")
 
-                default = NotSet.Value if field.default == MISSING else field.default
-                default_factory = NotSet.Value if _field_default_factory == MISSING else _field_default_factory
-                has_default = default != NotSet.Value or default_factory != NotSet.Value
+                default = NotSet.Value if field.default is MISSING else field.default
+                default_factory = NotSet.Value if _field_default_factory is MISSING else _field_default_factory
+                has_default = default is not NotSet.Value or default_factory is not NotSet.Value
                 required = _is_required(field_hint, not has_default)
 
                 fields[field.name] = Field(
-- 
2.43.0


From 81483a59c478961b8c783bbe25d15061b71bd446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:09 +0000
Subject: [PATCH 32/41] fix: dataclasses.field() modifies the metadata it is
 given

---
 databind/src/databind/core/dataclasses.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 70085c3..2efbf6b 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -130,7 +130,6 @@ def field(*, annotations=None, metadata=None, **kwargs):
     """
 
     if annotations:
-        if metadata is None:
-            metadata = {}
-        metadata[ANNOTATIONS_METADATA_KEY] = annotations
+        # NOTE: Not updated in place, as the mapping may be used for other fields as well.
+        metadata = {**(metadata or {}), ANNOTATIONS_METADATA_KEY: annotations}
     return dataclasses.field(**kwargs, metadata=metadata)
-- 
2.43.0


From 04dd46532cba0225f7160c0679055a4c3a6f99ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 33/41] fix: redeclaring a field in an extended dataclass
 modifies the field of the base class

---
 databind/src/databind/core/dataclasses.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 2efbf6b..dda5796 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -11,6 +11,7 @@ following default arguments.
 """
 
 import dataclasses
+import sys
 import typing as t
 from dataclasses import (
     MISSING,
@@ -56,11 +57,8 @@ def _field_has_default(field: Field) -> bool:
 def _process_class(cls, **kwargs):
     # Collect a list of the fields that have no default values but follow after a default argument.
     no_default_fields: t.List[str] = []
-    existing_fields = getattr(cls, "__dataclass_fields__", {})  # For subclasses of dataclasses
-    annotations = getattr(cls, "__annotations__", {})
-    if "__annotations__" not in cls.__dict__:
-        # Make sure that __annotations__ exists on the class itself.
-        cls.__annotations__ = annotations
+    # NOTE: Only the annotations of the class itself; before Python 3.10, getattr() may return those of a base class.
+    annotations = cls.__annotations__ if sys.version_info >= (3, 10) else cls.__dict__.get("__annotations__", {})
 
     # Make sure each annotated field actually has a #Field. For fields without
     # defaults, we will set #Field.default to #NotSet.Value so we can later
@@ -69,7 +67,7 @@ def _process_class(cls, **kwargs):
         if annotation is t.ClassVar or getattr(annotation, "__origin__", None) is t.ClassVar:
             continue
         if not hasattr(cls, key):
-            f = existing_fields.get(key, field())
+            f = field()
             setattr(cls, key, f)
         else:
             f = getattr(cls, key)
-- 
2.43.0


From 55f829d72738a2cb8e8584d372b3133fa00fd882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:57 +0000
Subject: [PATCH 34/41] fix: extended dataclasses with slots have unusable
 fields

---
 databind/src/databind/core/dataclasses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index dda5796..5a068bb 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -100,7 +100,7 @@ def _process_class(cls, **kwargs):
     # After setting #Field.default for non-default fields, the default will be propagated
     # on the class level, so we delete that again from the class.
     for key in no_default_fields:
-        if key in no_default_fields:
+        if vars(cls).get(key) is NotSet.Value:  # Must not delete the descriptors of a class with slots
             delattr(cls, key)
 
     return cls
-- 
2.43.0


From 5fb5f124b951c94fb4701f7ad4ccd3770039e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 35/41] fix: a namedtuple payload with the wrong number of
 items is a ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e1cea80..87770ad 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -166,7 +166,10 @@ class CollectionConverter(Converter):
             if python_type == list:
                 return values
             elif hasattr(python_type, "_fields"):  # For collections.namedtuple
-                return python_type(*values)
+                try:
+                    return python_type(*values)
+                except TypeError as exc:  # For example if there are too few or too many values
+                    raise ConversionError(self, ctx, str(exc)) from exc
 
             try:
                 return python_type(values)
-- 
2.43.0


From 3d506fce6b97e40e1ec517d23c8090fc9b1e6df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 36/41] fix: a flat union can be loaded from any mapping, as
 the other styles can

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 87770ad..6c0b37f 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -795,7 +795,7 @@ class UnionConverter(Converter):
         return member_name
 
     def _check_style_compatibility(self, ctx: Context, style: str, value: t.Any) -> None:
-        if not isinstance(value, t.MutableMapping) and style in (Union.FLAT,):
+        if not isinstance(value, t.Mapping) and style in (Union.FLAT,):
             raise ConversionError(self, ctx, f"The Union.{style.upper()} style is not supported for plain member types")
 
     def convert(self, ctx: Context) -> t.Any:
-- 
2.43.0


From d8c18f07f05894f4d437277d1c95833d4e5d4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 37/41] fix: dumping a flat union does not modify the mapping
 that the member is dumped to

---
 databind/src/databind/json/converters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 6c0b37f..22a0189 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -884,8 +884,9 @@ class UnionConverter(Converter):
             if style == Union.NESTED:
                 result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
-                assert isinstance(result, t.MutableMapping), type(result)
-                result[discriminator_key] = member_name
+                assert isinstance(result, t.Mapping), type(result)
+                # NOTE: Don't modify the result, it may not be ours (e.g. if it comes from a custom converter).
+                result = {**result, discriminator_key: member_name}
             elif style == Union.KEYED:
                 result = {member_name: result}
             elif style == Union.BEST_MATCH:
-- 
2.43.0


From 218b7553fa14aea85839a32a38bff147695a386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 38/41] fix: annotations of a class that only inherits from a
 dataclass do not declare fields

---
 databind/src/databind/core/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index a9cdca8..f34c64c 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -185,7 +185,8 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
     base_queue = [hint.type]
     while base_queue:
         base_type = base_queue.pop(0)
-        if dataclasses.is_dataclass(base_type):
+        # NOTE: Not is_dataclass(), as the annotations of a class that only inherits from a dataclass are no fields.
+        if "__dataclass_fields__" in vars(base_type):
             annotations = get_annotations(base_type)
             for field in dataclasses.fields(base_type):
                 # A base class may define a field that is not the one inherited by the dataclass.
-- 
2.43.0


From e10f540a0e8dc5872b164533d14cd9465cfda88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 39/41] fix: DateFormat.format raised KeyError for instances of
 subclasses of date, time and datetime

---
 databind/src/databind/core/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 942e9f8..33a5a17 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -631,12 +631,14 @@ class DateFormat(Setting):
 
         from nr.date import date_format, datetime_format, time_format
 
+        # NOTE: The value may be an instance of a subclass of these types, and datetime is itself a subclass of date.
+        type_: t.Type[t.Any] = next(x for x in (datetime.datetime, datetime.date, datetime.time) if isinstance(dt, x))
         format_t: t.Type[DateFormat.Formatter]
         format_t, method_name = {  # type: ignore
             datetime.date: (date_format, "format_date"),
             datetime.time: (time_format, "format_time"),
             datetime.datetime: (datetime_format, "format_datetime"),
-        }[type(dt)]
+        }[type_]
         for fmt in self.__iter_formats(format_t):
             try:
                 return t.cast(str, getattr(fmt, method_name)(dt))
-- 
2.43.0


From 3ab62cc4a68cbad7fbd9bd3aaaaab9ef2b639ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 40/41] fix: a union member whose deferred type was evaluated
 could not be replaced

---
 databind/src/databind/core/union.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 8a78880..a49693e 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -88,7 +88,7 @@ class StaticUnionMembers(UnionMembers):
     members: _MembersDictType = dataclasses.field(default_factory=dict)
 
     def __post_init__(self) -> None:
-        self._eval_cache: t.Dict[str, StaticUnionMembers._TypeType] = {}
+        self._eval_cache: t.Dict[types.FunctionType, StaticUnionMembers._TypeType] = {}
 
     def get_type_id(self, type_: t.Any) -> str:
         for type_id in self.members:
@@ -102,18 +102,16 @@ class StaticUnionMembers(UnionMembers):
         raise ValueError(f"type {type_} is not a member of {self}")
 
     def get_type_by_id(self, type_id: str) -> t.Any:
-        try:
-            return self._eval_cache[type_id]
-        except KeyError:
-            pass
-
         try:
             member = self.members[type_id]
         except KeyError:
             raise ValueError(f"{type_id!r} is not a type ID of {self}")
 
         if isinstance(member, types.FunctionType):
-            member = self._eval_cache[type_id] = member()
+            # NOTE: Not cached by the type ID, as another member may be registered under it later.
+            if member not in self._eval_cache:
+                self._eval_cache[member] = member()
+            return self._eval_cache[member]
 
         return member
 
-- 
2.43.0


From 3698ba71f06ac10851ab3374769c4948db91aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 41/41] fix: the defaults of the fields of a typed NamedTuple
 are ignored when it is deserialized

---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 22a0189..9e3a4e8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -36,6 +36,7 @@ from databind.core import (
     get_annotation_setting,
     get_fields_expanded,
 )
+from databind.core.utils import NotSet
 
 T = t.TypeVar("T")
 
@@ -96,12 +97,15 @@ class CollectionConverter(Converter):
             and issubclass(datatype.type, tuple)
             and getattr(datatype.type, "__annotations__", None)
         ):
+            defaults = getattr(datatype.type, "_field_defaults", {})
             schema = Schema(
                 fields={
                     name: Field(
                         # We need to evaluate the type hint to remove forward references. The source is needed to
                         # understand the context in which forward references must be evaluated.
                         datatype=TypeHint(type_, source=datatype.type).evaluate(),
+                        required=name not in defaults,
+                        default=defaults.get(name, NotSet.Value),
                     )
                     for name, type_ in getattr(datatype.type, "__annotations__").items()
                 },
-- 
2.43.0

