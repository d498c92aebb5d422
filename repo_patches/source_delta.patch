From 2180d030fad71e76d33da59945f9a1a097d40b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 01/59] fix: report a lossy float to int conversion as a
 ConversionError

The lossless check was an assert, so a fractional, infinite or NaN float
escaped as AssertionError (also out of Union[int, float]).
---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e04df80..3b68a6f 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -42,7 +42,8 @@ T = t.TypeVar("T")
 def _int_lossless(v: float) -> int:
     """Convert *v* to an integer only if the conversion is lossless, otherwise raise an error."""
 
-    assert v % 1.0 == 0.0, f"expected int, got {v!r}"
+    if v % 1.0 != 0.0:
+        raise ValueError(f"expected int, got {v!r}")
     return int(v)
 
 
-- 
2.43.0


From 3b1c74d8acf9b88ca72944e05f523e9c921bffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 02/59] fix: non-strict conversion of falsy keywords to bool
 returns False

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 3b68a6f..cb51ad5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -53,7 +53,7 @@ def _bool_from_str(s: str) -> bool:
     if s.lower() in ("yes", "true", "on", "enabled"):
         return True
     if s.lower() in ("no", "false", "off", "disabled"):
-        return True
+        return False
     raise ValueError(f"not a truthy keyword: {s!r}")
 
 
-- 
2.43.0


From ac61606b88249cab5a98324832191223fdaf8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 03/59] fix: report an int too large for a float as a
 ConversionError

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index cb51ad5..c806a22 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -435,7 +435,7 @@ class PlainDatatypeConverter(Converter):
 
         try:
             return adapter(ctx.value)
-        except ValueError as exc:
+        except (OverflowError, ValueError) as exc:
             raise ConversionError(self, ctx, str(exc)) from exc
 
 
-- 
2.43.0


From 7c05f5093c2fd270d1e2d57ce5c8ed2c1c040311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 04/59] fix: report a malformed decimal string as a
 ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c806a22..181b5b6 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -238,7 +238,10 @@ class DecimalConverter(Converter):
 
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
-                return decimal.Decimal(ctx.value, context)
+                try:
+                    return decimal.Decimal(ctx.value, context)
+                except decimal.DecimalException as exc:
+                    raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}") from exc
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-- 
2.43.0


From f726d5d15a8f32c251e1e75f6b2394a57f41c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 05/59] fix: apply the Precision setting when loading decimals

Decimal(value, context) ignores the precision and rounding of the context,
so the setting had no effect. Use Context.create_decimal() instead.
---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 181b5b6..44d6fc9 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -239,7 +239,7 @@ class DecimalConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                 try:
-                    return decimal.Decimal(ctx.value, context)
+                    return context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
                 except decimal.DecimalException as exc:
                     raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}") from exc
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
-- 
2.43.0


From e631d6b8aae035a31f7daa90408ce637c0a788e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 06/59] fix: only encode bytes when dumping and only decode
 strings when loading

Dumping a str as bytes decoded it (so Union[bytes, str] dumped a str to a
bytes object), and loading bytes as bytes returned the encoded str.
---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 44d6fc9..f4b2c78 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -433,6 +433,10 @@ class PlainDatatypeConverter(Converter):
         adapters = self._strict_adapters if strict.enabled else self._nonstrict_adapters
         adapter = adapters.get((source_type, target_type))
 
+        # The two adapters for #bytes each only make sense in one direction.
+        if target_type is bytes and source_type is not (bytes if ctx.direction == Direction.SERIALIZE else str):
+            adapter = None
+
         if adapter is None:
             raise ConversionError.expected(self, ctx, target_type, source_type)
 
-- 
2.43.0


From de2dbff15096f6f40c294d0615ca12b96b81c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 07/59] fix: report unknown union members as a ConversionError

An unknown type ID in the payload, or a value whose type is not a member,
escaped as the ValueError of UnionMembers, and a non-string key in the
keyed style as an AssertionError.
---
 databind/src/databind/json/converters.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index f4b2c78..d0ccd1d 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -757,7 +757,8 @@ class UnionConverter(Converter):
                     self, ctx, f"expected exactly one key to act as the discriminator, got {len(value)} key(s)"
                 )
             member_name = next(iter(value))
-            assert isinstance(member_name, str)
+            if not isinstance(member_name, str):
+                raise ConversionError.expected(self, ctx.spawn(member_name, str, None), str)
         else:
             raise ConversionError(self, ctx, f"unsupported Union.style: {style!r}")
 
@@ -811,12 +812,18 @@ class UnionConverter(Converter):
             if not isinstance(ctx.value, t.Mapping):
                 raise ConversionError.expected(self, ctx, t.Mapping)
             member_name = self._get_deserialize_member_name(ctx, ctx.value, style, discriminator_key)
-            member_type = union.members.get_type_by_id(member_name)
 
         else:
             # Identify the member type based on the Python value type.
-            member_name = union.members.get_type_id(type(ctx.value))
+            try:
+                member_name = union.members.get_type_id(type(ctx.value))
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
+
+        try:
             member_type = union.members.get_type_by_id(member_name)
+        except ValueError as exc:
+            raise ConversionError(self, ctx, str(exc)) from exc
 
         nesting_key = union.nesting_key or member_name
         type_hint = TypeHint(member_type) if not isinstance(member_type, TypeHint) else member_type
-- 
2.43.0


From 76248d148a849c001ec3cde7e123da5b18bad7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 08/59] fix: respect Union.nesting_key when dumping a nested
 union

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d0ccd1d..a6eff7b 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -856,7 +856,7 @@ class UnionConverter(Converter):
             self._check_style_compatibility(ctx, style, result)
             # Bring the serialized value into shape.
             if style == Union.NESTED:
-                result = {discriminator_key: member_name, member_name: result}
+                result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
                 result[discriminator_key] = member_name
-- 
2.43.0


From d0a0a97c8323aef051bfbe286d2d52bafa6866f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 09/59] fix: convert Union and Literal types that carry
 unrelated annotations

Annotated[Union[int, str], ...] without a Union setting and
Annotated[Literal[...], ...] had no matching converter.
---
 databind/src/databind/json/converters.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index a6eff7b..0159993 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -772,6 +772,9 @@ class UnionConverter(Converter):
     def convert(self, ctx: Context) -> t.Any:
         datatype = ctx.datatype
         union: t.Optional[Union]
+        unwrapped = _unwrap_annotated(datatype)
+        if isinstance(unwrapped, UnionTypeHint) and ctx.get_setting(Union) is None:
+            datatype = unwrapped
         if isinstance(datatype, UnionTypeHint):
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
@@ -877,14 +880,15 @@ class LiteralConverter(Converter):
     or #None."""
 
     def convert(self, ctx: Context) -> t.Any:
-        if not isinstance(ctx.datatype, LiteralTypeHint):
+        datatype = _unwrap_annotated(ctx.datatype)
+        if not isinstance(datatype, LiteralTypeHint):
             raise NotImplementedError
 
-        if ctx.value not in ctx.datatype.values:
+        if ctx.value not in datatype.values:
             raise ConversionError(
                 self,
                 ctx,
-                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, ctx.datatype.values))}",
+                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, datatype.values))}",
             )
 
         return ctx.value
-- 
2.43.0


From 8384cf41fc265186487ade4fdda72cff1379bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 10/59] fix: do not accept a value of another type that equals
 a literal

True and 1.0 were accepted for (and returned from) Literal[1].
---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 0159993..1f10f39 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -884,7 +884,8 @@ class LiteralConverter(Converter):
         if not isinstance(datatype, LiteralTypeHint):
             raise NotImplementedError
 
-        if ctx.value not in datatype.values:
+        # Compare the type as well, because `True == 1 == 1.0`.
+        if not any(type(ctx.value) is type(v) and ctx.value == v for v in datatype.values):
             raise ConversionError(
                 self,
                 ctx,
-- 
2.43.0


From cbe2ffec2c3c703def15a82040b9bbbe31ffa5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 11/59] fix: delegate to class methods for annotated types as
 well

DelegateToClassmethodConverter skipped any Annotated type hint, although
JsonConverter is documented to be usable in (and next to) annotations.
---
 databind/src/databind/core/converter.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/converter.py b/databind/src/databind/core/converter.py
index 3696ab9..23875d5 100644
--- a/databind/src/databind/core/converter.py
+++ b/databind/src/databind/core/converter.py
@@ -3,7 +3,7 @@ import logging
 import typing as t
 from textwrap import indent
 
-from typeapi import ClassTypeHint, type_repr
+from typeapi import AnnotatedTypeHint, ClassTypeHint, TypeHint, type_repr
 
 from databind.core.utils import exception_safe_str
 
@@ -165,18 +165,24 @@ class DelegateToClassmethodConverter(Converter):
         self._serialize = serialize
         self._deserialize = deserialize
 
+    @staticmethod
+    def _get_datatype(ctx: "Context") -> TypeHint:
+        return ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+
     def serialize(self, ctx: "Context") -> t.Any:
-        if self._serialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = self._get_datatype(ctx)
+        if self._serialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
-        if not isinstance(ctx.value, ctx.datatype.type):
-            raise ConversionError.expected(self, ctx, ctx.datatype.type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._serialize)
+        if not isinstance(ctx.value, datatype.type):
+            raise ConversionError.expected(self, ctx, datatype.type)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._serialize)
         return method(ctx.value)
 
     def deserialize(self, ctx: "Context") -> t.Any:
-        if self._deserialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = self._get_datatype(ctx)
+        if self._deserialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
         if self._serialized_type is not None and not isinstance(ctx.value, self._serialized_type):
             raise ConversionError.expected(self, ctx, self._serialized_type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._deserialize)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._deserialize)
         return method(ctx.value)
-- 
2.43.0


From 012c177a7a489ed275739f862dcaa8f6dfd04885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 12/59] fix: leave typed dicts to the SchemaConverter

The MappingConverter failed with an AssertionError on any TypedDict.
---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 1f10f39..aee905d 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -12,6 +12,7 @@ from typeapi import (
     TypeHint,
     UnionTypeHint,
     get_annotations,
+    is_typed_dict,
     type_repr,
 )
 
@@ -331,6 +332,9 @@ class MappingConverter(Converter):
         # Find the key and value types of the mapping.
         if not isinstance(datatype, ClassTypeHint) or not issubclass(datatype.type, t.Mapping):
             raise NotImplementedError
+        if is_typed_dict(datatype.type):
+            # Typed dicts have a schema, they are handled by the SchemaConverter.
+            raise NotImplementedError
         candidates = set()
         for current in datatype.recurse_bases():
             if issubclass(current.type, t.Mapping) and len(current.args) == 2:
-- 
2.43.0


From 646c95124b3fdabc54083067f7db9047a6db8676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 13/59] fix: use the totality of the TypedDict that declares a
 key

A key inherited from a TypedDict of the other totality was treated with
the totality of the inheriting TypedDict.
---
 databind/src/databind/core/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index dafd295..bf98d36 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -307,7 +307,7 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-            required=required and typed_dict.__total__,
+            required=required and key in typed_dict.__required_keys__,
             default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,
             flattened=_is_flat(field_hint, False),
         )
-- 
2.43.0


From ece7c8a01a67351a258c8e1d5cdc4c3a64ccc486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 14/59] fix: dump typed dicts that lack keys which are not
 required

It raised a KeyError. A missing required key and a value that is not a
mapping are now reported as a ConversionError.
---
 databind/src/databind/json/converters.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index aee905d..d0e70ee 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -490,7 +490,8 @@ class SchemaConverter(Converter):
             is_instance = isinstance(ctx.value, schema.type)
         except TypeError:
             # The type may not support isinstance() checks (e.g. typing.TypedDict).
-            pass
+            if is_typed_dict(schema.type) and not isinstance(ctx.value, t.Mapping):
+                raise ConversionError.expected(self, ctx, t.Mapping)
         else:
             if not is_instance:
                 raise ConversionError.expected(self, ctx, schema.type)
@@ -500,7 +501,10 @@ class SchemaConverter(Converter):
 
         def _get_field_value(field_name: str, field: Field) -> t.Any:
             if isinstance(ctx.value, t.Mapping):
-                return ctx.value[field_name]  # TODO (@NiklasRosenstein): Respect non-required fields
+                try:
+                    return ctx.value[field_name]
+                except KeyError:
+                    raise ConversionError(self, ctx, f"missing required field: {field_name!r}")
             else:
                 return getattr(ctx.value, field_name)
 
@@ -508,6 +512,9 @@ class SchemaConverter(Converter):
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
 
         for field_name, field in schema.fields.items():
+            if not field.required and isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
+                # A key that is not required in a typed dict.
+                continue
             field_ctx = ctx.spawn(_get_field_value(field_name, field), field.datatype, field_name)
             remainder = field_ctx.get_setting(Remainder)
             if remainder and remainder.enabled:
-- 
2.43.0


From fd077c9eef5cf72e72d09a1ad609466155e46aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 15/59] fix: omit a Remainder field that has its default value

With SerializeDefaults(False) this raised an AssertionError.
---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d0e70ee..b49c6dc 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -550,8 +550,8 @@ class SchemaConverter(Converter):
                     else:
                         result[alias] = value
 
-        if remainder_field:
-            assert remainder_values is not None
+        # Note that there are no values if the field is omitted because it has its default value.
+        if remainder_field and remainder_values is not None:
             duplicate_keys = result.keys() & remainder_values.keys()
             if duplicate_keys:
                 raise ConversionError(
-- 
2.43.0


From 2129bebda42269b532c06dddc966516a93287ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 16/59] fix: report colliding keys of a flattened field as a
 ConversionError

The collision was an assert, or, if the other field comes after the
flattened one, silently overwrote the value of the flattened field.
---
 databind/src/databind/json/converters.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index b49c6dc..e54da28 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -510,6 +510,7 @@ class SchemaConverter(Converter):
 
         remainder_field: t.Optional[t.Tuple[str, Field]] = None
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
+        flattened_keys: t.Set[str] = set()
 
         for field_name, field in schema.fields.items():
             if not field.required and isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
@@ -534,8 +535,13 @@ class SchemaConverter(Converter):
                         f"field {field_name!r} is flattened but its serialized form is not "
                         f"a mapping (got {type(value).__name__!r})",
                     )
-                assert result.keys().isdisjoint(value.keys()), result.keys() & value.keys()
+                duplicate_keys = result.keys() & value.keys()
+                if duplicate_keys:
+                    raise ConversionError(
+                        self, ctx, f"keys in flattened field collide with other fields in the schema: {duplicate_keys}"
+                    )
                 result.update(value)
+                flattened_keys.update(value.keys())
             else:
                 if serialize_defaults or not field.has_default() or field_ctx.value != field.get_default():
                     alias = self._get_alias_setting(field_ctx, field_name).aliases[0]
@@ -547,6 +553,10 @@ class SchemaConverter(Converter):
                                 f"cannot expand remainder field {field_name!r} of type {type(value).__name__}",
                             )
                         remainder_values = value
+                    elif alias in flattened_keys:
+                        raise ConversionError(
+                            self, ctx, f"keys in flattened field collide with other fields in the schema: {{{alias!r}}}"
+                        )
                     else:
                         result[alias] = value
 
-- 
2.43.0


From 25ec2f79ce9256bd0b548220c082f04d326463b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 17/59] fix: keep class settings out of the base class' list

Decorating a subclass of a decorated class appended the setting to the
list inherited from the base: it applied to the base, not to the subclass.
---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 5777529..09bbe46 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -176,7 +176,7 @@ class ClassDecoratorSetting(Setting):
             raise RuntimeError("cannot decorate multiple types with the same setting instance")
 
         self.bound_to = type_
-        settings = getattr(type_, "__databind_settings__", None)
+        settings = vars(type_).get("__databind_settings__")
         if settings is None:
             settings = []
             setattr(type_, "__databind_settings__", settings)
-- 
2.43.0


From b2174a53ae98a26d86c67e2c7936995f4f7b26f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 18/59] fix: report a date/time value that cannot be formatted
 as a ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e54da28..9162fb8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -219,7 +219,10 @@ class DatetimeConverter(Converter):
         else:
             if not isinstance(ctx.value, date_type):
                 raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
-            return datefmt.format(ctx.value)  # type: ignore[type-var]
+            try:
+                return datefmt.format(ctx.value)  # type: ignore[type-var]
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
 
 
 class DecimalConverter(Converter):
-- 
2.43.0


From b8e0edf476f906c41afe41beafac8cf85e7f4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 19/59] fix: do not treat a datetime as a date

Dumping a datetime as a date produced a datetime string, which cannot be
loaded as a date again, and loading passed the datetime through.
---
 databind/src/databind/json/converters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 9162fb8..86ef641 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -204,8 +204,13 @@ class DatetimeConverter(Converter):
         )
         assert datefmt is not None
 
+        # A datetime is a date as far as isinstance() is concerned, but it is not the same kind of value.
+        is_instance = isinstance(ctx.value, date_type) and (
+            date_type is not datetime.date or not isinstance(ctx.value, datetime.datetime)
+        )
+
         if ctx.direction == Direction.DESERIALIZE:
-            if isinstance(ctx.value, date_type):
+            if is_instance:
                 return ctx.value
             elif isinstance(ctx.value, str):
                 try:
@@ -217,7 +222,7 @@ class DatetimeConverter(Converter):
             raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
 
         else:
-            if not isinstance(ctx.value, date_type):
+            if not is_instance:
                 raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
             try:
                 return datefmt.format(ctx.value)  # type: ignore[type-var]
-- 
2.43.0


From 4fa7184d054c88037b85114cacb75d9fae804dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 20/59] fix: format instances of subclasses of date, time and
 datetime

DateFormat.format() raised a KeyError for them.
---
 databind/src/databind/core/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 09bbe46..d29cd7f 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -631,11 +631,13 @@ class DateFormat(Setting):
         from nr.date import date_format, datetime_format, time_format
 
         format_t: t.Type[DateFormat.Formatter]
+        # Subclasses are formatted like their base; note that datetime.datetime is a subclass of datetime.date.
+        base = next(t_ for t_ in (datetime.datetime, datetime.date, datetime.time) if isinstance(dt, t_))
         format_t, method_name = {  # type: ignore
             datetime.date: (date_format, "format_date"),
             datetime.time: (time_format, "format_time"),
             datetime.datetime: (datetime_format, "format_datetime"),
-        }[type(dt)]
+        }[base]
         for fmt in self.__iter_formats(format_t):
             try:
                 return t.cast(str, getattr(fmt, method_name)(dt))
-- 
2.43.0


From 6ff1c2ac25af6362e162511d8bbf4dedfb26f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 21/59] fix: skip date/time format strings that do not apply to
 the type

A format string for another kind of value raised a ValueError right away,
so the formats after it were never tried.
---
 databind/src/databind/core/settings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index d29cd7f..0f36aa0 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -581,7 +581,11 @@ class DateFormat(Setting):
                 if fmt.startswith("."):
                     yield self.__get_builtin_format(fmt)
                 else:
-                    yield type_.compile(fmt)  # type: ignore
+                    try:
+                        compiled = type_.compile(fmt)  # type: ignore
+                    except ValueError:
+                        continue  # The format string is for another kind of date/time value.
+                    yield compiled
             elif type(fmt) is type_:
                 yield fmt
             elif isinstance(fmt, format_set):
-- 
2.43.0


From aa79f2a9f7e633ca5e9409a8e1c0d314fdb43b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 22/59] fix: use the field defaults of a NamedTuple when
 loading

A key missing from the payload was an error even if its field has a default.
---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 86ef641..5ce1b4e 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -36,6 +36,7 @@ from databind.core import (
     get_annotation_setting,
     get_fields_expanded,
 )
+from databind.core.utils import NotSet
 
 T = t.TypeVar("T")
 
@@ -96,12 +97,15 @@ class CollectionConverter(Converter):
             and issubclass(datatype.type, tuple)
             and getattr(datatype.type, "__annotations__", None)
         ):
+            defaults = getattr(datatype.type, "_field_defaults", {})
             schema = Schema(
                 fields={
                     name: Field(
                         # We need to evaluate the type hint to remove forward references. The source is needed to
                         # understand the context in which forward references must be evaluated.
                         datatype=TypeHint(type_, source=datatype.type).evaluate(),
+                        required=name not in defaults,
+                        default=defaults.get(name, NotSet.Value),
                     )
                     for name, type_ in getattr(datatype.type, "__annotations__").items()
                 },
-- 
2.43.0


From 6078d4ad77cb85d87181d0c8fc2fd6ee03234149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 23/59] fix: format the trace of a context with any kind of
 mapping key

It raised a TypeError for keys other than str and int, which replaced the
message of the ConversionError.
---
 databind/src/databind/core/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/context.py b/databind/src/databind/core/context.py
index 7248791..7928887 100644
--- a/databind/src/databind/core/context.py
+++ b/databind/src/databind/core/context.py
@@ -150,7 +150,8 @@ def format_context_trace(ctx: Context) -> str:
         elif ctx.key is None:
             key = "^"
         else:
-            raise TypeError(f"encountered unexpected type in Context.key: {ctx.key.__class__.__name__!r}")
+            # For example the key of a mapping, which can be of any hashable type.
+            key = f"[{ctx.key!r}]"
 
         line = f"  {key}: {ctx.datatype}"
         if ctx.location.line or ctx.location.column:
-- 
2.43.0


From 7c5ecc701b055cbc174c59d39d83f31f7f1fda14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 24/59] fix: raise ValueError for type IDs that cannot be
 imported

ImportUnionMembers.get_type_by_id() is documented to raise ValueError if the
type ID is not a member, but raised ModuleNotFoundError or AttributeError,
which also kept ChainUnionMembers from trying the next delegate.
---
 databind/src/databind/core/union.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 95bb90d..3bc882e 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -181,7 +181,14 @@ class ImportUnionMembers(UnionMembers):
         parts = type_id.split(".")
         offset = 1
         module_name = parts[0]
-        module = importlib.import_module(module_name)
+        try:
+            module = importlib.import_module(module_name)
+        except ImportError as exc:
+            if exc.name == module_name:
+                raise ValueError(f"{type_id!r} does not point to a type (no module named {module_name!r})") from exc
+            raise
+        except ValueError as exc:
+            raise ValueError(f"{type_id!r} does not point to a type") from exc
 
         # Import as many modules as we can.
         for offset, part in enumerate(parts[offset:], offset):
@@ -197,7 +204,10 @@ class ImportUnionMembers(UnionMembers):
         # Read the class.
         target = module
         for offset, part in enumerate(parts[offset:], offset):
-            target = getattr(target, part)
+            try:
+                target = getattr(target, part)
+            except AttributeError as exc:
+                raise ValueError(f"{type_id!r} does not point to a type") from exc
 
         if not isinstance(target, type):  # type: ignore[unreachable]
             raise ValueError(f"{type_id!r} does not point to a type (got {type(target).__name__} instead)")
-- 
2.43.0


From 17c9febc4cfba13eccbcd5af633a98e651491bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 25/59] fix: apply the annotations of an Optional type to its
 value

Settings in Annotated[Optional[T], ...], such as DateFormat, Strict or Union,
were dropped when the OptionalConverter moved on to T.
---
 databind/src/databind/json/converters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 5ce1b4e..f4b6533 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -4,6 +4,7 @@ import decimal
 import enum
 import typing as t
 
+import typing_extensions as te
 from typeapi import (
     AnnotatedTypeHint,
     ClassTypeHint,
@@ -389,7 +390,11 @@ class OptionalConverter(Converter):
             raise NotImplementedError
         if ctx.value is None:
             return None
-        return ctx.spawn(ctx.value, datatype.without_none_type(), None).convert()
+        inner = datatype.without_none_type()
+        if isinstance(ctx.datatype, AnnotatedTypeHint):
+            # The annotations apply to the value if it is not None.
+            inner = TypeHint(te.Annotated[(inner.hint,) + tuple(ctx.datatype.metadata)])  # type: ignore[misc]
+        return ctx.spawn(ctx.value, inner, None).convert()
 
 
 class PlainDatatypeConverter(Converter):
-- 
2.43.0


From 01b14970545704f735efa55044d83f1341356a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 26/59] fix: take the field of a dataclass from the base the
 dataclass takes it from

The bases were searched breadth first, which is not the order in which
@dataclass collects inherited fields; with multiple inheritance the type and
default of the schema could differ from those of the constructor.
---
 databind/src/databind/core/schema.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index bf98d36..be5d893 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -181,15 +181,14 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
     # forward references in field annotations; we can't just use the target
     # dataclass if it was defined in a different module.
     field_origin: t.Dict[str, type] = {}
-    base_queue = [hint.type]
-    while base_queue:
-        base_type = base_queue.pop(0)
+    own_fields = {field.name: field for field in dataclasses.fields(dataclass_type)}
+    for base_type in dataclass_type.__mro__:
         if dataclasses.is_dataclass(base_type):
             annotations = get_annotations(base_type)
             for field in dataclasses.fields(base_type):
-                if field.name in annotations and field.name not in field_origin:
+                # Dataclasses inherit the Field object, but not necessarily from the closest class in the MRO.
+                if field.name in annotations and field.name not in field_origin and field is own_fields[field.name]:
                     field_origin[field.name] = base_type
-        base_queue += base_type.__bases__
 
     # Retrieve the context in which type hints from each field origin type need to be
     # evaluated.
-- 
2.43.0


From 07b0219a46030269c7a0e4d78c2f95c2a4139555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 27/59] fix: do not return a deferred union member that has
 been replaced

StaticUnionMembers kept returning the evaluated type after the type ID was
registered anew or removed from the members.
---
 databind/src/databind/core/union.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 3bc882e..8f6fb73 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -88,7 +88,8 @@ class StaticUnionMembers(UnionMembers):
     members: _MembersDictType = dataclasses.field(default_factory=dict)
 
     def __post_init__(self) -> None:
-        self._eval_cache: t.Dict[str, StaticUnionMembers._TypeType] = {}
+        #: Maps type IDs to the provider function and the type it returned.
+        self._eval_cache: t.Dict[str, t.Tuple[t.Any, StaticUnionMembers._TypeType]] = {}
 
     def get_type_id(self, type_: t.Any) -> str:
         for type_id in self.members:
@@ -102,18 +103,18 @@ class StaticUnionMembers(UnionMembers):
         raise ValueError(f"type {type_} is not a member of {self}")
 
     def get_type_by_id(self, type_id: str) -> t.Any:
-        try:
-            return self._eval_cache[type_id]
-        except KeyError:
-            pass
-
         try:
             member = self.members[type_id]
         except KeyError:
             raise ValueError(f"{type_id!r} is not a type ID of {self}")
 
         if isinstance(member, types.FunctionType):
-            member = self._eval_cache[type_id] = member()
+            # The member may have been replaced or removed since it was evaluated.
+            provider, type_ = self._eval_cache.get(type_id, (None, None))
+            if provider is not member:
+                type_ = member()
+                self._eval_cache[type_id] = (member, type_)
+            return type_
 
         return member
 
-- 
2.43.0


From 89abaaedb18a8d87a2338c72bf97ffa661d92cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 28/59] fix: support @dataclass(slots=True) in
 databind.core.dataclasses

The slots of fields without a default were deleted from the class.
---
 databind/src/databind/core/dataclasses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index ef61477..ed382d2 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -97,7 +97,8 @@ def _process_class(cls, **kwargs):
     # After setting #Field.default for non-default fields, the default will be propagated
     # on the class level, so we delete that again from the class.
     for key in no_default_fields:
-        if key in no_default_fields:
+        # With slots, the attribute on the class is the descriptor for the slot.
+        if vars(cls).get(key) is NotSet.Value:
             delattr(cls, key)
 
     return cls
-- 
2.43.0


From 2d5e33501b4009407e906db4a1767ca907bf3bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 29/59] fix: support InitVar, ClassVar and init=False in
 databind.core.dataclasses

An InitVar was not passed on to __post_init__, and a ClassVar without a value
or a field with init=False and no default was taken for a missing argument.
---
 databind/src/databind/core/dataclasses.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index ed382d2..76314e9 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -73,7 +73,7 @@ def _process_class(cls, **kwargs):
             f = getattr(cls, key)
             if not isinstance(f, Field):
                 continue
-        if not _field_has_default(f):
+        if not _field_has_default(f) and f.init:
             # This prevents a SyntaxError if non-default arguments follow default arguments.
             f.default = NotSet.Value
             no_default_fields.append(key)
@@ -81,13 +81,15 @@ def _process_class(cls, **kwargs):
     # Override the `__post_init__` method that is called by the dataclass `__init__`.
     orig_postinit = getattr(cls, "__post_init__", None)
 
-    def __post_init__(self):
+    def __post_init__(self, *init_vars):
         # Ensure that no field has a "uninitialized" value.
-        for key in self.__dataclass_fields__.keys():
-            if getattr(self, key) == NotSet.Value:
-                raise TypeError(f"missing required argument {key!r}")
+        for field_ in fields(self):
+            if field_.init and getattr(self, field_.name) is NotSet.Value:
+                raise TypeError(f"missing required argument {field_.name!r}")
+        if any(value is NotSet.Value for value in init_vars):
+            raise TypeError("missing required argument for an InitVar")
         if orig_postinit:
-            orig_postinit(self)
+            orig_postinit(self, *init_vars)
 
     cls.__post_init__ = __post_init__
 
-- 
2.43.0


From f5332cb378ed70cb0a384499823cd9bd8a771420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 30/59] fix: load a Remainder field of a flattened field

The extra keys were passed to the constructor of the flattening class, which
raised a TypeError, and the flattened field did not receive them.
---
 databind/src/databind/json/converters.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index f4b6533..4689953 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -631,10 +631,18 @@ class SchemaConverter(Converter):
 
         result = {}
         expanded = get_fields_expanded(schema)
+        # If the remainder field is a field of a flattened field, the name of the latter and the values of its fields.
+        flattened_remainder: t.Optional[t.Tuple[str, t.Dict[str, t.Any]]] = None
         for field_name, field in schema.fields.items():
             if field.flattened:
                 assert field_name in expanded, field_name
-                value = ctx.spawn(_extract_fields(expanded[field_name]), field.datatype, field_name).convert()
+                previous_remainder_field = remainder_field
+                container = _extract_fields(expanded[field_name])
+                if remainder_field is not previous_remainder_field:
+                    # Converted below, once it is known which keys are left.
+                    flattened_remainder = (field_name, container)
+                    continue
+                value = ctx.spawn(container, field.datatype, field_name).convert()
             else:
                 container = _extract_field({}, field_name, field, False)
                 if not container:
@@ -648,7 +656,11 @@ class SchemaConverter(Converter):
         # TODO(@NiklasRosenstein): Support deserializing as a type different than what is defined in the schema.
 
         unused_keys = source.keys() - used_keys
-        if remainder_field:
+        if flattened_remainder:
+            field_name, container = flattened_remainder
+            container.update({k: source[k] for k in unused_keys})
+            result[field_name] = ctx.spawn(container, schema.fields[field_name].datatype, field_name).convert()
+        elif remainder_field:
             remainders = {k: ctx.value[k] for k in unused_keys}
             result[remainder_field[0]] = ctx.spawn(
                 remainders, remainder_field[1].datatype, remainder_field[0]
-- 
2.43.0


From a993dc261ee127ade130b819a70d913e289d7bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 31/59] fix: report a value that is not iterable as a
 ConversionError

The items of the value were accessed before its type was checked, so anything
but an iterable raised a TypeError (also out of Union[List[int], int]).
---
 databind/src/databind/json/converters.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 4689953..f3e587a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -150,22 +150,21 @@ class CollectionConverter(Converter):
             def _length_check() -> None:
                 pass
 
-        values: t.Iterable[t.Any] = (
-            ctx.spawn(val, item_type, idx).convert()
-            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator))
-        )
+        def _convert_items() -> t.Iterable[t.Any]:
+            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator)):
+                yield ctx.spawn(val, item_type, idx).convert()
 
         if ctx.direction == Direction.SERIALIZE:
             if not isinstance(ctx.value, python_type):
                 raise ConversionError.expected(self, ctx, python_type)
             _length_check()
-            return self.json_collection_type(values)  # type: ignore[call-arg]
+            return self.json_collection_type(_convert_items())  # type: ignore[call-arg]
 
         else:
             if not isinstance(ctx.value, t.Collection) or isinstance(ctx.value, self._FORBIDDEN_COLLECTIONS):
                 raise ConversionError.expected(self, ctx, t.Collection)
             _length_check()
-            values = list(values)
+            values = list(_convert_items())
             if python_type == list:
                 return values
             elif hasattr(python_type, "_fields"):  # For collections.namedtuple
-- 
2.43.0


From a7885b10c395cc3473f93872ce54551969da81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 32/59] fix: do not share and modify the fields of a base class
 when a dataclass declares them again

---
 databind/src/databind/core/dataclasses.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 76314e9..9f35dc8 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -10,7 +10,9 @@ Note: `make_dataclass` is not currently overridden, so it will not support non-d
 following default arguments.
 """
 
+import copy
 import dataclasses
+import types
 import typing as t
 from dataclasses import (
     MISSING,
@@ -58,7 +60,8 @@ def _process_class(cls, **kwargs):
     no_default_fields: t.List[str] = []
     existing_fields = getattr(cls, "__dataclass_fields__", {})  # For subclasses of dataclasses
     annotations = getattr(cls, "__annotations__", {})
-    if "__annotations__" not in cls.__dict__:
+    has_own_annotations = "__annotations__" in cls.__dict__
+    if not has_own_annotations:
         # Make sure that __annotations__ exists on the class itself.
         cls.__annotations__ = annotations
 
@@ -66,8 +69,11 @@ def _process_class(cls, **kwargs):
     # defaults, we will set #Field.default to #NotSet.Value so we can later
     # check if the field was set in __post_init__().
     for key in annotations.keys():
-        if not hasattr(cls, key):
-            f = existing_fields.get(key, field())
+        # With slots, the attribute inherited from a base class is the descriptor for the slot.
+        if isinstance(getattr(cls, key, MISSING), (type(MISSING), types.MemberDescriptorType)):
+            # Fields of a base class must not be shared, as they are updated for the class that is decorated. A field
+            # that is declared again does not take anything over from the field of the base class.
+            f = field() if has_own_annotations or key not in existing_fields else copy.copy(existing_fields[key])
             setattr(cls, key, f)
         else:
             f = getattr(cls, key)
-- 
2.43.0


From 1b4ffe2eb2c83860820583f3bed6c758bc599cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 33/59] fix: do not skip a dataclass without parameterized
 bases when collecting the fields of its subclasses

---
 databind/src/databind/core/schema.py | 4 ++--
 databind/src/databind/core/utils.py  | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index be5d893..3133c72 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -13,7 +13,7 @@ from typeapi import (
     type_repr,
 )
 
-from databind.core.utils import NotSet
+from databind.core.utils import NotSet, get_own_bases
 
 if sys.version_info[:2] <= (3, 8):
     GenericAlias = t.Any
@@ -244,7 +244,7 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
             pass
 
         # Continue with the base classes.
-        for base in hint.bases or hint.type.__bases__:
+        for base in get_own_bases(hint.type):
             base_hint = TypeHint(base, source=hint.type).evaluate().parameterize(parameter_map)
             assert isinstance(base_hint, ClassTypeHint), f"nani? {base_hint}"
             if dataclasses.is_dataclass(base_hint.type):
diff --git a/databind/src/databind/core/utils.py b/databind/src/databind/core/utils.py
index 9f5b53f..c2b89fd 100644
--- a/databind/src/databind/core/utils.py
+++ b/databind/src/databind/core/utils.py
@@ -31,6 +31,15 @@ def exception_safe_str(func: Callable[[T], str]) -> Callable[[T], str]:
     return wrapper
 
 
+def get_own_bases(type_: type) -> Tuple[Any, ...]:
+    """Returns the base classes of *type_* as they were written in its definition, i.e. with type parameters.
+
+    This differs from #typeapi.ClassTypeHint.bases for a type that has no parameterized bases itself, but inherits from
+    a type that does: it returns the bases of that type then."""
+
+    return vars(type_).get("__orig_bases__") or type_.__bases__
+
+
 _T = TypeVar("_T")
 _Message = Union[str, Callable[[], str]]
 _Types = Union[type, Tuple[type, ...]]
-- 
2.43.0


From db95cab302d961318a0e782d9073fd3c45d8dc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 34/59] fix: find the item types of collections that inherit
 from several classes without parameters

---
 databind/src/databind/core/utils.py      | 18 +++++++++++++++++-
 databind/src/databind/json/converters.py |  6 +++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/core/utils.py b/databind/src/databind/core/utils.py
index c2b89fd..8582169 100644
--- a/databind/src/databind/core/utils.py
+++ b/databind/src/databind/core/utils.py
@@ -1,5 +1,7 @@
 import enum
-from typing import Any, Callable, Tuple, Type, TypeVar, Union, overload
+from typing import Any, Callable, Iterator, Tuple, Type, TypeVar, Union, overload
+
+from typeapi import ClassTypeHint, TypeHint
 
 T = TypeVar("T")
 U = TypeVar("U")
@@ -40,6 +42,20 @@ def get_own_bases(type_: type) -> Tuple[Any, ...]:
     return vars(type_).get("__orig_bases__") or type_.__bases__
 
 
+def recurse_bases(hint: ClassTypeHint) -> Iterator[ClassTypeHint]:
+    """Iterates over *hint* and, recursively, its bases, with type parameters replaced by their values (breadth-first,
+    like #typeapi.ClassTypeHint.recurse_bases(), but over the bases returned by #get_own_bases())."""
+
+    queue = [hint]
+    while queue:
+        current = queue.pop(0)
+        yield current
+        for base in get_own_bases(current.type):
+            base_hint = TypeHint(base, current.type).evaluate().parameterize(current.get_parameter_map())
+            assert isinstance(base_hint, ClassTypeHint), base_hint
+            queue.append(base_hint)
+
+
 _T = TypeVar("_T")
 _Message = Union[str, Callable[[], str]]
 _Types = Union[type, Tuple[type, ...]]
diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index f3e587a..35c5f6c 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -37,7 +37,7 @@ from databind.core import (
     get_annotation_setting,
     get_fields_expanded,
 )
-from databind.core.utils import NotSet
+from databind.core.utils import NotSet, recurse_bases
 
 T = t.TypeVar("T")
 
@@ -135,7 +135,7 @@ class CollectionConverter(Converter):
 
         else:
             candidates = set()
-            for current in datatype.recurse_bases():
+            for current in recurse_bases(datatype):
                 if issubclass(current.type, t.Collection) and len(current.args) == 1:
                     candidates.add(current.args[0])
             if len(candidates) == 0:
@@ -348,7 +348,7 @@ class MappingConverter(Converter):
             # Typed dicts have a schema, they are handled by the SchemaConverter.
             raise NotImplementedError
         candidates = set()
-        for current in datatype.recurse_bases():
+        for current in recurse_bases(datatype):
             if issubclass(current.type, t.Mapping) and len(current.args) == 2:
                 candidates.add(current.args)
         if len(candidates) == 0:
-- 
2.43.0


From e0299f085cbad006e2b967a1a7ac717fdf27b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 35/59] fix: accept collections of types that are annotated
 with unhashable objects

---
 databind/src/databind/json/converters.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 35c5f6c..052a797 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -134,10 +134,12 @@ class CollectionConverter(Converter):
                     )
 
         else:
-            candidates = set()
+            # Type hints are not necessarily hashable, e.g. if they are annotated with an object that is not.
+            candidates: t.List[t.Any] = []
             for current in recurse_bases(datatype):
                 if issubclass(current.type, t.Collection) and len(current.args) == 1:
-                    candidates.add(current.args[0])
+                    if current.args[0] not in candidates:
+                        candidates.append(current.args[0])
             if len(candidates) == 0:
                 raise ConversionError(self, ctx, f"could not find item type in {datatype}")
             elif len(candidates) > 1:
@@ -347,10 +349,12 @@ class MappingConverter(Converter):
         if is_typed_dict(datatype.type):
             # Typed dicts have a schema, they are handled by the SchemaConverter.
             raise NotImplementedError
-        candidates = set()
+        # Type hints are not necessarily hashable, e.g. if they are annotated with an object that is not.
+        candidates: t.List[t.Any] = []
         for current in recurse_bases(datatype):
             if issubclass(current.type, t.Mapping) and len(current.args) == 2:
-                candidates.add(current.args)
+                if current.args not in candidates:
+                    candidates.append(current.args)
         if len(candidates) == 0:
             raise ConversionError(self, ctx, f"could not find key/value type in {datatype}")
         elif len(candidates) > 1:
-- 
2.43.0


From 3d9e532d6d796e549a25d155d69502c213d6c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 36/59] fix: accept annotated members in plain unions

---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 052a797..3048f5b 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -831,9 +831,9 @@ class UnionConverter(Converter):
         if isinstance(datatype, UnionTypeHint):
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
-            if not all(isinstance(a, ClassTypeHint) for a in datatype):
+            if not all(isinstance(_unwrap_annotated(a), ClassTypeHint) for a in datatype):
                 raise NotImplementedError(f"members of plain Union must be concrete types: {datatype}")
-            members = {t.cast(ClassTypeHint, a).type.__name__: a for a in datatype}
+            members = {t.cast(ClassTypeHint, _unwrap_annotated(a)).type.__name__: a for a in datatype}
             if len(members) != len(datatype):
                 raise NotImplementedError(f"members of plain Union cannot have overlapping type names: {datatype}")
             union = Union(members, Union.BEST_MATCH)
-- 
2.43.0


From 47356afdf4e58f90e8bd5cceb87adfafe5a60ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 37/59] fix: Settings.add_conditional() raised a NameError for
 every call

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 0f36aa0..2783e47 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -70,7 +70,7 @@ class Settings(SettingsProvider):
     def add_conditional(self, predicate: t.Callable[["Context"], bool], setting: "Setting") -> None:
         """Adds a setting conditional on the given *predicate*."""
 
-        def _provider(context: Context) -> t.List[Setting]:
+        def _provider(context: "Context") -> t.List["Setting"]:
             if predicate(context):
                 return [setting]
             return []
-- 
2.43.0


From 5dcf3bcfe194c3791edc79cb2381726bd8d31ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 38/59] fix: a typed dict key named like a dict method took
 that method as its default

---
 databind/src/databind/core/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 3133c72..654eebf 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -302,7 +302,8 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
     for key in typed_dict.__required_keys__ | typed_dict.__optional_keys__:
         field_hint = TypeHint(annotations[key]).evaluate(eval_context)
 
-        has_default = hasattr(typed_dict, key)
+        # Not hasattr(), as a typed dict also has the attributes of the builtin dict type.
+        has_default = key in vars(typed_dict)
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-- 
2.43.0


From 0d925d472737856b9ff7e1879cd4a7829dfcc883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 39/59] fix: SerializeDefaults(False) omitted fields that
 Required() demands when loading

---
 databind/src/databind/json/converters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 3048f5b..6d34350 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -563,7 +563,12 @@ class SchemaConverter(Converter):
                 result.update(value)
                 flattened_keys.update(value.keys())
             else:
-                if serialize_defaults or not field.has_default() or field_ctx.value != field.get_default():
+                if (
+                    serialize_defaults
+                    or field.required
+                    or not field.has_default()
+                    or field_ctx.value != field.get_default()
+                ):
                     alias = self._get_alias_setting(field_ctx, field_name).aliases[0]
                     if remainder and remainder.enabled:
                         if not isinstance(value, t.Mapping):
-- 
2.43.0


From c600ef5993c950d62d213024bb07e5abbd376203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 40/59] fix: SerializeDefaults(False) lost the keys of a
 Remainder field equal to its default

---
 databind/src/databind/json/converters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 6d34350..8284316 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -566,6 +566,7 @@ class SchemaConverter(Converter):
                 if (
                     serialize_defaults
                     or field.required
+                    or (remainder and remainder.enabled)  # Never takes its default when loading.
                     or not field.has_default()
                     or field_ctx.value != field.get_default()
                 ):
-- 
2.43.0


From bb41884f2864d127ef448d6a25e583c51b26237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 41/59] fix: the order of the fields of a typed dict depended
 on the hash seed

---
 databind/src/databind/core/schema.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 654eebf..84e8417 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -299,7 +299,9 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
 
     annotations = get_annotations(t.cast(type, typed_dict))
     fields: t.Dict[str, Field] = {}
-    for key in typed_dict.__required_keys__ | typed_dict.__optional_keys__:
+    for key in annotations:
+        if key not in typed_dict.__required_keys__ and key not in typed_dict.__optional_keys__:
+            continue
         field_hint = TypeHint(annotations[key]).evaluate(eval_context)
 
         # Not hasattr(), as a typed dict also has the attributes of the builtin dict type.
-- 
2.43.0


From 63e00b39763e509a2c00fddc5e125d917333607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 42/59] fix: keys of a Remainder field that stand for an
 omitted field were dumped and then lost when loading

---
 databind/src/databind/json/converters.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 8284316..9180939 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -531,10 +531,13 @@ class SchemaConverter(Converter):
         remainder_field: t.Optional[t.Tuple[str, Field]] = None
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
         flattened_keys: t.Set[str] = set()
+        # Keys that are read as the value of a field when loading, but which that field has not been written to.
+        omitted_keys: t.Set[str] = set()
 
         for field_name, field in schema.fields.items():
             if not field.required and isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
                 # A key that is not required in a typed dict.
+                omitted_keys.update(self._get_alias_setting(ctx.spawn(None, field.datatype, field_name), field_name).aliases)
                 continue
             field_ctx = ctx.spawn(_get_field_value(field_name, field), field.datatype, field_name)
             remainder = field_ctx.get_setting(Remainder)
@@ -585,10 +588,19 @@ class SchemaConverter(Converter):
                         )
                     else:
                         result[alias] = value
+                else:
+                    omitted_keys.update(self._get_alias_setting(field_ctx, field_name).aliases)
 
-        # Note that there are no values if the field is omitted because it has its default value.
         if remainder_field and remainder_values is not None:
-            duplicate_keys = result.keys() & remainder_values.keys()
+            if any(field.flattened for field in schema.fields.values()):
+                for fields in get_fields_expanded(schema).values():
+                    for field_name, field in fields.items():
+                        aliases = self._get_alias_setting(
+                            ctx.spawn(None, field.datatype, field_name), field_name
+                        ).aliases
+                        if flattened_keys.isdisjoint(aliases):
+                            omitted_keys.update(aliases)
+            duplicate_keys = (result.keys() | omitted_keys) & remainder_values.keys()
             if duplicate_keys:
                 raise ConversionError(
                     self, ctx, f"keys in remainder field collide with other fields in the schema: {duplicate_keys}"
-- 
2.43.0


From e9a2d115c53d8182288289716244958b90bd74f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 43/59] fix: order of the keys of a remainder field depended on
 the hash seed when loading

---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 9180939..d8a6cd8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -679,10 +679,10 @@ class SchemaConverter(Converter):
         unused_keys = source.keys() - used_keys
         if flattened_remainder:
             field_name, container = flattened_remainder
-            container.update({k: source[k] for k in unused_keys})
+            container.update({k: source[k] for k in source if k in unused_keys})
             result[field_name] = ctx.spawn(container, schema.fields[field_name].datatype, field_name).convert()
         elif remainder_field:
-            remainders = {k: ctx.value[k] for k in unused_keys}
+            remainders = {k: source[k] for k in source if k in unused_keys}
             result[remainder_field[0]] = ctx.spawn(
                 remainders, remainder_field[1].datatype, remainder_field[0]
             ).convert()
-- 
2.43.0


From bffebf1504710d5e14eb58cf2c6e0392467c8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 44/59] fix: forward references in inherited typed dict keys
 were evaluated in the wrong module

---
 databind/src/databind/core/schema.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 84e8417..5696cef 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -295,14 +295,15 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
 
     assert is_typed_dict(typed_dict), typed_dict
 
-    eval_context = vars(sys.modules[typed_dict.__module__])
+    origins = _get_typed_dict_key_origins(t.cast(type, typed_dict))
 
     annotations = get_annotations(t.cast(type, typed_dict))
     fields: t.Dict[str, Field] = {}
     for key in annotations:
         if key not in typed_dict.__required_keys__ and key not in typed_dict.__optional_keys__:
             continue
-        field_hint = TypeHint(annotations[key]).evaluate(eval_context)
+        # Forward references have to be evaluated in the module of the class that declares the key.
+        field_hint = TypeHint(annotations[key]).evaluate(vars(sys.modules[origins[key].__module__]))
 
         # Not hasattr(), as a typed dict also has the attributes of the builtin dict type.
         has_default = key in vars(typed_dict)
@@ -317,6 +318,20 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
     return Schema(fields, t.cast("Constructor", typed_dict), t.cast(type, typed_dict))
 
 
+def _get_typed_dict_key_origins(typed_dict: type) -> t.Dict[str, type]:
+    """Returns for every key of the typed dict the class that declares it. The base classes of a typed dict are not
+    in its `__mro__`."""
+
+    origins = dict.fromkeys(typed_dict.__annotations__, typed_dict)
+    for base in getattr(typed_dict, "__orig_bases__", ()):
+        base = t.get_origin(base) or base
+        if is_typed_dict(base):
+            for key, origin in _get_typed_dict_key_origins(base).items():
+                if typed_dict.__annotations__.get(key) is base.__annotations__[key]:
+                    origins[key] = origin
+    return origins
+
+
 def _is_required(datatype: TypeHint, default: bool) -> bool:
     """If *datatype* is a #AnnotatedTypeHint instance, it will look for a #Required settings instance and returns
     that instances #Required.enabled value. Otherwise, it returns *default*."""
-- 
2.43.0


From 51525d49819db5673821f15203f3c7ba518bbf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 45/59] fix: a mapping key that is not hashable is a conversion
 error

---
 databind/src/databind/json/converters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d8a6cd8..0151b64 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -368,8 +368,12 @@ class MappingConverter(Converter):
         result = {}
         for key, value in ctx.value.items():
             value = ctx.spawn(value, value_type, key).convert()
-            key = ctx.spawn(key, key_type, f"Key({key!r})").convert()
-            result[key] = value
+            key_ctx = ctx.spawn(key, key_type, f"Key({key!r})")
+            key = key_ctx.convert()
+            try:
+                result[key] = value
+            except TypeError:
+                raise ConversionError(self, key_ctx, f"mapping key is not hashable: {key!r}")
 
         if ctx.direction == Direction.DESERIALIZE and datatype.type != dict:
             # We assume that the runtime type is constructible from a plain dictionary.
-- 
2.43.0


From e15794041f9c8d051a3991cc1162fa86de8a938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 46/59] fix: unhashable items do not silently turn a set into a
 list

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 0151b64..7bfe61a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -174,7 +174,10 @@ class CollectionConverter(Converter):
 
             try:
                 return python_type(values)
-            except TypeError:
+            except TypeError as exc:
+                if issubclass(python_type, (set, frozenset)):
+                    # The type can be constructed, but not from these items.
+                    raise ConversionError(self, ctx, f"could not construct {python_type} from the items: {exc}")
                 # We assume that the native list is an appropriate placeholder for whatever specific Collection type
                 # was chosen in the value's datatype.
                 return values
-- 
2.43.0


From c7beed70a0c3f476ecdb51f94043ac0ad7c28201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 47/59] fix: the type IDs of a chain of union members were
 split into characters

---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 8f6fb73..af147ef 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -256,4 +256,4 @@ class ChainUnionMembers(UnionMembers):
                 except NotImplementedError:
                     pass
 
-        return Stream(_gen()).concat().distinct().collect()
+        return Stream(_gen()).distinct().collect()
-- 
2.43.0


From 0a5891368626f886af65a8afe5d3c56de6e21dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 48/59] fix: the name of a module was taken for the type of
 that name inside of it

---
 databind/src/databind/core/union.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index af147ef..7d1a6e4 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -197,6 +197,7 @@ class ImportUnionMembers(UnionMembers):
             try:
                 module = importlib.import_module(sub_module_name)
                 module_name = sub_module_name
+                offset += 1
             except ImportError as exc:
                 if sub_module_name in str(exc):
                     break
-- 
2.43.0


From c5af058afe774f6db49c7b5ca51ee6b477f302c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 49/59] fix: schema of a dataclass with the KW_ONLY marker and
 postponed annotations

---
 databind/src/databind/core/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 5696cef..309ba9a 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -184,7 +184,8 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
     own_fields = {field.name: field for field in dataclasses.fields(dataclass_type)}
     for base_type in dataclass_type.__mro__:
         if dataclasses.is_dataclass(base_type):
-            annotations = get_annotations(base_type)
+            # Only the names are of interest, annotations that are not fields need not be evaluated (e.g. #KW_ONLY).
+            annotations = vars(base_type).get("__annotations__", {})
             for field in dataclasses.fields(base_type):
                 # Dataclasses inherit the Field object, but not necessarily from the closest class in the MRO.
                 if field.name in annotations and field.name not in field_origin and field is own_fields[field.name]:
-- 
2.43.0


From 3ea8f1a284c47379fdbc6b6c8aab05b66411129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 50/59] fix: schema of a dataclass that redeclares an inherited
 field as a ClassVar

---
 databind/src/databind/core/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 309ba9a..e4b3380 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -188,7 +188,7 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
             annotations = vars(base_type).get("__annotations__", {})
             for field in dataclasses.fields(base_type):
                 # Dataclasses inherit the Field object, but not necessarily from the closest class in the MRO.
-                if field.name in annotations and field.name not in field_origin and field is own_fields[field.name]:
+                if field.name in annotations and field.name not in field_origin and field is own_fields.get(field.name):
                     field_origin[field.name] = base_type
 
     # Retrieve the context in which type hints from each field origin type need to be
@@ -217,7 +217,7 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
                 if field.name in fields:
                     # Subclasses override their parent's fields.
                     continue
-                if field_origin[field.name] != hint.type:
+                if field_origin.get(field.name) != hint.type:
                     # If this field does not belong to the current type
                     continue
 
-- 
2.43.0


From 0528550a4c4917a5040a8d013acfc2346b115195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 51/59] fix: databind's dataclasses check for missing arguments
 in the constructor, not in __post_init__

---
 databind/src/databind/core/dataclasses.py | 72 ++++++++++++++++-------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 9f35dc8..c534cd2 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -12,6 +12,8 @@ following default arguments.
 
 import copy
 import dataclasses
+import functools
+import inspect
 import types
 import typing as t
 from dataclasses import (
@@ -57,7 +59,8 @@ def _field_has_default(field: Field) -> bool:
 
 def _process_class(cls, **kwargs):
     # Collect a list of the fields that have no default values but follow after a default argument.
-    no_default_fields: t.List[str] = []
+    no_default_fields: t.Dict[str, Field] = {}
+    base_fields: t.List[Field] = []
     existing_fields = getattr(cls, "__dataclass_fields__", {})  # For subclasses of dataclasses
     annotations = getattr(cls, "__annotations__", {})
     has_own_annotations = "__annotations__" in cls.__dict__
@@ -66,8 +69,8 @@ def _process_class(cls, **kwargs):
         cls.__annotations__ = annotations
 
     # Make sure each annotated field actually has a #Field. For fields without
-    # defaults, we will set #Field.default to #NotSet.Value so we can later
-    # check if the field was set in __post_init__().
+    # defaults, we will temporarily set #Field.default to #NotSet.Value and
+    # check that the argument is given before calling __init__().
     for key in annotations.keys():
         # With slots, the attribute inherited from a base class is the descriptor for the slot.
         if isinstance(getattr(cls, key, MISSING), (type(MISSING), types.MemberDescriptorType)):
@@ -80,38 +83,63 @@ def _process_class(cls, **kwargs):
             if not isinstance(f, Field):
                 continue
         if not _field_has_default(f) and f.init:
-            # This prevents a SyntaxError if non-default arguments follow default arguments.
-            f.default = NotSet.Value
-            no_default_fields.append(key)
+            no_default_fields[key] = f
 
-    # Override the `__post_init__` method that is called by the dataclass `__init__`.
-    orig_postinit = getattr(cls, "__post_init__", None)
+    # The same goes for the fields of the base classes.
+    for base in cls.__mro__[1:]:
+        for key, f in vars(base).get("__dataclass_fields__", {}).items():
+            if not _field_has_default(f) and f.init:
+                base_fields.append(f)
 
-    def __post_init__(self, *init_vars):
-        # Ensure that no field has a "uninitialized" value.
-        for field_ in fields(self):
-            if field_.init and getattr(self, field_.name) is NotSet.Value:
-                raise TypeError(f"missing required argument {field_.name!r}")
-        if any(value is NotSet.Value for value in init_vars):
-            raise TypeError("missing required argument for an InitVar")
-        if orig_postinit:
-            orig_postinit(self, *init_vars)
-
-    cls.__post_init__ = __post_init__
+    has_own_init = "__init__" in vars(cls)
 
     # Do the stdlib dataclass magic.
-    cls = dataclasses.dataclass(cls, **kwargs)
+    placeholders = [*no_default_fields.values(), *base_fields]
+    for f in placeholders:
+        # This prevents a SyntaxError if non-default arguments follow default arguments.
+        f.default = NotSet.Value
+    try:
+        cls = dataclasses.dataclass(cls, **kwargs)
+    finally:
+        for f in placeholders:
+            f.default = MISSING
 
     # After setting #Field.default for non-default fields, the default will be propagated
     # on the class level, so we delete that again from the class.
-    for key in no_default_fields:
+    for key, f in no_default_fields.items():
         # With slots, the attribute on the class is the descriptor for the slot.
-        if vars(cls).get(key) is NotSet.Value:
+        if vars(cls).get(key) is NotSet.Value or vars(cls).get(key) is f:
             delattr(cls, key)
 
+    if kwargs.get("init", True) and not has_own_init:
+        _check_arguments(cls)
+
     return cls
 
 
+def _check_arguments(cls):
+    """Wraps the constructor to refuse the placeholder as the value of an argument that is missing."""
+
+    init = cls.__init__
+    params = list(inspect.signature(init).parameters.values())[1:]
+    positional = [p.name for p in params if p.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD]
+    required = [p.name for p in params if p.default is NotSet.Value]
+    if not required:
+        return
+
+    # There can be a field called "self".
+    @functools.wraps(init)
+    def __init__(*args, **kwargs):
+        given = positional[: len(args) - 1]
+        if len(args) - 1 <= len(positional):
+            for name in required:
+                if name not in kwargs and name not in given:
+                    raise TypeError(f"missing required argument {name!r}")
+        init(*args, **kwargs)
+
+    cls.__init__ = __init__
+
+
 def dataclass(cls=None, **kwargs):
     """
     A wrapper for the #dataclasses.dataclass() decorator that allows non-default arguments to
-- 
2.43.0


From ab1a02f41777745a0c1c67581c34a4a8ac9ac47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 52/59] fix: field(annotations=...) modified the metadata it
 was given

---
 databind/src/databind/core/dataclasses.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index c534cd2..edaaec5 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -162,7 +162,6 @@ def field(*, annotations=None, metadata=None, **kwargs):
     """
 
     if annotations:
-        if metadata is None:
-            metadata = {}
-        metadata[ANNOTATIONS_METADATA_KEY] = annotations
+        # The dictionary may be used for more than one field.
+        metadata = {**(metadata or {}), ANNOTATIONS_METADATA_KEY: annotations}
     return dataclasses.field(**kwargs, metadata=metadata)
-- 
2.43.0


From ea58292b8848e664143cc95cf7e97fe8f62b485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 53/59] fix: StringifyConverter loads a subclass of its type as
 that subclass

---
 databind/src/databind/json/converters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7bfe61a..d2ca071 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -742,10 +742,15 @@ class StringifyConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if not isinstance(ctx.value, str):
                 raise ConversionError.expected(self, ctx, str)
+            # Unless there is a special parser, the value is constructed by the type which may be a subclass.
+            parser = datatype.type if self.parser is self.type_ else self.parser
             try:
-                return self.parser(ctx.value)
+                value = parser(ctx.value)
             except (TypeError, ValueError) as exc:
                 raise ConversionError(self, ctx, str(exc))
+            if not isinstance(value, datatype.type):
+                raise ConversionError.expected(self, ctx, datatype.type, type(value))
+            return value
 
         else:
             if not isinstance(ctx.value, datatype.type):
-- 
2.43.0


From 4d565181e2833807ee6aa0b8aa4ae728499a328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 54/59] fix: DecimalConverter loads a subclass of Decimal as
 that subclass and refuses other values for it

---
 databind/src/databind/json/converters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d2ca071..a61b483 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -257,14 +257,15 @@ class DecimalConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                 try:
-                    return context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
+                    value = context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
                 except decimal.DecimalException as exc:
                     raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}") from exc
+                return value if type(value) is datatype.type else datatype.type(value)
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-            if not isinstance(ctx.value, decimal.Decimal):
-                raise ConversionError.expected(self, ctx, decimal.Decimal, type(ctx.value))
+            if not isinstance(ctx.value, datatype.type):
+                raise ConversionError.expected(self, ctx, datatype.type, type(ctx.value))
             return str(ctx.value)
 
 
-- 
2.43.0


From 5bdd4f09b456f6b7709b06be88ee9e9de4de18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 55/59] fix: dumping a flat union does not add the
 discriminator to what a custom converter returned

---
 databind/src/databind/json/converters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index a61b483..7fdb070 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -1,4 +1,5 @@
 import base64
+import copy
 import datetime
 import decimal
 import enum
@@ -946,6 +947,8 @@ class UnionConverter(Converter):
                 result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
+                # The result of a custom converter may be a part of the value that is serialized.
+                result = copy.copy(result)
                 result[discriminator_key] = member_name
             elif style == Union.KEYED:
                 result = {member_name: result}
-- 
2.43.0


From e8301a487f66d65978cd2fdb30347c32ffe68e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 56/59] fix: SchemaConverter uses its convert_to_schema option
 for flattened fields

---
 databind/src/databind/core/schema.py     | 6 +++++-
 databind/src/databind/json/converters.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index e4b3380..13c1563 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -409,7 +409,11 @@ def get_fields_expanded(
             field_schema = convert_to_schema(field.datatype)
             result[field_name] = {
                 **{k: v for k, v in field_schema.fields.items() if not v.flattened},
-                **{k: v for sf in get_fields_expanded(field_schema).values() for k, v in sf.items()},
+                **{
+                    k: v
+                    for sf in get_fields_expanded(field_schema, convert_to_schema).values()
+                    for k, v in sf.items()
+                },
             }
             for sub_field_name in result[field_name]:
                 if sub_field_name in schema.fields and sub_field_name != field_name:
diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7fdb070..517aeb6 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -602,7 +602,7 @@ class SchemaConverter(Converter):
 
         if remainder_field and remainder_values is not None:
             if any(field.flattened for field in schema.fields.values()):
-                for fields in get_fields_expanded(schema).values():
+                for fields in get_fields_expanded(schema, self.convert_to_schema).values():
                     for field_name, field in fields.items():
                         aliases = self._get_alias_setting(
                             ctx.spawn(None, field.datatype, field_name), field_name
@@ -660,7 +660,7 @@ class SchemaConverter(Converter):
             return result
 
         result = {}
-        expanded = get_fields_expanded(schema)
+        expanded = get_fields_expanded(schema, self.convert_to_schema)
         # If the remainder field is a field of a flattened field, the name of the latter and the values of its fields.
         flattened_remainder: t.Optional[t.Tuple[str, t.Dict[str, t.Any]]] = None
         for field_name, field in schema.fields.items():
-- 
2.43.0


From 2ebd02315beda132db930a7311c3f9b9a40c9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 57/59] fix: inherited keys of a typed dict keep their defaults

---
 databind/src/databind/core/schema.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 13c1563..262dd0f 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -306,13 +306,13 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
         # Forward references have to be evaluated in the module of the class that declares the key.
         field_hint = TypeHint(annotations[key]).evaluate(vars(sys.modules[origins[key].__module__]))
 
-        # Not hasattr(), as a typed dict also has the attributes of the builtin dict type.
-        has_default = key in vars(typed_dict)
+        default = _get_typed_dict_default(t.cast(type, typed_dict), key)
+        has_default = default is not NotSet.Value
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
             required=required and key in typed_dict.__required_keys__,
-            default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,
+            default=default if has_default else None if not required else NotSet.Value,
             flattened=_is_flat(field_hint, False),
         )
 
@@ -333,6 +333,20 @@ def _get_typed_dict_key_origins(typed_dict: type) -> t.Dict[str, type]:
     return origins
 
 
+def _get_typed_dict_default(typed_dict: type, key: str) -> t.Any:
+    """Returns the default value assigned on the class-level of the typed dict or of the bases that it has the key from,
+    or #NotSet.Value."""
+
+    # Not hasattr(), as a typed dict also has the attributes of the builtin dict type, but not those of its bases.
+    if key in vars(typed_dict):
+        return vars(typed_dict)[key]
+    for base in reversed(getattr(typed_dict, "__orig_bases__", ())):
+        base = t.get_origin(base) or base
+        if is_typed_dict(base) and key in base.__annotations__:
+            return _get_typed_dict_default(base, key)
+    return NotSet.Value
+
+
 def _is_required(datatype: TypeHint, default: bool) -> bool:
     """If *datatype* is a #AnnotatedTypeHint instance, it will look for a #Required settings instance and returns
     that instances #Required.enabled value. Otherwise, it returns *default*."""
-- 
2.43.0


From 77ddf0a71f371f51be00accfd7263cf5dfe6b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 58/59] fix: members of flat unions are loaded from read-only
 mappings

---
 databind/src/databind/json/converters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 517aeb6..e63a768 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -851,7 +851,7 @@ class UnionConverter(Converter):
         return member_name
 
     def _check_style_compatibility(self, ctx: Context, style: str, value: t.Any) -> None:
-        if not isinstance(value, t.MutableMapping) and style in (Union.FLAT,):
+        if not isinstance(value, t.Mapping) and style in (Union.FLAT,):
             raise ConversionError(self, ctx, f"The Union.{style.upper()} style is not supported for plain member types")
 
     def convert(self, ctx: Context) -> t.Any:
@@ -946,9 +946,8 @@ class UnionConverter(Converter):
             if style == Union.NESTED:
                 result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
-                assert isinstance(result, t.MutableMapping), type(result)
                 # The result of a custom converter may be a part of the value that is serialized.
-                result = copy.copy(result)
+                result = copy.copy(result) if isinstance(result, t.MutableMapping) else dict(result)
                 result[discriminator_key] = member_name
             elif style == Union.KEYED:
                 result = {member_name: result}
-- 
2.43.0


From 74f51be6eaea00ea26c01cf23f4f44c46e16f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:54 +0000
Subject: [PATCH 59/59] fix: entry points of a union are complete before other
 threads see them

---
 databind/src/databind/core/union.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 7d1a6e4..edb97b3 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -141,9 +141,8 @@ class EntrypointUnionMembers(UnionMembers):
     @property
     def _entrypoints(self) -> t.Dict[str, EntryPoint]:
         if self._entrypoints_cache is None:
-            self._entrypoints_cache = {}
-            for ep in iter_entry_points(self.group):
-                self._entrypoints_cache[ep.name] = ep
+            # Not assigned before it is complete, as it may be read by another thread.
+            self._entrypoints_cache = {ep.name: ep for ep in iter_entry_points(self.group)}
         return self._entrypoints_cache
 
     def get_type_id(self, type_: t.Any) -> str:
-- 
2.43.0

