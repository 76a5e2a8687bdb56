From 7c7bccf325901aeff91dba08dedc1302fbbc3f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 01/32] fix: dump enums by value, the form they are loaded from

asdict wrote the member's name while from_dict looks the member up by value,
so a config with an enum whose names and values differ could not be reloaded.
---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 06fcacf..d81871b 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -122,7 +122,7 @@ def asdict(
             for i, v in enumerate(value)
         )
     elif isinstance(value, Enum):
-        return value.name
+        return value.value
     elif (
         isinstance(value, int)
         or isinstance(value, float)
-- 
2.43.0


From fa73638f653eca6511c947967646382b45d7f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:29 +0000
Subject: [PATCH 02/32] fix: record schedules nested more than one struct deep

Descending into the schedule tree restarted from the root at every segment,
so a schedule two levels deep raised KeyError.
---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1bf6602..eb9a7c2 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -438,7 +438,7 @@ class ScheduleDeserializer(Deserializer):
             for segment in path.split(".")[:-1]:
                 if segment not in schedules:
                     schedules[segment] = {}
-                schedules = self.schedules[segment]
+                schedules = schedules[segment]
             schedules[field_name] = Schedule(update, value)
             value = schedule.get_value(0.0)
             return cls(value), True, False  # type: ignore
-- 
2.43.0


From 32c65e86f4c22051551a7b88dca613d3eac4aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:31 +0000
Subject: [PATCH 03/32] fix: apply ignore_extra_fields to nested values

from_dict did not pass the flag on to the calls for list elements, tuple items,
dict values and dataclass fields, so only top-level extra fields were ignored.
---
 hyperstate/serde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index d81871b..a97a011 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -220,14 +220,14 @@ def from_dict(
         and clz == List[clz.__args__]  # type: ignore
         and isinstance(value, list)
     ):
-        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]") for i, v in enumerate(value)]  # type: ignore
+        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         hasattr(clz, "__args__")
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
         return tuple(
-            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]")  # type: ignore
+            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
         )
     elif (
@@ -237,7 +237,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}")  # type: ignore
+            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -274,6 +274,7 @@ def from_dict(
                 value=v,
                 deserializers=deserializers,
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
+                ignore_extra_fields=ignore_extra_fields,
             )
         _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
         try:
-- 
2.43.0


From 668ff0981042a54dee1848dd4af1d557343e9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 04/32] fix: reject tuples of the wrong length

A tuple shorter than its declared type was loaded as is, a longer one raised
IndexError; both now raise DeserializeTypeError.
---
 hyperstate/serde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index a97a011..252297f 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -225,6 +225,7 @@ def from_dict(
         hasattr(clz, "__args__")
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
+        and len(value) == len(clz.__args__)  # type: ignore
     ):
         return tuple(
             from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
-- 
2.43.0


From b09105e01a4112bc359e5fa3eb0ce48a5f602cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:55 +0000
Subject: [PATCH 05/32] fix: load literals that are not strings naming a type

Comparing clz with List[clz.__args__] evaluates List[...] on a Literal's options,
which raises TypeError for ints and SyntaxError for strings that are no identifiers.
---
 hyperstate/serde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 252297f..8202c4c 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -217,13 +217,13 @@ def from_dict(
     elif (
         hasattr(clz, "__args__")
         and len(clz.__args__) == 1  # type: ignore
-        and clz == List[clz.__args__]  # type: ignore
+        and typing.get_origin(clz) == list
         and isinstance(value, list)
     ):
         return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         hasattr(clz, "__args__")
-        and clz == Tuple[clz.__args__]  # type: ignore
+        and typing.get_origin(clz) == tuple
         and isinstance(value, tuple)
         and len(value) == len(clz.__args__)  # type: ignore
     ):
@@ -234,7 +234,7 @@ def from_dict(
     elif (
         hasattr(clz, "__args__")
         and len(clz.__args__) == 2  # type: ignore
-        and clz == Dict[clz.__args__]  # type: ignore
+        and typing.get_origin(clz) == dict
         and isinstance(value, dict)
     ):
         return {
-- 
2.43.0


From 692390cac50595207db942df75e58abf0dc235f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 06/32] fix: reject bool overrides that are neither true nor
 false

The value of the previous override was assigned instead, or UnboundLocalError
was raised if there was none.
---
 hyperstate/hyperstate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index eb9a7c2..b215868 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -398,6 +398,10 @@ class OverridesDeserializer(Deserializer):
                     or str_val == "F"
                 ):
                     val = False
+                else:
+                    raise ValueError(
+                        f"Invalid override: {override}. Expected 'true' or 'false'."
+                    )
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
-- 
2.43.0


From f71f74ca80bd423245a6f8188a096c747661809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 07/32] fix: require the version of versioned configs in
 StateManager

isinstance was used on the class, so a versioned config without a version was
silently loaded as if it were current, without any upgrade.
---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index b215868..2d8a09a 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -163,7 +163,7 @@ class StateManager(Generic[C, S]):
             file=path,
             overrides=self.overrides or [],
             allow_missing_version=path is None
-            or not isinstance(self.config_cls, Versioned),
+            or not issubclass(self.config_cls, Versioned),
             ignore_extra_fields=self.ignore_extra_fields,
         )
 
-- 
2.43.0


From c47abb0ce54a65cced98f421f3ae35d4fbcb9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:59 +0000
Subject: [PATCH 08/32] fix: keep the values RejectValues accepts

apply removed the field to look at it and never put it back.
---
 hyperstate/schema/rewrite_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 43f3d65..1325741 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -159,7 +159,7 @@ class RejectValues(RewriteRule):
     disallowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _remove(state_dict, self.field)
+        value, present = _get(state_dict, self.field)
         if present and value in self.disallowed_values:
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}."
-- 
2.43.0


From 9188f23955f4401207b7a1c54d6f77b91b72a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 09/32] fix: let RejectValues upgrade the schema of its field

apply_to_schema checked that the whole schema, not the field, is a literal and
so always failed.
---
 hyperstate/schema/rewrite_rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 1325741..0858428 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -169,7 +169,7 @@ class RejectValues(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert isinstance(schema, types.Literal)
+        assert isinstance(field.type, types.Literal)
         _insert_schema(
             schema,
             self.field,
@@ -178,7 +178,7 @@ class RejectValues(RewriteRule):
                 type=types.Literal(
                     [
                         v
-                        for v in schema.allowed_values
+                        for v in field.type.allowed_values
                         if v not in self.disallowed_values
                     ]
                 ),
-- 
2.43.0


From 8aa7f10bc5ed074ebaac0f37dae163f1834479ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:48 +0000
Subject: [PATCH 10/32] fix: let rewrite rules skip fields under null, scalars
 and lists

_get crashed on a null on the way to the field, and both _get and _remove
crashed on (or searched for a substring in) scalars and lists.
---
 hyperstate/schema/rewrite_rule.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 0858428..f580da4 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -189,11 +189,9 @@ class RejectValues(RewriteRule):
 def _remove(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     assert len(path) > 0
     for field in path[:-1]:
-        if field not in state_dict:
+        if not isinstance(state_dict, dict) or field not in state_dict:
             return None, False
         state_dict = state_dict[field]
-        if state_dict is None:
-            return None, False
     if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
     value = state_dict[path[-1]]
@@ -204,10 +202,10 @@ def _remove(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]
 def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     assert len(path) > 0
     for field in path[:-1]:
-        if field not in state_dict:
+        if not isinstance(state_dict, dict) or field not in state_dict:
             return None, False
         state_dict = state_dict[field]
-    if path[-1] not in state_dict:
+    if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
     return state_dict[path[-1]], True
 
-- 
2.43.0


From 1356b85ceff27790d36f5728c5e1ed84d1322874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:49 +0000
Subject: [PATCH 11/32] fix: accept unhashable values in RejectValues

Looking a list or dict up in the set of disallowed values raised TypeError.
---
 hyperstate/schema/rewrite_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index f580da4..baa7015 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -160,7 +160,7 @@ class RejectValues(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         value, present = _get(state_dict, self.field)
-        if present and value in self.disallowed_values:
+        if present and value in list(self.disallowed_values):
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}."
             )
-- 
2.43.0


From 70f0cf1b03dd4f8cb7eee8f0a8e65ca194c7b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 12/32] fix: do not lose a renamed value when its new parent is
 null

If the new path leads through an existing null or non-struct value the removed
value was dropped silently; it now stays where it was.
---
 hyperstate/schema/rewrite_rule.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index baa7015..d9d1766 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -26,8 +26,8 @@ class RenameField(RewriteRule):
     def apply(self, state_dict: Any) -> Any:
         # TODO: handle lists
         value, ok = _remove(state_dict, self.old_field)
-        if ok:
-            _insert(state_dict, self.new_field, value)
+        if ok and not _insert(state_dict, self.new_field, value):
+            _insert(state_dict, self.old_field, value)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -215,7 +215,7 @@ def _insert(
     path: Sequence[str],
     value: Any,
     create_new: bool = True,
-) -> None:
+) -> bool:
     assert len(path) > 0
     for field in path[:-1]:
         if isinstance(state_dict, dict) and field not in state_dict:
@@ -225,10 +225,11 @@ def _insert(
                 state_dict[field] = {WEAK_REF: True}
         state_dict = state_dict[field]
         if not isinstance(state_dict, dict):
-            return
+            return False
         if create_new and WEAK_REF in state_dict:
             del state_dict[WEAK_REF]
     state_dict[path[-1]] = value
+    return True
 
 
 def _remove_schema(schema: types.Type, path: Sequence[str]) -> Optional[types.Field]:
-- 
2.43.0


From 11bdbbe9fa55051561c2ead4de19f59619e748df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 13/32] fix: keep absent structs absent when a rule touches a
 filled in default

A default filled in for a struct the document omits is marked as weak. Mapping,
renaming or re-adding that field dropped the mark, so the struct was then built
from the document as if it had been given there.
---
 hyperstate/schema/rewrite_rule.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index d9d1766..eec8957 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -25,9 +25,13 @@ class RenameField(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         # TODO: handle lists
+        parent = (
+            _get(state_dict, self.old_field[:-1])[0] if self.old_field[:-1] else None
+        )
+        weak = isinstance(parent, dict) and WEAK_REF in parent
         value, ok = _remove(state_dict, self.old_field)
-        if ok and not _insert(state_dict, self.new_field, value):
-            _insert(state_dict, self.old_field, value)
+        if ok and not _insert(state_dict, self.new_field, value, create_new=not weak):
+            _insert(state_dict, self.old_field, value, create_new=not weak)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -59,7 +63,7 @@ class MapFieldValue(RewriteRule):
         value, present = _remove(state_dict, path)
         if present:
             new_value = self.map_fn(value)
-            _insert(state_dict, path, new_value)
+            _insert(state_dict, path, new_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -94,7 +98,7 @@ class ChangeDefault(RewriteRule):
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
             _insert(state_dict, self.field, self.old_default, create_new=False)
         else:
-            _insert(state_dict, self.field, existing_value)
+            _insert(state_dict, self.field, existing_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
-- 
2.43.0


From 2c0ef1bead973ffcc1e146a1ce2f6f72c6ec4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:25 +0000
Subject: [PATCH 14/32] fix: use defaults filled in by upgrade rules for
 structs the document omits

The marked values were looked up only for fields without a default, and then
never used, so ChangeDefault and AddDefault on a field of an absent struct had
no effect (or loading failed with 'missing value').
---
 hyperstate/serde.py | 77 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 63 insertions(+), 14 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 8202c4c..206b330 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -17,7 +17,7 @@ from typing import (
     Union,
 )
 import inspect
-from dataclasses import MISSING, is_dataclass
+from dataclasses import MISSING, is_dataclass, replace
 import typing
 
 import pyron
@@ -277,7 +277,15 @@ def from_dict(
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
                 ignore_extra_fields=ignore_extra_fields,
             )
-        _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
+        _try_create_defaults(
+            clz,
+            kwargs,
+            remaining_fields,
+            fpath,
+            weak_refs,
+            deserializers,
+            ignore_extra_fields,
+        )
         try:
             instance = clz(**kwargs)  # type: ignore
             return instance
@@ -311,6 +319,8 @@ def _try_create_defaults(
     fpath: str,
     # weak_refs is values which should only be used if a dataclass is
     weak_refs: Dict[str, Any],
+    deserializers: List[Deserializer],
+    ignore_extra_fields: bool,
 ) -> Any:
     """
     Recursively initializes value for dataclass fields without default value with default constructor.
@@ -320,27 +330,34 @@ def _try_create_defaults(
     still_missing = []
     for _field_name in remaining_fields:
         field = cls.__dataclass_fields__.get(_field_name)
-        if field.default is MISSING and field.default_factory is MISSING:
+        _fpath = f"{fpath}.{_field_name}" if fpath else _field_name
+        weak_ref = weak_refs.get(_field_name, {WEAK_REF: True})
+        if not (isinstance(weak_ref, dict) and WEAK_REF in weak_ref):
+            kwargs[field.name] = from_dict(
+                field.type, weak_ref, deserializers, _fpath, ignore_extra_fields
+            )
+        elif field.default is MISSING and field.default_factory is MISSING:
             if is_dataclass(field.type):
-                _missing_defaults = [
-                    f.name
-                    for f in field.type.__dataclass_fields__.values()
-                    if f.default is MISSING and f.default_factory is MISSING
-                ]
                 _kwargs: Dict[str, Any] = {}
-                _weak_refs = weak_refs.get(_field_name, {})
                 _try_create_defaults(
                     field.type,
                     _kwargs,
-                    _missing_defaults,
-                    f"{fpath}.{_field_name}" if fpath else _field_name,
-                    weak_refs=_weak_refs,
+                    field.type.__dataclass_fields__.keys(),
+                    _fpath,
+                    weak_ref,
+                    deserializers,
+                    ignore_extra_fields,
                 )
                 kwargs[field.name] = field.type(**_kwargs)
             else:
                 still_missing.append(_field_name)
-        elif _field_name in weak_refs and WEAK_REF not in weak_refs[_field_name]:
-            kwargs[field.name] = weak_refs[_field_name]
+        elif _field_name in weak_refs:
+            default = (
+                field.default_factory() if field.default is MISSING else field.default
+            )
+            kwargs[field.name] = _replace_weak_refs(
+                default, weak_ref, _fpath, deserializers, ignore_extra_fields
+            )
 
     if len(still_missing) > 0:
         prefix = f"{fpath}." if fpath else ""
@@ -350,6 +367,38 @@ def _try_create_defaults(
         )
 
 
+def _replace_weak_refs(
+    default: Any,
+    weak_refs: Dict[str, Any],
+    fpath: str,
+    deserializers: List[Deserializer],
+    ignore_extra_fields: bool,
+) -> Any:
+    """
+    Replaces the values in a default instance for which `weak_refs` contains a value.
+    """
+    if not is_dataclass(default):
+        return default
+    values = {}
+    for field_name, field in default.__dataclass_fields__.items():
+        if field_name in weak_refs:
+            weak_ref = weak_refs[field_name]
+            _fpath = f"{fpath}.{field_name}"
+            if isinstance(weak_ref, dict) and WEAK_REF in weak_ref:
+                values[field_name] = _replace_weak_refs(
+                    getattr(default, field_name),
+                    weak_ref,
+                    _fpath,
+                    deserializers,
+                    ignore_extra_fields,
+                )
+            else:
+                values[field_name] = from_dict(
+                    field.type, weak_ref, deserializers, _fpath, ignore_extra_fields
+                )
+    return replace(default, **values)
+
+
 def loads(
     clz: Type[T],
     data: str,
-- 
2.43.0


From 47232d6dceabc2b39692b219225a48687253b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:26 +0000
Subject: [PATCH 15/32] fix: let overrides win over an older file

Overrides were applied before the upgrade rules, which then renamed, mapped or
rejected the overriding values as if they came from the file.
---
 hyperstate/hyperstate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 2d8a09a..a052eb5 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -22,6 +22,7 @@ import uuid
 from hyperstate.schema.types import Struct, materialize_type
 import hyperstate.schema.types as t
 
+from hyperstate.schema.rewrite_rule import WEAK_REF
 from hyperstate.schema.versioned import (
     Versioned,
     VersionedSerializer,
@@ -267,13 +268,12 @@ def _typed_load(
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
 ) -> Tuple[T, Dict[str, Any]]:
+    # Upgrade the file before overriding: overrides use the names of the current version
+    deserializers: List[Deserializer] = [VersionedDeserializer(allow_missing_version)]
     if overrides is not None:
-        deserializers: List[Deserializer] = [OverridesDeserializer(overrides)]
-    else:
-        deserializers = []
+        deserializers.append(OverridesDeserializer(overrides))
     schedules = ScheduleDeserializer()
     deserializers.append(schedules)
-    deserializers.append(VersionedDeserializer(allow_missing_version))
     lazy = None
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
@@ -409,6 +409,8 @@ class OverridesDeserializer(Deserializer):
                 if segment not in _value or _value[segment] is None:
                     _value[segment] = {}
                 _value = _value[segment]
+                # Defaults filled in by upgrade rules are used now that the struct is present
+                _value.pop(WEAK_REF, None)
             _value[fpath[-1]] = val
         if len(errors) == 1:
             raise errors[0]
-- 
2.43.0


From a36cc380f01758c45f59de1b06ff22c4ac25fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:59 +0000
Subject: [PATCH 16/32] fix: keep the rest of a struct's default when
 overriding one of its fields

Overriding a field of a struct that the file omits built the struct from the
class's defaults instead of from the default value of the field that holds it.
---
 hyperstate/hyperstate.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index a052eb5..0606bd8 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -17,7 +17,7 @@ from typing import (
     Tuple,
     Union,
 )
-from dataclasses import MISSING, dataclass
+from dataclasses import MISSING, dataclass, is_dataclass
 import uuid
 from hyperstate.schema.types import Struct, materialize_type
 import hyperstate.schema.types as t
@@ -405,12 +405,23 @@ class OverridesDeserializer(Deserializer):
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
-            for segment in fpath[:-1]:
-                if segment not in _value or _value[segment] is None:
-                    _value[segment] = {}
-                _value = _value[segment]
-                # Defaults filled in by upgrade rules are used now that the struct is present
-                _value.pop(WEAK_REF, None)
+            for i, segment in enumerate(fpath[:-1]):
+                struct = _value.get(segment, {WEAK_REF: True})
+                if struct is None:
+                    struct = {}
+                elif WEAK_REF in struct:
+                    # Not given in the file: start from the default value of the field
+                    # and any defaults that were filled in by upgrade rules
+                    default = schema.find_field(fpath[: i + 1]).default  # type: ignore
+                    if is_dataclass(default):
+                        struct = asdict(
+                            serde._replace_weak_refs(default, struct, key, [], False),
+                            serializers=[VersionedSerializer()],
+                        )
+                    else:
+                        del struct[WEAK_REF]
+                _value[segment] = struct
+                _value = struct
             _value[fpath[-1]] = val
         if len(errors) == 1:
             raise errors[0]
-- 
2.43.0


From 9c035b959b280bfc093a5231230702840bfaf603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:15 +0000
Subject: [PATCH 17/32] fix: allow overriding a field of a struct set by an
 earlier override

The earlier override's value is a namedtuple, which cannot be assigned to.
---
 hyperstate/hyperstate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 0606bd8..e2c2740 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -409,6 +409,9 @@ class OverridesDeserializer(Deserializer):
                 struct = _value.get(segment, {WEAK_REF: True})
                 if struct is None:
                     struct = {}
+                elif serde.isnamedtupleinstance(struct):
+                    # Set by an earlier override
+                    struct = struct._asdict()
                 elif WEAK_REF in struct:
                     # Not given in the file: start from the default value of the field
                     # and any defaults that were filled in by upgrade rules
-- 
2.43.0


From 8e066bf4e63668d9080207397ec15bb84b70a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:16 +0000
Subject: [PATCH 18/32] fix: compare struct fields and option contents in the
 right direction

is_subtype of Option and Struct tested the contained types the wrong way round,
so a change from float to int inside them was reported as compatible. For
structs, fields the other type adds or no longer has defaults for count too.
---
 hyperstate/schema/types.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 4b97aaa..c7a01f1 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -205,9 +205,13 @@ class Struct:
             isinstance(other, Struct)
             and all(
                 k in other.fields
-                and other.fields[k].type.is_subtype(self.fields[k].type)
+                and self.fields[k].type.is_subtype(other.fields[k].type)
+                and (_can_omit(other.fields[k]) or not _can_omit(self.fields[k]))
                 for k in self.fields
             )
+            and all(
+                k in self.fields or _can_omit(other.fields[k]) for k in other.fields
+            )
             or (isinstance(other, Option) and self.is_subtype(other.type))
         )
 
@@ -220,7 +224,7 @@ class Option:
         return f"Optional[{self.type}]"
 
     def is_subtype(self, other: Type) -> bool:
-        return isinstance(other, Option) and other.type.is_subtype(self.type)
+        return isinstance(other, Option) and self.type.is_subtype(other.type)
 
 
 @dataclass(eq=True, frozen=True)
@@ -339,6 +343,13 @@ def load_schema(path: str) -> Struct:
     return result
 
 
+def _can_omit(field: Field) -> bool:
+    return field.has_default or (
+        isinstance(field.type, Struct)
+        and all(_can_omit(f) for f in field.type.fields.values())
+    )
+
+
 def _unwrap_container_type(type: Type) -> Type:
     if isinstance(type, List):
         return _unwrap_container_type(type.inner)
-- 
2.43.0


From 442e0295f5692c8c406f79f6a626fe7b7d0bcab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 19/32] fix: match renamed enum variants within one field only

A variant removed from one enum and a similar variant added to another were
reported as a compatible rename, hiding the removal.
---
 hyperstate/schema/schema_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 433de3e..bcba31b 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -281,6 +281,8 @@ class SchemaChecker:
         def enum_similarity(
             added: EnumVariantAdded, removed: EnumVariantRemoved
         ) -> Optional[float]:
+            if removed.field != added.field:
+                return None
             return name_similarity(removed.variant, added.variant)
 
         def enum_renamed(
-- 
2.43.0


From 7e0ca4da990e829e8d4308ca25cf24d4ee4959ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 20/32] fix: let step schedules reach their last point

The interpolator always returned the initial value of the segment, so the value
of the last point was never used.
---
 hyperstate/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 950935b..7594186 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -15,7 +15,7 @@ T = TypeVar("T")
 INTERPOLATORS = {
     "lin": lambda x: 1 - x,
     "cos": lambda x: math.cos(x * math.pi) * 0.5 + 0.5,
-    "step": lambda _: 1,
+    "step": lambda x: 1 if x < 1 else 0,
 }
 
 
-- 
2.43.0


From 02f607c7418042f0a0fe9a558b1194642372dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:00 +0000
Subject: [PATCH 21/32] fix: keep the checkpoint when stepping without
 advancing its key

The previous checkpoint was removed even if it is the one just kept, so a second
step with the same key, or a step right after resuming, left no checkpoint.
---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index e2c2740..cd6c333 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -137,7 +137,7 @@ class StateManager(Generic[C, S]):
             )
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if self._last_checkpoint is not None:
+            if self._last_checkpoint not in (None, checkpoint_dir):
                 with tempfile.TemporaryDirectory() as tmpdir:
                     shutil.move(str(self._last_checkpoint), tmpdir)
             self._last_checkpoint = checkpoint_dir
-- 
2.43.0


From 586a6ff855e4538c77c4d50c2a4043d8831e7eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 22/32] fix: look only at automatic checkpoints for the latest
 one

A foreign directory ending in 12 digits hid the checkpoint to resume from if its
number was higher.
---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index cd6c333..e24f9dd 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -338,7 +338,7 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
     latest = None
     latest_dir = None
     for d in dir.iterdir():
-        if d.is_dir() and len(d.name) >= 12:
+        if d.is_dir() and d.name.startswith("latest") and len(d.name) >= 12:
             try:
                 if latest is None or int(d.name[-12:]) > latest:
                     latest = int(d.name[-12:])
-- 
2.43.0


From 36b6bdc994bf15d5b1b026a31ea620a20bb8cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:53 +0000
Subject: [PATCH 23/32] fix: check schemas with tuples, dicts and unions

They could be dumped, but loading or comparing the dumped schema raised
ValueError.
---
 hyperstate/schema/schema_checker.py | 17 +++++++++++++++++
 hyperstate/schema/types.py          |  8 ++++++++
 2 files changed, 25 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index bcba31b..880ca23 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -100,6 +100,23 @@ class SchemaChecker:
         elif isinstance(old, t.List):
             assert isinstance(new, t.List)
             self._find_changes(old.inner, new.inner, path)
+        elif isinstance(old, t.Tuple):
+            assert isinstance(new, t.Tuple)
+            if len(old.inner) != len(new.inner):
+                self.changes.append(TypeChanged(tuple(path), old, new))
+            else:
+                for old_inner, new_inner in zip(old.inner, new.inner):
+                    self._find_changes(old_inner, new_inner, path)
+        elif isinstance(old, t.Dict):
+            assert isinstance(new, t.Dict)
+            if old.key != new.key:
+                self.changes.append(TypeChanged(tuple(path), old, new))
+            else:
+                self._find_changes(old.val, new.val, path)
+        elif isinstance(old, t.Union):
+            assert isinstance(new, t.Union)
+            if old != new:
+                self.changes.append(TypeChanged(tuple(path), old, new))
         elif isinstance(old, t.Struct):
             assert isinstance(new, t.Struct)
             for name, field in new.fields.items():
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index c7a01f1..cf7b744 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -313,6 +313,14 @@ def schema_from_namedtuple(schema: Any) -> Type:
         return Primitive(schema.type)
     elif clz_name == "List":
         return List(schema_from_namedtuple(schema.inner))
+    elif clz_name == "Tuple":
+        return Tuple([schema_from_namedtuple(inner) for inner in schema.inner])
+    elif clz_name == "Dict":
+        return Dict(
+            schema_from_namedtuple(schema.key), schema_from_namedtuple(schema.val)
+        )
+    elif clz_name == "Union":
+        return Union([schema_from_namedtuple(inner) for inner in schema.types])
     elif clz_name == "Struct":
         fields = {}
         for name, field in schema.fields.items():
-- 
2.43.0


From 42333952dfa8d6f11e8c7839ddbca2368501ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:55 +0000
Subject: [PATCH 24/32] fix: dump and compare default values in their
 serialized form

Enums inside a default value could not be dumped to a schema, and defaults that
contain a dataclass never compared equal to their dumped form.
---
 hyperstate/schema/schema_checker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 880ca23..86f11bc 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -4,7 +4,6 @@ from dataclasses import is_dataclass
 from pathlib import Path
 import difflib
 
-import pyron
 import click
 
 from hyperstate.hyperstate import _typed_dump, _typed_load
@@ -25,6 +24,7 @@ from hyperstate.schema.schema_change import (
     TypeChanged,
 )
 from hyperstate.schema.versioned import Versioned
+from hyperstate.serde import asdict, dumps
 from .types import load_schema, materialize_type
 from . import types as t
 
@@ -167,7 +167,9 @@ class SchemaChecker:
                                         tuple(path + [name]), oldfield.default
                                     )
                                 )
-                        elif oldfield.has_default and oldfield.default != field.default:
+                        elif oldfield.has_default and asdict(
+                            oldfield.default, named_tuples=True
+                        ) != asdict(field.default, named_tuples=True):
                             self.changes.append(
                                 DefaultValueChanged(
                                     tuple(path + [name]),
@@ -394,7 +396,7 @@ def levenshtein(s1: str, s2: str) -> float:
 
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = pyron.to_string(materialize_type(type))
+    serialized = dumps(materialize_type(type))
     with open(filename, "w") as f:
         f.write(serialized)
 
-- 
2.43.0


From 8148754d7dd6433f02e2c30cebd6a6abd5fe9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:57 +0000
Subject: [PATCH 25/32] fix: remove a leftover breakpoint

An unsupported type dropped into the debugger instead of raising ValueError.
---
 hyperstate/schema/types.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index cf7b744..cac523c 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -294,7 +294,6 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif typing.get_origin(clz) == typing.Literal:
         return Literal(list(typing.get_args(clz)))
     else:
-        breakpoint()
         raise ValueError(f"Unsupported type: {clz}")
 
 
-- 
2.43.0


From 39b33dda83b7fa7208ac7d6f8413679cc734dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 26/32] fix: load the document that the upgrade rules return

Only in-place changes took effect: the result of a rule that returns a new
document was discarded, as was the namedtuple with its version removed.
---
 hyperstate/schema/versioned.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index aec72e4..66322de 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -77,6 +77,7 @@ class VersionedDeserializer(Deserializer):
                     )
             else:
                 value = clz._apply_upgrades(state_dict=value, version=version)
+            return value, True, False
         return None, False, False
 
 
-- 
2.43.0


From 144e25e6a50e3b73b4d3cc3cae32a27f3c57971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 27/32] fix: compare default values of struct fields by field
 name

Defaults were compared as tuples of field values, so reordering the fields of a
class looked like a changed default, and some changed defaults went unnoticed.
---
 hyperstate/schema/schema_checker.py | 32 +++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 86f11bc..078bafc 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -1,6 +1,7 @@
 from typing import Callable, List, Optional, Tuple, Any, Type
 import typing
 from dataclasses import is_dataclass
+from enum import Enum
 from pathlib import Path
 import difflib
 
@@ -24,7 +25,7 @@ from hyperstate.schema.schema_change import (
     TypeChanged,
 )
 from hyperstate.schema.versioned import Versioned
-from hyperstate.serde import asdict, dumps
+from hyperstate.serde import dumps, isnamedtupleinstance
 from .types import load_schema, materialize_type
 from . import types as t
 
@@ -167,9 +168,9 @@ class SchemaChecker:
                                         tuple(path + [name]), oldfield.default
                                     )
                                 )
-                        elif oldfield.has_default and asdict(
-                            oldfield.default, named_tuples=True
-                        ) != asdict(field.default, named_tuples=True):
+                        elif oldfield.has_default and _comparable(
+                            oldfield.default
+                        ) != _comparable(field.default):
                             self.changes.append(
                                 DefaultValueChanged(
                                     tuple(path + [name]),
@@ -353,6 +354,29 @@ class SchemaChecker:
                 )
 
 
+def _comparable(default: Any) -> Any:
+    """
+    Default values that were loaded from a schema file contain named tuples in place of dataclasses,
+    and values in place of enum variants.
+    """
+    if is_dataclass(default):
+        return default.__class__.__name__, {
+            name: _comparable(getattr(default, name))
+            for name in default.__dataclass_fields__
+        }
+    elif isnamedtupleinstance(default):
+        return default.__class__.__name__, {
+            name: _comparable(value) for name, value in default._asdict().items()
+        }
+    elif isinstance(default, (list, tuple)):
+        return [_comparable(value) for value in default]
+    elif isinstance(default, dict):
+        return {key: _comparable(value) for key, value in default.items()}
+    elif isinstance(default, Enum):
+        return default.value
+    return default
+
+
 def name_similarity(field1: str, field2: str) -> float:
     # Special cases
     # TODO: fold these into tweaked levenshtein with different costs for different edits
-- 
2.43.0


From a5a1cc545aa1bf76db829a8d76cd95f1df210750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:28 +0000
Subject: [PATCH 28/32] fix: close the upgraded config file

Without reference counting (PyPy) the file stayed empty until it was garbage collected.
---
 hyperstate/schema/schema_checker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 078bafc..825ac17 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -463,7 +463,8 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        open(filename, "w").write(upgraded_config)
+        with open(filename, "w") as f:
+            f.write(upgraded_config)
 
 
 CONFIG_CLZ: typing.Type[Any] = None  # type: ignore
-- 
2.43.0


From 6be86a7e9843a569a37c01793211533019bbba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:21 +0000
Subject: [PATCH 29/32] fix: remove the previous checkpoint atomically

When the temporary directory is on another filesystem, the previous checkpoint was
deleted file by file, and a crash left an incomplete checkpoint behind.
---
 hyperstate/hyperstate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index e24f9dd..9ffc61b 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -138,7 +138,8 @@ class StateManager(Generic[C, S]):
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
             if self._last_checkpoint not in (None, checkpoint_dir):
-                with tempfile.TemporaryDirectory() as tmpdir:
+                # On the same filesystem, so that the old checkpoint disappears atomically
+                with tempfile.TemporaryDirectory(dir=self.checkpoint_dir) as tmpdir:
                     shutil.move(str(self._last_checkpoint), tmpdir)
             self._last_checkpoint = checkpoint_dir
             # TODO: persistent checkpoints
-- 
2.43.0


From 73c15ac2ff92944092d1474d082bea35e2017820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:32 +0000
Subject: [PATCH 30/32] fix: keep values assigned to lazy fields that are not
 loaded yet

The first access after the assignment loaded the blob and dropped the assigned value.
---
 hyperstate/lazy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index f1843f7..6cd8f89 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -67,9 +67,13 @@ class Lazy:
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
             self.__setattr__(name, value)
-            del unloaded[name]
         return super(Lazy, self).__getattribute__(name)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        super(Lazy, self).__setattr__(name, value)
+        # The assigned value replaces the one that has not been loaded yet
+        self.__dict__.get("_unloaded_lazy_fields", {}).pop(name, None)
+
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
         """
         Add a value to the deserialization context.
-- 
2.43.0


From afc72174a73d0b8a93a218739a4e7fa3d366d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:53 +0000
Subject: [PATCH 31/32] fix: rules that cannot move a value leave weak
 references as they are

---
 hyperstate/schema/rewrite_rule.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index eec8957..d6a4a1a 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -31,7 +31,7 @@ class RenameField(RewriteRule):
         weak = isinstance(parent, dict) and WEAK_REF in parent
         value, ok = _remove(state_dict, self.old_field)
         if ok and not _insert(state_dict, self.new_field, value, create_new=not weak):
-            _insert(state_dict, self.old_field, value, create_new=not weak)
+            _insert(state_dict, self.old_field, value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -221,15 +221,21 @@ def _insert(
     create_new: bool = True,
 ) -> bool:
     assert len(path) > 0
+    # Leave everything as it is if the path leads through a value that is not a struct
+    parent = state_dict
     for field in path[:-1]:
-        if isinstance(state_dict, dict) and field not in state_dict:
+        if field not in parent:
+            break
+        parent = parent[field]
+        if not isinstance(parent, dict):
+            return False
+    for field in path[:-1]:
+        if field not in state_dict:
             if create_new:
                 state_dict[field] = {}
             else:
                 state_dict[field] = {WEAK_REF: True}
         state_dict = state_dict[field]
-        if not isinstance(state_dict, dict):
-            return False
         if create_new and WEAK_REF in state_dict:
             del state_dict[WEAK_REF]
     state_dict[path[-1]] = value
-- 
2.43.0


From cce4967bdb7618434c1ba96047dfa032fa96695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:20 +0000
Subject: [PATCH 32/32] fix: variants of different enums in one field were
 paired as a rename

---
 hyperstate/schema/schema_checker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 825ac17..3afdeb7 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -301,7 +301,11 @@ class SchemaChecker:
         def enum_similarity(
             added: EnumVariantAdded, removed: EnumVariantRemoved
         ) -> Optional[float]:
-            if removed.field != added.field:
+            # (there may be several enums in a field, e.g. in a tuple)
+            if (
+                removed.field != added.field
+                or removed.enum_name != added.enum_name
+            ):
                 return None
             return name_similarity(removed.variant, added.variant)
 
-- 
2.43.0

