From 3289621e0405a86be9e725b0c9ddd6dcbad4349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 01/33] fix: report alphabet validation errors at the path of
 the value

---
 d42/validation/_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 9724c45..e8a059c 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -224,7 +224,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             for letter in value:
                 if letter not in alphabet:
                     return result.add_error(
-                        AlphabetValidationError(PathHolder(), value, schema.props.alphabet))
+                        AlphabetValidationError(path, value, schema.props.alphabet))
 
         return result
 
-- 
2.43.0


From 7b93204ef5097b6d487ec293865ede9864d93e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 02/33] fix: do not deepcopy dict keys when building error
 paths

A key that can't be deep-copied made validate() raise, and a key compared
by identity was replaced by a copy, so the path no longer led to the value.
---
 d42/substitution/_validator.py |  5 ++---
 d42/validation/_formatter.py   |  4 ++--
 d42/validation/_validator.py   | 10 +++++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/d42/substitution/_validator.py b/d42/substitution/_validator.py
index 20cb90e..4de8de3 100644
--- a/d42/substitution/_validator.py
+++ b/d42/substitution/_validator.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Any
 
 from niltype import Nil, Nilable
@@ -48,7 +47,7 @@ class SubstitutorValidator(Validator):
             for index, elem in enumerate(value):
                 if is_ellipsis(elem) and (index == 0 or index == len(value) - 1):
                     continue
-                nested_path = deepcopy(path)[index]
+                nested_path = self._make_nested_path(path, index)
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -74,7 +73,7 @@ class SubstitutorValidator(Validator):
             if key in value:
                 if is_ellipsis(value[key]):
                     continue
-                nested_path = deepcopy(path)[key]
+                nested_path = self._make_nested_path(path, key)
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
 
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 362ed12..0bc326e 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -115,7 +115,7 @@ class Formatter(AbstractFormatter):
                 f"must match pattern {error.pattern!r}, but {error.actual_value!r} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
-        path = deepcopy(error.path)
+        path = deepcopy(error.path, {id(x): x for x in error.path})
         formatted_path = self._format_path(path[error.index])
         return f"Element {formatted_path} does not exist"
 
@@ -124,7 +124,7 @@ class Formatter(AbstractFormatter):
         return f"Value{formatted_path} contains extra element at index {error.index!r}"
 
     def format_missing_key_error(self, error: MissingKeyValidationError) -> str:
-        path = deepcopy(error.path)
+        path = deepcopy(error.path, {id(x): x for x in error.path})
         formatted_path = self._format_path(path[error.missing_key])
         return f"Key {formatted_path} does not exist"
 
diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index e8a059c..251f0c8 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -64,6 +64,10 @@ class Validator(SchemaVisitor[ValidationResult]):
     def make_path(self) -> PathHolder:
         return self._path_holder_factory()
 
+    def _make_nested_path(self, path: PathHolder, key: Any) -> PathHolder:
+        # operators are shared (not copied), since a key may be an object that can't be copied
+        return deepcopy(path, {id(x): x for x in path})[key]
+
     def _validate_type(self, path: PathHolder, value: Any,
                        expected_type: Type[Any]) -> Optional[ValidationError]:
         if not isinstance(value, expected_type):
@@ -91,7 +95,7 @@ class Validator(SchemaVisitor[ValidationResult]):
                 errors.append(MissingElementValidationError(path, value, real_index))
                 break
             else:
-                nested_path = deepcopy(path)[real_index]
+                nested_path = self._make_nested_path(path, real_index)
                 res = element_schema.__accept__(self, value=val, path=nested_path, **kwargs)
                 errors += res.get_errors()
         return errors
@@ -256,7 +260,7 @@ class Validator(SchemaVisitor[ValidationResult]):
         if schema.props.type is not Nil:
             type_schema = schema.props.type
             for index, elem in enumerate(value):
-                nested_path = deepcopy(path)[index]
+                nested_path = self._make_nested_path(path, index)
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -312,7 +316,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             if is_ellipsis(key):
                 continue
             if key in value:
-                nested_path = deepcopy(path)[key]
+                nested_path = self._make_nested_path(path, key)
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             else:
-- 
2.43.0


From f5b931328fdb14a6b4ac02f682d5f83930ad2d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 03/33] fix: validate non-finite floats

Comparing inf, nan or huge values at a precision raised; nan was accepted
within min/max bounds, and a fixed nan rejected itself.
---
 d42/validation/_validator.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 251f0c8..344a44e 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -1,7 +1,7 @@
 import re
 from copy import deepcopy
 from datetime import date, datetime
-from math import isclose
+from math import isclose, isfinite, isnan
 from typing import Any, Callable, List, Optional, Type, cast
 from uuid import UUID
 
@@ -80,6 +80,17 @@ class Validator(SchemaVisitor[ValidationResult]):
             return ValueValidationError(path, value, expected_val)
         return None
 
+    def _is_float_equal(self, actual: float, expected: float, precision: Nilable[int]) -> bool:
+        if isnan(actual) or isnan(expected):
+            return isnan(actual) and isnan(expected)
+        if precision is Nil:
+            return isclose(actual, expected)
+        scale_factor = 10 ** precision
+        scaled_actual, scaled_expected = actual * scale_factor, expected * scale_factor
+        if not (isfinite(scaled_actual) and isfinite(scaled_expected)):
+            return actual == expected
+        return round(scaled_actual) == round(scaled_expected)
+
     def _validate_elements(self,
                            path: PathHolder,
                            value: List[Any],
@@ -169,22 +180,15 @@ class Validator(SchemaVisitor[ValidationResult]):
             return result.add_error(error)
 
         if schema.props.value is not Nil:
-            if schema.props.precision is Nil:
-                if not isclose(value, schema.props.value):
-                    return result.add_error(ValueValidationError(path, value, schema.props.value))
-            else:
-                scale_factor = 10 ** schema.props.precision
-                scaled_actual = round(value * scale_factor)
-                scaled_expected = round(schema.props.value * scale_factor)
-                if not isclose(scaled_expected, scaled_actual, rel_tol=0, abs_tol=0):
-                    return result.add_error(ValueValidationError(path, value, schema.props.value))
+            if not self._is_float_equal(value, schema.props.value, schema.props.precision):
+                return result.add_error(ValueValidationError(path, value, schema.props.value))
 
         if schema.props.min is not Nil:
-            if value < schema.props.min:
+            if not (value >= schema.props.min):  # also rejects nan
                 result.add_error(MinValueValidationError(path, value, schema.props.min))
 
         if schema.props.max is not Nil:
-            if value > schema.props.max:
+            if not (value <= schema.props.max):  # also rejects nan
                 result.add_error(MaxValueValidationError(path, value, schema.props.max))
 
         return result
-- 
2.43.0


From a6144e30337793b151b27bcbc8e73cad26e4f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 04/33] fix: reject float bounds that contradict a fixed value
 when nan is involved

---
 d42/declaration/types/_float_schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d42/declaration/types/_float_schema.py b/d42/declaration/types/_float_schema.py
index 607f444..a03ec32 100644
--- a/d42/declaration/types/_float_schema.py
+++ b/d42/declaration/types/_float_schema.py
@@ -67,7 +67,7 @@ class FloatSchema(Schema[FloatProps]):
         if self.props.min is not Nil:
             raise make_already_declared_error(self)
 
-        if (self.props.value is not Nil) and (value > self.props.value):
+        if (self.props.value is not Nil) and not (value <= self.props.value):
             raise make_incorrect_min_error(self, self.props.value, value)
 
         return self.__class__(self.props.update(min=value))
@@ -79,7 +79,7 @@ class FloatSchema(Schema[FloatProps]):
         if self.props.max is not Nil:
             raise make_already_declared_error(self)
 
-        if (self.props.value is not Nil) and (value < self.props.value):
+        if (self.props.value is not Nil) and not (value >= self.props.value):
             raise make_incorrect_max_error(self, self.props.value, value)
 
         return self.__class__(self.props.update(max=value))
-- 
2.43.0


From df96d95bb009444d6e167cbd4c2f522c2897bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 05/33] fix: reject regex after len(..., max)

The reverse order was already rejected.
---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 637cb17..2cf70f6 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -179,7 +179,7 @@ class StrSchema(Schema[StrProps]):
 
         if (self.props.pattern is not Nil) or (self.props.alphabet is not Nil) or \
            (self.props.len is not Nil) or (self.props.min_len is not Nil) or \
-           (self.props.len is not Nil) or (self.props.substr is not Nil):
+           (self.props.max_len is not Nil) or (self.props.substr is not Nil):
             raise make_already_declared_error(self)
 
         try:
-- 
2.43.0


From cb13abc124c640475ff6e1f1cc91540d2a5abb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 06/33] fix: raise DeclarationError for patterns the re module
 refuses with other errors

---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 2cf70f6..6b92dbc 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -184,7 +184,7 @@ class StrSchema(Schema[StrProps]):
 
         try:
             re.compile(pattern)
-        except re.error as e:
+        except (re.error, ValueError, OverflowError, RecursionError) as e:
             message = f"Invalid pattern ({e})"
             raise DeclarationError(message) from None
 
-- 
2.43.0


From 84001ff880bf1ccbfd5866e2fbe1523a28e7f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 07/33] fix: build error messages for values that can't be
 represented

repr() of an int with more than 4300 digits (or of a hostile object) raises,
so rendering validation errors and raising DeclarationError failed.
---
 d42/declaration/_safe_repr.py         | 18 +++++++++++++
 d42/declaration/errors/__init__.py    | 18 ++++++++-----
 d42/declaration/types/_dict_schema.py |  5 ++--
 d42/validation/_formatter.py          | 39 +++++++++++++++++----------
 4 files changed, 57 insertions(+), 23 deletions(-)
 create mode 100644 d42/declaration/_safe_repr.py

diff --git a/d42/declaration/_safe_repr.py b/d42/declaration/_safe_repr.py
new file mode 100644
index 0000000..289157d
--- /dev/null
+++ b/d42/declaration/_safe_repr.py
@@ -0,0 +1,18 @@
+from typing import Any
+
+__all__ = ("safe_repr",)
+
+
+def safe_repr(value: Any) -> str:
+    """
+    Return `repr(value)`, or a fallback if the value can't be represented.
+
+    Python refuses to convert very large integers to decimal strings, and `__repr__`
+    of an arbitrary object may raise.
+    """
+    try:
+        return repr(value)
+    except Exception:
+        if type(value) is int:
+            return hex(value)
+        return object.__repr__(value)
diff --git a/d42/declaration/errors/__init__.py b/d42/declaration/errors/__init__.py
index 1dceac9..4da0905 100644
--- a/d42/declaration/errors/__init__.py
+++ b/d42/declaration/errors/__init__.py
@@ -1,5 +1,7 @@
 from typing import TYPE_CHECKING, Any, Sized, Tuple, Type
 
+from .._safe_repr import safe_repr
+
 if TYPE_CHECKING:
     from ..types import GenericSchema
 
@@ -25,7 +27,7 @@ def make_invalid_type_error(schema: "GenericSchema", value: Any,
     types_ = tuple(map(_get_type_name, types))
     if len(types) == 1:
         message = (f"`{schema!r}` value must be an instance of '{_get_type_name(types[0])}', "
-                   f"instance of {value_type_name!r} {value!r} given")
+                   f"instance of {value_type_name!r} {safe_repr(value)} given")
     else:
         message = (f"`{schema!r}` value must be an instance of {types_!r}, "
                    f"instance of {value_type_name!r} given")
@@ -39,38 +41,40 @@ def make_already_declared_error(schema: "GenericSchema") -> DeclarationError:
 
 def make_incorrect_min_error(schema: "GenericSchema",
                              value: Any, min_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` min value must be less than or equal to {value}, {min_value} given"
+    message = (f"`{schema!r}` min value must be less than or equal to {safe_repr(value)}, "
+               f"{safe_repr(min_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_error(schema: "GenericSchema",
                              value: Any, max_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` max value must be greater than or equal to {value}, {max_value} given"
+    message = (f"`{schema!r}` max value must be greater than or equal to {safe_repr(value)}, "
+               f"{safe_repr(max_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_len_error(schema: "GenericSchema",
                              value: Sized, length: int) -> DeclarationError:
-    message = f"`{schema!r}` len must be equal to {len(value)}, {length} given"
+    message = f"`{schema!r}` len must be equal to {len(value)}, {safe_repr(length)} given"
     return DeclarationError(message)
 
 
 def make_incorrect_min_len_error(schema: "GenericSchema",
                                  value: Sized, min_length: int) -> DeclarationError:
     message = (f"`{schema!r}` min len must be less than or equal to {len(value)}, "
-               f"{min_length} given")
+               f"{safe_repr(min_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_len_error(schema: "GenericSchema",
                                  value: Sized, max_length: int) -> DeclarationError:
     message = (f"`{schema!r}` max len must be greater than or equal to {len(value)}, "
-               f"{max_length} given")
+               f"{safe_repr(max_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_precision_error(schema: "GenericSchema",
                                    precision: int, max_precision: int) -> DeclarationError:
     message = (f"`{schema!r}` precision must be greater than 0 or less than {max_precision}, "
-               f"{precision} given")
+               f"{safe_repr(precision)} given")
     return DeclarationError(message)
diff --git a/d42/declaration/types/_dict_schema.py b/d42/declaration/types/_dict_schema.py
index e3e458c..2f28379 100644
--- a/d42/declaration/types/_dict_schema.py
+++ b/d42/declaration/types/_dict_schema.py
@@ -5,6 +5,7 @@ from niltype import Nil, Nilable
 
 from .._is_ellipsis import TypeOrEllipsis, is_ellipsis
 from .._props import Props
+from .._safe_repr import safe_repr
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
 from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
@@ -43,10 +44,10 @@ class DictSchema(Schema[DictProps]):
         for key, val in keys.items():
             if is_ellipsis(key) or is_ellipsis(val):
                 if not is_ellipsis(key):
-                    message = f"Inappropriate type of key {key!r} ({type(key)!r})"
+                    message = f"Inappropriate type of key {safe_repr(key)} ({type(key)!r})"
                     raise DeclarationError(message)
                 if not is_ellipsis(val):
-                    message = f"Inappropriate type of value {val!r} ({type(val)!r})"
+                    message = f"Inappropriate type of value {safe_repr(val)} ({type(val)!r})"
                     raise DeclarationError(message)
             else:
                 if not isinstance(val, Schema):
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 0bc326e..8f06a03 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -3,6 +3,8 @@ from typing import Any, Sequence
 
 from th import PathHolder
 
+from d42.declaration._safe_repr import safe_repr
+
 from ._abstract_formatter import AbstractFormatter
 from .errors import (
     AlphabetValidationError,
@@ -35,7 +37,11 @@ class Formatter(AbstractFormatter):
         return self._root
 
     def _format_path(self, path: PathHolder) -> str:
-        return str(path.__class__(self._root, [x for x in path]))
+        operators = [x for x in path]
+        try:
+            return str(path.__class__(self._root, operators))
+        except Exception:  # some key can't be represented
+            return self._root + "".join(f"[{safe_repr(x._operand)}]" for x in operators)
 
     def _at_path(self, path: PathHolder) -> str:
         return " at " + self._format_path(path) if len(path) > 0 else ""
@@ -49,28 +55,29 @@ class Formatter(AbstractFormatter):
     def format_type_error(self, error: TypeValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
-        return (f"Value {error.actual_value!r}{formatted_path} "
+        return (f"Value {safe_repr(error.actual_value)}{formatted_path} "
                 f"must be {error.expected_type}, but {actual_type} given")
 
     def format_value_error(self, error: ValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be equal to {error.expected_value!r}, but {error.actual_value!r} given")
+                f"must be equal to {safe_repr(error.expected_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_min_value_error(self, error: MinValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be greater than or equal to {error.min_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be greater than or equal to {safe_repr(error.min_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_max_value_error(self, error: MaxValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be less than or equal to {error.max_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be less than or equal to {safe_repr(error.max_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def _format_length_error(self, path: PathHolder, actual_value: Any,
                              length: int, accuracy: str) -> str:
@@ -80,7 +87,7 @@ class Formatter(AbstractFormatter):
         options = ("element", "elements")
         return (
             f"Value {actual_type}{formatted_path} "
-            f"must have {accuracy} {length} {self._pluralize(length, options)}, "
+            f"must have {accuracy} {safe_repr(length)} {self._pluralize(length, options)}, "
             f"but it has {actual_len} {self._pluralize(actual_len, options)}"
         )
 
@@ -100,19 +107,22 @@ class Formatter(AbstractFormatter):
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must contain only {error.alphabet!r}, but {error.actual_value!r} given")
+                f"must contain only {error.alphabet!r}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_substr_error(self, error: SubstrValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must contain {error.substr!r}, but {error.actual_value!r} given")
+                f"must contain {error.substr!r}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_regex_error(self, error: RegexValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match pattern {error.pattern!r}, but {error.actual_value!r} given")
+                f"must match pattern {error.pattern!r}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
         path = deepcopy(error.path, {id(x): x for x in error.path})
@@ -130,17 +140,18 @@ class Formatter(AbstractFormatter):
 
     def format_extra_key_error(self, error: ExtraKeyValidationError) -> str:
         formatted_path = self._at_path(error.path)
-        return f"Value{formatted_path} contains extra key {error.extra_key!r}"
+        return f"Value{formatted_path} contains extra key {safe_repr(error.extra_key)}"
 
     def format_schema_missmatch_error(self, error: SchemaMismatchValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match any of {error.expected_schemas!r}, but {error.actual_value!r} given")
+                f"must match any of {safe_repr(error.expected_schemas)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_invalid_uuid_version_error(self, error: InvalidUUIDVersionValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
                 f"must be a UUID version {error.expected_version!r}, "
-                f"but {error.actual_value!r} version {error.actual_version!r} given")
+                f"but {safe_repr(error.actual_value)} version {error.actual_version!r} given")
-- 
2.43.0


From bbc4a7e99945cec4733d292940c7d371f7ff321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 08/33] fix: represent non-finite floats and very large ints as
 evaluable source

repr() gave inf and nan, which are not defined names, and failed for ints
with more than 4300 digits.
---
 d42/representation/_representor.py | 42 ++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index f9cd100..f7892f0 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -1,3 +1,4 @@
+from math import isfinite, isnan
 from typing import Any, cast
 
 from niltype import Nil
@@ -32,6 +33,17 @@ class Representor(SchemaVisitor[str]):
     def name(self) -> str:
         return self._name
 
+    def _represent_number(self, value: Any) -> str:
+        if isinstance(value, float) and not isfinite(value):
+            # there are no literals for non-finite floats
+            if isnan(value):
+                return "1e999 - 1e999"
+            return "1e999" if value > 0 else "-1e999"
+        try:
+            return repr(value)
+        except ValueError:  # exceeds the limit for integer string conversion
+            return hex(value)
+
     def visit(self, schema: GenericSchema, *, indent: int = 0, **kwargs: Any) -> str:
         if represent_method := getattr(schema, "__d42_represent__", None):
             return cast(str, represent_method(self, indent=indent, **kwargs))
@@ -51,13 +63,13 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.int"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_number(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({self._represent_number(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({self._represent_number(schema.props.max)})"
 
         return r
 
@@ -65,13 +77,13 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.float"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_number(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({self._represent_number(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({self._represent_number(schema.props.max)})"
 
         if schema.props.precision is not Nil:
             r += f".precision({schema.props.precision!r})"
@@ -94,13 +106,14 @@ class Representor(SchemaVisitor[str]):
             r += f".regex({schema.props.pattern!r})"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({self._represent_number(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += f".len({self._represent_number(schema.props.min_len)}, "
+            r += f"{self._represent_number(schema.props.max_len)})"
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({self._represent_number(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {self._represent_number(schema.props.max_len)})"
 
         return r
 
@@ -124,13 +137,14 @@ class Representor(SchemaVisitor[str]):
             r += "\n" + " " * indent + "])"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({self._represent_number(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += f".len({self._represent_number(schema.props.min_len)}, "
+            r += f"{self._represent_number(schema.props.max_len)})"
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({self._represent_number(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {self._represent_number(schema.props.max_len)})"
 
         return r
 
-- 
2.43.0


From 448409dfe6175b09afb12f7b3f7586385bb6a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 09/33] fix: keep len of an empty list in its representation

---
 d42/representation/_representor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index f7892f0..c189769 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -123,8 +123,6 @@ class Representor(SchemaVisitor[str]):
         if schema.props.type is not Nil:
             r += "({})".format(schema.props.type.__accept__(self, indent=indent, **kwargs))
         elif schema.props.elements is not Nil:
-            if len(schema.props.elements) == 0:
-                return r + "([])"
             elems = []
             for element in schema.props.elements:
                 if is_ellipsis(element):
@@ -132,9 +130,12 @@ class Representor(SchemaVisitor[str]):
                 else:
                     elem = element.__accept__(self, indent=indent + self._indent, **kwargs)
                 elems.append(" " * (indent + self._indent) + elem)
-            r += "([\n"
-            r += ",\n".join(elems)
-            r += "\n" + " " * indent + "])"
+            if len(elems) == 0:
+                r += "([])"
+            else:
+                r += "([\n"
+                r += ",\n".join(elems)
+                r += "\n" + " " * indent + "])"
 
         if schema.props.len is not Nil:
             r += f".len({self._represent_number(schema.props.len)})"
-- 
2.43.0


From 18c1706fbe3063aef5b578d08f66c66dbee17bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 10/33] fix: copy the list passed to schema.list

Mutating it later changed the schema.
---
 d42/declaration/types/_list_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_list_schema.py b/d42/declaration/types/_list_schema.py
index 0a98931..c13761b 100644
--- a/d42/declaration/types/_list_schema.py
+++ b/d42/declaration/types/_list_schema.py
@@ -84,7 +84,7 @@ class ListSchema(Schema[ListProps]):
            is_ellipsis(elements_or_type[0]) and is_ellipsis(elements_or_type[-1]):
             raise DeclarationError("`...` must be first or last element")
 
-        return self.__class__(self.props.update(elements=elements_or_type))
+        return self.__class__(self.props.update(elements=list(elements_or_type)))
 
     def __declare_len(self, props: ListProps, length: Any) -> ListProps:
         if not isinstance(length, int):
-- 
2.43.0


From 7e15ab3461384412b3174616aca2bd3678fd9301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 11/33] fix: generate enough elements for lists with ... and a
 declared len

---
 d42/generation/_generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index ac1b55b..f2bcccc 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -122,6 +122,13 @@ class Generator(SchemaVisitor[Any]):
                 if is_ellipsis(elem):
                     continue
                 elements.append(elem.__accept__(self, **kwargs))
+
+            if any(is_ellipsis(elem) for elem in schema.props.elements):
+                length = schema.props.len if (schema.props.len is not Nil) else schema.props.min_len
+                if (length is not Nil) and (len(elements) < length):
+                    extra: List[Any] = [[] for _ in range(length - len(elements))]
+                    is_head = not is_ellipsis(schema.props.elements[0])
+                    elements = elements + extra if is_head else extra + elements
             return elements
 
         is_length_specified = False
-- 
2.43.0


From ed81c7d763f08378ea7c1442859f5549350c2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 12/33] fix: keep default generation bounds consistent with
 declared ones

fake() raised when the declared min (or min len) was above the default max.
---
 d42/generation/_generator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index f2bcccc..f018700 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -70,6 +70,10 @@ class Generator(SchemaVisitor[Any]):
 
         min_value = schema.props.min if (schema.props.min is not Nil) else INT_MIN
         max_value = schema.props.max if (schema.props.max is not Nil) else INT_MAX
+        if schema.props.max is Nil:
+            max_value = max(min_value, max_value)
+        elif schema.props.min is Nil:
+            min_value = min(min_value, max_value)
         return self._random.random_int(min_value, max_value)
 
     def visit_float(self, schema: FloatSchema, **kwargs: Any) -> float:
@@ -78,6 +82,10 @@ class Generator(SchemaVisitor[Any]):
 
         min_value = schema.props.min if (schema.props.min is not Nil) else FLOAT_MIN
         max_value = schema.props.max if (schema.props.max is not Nil) else FLOAT_MAX
+        if schema.props.max is Nil:
+            max_value = max(min_value, max_value)
+        elif schema.props.min is Nil:
+            min_value = min(min_value, max_value)
         precision = schema.props.precision if (schema.props.precision is not Nil) else Nil
 
         if precision is not Nil:
@@ -97,6 +105,8 @@ class Generator(SchemaVisitor[Any]):
         else:
             min_length = schema.props.min_len if (schema.props.min_len is not Nil) else STR_LEN_MIN
             max_length = schema.props.max_len if (schema.props.max_len is not Nil) else STR_LEN_MAX
+            if schema.props.max_len is Nil:
+                max_length = max(min_length, max_length)
             if schema.props.substr is not Nil:
                 min_length = max(min_length, len(schema.props.substr))
                 max_length = max(max_length, len(schema.props.substr))
@@ -144,6 +154,8 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.max_len is not Nil:
                 max_length = schema.props.max_len
                 is_length_specified = True
+            else:
+                max_length = max(min_length, max_length)
             length = self._random.random_int(min_length, max_length)
 
         if schema.props.type is not Nil:
-- 
2.43.0


From c4fe27479d02c70e002c032be9eeb3e5f73ba0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 13/33] fix: generate the only possible string for an empty
 alphabet

---
 d42/generation/_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index f018700..9977340 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -110,6 +110,8 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.substr is not Nil:
                 min_length = max(min_length, len(schema.props.substr))
                 max_length = max(max_length, len(schema.props.substr))
+            if schema.props.alphabet == "":
+                max_length = min_length
             length = self._random.random_int(min_length, max_length)
 
         if schema.props.alphabet is not Nil:
-- 
2.43.0


From 7a202019fdb54a0e359c5a27c39056ef32e4cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 14/33] fix: keep generated floats within their bounds

With a precision, bounds were truncated towards zero, so values fell outside
of them; infinite and very wide ranges gave inf, nan or raised.
---
 d42/generation/_random.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/d42/generation/_random.py b/d42/generation/_random.py
index aeb3873..e84c2d4 100644
--- a/d42/generation/_random.py
+++ b/d42/generation/_random.py
@@ -1,4 +1,7 @@
 import random
+import sys
+from fractions import Fraction
+from math import ceil, floor
 from typing import Any, List, Sequence, TypeVar, cast
 
 from niltype import Nil, Nilable
@@ -20,15 +23,23 @@ class Random:
         if start > end:
             raise ValueError("random_float: start must be <= end")
 
-        if precision is Nil:
-            return random.uniform(start, end)
-
-        scale_factor = 10 ** precision
-        left_number = int(start * scale_factor)
-        right_number = int(end * scale_factor)
-
-        result = cast(float, self.random_int(left_number, right_number) / scale_factor)
-        return round(result, precision)
+        if start == end:
+            return start
+        start, end = max(start, -sys.float_info.max), min(end, sys.float_info.max)
+
+        if precision is not Nil:
+            scale_factor = 10 ** precision
+            left_number = ceil(Fraction(start) * scale_factor)
+            right_number = floor(Fraction(end) * scale_factor)
+            if left_number <= right_number:
+                result = cast(float, self.random_int(left_number, right_number) / scale_factor)
+                return round(result, precision)
+
+        if end - start > sys.float_info.max:
+            result = random.uniform(start / 2, end / 2) * 2
+        else:
+            result = random.uniform(start, end)
+        return min(max(result, start), end)
 
     def random_str(self, length: int, alphabet: str) -> str:
         return "".join(random.choice(alphabet) for _ in range(length))
-- 
2.43.0


From c242c54c06167fc1ec9a28d838e50e391115c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 15/33] fix: keep the upper bound of a regex repeat equal to an
 opcode number

---
 d42/generation/_regex_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 428c229..cec2b25 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -111,7 +111,7 @@ class RegexGenerator:
 
     def _generate_max_repeat(self, value: Tuple[int, int, List[Any]]) -> str:
         min_count, max_count, val = value
-        if max_count in (MAX_REPEAT, MAXREPEAT):
+        if max_count == MAXREPEAT:
             max_count = max(self._max_repeat, min_count)
         count = self._random.random_int(min_count, max_count)
         return "".join(self._generate_pattern(val) for _ in range(count))
-- 
2.43.0


From 35eda6d47bd6bf6333d70cae51e853f8240ab8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 16/33] fix: generate for negated classes that exclude every
 letter

---
 d42/generation/_regex_generator.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index cec2b25..8ed2932 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -40,6 +40,7 @@ else:
         SUBPATTERN,
     )
 
+from itertools import islice
 from typing import Any, Dict, List, Optional, Tuple
 
 from ._random import Random
@@ -104,8 +105,31 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
+        if not letters:
+            letters = self._get_not_in_letters(value)
         return self._random.random_choice(letters)
 
+    def _get_not_in_letters(self, value: List[Any], limit: int = 32) -> str:
+        def is_excluded(letter: str) -> bool:
+            for opcode, val in value:
+                if opcode == RANGE:
+                    if val[0] <= ord(letter) <= val[1]:
+                        return True
+                elif opcode == CATEGORY:
+                    if val == CATEGORY_DIGIT and letter.isdigit():
+                        return True
+                    if val == CATEGORY_WORD and (letter.isalnum() or letter == "_"):
+                        return True
+                elif ord(letter) == val:
+                    return True
+            return False
+
+        letters = (chr(x) for x in range(sys.maxunicode + 1) if not 0xD800 <= x <= 0xDFFF)
+        allowed = "".join(islice((x for x in letters if not is_excluded(x)), limit))
+        if not allowed:
+            raise ValueError("Negated character class excludes all characters")
+        return allowed
+
     def _generate_not_literal(self, value: int) -> str:
         return self._generate_not_in([(LITERAL, value)])
 
-- 
2.43.0


From fc9c33146c347d0eea430ab0f633f2af3eaebef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 17/33] fix: make negated classes reproducible for a given seed

---
 d42/generation/_regex_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 8ed2932..a544eb2 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -107,7 +107,9 @@ class RegexGenerator:
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
         if not letters:
             letters = self._get_not_in_letters(value)
-        return self._random.random_choice(letters)
+        # Set order depends on hash randomization, so only the drawn position is used
+        index = letters.index(self._random.random_choice(letters))
+        return sorted(letters)[index]
 
     def _get_not_in_letters(self, value: List[Any], limit: int = 32) -> str:
         def is_excluded(letter: str) -> bool:
-- 
2.43.0


From 2c69abe8f6ccc599b87499db05003f0cd7148ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 18/33] fix: reject UUIDs of other versions in uuid4
 declarations

---
 d42/declaration/types/_uuid4_schema.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/d42/declaration/types/_uuid4_schema.py b/d42/declaration/types/_uuid4_schema.py
index c0a30a0..7c92053 100644
--- a/d42/declaration/types/_uuid4_schema.py
+++ b/d42/declaration/types/_uuid4_schema.py
@@ -6,7 +6,7 @@ from niltype import Nil, Nilable
 from .._props import Props
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
-from ..errors import make_already_declared_error, make_invalid_type_error
+from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
 from ._schema import Schema
 
 __all__ = ("UUID4Schema", "UUID4Props",)
@@ -29,4 +29,7 @@ class UUID4Schema(Schema[UUID4Props]):
         if self.props.value is not Nil:
             raise make_already_declared_error(self)
 
+        if value.version != 4:
+            raise DeclarationError(f"`{self!r}` value must be a version 4 UUID, {value!r} given")
+
         return self.__class__(self.props.update(value=value))
-- 
2.43.0


From 46401f1e8af60ed1c3ea0a0ac4e4b0f945a42c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 19/33] fix: reject alias targets that are not schemas

---
 d42/declaration/_schema_facade.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d42/declaration/_schema_facade.py b/d42/declaration/_schema_facade.py
index dc15130..0b4edc6 100644
--- a/d42/declaration/_schema_facade.py
+++ b/d42/declaration/_schema_facade.py
@@ -1,5 +1,6 @@
 from typing import Any
 
+from .errors import make_invalid_type_error
 from .types import (
     AnySchema,
     BoolSchema,
@@ -12,6 +13,7 @@ from .types import (
     IntSchema,
     ListSchema,
     NoneSchema,
+    Schema,
     StrSchema,
     TypeAliasProps,
     TypeAliasSchema,
@@ -23,6 +25,8 @@ __all__ = ("SchemaFacade",)
 
 class SchemaFacade:
     def alias(self, /, name: str, type_: GenericSchema) -> TypeAliasSchema:
+        if not isinstance(type_, Schema):
+            raise make_invalid_type_error(TypeAliasSchema(), type_, (Schema,))
         props = TypeAliasProps()
         return TypeAliasSchema(props.update(name=name, type=type_))
 
-- 
2.43.0


From 6800469a7cd48ddcfc1557b51963083cdfec7af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 20/33] fix: keep the fixed value of a float when a close one
 is substituted

---
 d42/substitution/_substitutor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 93f4c15..9c7e56f 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -77,6 +77,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         result = schema.__accept__(self._validator, value=value)
         if result.has_errors():
             raise make_substitution_error(result, self._formatter)
+        if (schema.props.value is not Nil) and (schema.props.precision is Nil):
+            # Closeness is not transitive, so a merely close value would widen the schema
+            return schema.__class__(schema.props)
         return schema.__class__(schema.props.update(value=value))
 
     def visit_str(self, schema: StrSchema, *, value: Any = Nil, **kwargs: Any) -> StrSchema:
-- 
2.43.0


From 8e8d89090bd8e72089ec98c1a7cfcdde86d664ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 21/33] fix: refuse ... and optional keys in from_native with
 ValueError

---
 d42/utils/_from_native.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d42/utils/_from_native.py b/d42/utils/_from_native.py
index b281e5f..c11b371 100644
--- a/d42/utils/_from_native.py
+++ b/d42/utils/_from_native.py
@@ -2,6 +2,7 @@ from datetime import date, datetime
 from typing import Any
 from uuid import UUID
 
+from d42.declaration._is_ellipsis import is_ellipsis
 from d42.declaration.types import (
     BoolSchema,
     BytesSchema,
@@ -15,6 +16,7 @@ from d42.declaration.types import (
     NoneSchema,
     StrSchema,
     UUID4Schema,
+    optional,
 )
 
 __all__ = ("from_native",)
@@ -34,6 +36,8 @@ def from_native(value: Any) -> GenericSchema:
     elif isinstance(value, list):
         return ListSchema()([from_native(x) for x in value])
     elif isinstance(value, dict):
+        if any(is_ellipsis(key) or isinstance(key, optional) for key in value):
+            raise ValueError(value)
         return DictSchema()({key: from_native(val) for key, val in value.items()})
     elif isinstance(value, bytes):
         return BytesSchema()(value)
-- 
2.43.0


From e945a58ba8723413da61ed9cfbae65ede6322385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 22/33] fix: refuse recursive values in from_native with
 ValueError

---
 d42/utils/_from_native.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/d42/utils/_from_native.py b/d42/utils/_from_native.py
index c11b371..6f54c2e 100644
--- a/d42/utils/_from_native.py
+++ b/d42/utils/_from_native.py
@@ -23,6 +23,13 @@ __all__ = ("from_native",)
 
 
 def from_native(value: Any) -> GenericSchema:
+    try:
+        return _from_native(value)
+    except RecursionError:
+        raise ValueError("Value is recursive or nested too deeply")
+
+
+def _from_native(value: Any) -> GenericSchema:
     if value is None:
         return NoneSchema()
     elif isinstance(value, bool):
@@ -34,11 +41,11 @@ def from_native(value: Any) -> GenericSchema:
     elif isinstance(value, str):
         return StrSchema()(value)
     elif isinstance(value, list):
-        return ListSchema()([from_native(x) for x in value])
+        return ListSchema()([_from_native(x) for x in value])
     elif isinstance(value, dict):
         if any(is_ellipsis(key) or isinstance(key, optional) for key in value):
             raise ValueError(value)
-        return DictSchema()({key: from_native(val) for key, val in value.items()})
+        return DictSchema()({key: _from_native(val) for key, val in value.items()})
     elif isinstance(value, bytes):
         return BytesSchema()(value)
     elif isinstance(value, UUID) and (value.version == 4):
-- 
2.43.0


From 951137bc57de3f88cdc60b9e754a920b58a80deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 23/33] fix: raise SubstitutionError when no alternative of any
 is left

---
 d42/substitution/_substitutor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 9c7e56f..2ad1367 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -3,6 +3,7 @@ from typing import Any, Dict, List, Optional, cast
 from niltype import Nil
 
 from d42.declaration import SchemaVisitor
+from d42.declaration._safe_repr import safe_repr
 from d42.declaration.types import (
     AnySchema,
     BoolSchema,
@@ -47,7 +48,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         try:
             return from_native(value)
         except ValueError:
-            raise SubstitutionError(f"Can't convert {value!r} to schema")
+            raise SubstitutionError(f"Can't convert {safe_repr(value)} to schema")
 
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
@@ -187,7 +188,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     keys[key] = (val, is_optional)
             for key, val in value.items():
                 if key not in schema.props.keys:
-                    raise SubstitutionError(f"Unknown key {key!r}")
+                    raise SubstitutionError(f"Unknown key {safe_repr(key)}")
 
         return schema.__class__(schema.props.update(keys=keys))
 
@@ -207,6 +208,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     types.append(substituted)
+            if len(types) == 0:
+                raise SubstitutionError(f"Can't substitute {safe_repr(value)} into `{schema!r}`")
         return schema.__class__(schema.props.update(types=tuple(types)))
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
-- 
2.43.0


From b8c391f72383457a36cf67d961492a1cb53028dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 24/33] fix: raise SubstitutionError for lists that can't be
 substituted

---
 d42/substitution/_substitutor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 2ad1367..21dbf06 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -117,6 +117,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
 
         if len(value) > 0 and all(is_ellipsis(x) for x in value):
             raise SubstitutionError("Can't substitute all ...")
+        if any(is_ellipsis(x) for x in value[1:-1]):
+            raise SubstitutionError("`...` must be first or last element")
 
         if (schema.props.elements is Nil) and (schema.props.type is Nil):
             elements = []
@@ -136,7 +138,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
             return schema.__class__(schema.props.update(elements=elements, type=Nil))
 
         elements = cast(List[GenericSchema], schema.props.elements)
-        if ... in value:
+        if any(is_ellipsis(x) for x in value):
             raise SubstitutionError("Can't substitute ...")
 
         # body
@@ -148,6 +150,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     return schema.__class__(schema.props.update(elements=substituted))
+            raise SubstitutionError(f"Can't substitute {safe_repr(value)} into `{schema!r}`")
 
         # head
         if (len(elements) >= 2) and is_ellipsis(elements[-1]):
-- 
2.43.0


From 52ae1cb565fe8e564c5a7f76212db59065514b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 25/33] fix: raise SubstitutionError for misplaced ... in a
 substituted dict

---
 d42/substitution/_substitutor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 21dbf06..dcfd35f 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -175,6 +175,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         keys: Dict[Any, Any] = {}
         if schema.props.keys is Nil or (len(schema.props.keys) == 1 and ... in schema.props.keys):
             for key, val in value.items():
+                if is_ellipsis(key) != is_ellipsis(val):
+                    raise SubstitutionError("Can't substitute ...")
                 keys[key] = (... if is_ellipsis(val) else self._from_native(val), False)
             if (schema.props.keys is not Nil) and (... in schema.props.keys):
                 keys[...] = (..., False)
-- 
2.43.0


From aa6e0fd97de489e57d4392bc69f6541a7bdc7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 26/33] fix: compare schemas structurally when they contain
 markers or nested schemas

---
 d42/declaration/_props.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/d42/declaration/_props.py b/d42/declaration/_props.py
index 8a3261a..1d897b9 100644
--- a/d42/declaration/_props.py
+++ b/d42/declaration/_props.py
@@ -7,6 +7,28 @@ __all__ = ("Props", "PropsType",)
 PropsType = TypeVar("PropsType", bound="Props")
 
 
+def _is_equal(left: Any, right: Any) -> bool:
+    """
+    Compare prop values structurally.
+
+    A schema compared with anything but a schema validates it, so nested schemas
+    must never be compared with `...`, `Nil` or other markers using `==`.
+    """
+    from .types import Schema
+
+    if left is right:
+        return True
+    if isinstance(left, Schema) or isinstance(right, Schema):
+        return isinstance(left, Schema) and isinstance(right, Schema) and (left == right)
+    if isinstance(left, (list, tuple)) and type(left) is type(right):
+        return len(left) == len(right) and all(map(_is_equal, left, right))
+    if isinstance(left, dict) and isinstance(right, dict):
+        return left.keys() == right.keys() and all(_is_equal(left[k], right[k]) for k in left)
+    if isinstance(left, float) and isinstance(right, float) and left != left:
+        return right != right
+    return bool(left == right)
+
+
 class Props:
     def __init__(self, registry: Nilable[Mapping[str, Any]] = Nil) -> None:
         self._registry = registry if (registry is not Nil) else {}
@@ -34,12 +56,12 @@ class Props:
 
         for key, val in self._registry.items():
             other_val = other.get(key)
-            if val != other_val:
+            if not _is_equal(val, other_val):
                 return False
 
         for key, other_val in other._registry.items():
             val = self.get(key)
-            if other_val != val:
+            if not _is_equal(other_val, val):
                 return False
 
         return True
-- 
2.43.0


From 25e516420ca232eb8a0c5acfd272dad93c47f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 27/33] fix: keep statements that share a line with a rewritten
 import

---
 d42/migration/migrate_v1_to_v2.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 65560f5..932f407 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 import ast
 import os
+import re
 from collections import defaultdict
 from typing import Dict, Tuple, Union
 
@@ -136,7 +137,8 @@ MappingType = Dict[str, Dict[str, Tuple[str, str]]]
 
 
 def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
-    lines = source_code.splitlines(keepends=True)
+    # Unlike str.splitlines, the parser breaks lines at \r and \n only
+    lines = re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", source_code)
     tree = ast.parse(source_code)
     replacements = []
 
@@ -164,22 +166,31 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
             replacement_lines = []
             for new_module, names in new_imports.items():
                 names_str = ', '.join(names)
-                replacement_lines.append(f'from {new_module} import {names_str}\n')
+                replacement_lines.append(f'from {new_module} import {names_str}')
             if unmapped_names:
                 names_str = ', '.join(unmapped_names)
-                replacement_lines.append(f'from {module} import {names_str}\n')
+                replacement_lines.append(f'from {module} import {names_str}')
 
             # Get line numbers
             start_line = node.lineno - 1  # Convert to 0-based index
-            end_line = getattr(node, 'end_lineno', node.lineno) - 1
-            replacements.append((start_line, end_line, replacement_lines))
+            end_line = (node.end_lineno or node.lineno) - 1
+            # Keep everything around the statement, e.g. other statements on the same line
+            # (columns are byte offsets)
+            prefix = lines[start_line].encode()[:node.col_offset].decode()
+            suffix = lines[end_line].encode()[node.end_col_offset:].decode()
+            is_alone = (prefix.strip() == "") and (suffix.strip() == "" or suffix.strip()[0] == "#")
+            separator = "\n" if is_alone else "; "
+            replacements.append((start_line, node.col_offset, end_line, node.end_col_offset,
+                                 separator.join(replacement_lines)))
 
     if len(replacements) == 0:
         return None
 
     # Apply replacements in reverse order to maintain line indices
-    for start_line, end_line, replacement_lines in reversed(replacements):
-        lines[start_line:end_line+1] = replacement_lines
+    for start_line, start_col, end_line, end_col, replacement in reversed(replacements):
+        prefix = lines[start_line].encode()[:start_col].decode()
+        suffix = lines[end_line].encode()[end_col:].decode()
+        lines[start_line:end_line+1] = [prefix + replacement + suffix]
 
     return ''.join(lines)
 
-- 
2.43.0


From 5fcbeaf8a755e845cf0583315a1bc9197c7bbdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 28/33] fix: keep the order of names bound twice by a rewritten
 import

---
 d42/migration/migrate_v1_to_v2.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 932f407..6ab4f17 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -164,6 +164,15 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
 
             # Build replacement lines
             replacement_lines = []
+            local_names = [alias.asname or alias.name for alias in node.names]
+            if len(local_names) != len(set(local_names)):
+                # The last binding of a name wins, so the order must be kept
+                for alias in node.names:
+                    new_module, new_name = mapping.get(module, {}).get(
+                        alias.name, (module, alias.name))
+                    import_name = f"{new_name} as {alias.asname}" if alias.asname else new_name
+                    replacement_lines.append(f'from {new_module} import {import_name}')
+                new_imports, unmapped_names = defaultdict(list), []
             for new_module, names in new_imports.items():
                 names_str = ', '.join(names)
                 replacement_lines.append(f'from {new_module} import {names_str}')
-- 
2.43.0


From fa0ea89d350fc33ad79402d819f3a55774af36aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 29/33] fix: represent dict keys and values that are not
 literals of their own (C06)

---
 d42/representation/_representor.py | 60 ++++++++++++++++++------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index c189769..057b6b0 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -44,6 +44,19 @@ class Representor(SchemaVisitor[str]):
         except ValueError:  # exceeds the limit for integer string conversion
             return hex(value)
 
+    def _represent_value(self, value: Any) -> str:
+        # subclasses (such as enum mixins) are equal to literals, but may have any `__repr__`
+        if isinstance(value, (int, float)) and not isinstance(value, bool):
+            return self._represent_number(float(value) if isinstance(value, float) else int(value))
+        if isinstance(value, str):
+            return str.__repr__(value)
+        if isinstance(value, bytes):
+            return bytes.__repr__(value)
+        if type(value) is tuple:
+            items = [self._represent_value(x) for x in value]
+            return "({})".format(", ".join(items) + ("," if len(items) == 1 else ""))
+        return repr(value)
+
     def visit(self, schema: GenericSchema, *, indent: int = 0, **kwargs: Any) -> str:
         if represent_method := getattr(schema, "__d42_represent__", None):
             return cast(str, represent_method(self, indent=indent, **kwargs))
@@ -63,13 +76,13 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.int"
 
         if schema.props.value is not Nil:
-            r += f"({self._represent_number(schema.props.value)})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({self._represent_number(schema.props.min)})"
+            r += f".min({self._represent_value(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({self._represent_number(schema.props.max)})"
+            r += f".max({self._represent_value(schema.props.max)})"
 
         return r
 
@@ -77,16 +90,16 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.float"
 
         if schema.props.value is not Nil:
-            r += f"({self._represent_number(schema.props.value)})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({self._represent_number(schema.props.min)})"
+            r += f".min({self._represent_value(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({self._represent_number(schema.props.max)})"
+            r += f".max({self._represent_value(schema.props.max)})"
 
         if schema.props.precision is not Nil:
-            r += f".precision({schema.props.precision!r})"
+            r += f".precision({self._represent_value(schema.props.precision)})"
 
         return r
 
@@ -94,26 +107,26 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.str"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         if schema.props.alphabet is not Nil:
-            r += f".alphabet({schema.props.alphabet!r})"
+            r += f".alphabet({self._represent_value(schema.props.alphabet)})"
 
         if schema.props.substr is not Nil:
-            r += f".contains({schema.props.substr!r})"
+            r += f".contains({self._represent_value(schema.props.substr)})"
 
         if schema.props.pattern is not Nil:
-            r += f".regex({schema.props.pattern!r})"
+            r += f".regex({self._represent_value(schema.props.pattern)})"
 
         if schema.props.len is not Nil:
-            r += f".len({self._represent_number(schema.props.len)})"
+            r += f".len({self._represent_value(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({self._represent_number(schema.props.min_len)}, "
-            r += f"{self._represent_number(schema.props.max_len)})"
+            r += f".len({self._represent_value(schema.props.min_len)}, "
+            r += f"{self._represent_value(schema.props.max_len)})"
         elif schema.props.min_len is not Nil:
-            r += f".len({self._represent_number(schema.props.min_len)}, ...)"
+            r += f".len({self._represent_value(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {self._represent_number(schema.props.max_len)})"
+            r += f".len(..., {self._represent_value(schema.props.max_len)})"
 
         return r
 
@@ -138,14 +151,14 @@ class Representor(SchemaVisitor[str]):
                 r += "\n" + " " * indent + "])"
 
         if schema.props.len is not Nil:
-            r += f".len({self._represent_number(schema.props.len)})"
+            r += f".len({self._represent_value(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({self._represent_number(schema.props.min_len)}, "
-            r += f"{self._represent_number(schema.props.max_len)})"
+            r += f".len({self._represent_value(schema.props.min_len)}, "
+            r += f"{self._represent_value(schema.props.max_len)})"
         elif schema.props.min_len is not Nil:
-            r += f".len({self._represent_number(schema.props.min_len)}, ...)"
+            r += f".len({self._represent_value(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {self._represent_number(schema.props.max_len)})"
+            r += f".len(..., {self._represent_value(schema.props.max_len)})"
 
         return r
 
@@ -165,7 +178,8 @@ class Representor(SchemaVisitor[str]):
             if is_ellipsis(key):
                 key_repr = val_repr = "..."
             else:
-                key_repr = f"optional({key!r})" if is_optional else repr(key)
+                key_repr = self._represent_value(key)
+                key_repr = f"optional({key_repr})" if is_optional else key_repr
                 val_repr = val.__accept__(self, indent=indent + self._indent, **kwargs)
             pairs.append("{indent}{key}: {val}".format(
                 indent=" " * (indent + self._indent),
@@ -191,7 +205,7 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.bytes"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
         return r
 
     def visit_type_alias(self, schema: GenericTypeAliasSchema[TypeAliasPropsType],
-- 
2.43.0


From 2e7ed33aae095b20399ea41e1f1975ac28d8f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:37 +0000
Subject: [PATCH 30/33] fix: C09 refuse regex anchors the generated string does
 not satisfy

---
 d42/generation/_regex_generator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index a544eb2..32d680d 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -1,3 +1,4 @@
+import re
 import string
 import sys
 
@@ -61,6 +62,7 @@ class RegexGenerator:
         if alphabet:
             self._alphabet.update(alphabet)
         self._max_repeat = max_repeat
+        self._has_anchors = False
 
     def _get_category_alphabet(self, value: Any) -> str:
         if value == CATEGORY_DIGIT:
@@ -146,6 +148,7 @@ class RegexGenerator:
         return self._generate_max_repeat(value)
 
     def _generate_at(self, value: Any) -> str:
+        self._has_anchors = True
         return ""
 
     def _generate_branch(self, value: Tuple[None, Any]) -> str:
@@ -183,4 +186,8 @@ class RegexGenerator:
 
     def generate(self, pattern: str) -> str:
         parsed = sre.parse(pattern)  # type: Any
-        return self._generate_pattern(parsed)
+        self._has_anchors = False
+        result = self._generate_pattern(parsed)
+        if self._has_anchors and not re.fullmatch(pattern, result):
+            raise ValueError(f"Cannot satisfy anchors of pattern {pattern!r}")
+        return result
-- 
2.43.0


From f2b52290889c7e69d87f901f79cd5da510b92310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:50 +0000
Subject: [PATCH 31/33] fix: decode migrated files as the interpreter does

---
 d42/migration/migrate_v1_to_v2.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 6ab4f17..bd1780e 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -2,6 +2,7 @@
 import ast
 import os
 import re
+import tokenize
 from collections import defaultdict
 from typing import Dict, Tuple, Union
 
@@ -206,15 +207,16 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
 
 def process_file(filepath: str, mapping: MappingType) -> None:
     try:
-        with open(filepath, 'r', encoding='utf-8') as file:
-            source_code = file.read()
+        # Decode the file as the interpreter does (byte order mark, encoding declaration)
+        with tokenize.open(filepath) as file:
+            source_code, encoding = file.read(), file.encoding
 
         # Rewrite imports in the source code
         modified_code = rewrite_imports(source_code, mapping)
 
         if modified_code:
             # Write the modified code back to the file
-            with open(filepath, 'w', encoding='utf-8') as file:
+            with open(filepath, 'w', encoding=encoding) as file:
                 file.write(modified_code)
             print(f"Processed: {filepath}")
     except Exception as e:
-- 
2.43.0


From b89b9976be66fc6706286b2279713c1df1c23134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 32/33] fix: substitute into the matching position of a
 contains list

---
 d42/substitution/_substitutor.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index dcfd35f..f72a22e 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -143,13 +143,20 @@ class Substitutor(SchemaVisitor[GenericSchema]):
 
         # body
         if (len(elements) > 2) and is_ellipsis(elements[0]) and is_ellipsis(elements[-1]):
+            partial = None
             for index, val in enumerate(value):
                 try:
                     substituted = self._substitute_elements(value, elements[1:-1], index, **kwargs)
                 except SubstitutionError:
-                    pass
-                else:
-                    return schema.__class__(schema.props.update(elements=substituted))
+                    continue
+                res = schema.__class__(schema.props.update(elements=substituted))
+                # A position which the value only partially fills must not win over a matching one
+                if not res.__accept__(Validator(), value=value).has_errors():
+                    return res
+                if partial is None:
+                    partial = res
+            if partial is not None:
+                return partial
             raise SubstitutionError(f"Can't substitute {safe_repr(value)} into `{schema!r}`")
 
         # head
-- 
2.43.0


From 108ed469010c18fece043b7663d5c294eb972fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 33/33] fix: refuse a substitution whose result would reject
 the value it was given

---
 d42/substitution/_substitutor.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index f72a22e..ffdf467 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -50,6 +50,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         except ValueError:
             raise SubstitutionError(f"Can't convert {safe_repr(value)} to schema")
 
+    def _accepts(self, schema: GenericSchema, value: Any) -> bool:
+        return not schema.__accept__(Validator(), value=value).has_errors()
+
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
             return cast(GenericSchema, substitute_method(self, value=value, **kwargs))
@@ -151,11 +154,11 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     continue
                 res = schema.__class__(schema.props.update(elements=substituted))
                 # A position which the value only partially fills must not win over a matching one
-                if not res.__accept__(Validator(), value=value).has_errors():
+                if self._accepts(res, value):
                     return res
                 if partial is None:
                     partial = res
-            if partial is not None:
+            if (partial is not None) and not self._accepts(schema, value):
                 return partial
             raise SubstitutionError(f"Can't substitute {safe_repr(value)} into `{schema!r}`")
 
@@ -222,7 +225,11 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     types.append(substituted)
             if len(types) == 0:
                 raise SubstitutionError(f"Can't substitute {safe_repr(value)} into `{schema!r}`")
-        return schema.__class__(schema.props.update(types=tuple(types)))
+        res = schema.__class__(schema.props.update(types=tuple(types)))
+        if self._accepts(schema, value) and not self._accepts(res, value):
+            # The alternatives the value matches are not among the substituted ones
+            raise SubstitutionError(f"Can't substitute {safe_repr(value)} into `{schema!r}`")
+        return res
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
         result = schema.__accept__(self._validator, value=value)
-- 
2.43.0

