From cf3acc644618bf5fcf70c23f3a7645338c7fa7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 01/31] fix: keep the fractional part of the bounds of floats

---
 mapry/parse.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 4990f94..17541f8 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -5,7 +5,7 @@ import json
 import pathlib
 import re
 from typing import (  # pylint: disable=unused-import
-    Any, Mapping, MutableMapping, Optional)
+    Any, Mapping, MutableMapping, Optional, Union)
 
 import mapry
 import mapry.naming
@@ -103,6 +103,22 @@ def _embed_from_mapping(mapping: Mapping[str, Any], ref: str) -> mapry.Embed:
         name=mapping['name'], description=mapping['description'], ref=ref)
 
 
+def _float_bound(value: Union[int, float]) -> Union[int, float]:
+    """
+    Parse a bound of a floating-point type.
+
+    Bounds with an integral value are represented as integers if this can be
+    done exactly so that they are rendered without a decimal point.
+
+    :param value: of the bound in the mapping
+    :return: parsed bound
+    """
+    if value == int(value) and abs(value) <= 2**53:
+        return int(value)
+
+    return float(value)
+
+
 def _recurse_type_from_mapping(
         mapping: Mapping[str, Any], classes: Mapping[str, mapry.Class],
         embeds: Mapping[str, mapry.Embed]) -> mapry.Type:
@@ -132,10 +148,12 @@ def _recurse_type_from_mapping(
 
     if type_identifier == 'float':
         return mapry.Float(
-            minimum=int(mapping['minimum']) if 'minimum' in mapping else None,
+            minimum=_float_bound(mapping['minimum'])
+            if 'minimum' in mapping else None,
             exclusive_minimum=bool(mapping['exclusive_minimum'])
             if 'exclusive_minimum' in mapping else False,
-            maximum=int(mapping['maximum']) if 'maximum' in mapping else None,
+            maximum=_float_bound(mapping['maximum'])
+            if 'maximum' in mapping else None,
             exclusive_maximum=bool(mapping['exclusive_maximum'])
             if 'exclusive_maximum' in mapping else False)
 
-- 
2.43.0


From b277b85f0149cd64404006343fb39a408ce07cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 02/31] fix: escape patterns and formats in the generated
 Python code

---
 mapry/py/generate/fromjsonable.py | 16 +++++++--------
 mapry/py/jinja2_env.py            | 34 +++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 25a0b1c..1117217 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -466,13 +466,13 @@ else:
     {{ target_expr }} = {{ value }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|as_pattern }},
             {{ value }}):
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escape_braces)|repr }}.format(
                 {{ value }}))
     else:
         {{ target_expr }} = {{ value }}
@@ -540,13 +540,13 @@ else:
     {{ set_target|indent }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|as_pattern }},
             {{ value }}):
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escape_braces)|repr }}.format(
                 {{ value }}))
     else:
         {{ set_target|indent|indent }}
@@ -611,7 +611,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_braces)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -669,7 +669,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_braces)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -728,7 +728,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_braces)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -1645,7 +1645,7 @@ parses {{ graph.name|as_composite }} from a JSONable value.
             for id in registry_value:
                 {% if cls.id_pattern %}
                 if not re.match(
-                        r'{{ cls.id_pattern.pattern }}',
+                        {{ cls.id_pattern.pattern|as_pattern }},
                         id):
                     errors.add(
                         '/'.join((
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index 89f6f06..44aa529 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -12,6 +12,38 @@ def _raise(message: str) -> None:
     raise Exception(message)
 
 
+def _as_pattern(text: str) -> str:
+    r"""
+    Render the text of a regular expression as a Python literal.
+
+    :param text: of the regular expression
+    :return: raw string literal if possible, otherwise an escaped one
+
+    >>> _as_pattern('^[a-z]+$')
+    "r'^[a-z]+$'"
+
+    >>> _as_pattern("^'$")
+    '"^\'$"'
+    """
+    if "'" in text or text.endswith('\\') or not text.isprintable():
+        return repr(text)
+
+    return "r'{}'".format(text)
+
+
+def _escape_braces(text: str) -> str:
+    """
+    Escape the text so that ``str.format`` leaves it unchanged.
+
+    :param text: to be escaped
+    :return: escaped text
+
+    >>> _escape_braces('^a{2}$')
+    '^a{{2}}$'
+    """
+    return text.replace('{', '{{').replace('}', '}}')
+
+
 ENV = jinja2.Environment(
     trim_blocks=True, lstrip_blocks=True, loader=jinja2.BaseLoader())
 ENV.filters.update({
@@ -21,6 +53,8 @@ ENV.filters.update({
     'comment': mapry.py.generate.comment,
     'as_docstring': mapry.py.generate.docstring,
     'repr': repr,
+    'as_pattern': _as_pattern,
+    'escape_braces': _escape_braces,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.py.expr.is_variable,
     '_raise': _raise
-- 
2.43.0


From a6bf89f0be9956b56651ff2ecb10aff087ff3ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 03/31] fix: serialize properties with capitals from their
 Python attributes

---
 mapry/py/generate/tojsonable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index 0ecf5fc..bf87884 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -566,7 +566,8 @@ def _serialize_class_or_embed(
     property_serializations = [
         _serialize_property(
             target_expr="target[{}]".format(repr(prop.json)),
-            value_expr="instance.{}".format(prop.name),
+            value_expr="instance.{}".format(
+                mapry.py.naming.as_attribute(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             py=py)
-- 
2.43.0


From bb5eb07104a1e76aeeb82782736dd1fca58d2ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 04/31] fix: use the C++ fields of properties with capitals
 consistently

---
 mapry/cpp/generate/jsoncpp_impl.py | 6 ++++--
 mapry/cpp/generate/types_header.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 8735d89..6580f1a 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2687,7 +2687,8 @@ def _serialize_class_or_embed(
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(class_or_embed.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
@@ -2773,7 +2774,8 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(graph.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 6ef087b..5416515 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -256,10 +256,11 @@ def _property_fields(composite: mapry.Composite, cpp: mapry.Cpp) -> str:
             prop_type = mapry.cpp.generate.type_repr(a_type=prop.type, cpp=cpp)
             def_val = _default_value(a_type=prop.type, cpp=cpp)
 
+        field = mapry.cpp.naming.as_field(identifier=prop.name)
         if def_val is not None:
-            block.append("{} {} = {};".format(prop_type, prop.name, def_val))
+            block.append("{} {} = {};".format(prop_type, field, def_val))
         else:
-            block.append("{} {};".format(prop_type, prop.name))
+            block.append("{} {};".format(prop_type, field))
 
         blocks.append('\n'.join(block))
 
-- 
2.43.0


From 6426814d94b30d3f3a8f56e2ba84afb6af105efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 05/31] fix: identifiers with consecutive underscores and
 plurals of compound names

The conversion to camel case failed with an IndexError on empty parts
between two underscores.  The plural of a compound name whose last part
is irregular lost the leading parts.
---
 mapry/naming.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index cca62be..1f12a22 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -70,12 +70,15 @@ def plural(identifier: str) -> str:
     >>> plural(identifier='Focus')
     'Foci'
 
+    >>> plural(identifier='Some_focus')
+    'Some_foci'
+
     """
     parts = split_identifier(identifier=identifier)
     last_part = parts[-1]
 
     if last_part in PLURAL_TABLE:
-        return PLURAL_TABLE[last_part]
+        return identifier[:-len(last_part)] + PLURAL_TABLE[last_part]
 
     if (last_part.endswith('ay') or last_part.endswith('ey')
             or last_part.endswith('iy') or last_part.endswith('oy')
@@ -140,7 +143,7 @@ def camel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0].lower())
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
 
@@ -176,6 +179,6 @@ def ucamel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0][0].upper() + parts[0][1:])
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
-- 
2.43.0


From b2d9fa8a595b69c107598e5d1f80643761aa852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 06/31] fix: names in the schema are matched as a whole

The patterns of the graph name, the embeds and the Go package were not
anchored at the end, and a trailing line break passed all the others, so
that identifiers such as 'Some graph' ended up in the generated code.
---
 mapry/schemas.py    | 18 +++++++++---------
 mapry/validation.py |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mapry/schemas.py b/mapry/schemas.py
index 1807539..b1e833d 100644
--- a/mapry/schemas.py
+++ b/mapry/schemas.py
@@ -10,7 +10,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the object graph.",
-                    "pattern": "^[A-Z][A-Za-z0-9]*"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$(?!\\n)"
                 },
                 "description": {
                     "type": "string",
@@ -63,7 +63,7 @@ GRAPH = {
                     "description":
                     "indicates the namespace of the generated code.",
                     "pattern":
-                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*$(?!\\n)"
                 },
                 "path_as": {
                     "type": "string",
@@ -97,7 +97,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code."
                     "Defaults to two spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*$(?!\\n)"
                 }
             },
             "required":
@@ -112,7 +112,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "indicates the package of the generated code.",
-                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*"
+                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*$(?!\\n)"
                 }
             },
             "required": ["package"],
@@ -129,7 +129,7 @@ GRAPH = {
                     "specifies the fully qualified base module name "
                     "of the generated code.",
                     "pattern":
-                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*$(?!\n)"
                 },
                 "path_as": {
                     "type": "string",
@@ -148,7 +148,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code. "
                     "Defaults to four spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*$(?!\\n)"
                 }
             },
             "required": ['module_name', 'path_as', 'timezone_as'],
@@ -162,7 +162,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the class in Snake_case.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$(?!\\n)"
                 },
                 "description": {
                     "type": "string",
@@ -175,7 +175,7 @@ GRAPH = {
                     "description":
                     "gives the plural of the class in Snake_case. "
                     "If omitted, automatically inferred.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$(?!\\n)"
                 },
                 "id_pattern": {
                     "type":
@@ -203,7 +203,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "gives the name of the embeddable data structure.",
-                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?"
+                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?$(?!\\n)"
                 },
                 "description": {
                     "description": "describes the embeddable data structure "
diff --git a/mapry/validation.py b/mapry/validation.py
index 6b3c491..d3beeb6 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -531,7 +531,7 @@ def _validate_properties(mapping: Mapping[str, Any], ref: str,
         return []
 
     for name, property_mapping in mapping['properties'].items():
-        if not _PROPERTY_RE.match(name):
+        if not _PROPERTY_RE.fullmatch(name):
             errs.append(
                 SchemaError(
                     message=("Property name invalid, expected {}, "
-- 
2.43.0


From 6169024dec880f505ae3e51612a775c699124f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:41 +0000
Subject: [PATCH 07/31] fix: descriptions must end with a dot, also if a line
 break follows

---
 mapry/schemas.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/schemas.py b/mapry/schemas.py
index b1e833d..f3426c6 100644
--- a/mapry/schemas.py
+++ b/mapry/schemas.py
@@ -16,7 +16,7 @@ GRAPH = {
                     "type": "string",
                     "description": "describes the object graph "
                     "(starts with a verb and ends with a dot).",
-                    "pattern": "^[a-z]+.*\\.$"
+                    "pattern": "^[a-z]+.*\\.$(?!\\n)"
                 },
                 "cpp": {
                     "$ref": "#/definitions/Cpp"
@@ -168,7 +168,7 @@ GRAPH = {
                     "type": "string",
                     "description": "describes the class "
                     "(starts with a verb and ends with a dot).",
-                    "pattern": "^[a-z]+.*\\.$"
+                    "pattern": "^[a-z]+.*\\.$(?!\\n)"
                 },
                 "plural": {
                     "type": "string",
@@ -209,7 +209,7 @@ GRAPH = {
                     "description": "describes the embeddable data structure "
                     "(starts with a verb and ends with a dot).",
                     "type": "string",
-                    "pattern": "^[a-z]+.*\\.$"
+                    "pattern": "^[a-z]+.*\\.$(?!\\n)"
                 },
                 "properties": {
                     "type": "object",
-- 
2.43.0


From ab7dfc0f8e4779316be9542adcc0b6786e332f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 08/31] fix: refuse nested types without an identifier and the
 graph as a type

A nested 'values' definition without 'type' raised a KeyError, a type which
is not a string a TypeError, and a property of the type of the object graph
a NotImplementedError instead of a schema error.
---
 mapry/validation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index d3beeb6..d24f42e 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -419,7 +419,12 @@ def _validate_type_recursively(
                         "in the definition, but got {}").format(keys[1]),
                     ref='{}/description'.format(ref))
 
-    if mapping['type'] not in types:
+    if 'type' not in mapping:
+        return SchemaError(
+            message="Missing 'type' in the type definition", ref=ref)
+
+    if (not isinstance(mapping['type'], str)
+            or mapping['type'] not in types):
         return SchemaError(
             message="Invalid type: {}".format(mapping['type']),
             ref='{}/type'.format(ref))
@@ -664,8 +669,10 @@ def validate(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
                     mapping=cls_mapping, ref='{}/classes/{}'.format(ref, i)))
 
     # Validate properties of the classes and embeds
+    # (the object graph itself can not be a type of a property)
     types = _NONCOMPOSITE_TYPE_SET.copy()
     types.update(name_set)
+    types.discard(mapping['name'])
 
     # Check that the graph properties are valid
     errors.extend(_validate_properties(mapping=mapping, ref=ref, types=types))
-- 
2.43.0


From 208be7214cc3318dff11f9a74535ac9471e5564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:33 +0000
Subject: [PATCH 09/31] fix: refuse bounds of floats which are out of range

Infinite bounds and integers beyond the range of floats raised an
OverflowError while the schema was parsed.
---
 mapry/validation.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index d24f42e..bd951bd 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -2,8 +2,9 @@
 """Validate the mapry schema."""
 
 import collections
+import math
 import re
-from typing import Any, Dict, List, Mapping, Optional, Set, Tuple
+from typing import Any, Dict, List, Mapping, Optional, Set, Tuple, Union
 
 import jsonschema  # type: ignore
 import lexery
@@ -186,6 +187,14 @@ def _validate_integer(mapping: Mapping[str, Any],
     return None
 
 
+def _is_finite(number: Union[int, float]) -> bool:
+    """Return True if the number is in the range of finite floats."""
+    try:
+        return math.isfinite(number)
+    except OverflowError:
+        return False
+
+
 def _validate_float(mapping: Mapping[str, Any],
                     ref: str) -> Optional[SchemaError]:
     """
@@ -195,6 +204,11 @@ def _validate_float(mapping: Mapping[str, Any],
     :param ref: reference to the type definition
     :return: error, if any
     """
+    for key in ['minimum', 'maximum']:
+        if key in mapping and not _is_finite(mapping[key]):
+            return SchemaError(
+                message="{} is out of range of a float".format(key), ref=ref)
+
     if 'minimum' in mapping and 'maximum' in mapping:
         minimum = mapping['minimum']
         maximum = mapping['maximum']
-- 
2.43.0


From 9ca029bbd75a092bbc6396e861981228f0f0a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 10/31] fix: refuse properties which share a JSON property

Two properties of a composite with the same 'json', and a graph property
renamed to the registry of a class, were read from and written to the
same member of the JSON object.
---
 mapry/validation.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index bd951bd..5488d0e 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -549,7 +549,20 @@ def _validate_properties(mapping: Mapping[str, Any], ref: str,
     if 'properties' not in mapping:
         return []
 
+    json_to_name = dict()  # type: Dict[str, str]
+
     for name, property_mapping in mapping['properties'].items():
+        json = property_mapping.get('json', name)
+        if json in json_to_name:
+            errs.append(
+                SchemaError(
+                    message=(
+                        "The JSON property {!r} conflicts with the JSON "
+                        "property of {!r}").format(json, json_to_name[json]),
+                    ref="{}/properties/{}".format(ref, name)))
+        else:
+            json_to_name[json] = name
+
         if not _PROPERTY_RE.fullmatch(name):
             errs.append(
                 SchemaError(
@@ -610,14 +623,19 @@ def _validate_plurals(mapping: Mapping[str, Any],
         property_names = sorted(mapping['properties'].keys())
 
     for property_name in property_names:
-        if property_name in registry_property_to_class_name:
+        json = mapping['properties'][property_name].get('json', property_name)
+        conflict = (
+            property_name
+            if property_name in registry_property_to_class_name else json)
+
+        if conflict in registry_property_to_class_name:
             errs.append(
                 SchemaError(
                     message=(
                         'Graph property {!r} conflicts with the plural '
                         'necessary for the registry of class {!r}').format(
                             property_name,
-                            registry_property_to_class_name[property_name]),
+                            registry_property_to_class_name[conflict]),
                     ref='{}/{}'.format(ref, property_name)))
 
     return errs
-- 
2.43.0


From 206464b62dee3e227b7c7bd0d6ed8710dc06bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 11/31] fix: refuse descriptions of nested types which are not
 texts

---
 mapry/validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index 5488d0e..08a2da4 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -443,6 +443,12 @@ def _validate_type_recursively(
             message="Invalid type: {}".format(mapping['type']),
             ref='{}/type'.format(ref))
 
+    if ('description' in mapping
+            and not isinstance(mapping['description'], str)):
+        return SchemaError(
+            message="Invalid description: {}".format(mapping['description']),
+            ref='{}/description'.format(ref))
+
     # Validate against the type schema
     if mapping['type'] in mapry.schemas.TYPE_TO_SCHEMA:
         type_schema = mapry.schemas.TYPE_TO_SCHEMA[mapping['type']]
-- 
2.43.0


From b10ea0e6ef20725dcc1a1a25e39e2749632a4684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 12/31] fix: refuse composites which conflict with the name of
 the graph

---
 mapry/cpp/validation.py | 2 +-
 mapry/go/validation.py  | 2 +-
 mapry/py/validation.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 191e56e..7c127a6 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -214,7 +214,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.cpp.naming.as_composite(identifier=cls.name)
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index a3d2be3..a610cee 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -330,7 +330,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.naming.ucamel_case(identifier=cls.name)
diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 66e215a..be80322 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -203,7 +203,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.py.naming.as_composite(identifier=cls.name)
-- 
2.43.0


From 6990ab43667c6adcc7b0f7c01afaf8d5e5b4339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 13/31] fix: refuse names which are reserved in the generated
 Go code

---
 mapry/go/validation.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index a610cee..28a46bf 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -182,7 +182,8 @@ def _validate_graph_fields(graph: mapry.Graph
             registry_field_map[plural_field] = cls
 
     reserved_type_names = {
-        'Errors', '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
+        'Errors', 'NewErrors',
+        '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
         '{}ToJSONable'.format(mapry.naming.ucamel_case(graph.name))
     }
 
@@ -201,31 +202,34 @@ def _validate_graph_fields(graph: mapry.Graph
     for cls in graph.classes.values():
         cls_name = mapry.naming.ucamel_case(cls.name)
         if cls_name in reserved_type_names:
-            mapry.validation.SchemaError(
-                message=(
-                    "The Go struct identifier {!r} "
-                    "conflicts with the name reserved for mapry."
-                ).format(cls_name),
-                ref=cls.ref)
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(cls_name),
+                    ref=cls.ref))
 
     for embed in graph.embeds.values():
         embed_name = mapry.naming.ucamel_case(embed.name)
         if embed_name in reserved_type_names:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(embed_name),
+                    ref=embed.ref))
+
+    graph_name = mapry.naming.ucamel_case(graph.name)
+    if graph_name in reserved_type_names:
+        errs.append(
             mapry.validation.SchemaError(
                 message=(
                     "The Go struct identifier {!r} "
                     "conflicts with the name reserved for mapry."
-                ).format(embed_name),
-                ref=embed.ref)
-
-    graph_name = mapry.naming.ucamel_case(graph.name)
-    if graph_name in reserved_type_names:
-        mapry.validation.SchemaError(
-            message=(
-                "The Go struct identifier {!r} "
-                "conflicts with the name reserved for mapry."
-            ).format(graph_name),
-            ref=graph.ref)
+                ).format(graph_name),
+                ref=graph.ref))
 
     return errs
 
-- 
2.43.0


From 31e8bd5ab1f6516cad7002a746073ee055134430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 14/31] fix: refuse async and await as Python attributes

---
 mapry/py/validation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index be80322..cbc3866 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -7,10 +7,10 @@ import mapry.py.naming
 import mapry.validation
 
 _KEYWORDS = {
-    'False', 'None', 'True', 'and', 'as', 'assert', 'break', 'class',
-    'continue', 'def', 'del', 'elif', 'else', 'except', 'finally', 'for',
-    'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal', 'not',
-    'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
+    'False', 'None', 'True', 'and', 'as', 'assert', 'async', 'await', 'break',
+    'class', 'continue', 'def', 'del', 'elif', 'else', 'except', 'finally',
+    'for', 'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal',
+    'not', 'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
 }
 
 
-- 
2.43.0


From accbfe7c7247bb9253fdd642addbe8f34aceb9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 15/31] fix: refuse Python attributes which shadow names of the
 constructors

---
 mapry/py/validation.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index cbc3866..ce5142a 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -13,6 +13,11 @@ _KEYWORDS = {
     'not', 'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
 }
 
+# Attributes are arguments of the generated constructors
+# so that they must not shadow the names used in the constructors.
+_RESERVED = {'self'}
+_RESERVED_IN_GRAPH_WITH_REGISTRIES = {'collections'}
+
 
 class _Attribute:
     """Represent a Python attribute of a composite."""
@@ -70,6 +75,15 @@ def _validate_attributes(attributes: List[_Attribute]
                         "is reserved in Python").format(attribute.name),
                     ref=attribute.ref))
 
+        if attribute.name in _RESERVED:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Python attribute identifier {!r} "
+                        "is used by the autogenerated code").format(
+                            attribute.name),
+                    ref=attribute.ref))
+
         if attribute.name in name_to_attributes:
             errs.append(
                 mapry.validation.SchemaError(
@@ -134,11 +148,34 @@ def _validate_graph_attributes(graph: mapry.Graph
     }
     # yapf: enable
 
+    if graph.classes:
+        for attribute in attributes:
+            if attribute.name in _RESERVED_IN_GRAPH_WITH_REGISTRIES:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The Python attribute identifier {!r} "
+                            "is used by the autogenerated code").format(
+                                attribute.name),
+                        ref=attribute.ref))
+
     registry_attribute_map = dict()  # type: MutableMapping[str, mapry.Class]
 
     for cls in graph.classes.values():
         plural_attribute = mapry.py.naming.as_attribute(identifier=cls.plural)
 
+        if (plural_attribute in _RESERVED
+                or plural_attribute in _RESERVED_IN_GRAPH_WITH_REGISTRIES):
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Python attribute identifier {!r} "
+                        "corresponding to the registry of the class {!r} "
+                        "in the object graph "
+                        "is used by the autogenerated code").format(
+                            plural_attribute, cls.name),
+                    ref=cls.ref))
+
         if plural_attribute in _KEYWORDS:
             errs.append(
                 mapry.validation.SchemaError(
-- 
2.43.0


From 64360f31f9854067a36da0c1f6a524026e038d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 16/31] fix: refuse composites whose Python functions conflict

---
 mapry/py/validation.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index ce5142a..618fa98 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -218,6 +218,41 @@ def _validate_graph_attributes(graph: mapry.Graph
     return errs
 
 
+def _validate_function_names(graph: mapry.Graph
+                             ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the functions generated for the composites do not conflict.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+
+    variable_to_composite = dict()  # type: Dict[str, mapry.Composite]
+
+    for composite in composites:
+        variable = mapry.py.naming.as_variable(identifier=composite.name)
+        if variable in variable_to_composite:
+            conflict_composite = variable_to_composite[variable]
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The composite {!r} and the composite {!r} ({}) have "
+                        "conflicting names of the Python functions: {!r}"
+                    ).format(
+                        composite.name, conflict_composite.name,
+                        conflict_composite.ref, variable),
+                    ref=composite.ref))
+        else:
+            variable_to_composite[variable] = composite
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Python code for the given mapry schema.
@@ -302,6 +337,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
             _validate_attributes(
                 _properties_to_attributes(properties=embed.properties)))
 
+    errs.extend(_validate_function_names(graph=schema.graph))
+
     # Check that the attributes of the object graph are valid
     # (including the class registries)
     errs.extend(_validate_graph_attributes(graph=schema.graph))
-- 
2.43.0


From e42d032cb84b1df4ad63af5b6f4bce62edc205a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 17/31] fix: refuse composites which are called Error in Go

---
 mapry/go/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 28a46bf..ba62465 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -182,7 +182,7 @@ def _validate_graph_fields(graph: mapry.Graph
             registry_field_map[plural_field] = cls
 
     reserved_type_names = {
-        'Errors', 'NewErrors',
+        'Error', 'Errors', 'NewErrors',
         '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
         '{}ToJSONable'.format(mapry.naming.ucamel_case(graph.name))
     }
-- 
2.43.0


From c1c9776becbf5d0ff45c12ee04ffa6fcf4d1f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 18/31] fix: translate weekdays of formats to the reference
 weekday of Go

---
 docs/source/go_specifics.rst | 2 +-
 mapry/go/timeformat.py       | 4 ++--
 mapry/go/validation.py       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/docs/source/go_specifics.rst b/docs/source/go_specifics.rst
index d420e7d..451b34e 100644
--- a/docs/source/go_specifics.rst
+++ b/docs/source/go_specifics.rst
@@ -210,7 +210,7 @@ a couple of repercussions:
    C/C++ ``ctime`` library).
  * Second, certain parts of the format, while unproblematic in strftime
    directives, cause conflicts in Go. For example, the format
-   ``"Sun goes up: %Y-%m-%d %H:%M:%S"`` will be misinterpreted since ``Sun``
+   ``"Mon report: %Y-%m-%d %H:%M:%S"`` will be misinterpreted since ``Mon``
    will be understood as abbreviated weekday in Go. Mapry detects such conflicts
    as soon as you try to generate Go code and raise an error. However, we leave
    it to the user to decide to generate code in other languages even though
diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index fd5bf85..013bf44 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -8,8 +8,8 @@ import mapry.strftime
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
 _STRFTIME_TO_GO = {
-    '%a': 'Sun',
-    '%A': 'Sunday',
+    '%a': 'Mon',
+    '%A': 'Monday',
     '%b': 'Jan',
     '%B': 'January',
     '%d': '02',
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index ba62465..87f9528 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -236,8 +236,8 @@ def _validate_graph_fields(graph: mapry.Graph
 
 # yapf: disable
 _GO_TIME_FORMAT_DIRECTIVES = [
-    'Sunday',
-    'Sun',
+    'Monday',
+    'Mon',
     'January',
     'Jan',
     '02',
-- 
2.43.0


From 6ca472b4b01e90a8f94945c57cb64742cd1794db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 19/31] fix: detect all the formats which Go would misinterpret

Text next to directives, numbers and time zones were not considered and
line breaks were not kept in the layout.
---
 mapry/go/timeformat.py | 84 +++++++++++++++++++++++++++++++++---------
 mapry/go/validation.py | 81 +++++++++++-----------------------------
 2 files changed, 89 insertions(+), 76 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index 013bf44..ad28381 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -1,8 +1,8 @@
 #!/usr/bin/env python3
 """Convert date/time format from strftime directives to Go."""
-from typing import List  # pylint: disable=unused-import
-
-from icontract import ensure
+import re
+from typing import (  # pylint: disable=unused-import
+    List, MutableMapping, Optional, Tuple)
 
 import mapry.strftime
 
@@ -30,7 +30,16 @@ _STRFTIME_TO_GO = {
 }
 
 
-@ensure(lambda result: not result.endswith('\n'))
+# Parts of a layout which are interpreted by Go in the order of precedence,
+# see the function ``nextStdChunk`` in https://golang.org/src/time/format.go
+_GO_CHUNK_RE = re.compile(
+    r'January|Jan(?![a-z])|Monday|Mon(?![a-z])|MST|'
+    r'0[1-6]|002|15|1|2006|2|_2(?!006)|__2|3|4|5|PM|pm|'
+    r'-070000|-07:00:00|-0700|-07:00|-07|'
+    r'Z070000|Z07:00:00|Z0700|Z07:00|Z07|'
+    r'[.,](?:0+|9+)(?![0-9])')
+
+
 def convert(a_format: str) -> str:
     r"""
     Convert the strftime/strptime directives to Go directives.
@@ -45,21 +54,62 @@ def convert(a_format: str) -> str:
     '2006-01-02\\n15:04:05Z'
 
     """
-    tkn_lines = mapry.strftime.tokenize(format=a_format)
+    return ''.join(layout for _, layout in _split(a_format=a_format))
+
+
+def find_conflict(a_format: str) -> Optional[str]:
+    """
+    Find the first part of the format which Go would misinterpret.
+
+    :param a_format: strftime/strptime directives
+    :return: the misinterpreted part of the Go layout, if any
+
+    >>> find_conflict(a_format="%Y-%m-%d")
 
-    parts = []  # type: List[str]
+    >>> find_conflict(a_format="Mon: %Y-%m-%d")
+    'Mon'
 
-    for i, tkn_line in enumerate(tkn_lines):
-        if i > 0:
-            parts.append('\n')
+    >>> find_conflict(a_format="%bth")
+    'Jan'
+
+    """
+    expected = dict()  # type: MutableMapping[int, str]
+    position = 0
+    for directive, layout in _split(a_format=a_format):
+        if directive not in ('', '%%'):
+            expected[position] = layout
+        position += len(layout)
+
+    for mtch in _GO_CHUNK_RE.finditer(convert(a_format=a_format)):
+        if expected.pop(mtch.start(), None) != mtch.group():
+            return mtch.group()
+
+    for layout in expected.values():
+        return layout
+
+    return None
+
+
+def _split(a_format: str) -> List[Tuple[str, str]]:
+    """
+    Split the format into pairs of a directive and the corresponding Go layout.
+
+    The directive of a literal text is empty.
+
+    :param a_format: strftime/strptime directives
+    :return: list of (directive, layout)
+    """
+    # Check that the format contains only the supported directives
+    _ = mapry.strftime.tokenize(format=a_format)
 
-        for tkn in tkn_line:
-            if tkn.identifier == 'directive':
-                assert tkn.content in _STRFTIME_TO_GO, \
-                    "Unhandled strftime->go mapping for: {}".format(tkn.content)
+    pairs = []  # type: List[Tuple[str, str]]
+    for part in re.split('(%[a-zA-Z%])', a_format):
+        if part.startswith('%'):
+            assert part in _STRFTIME_TO_GO, \
+                "Unhandled strftime->go mapping for: {}".format(part)
 
-                parts.append(_STRFTIME_TO_GO[tkn.content])
-            elif tkn.identifier == 'text':
-                parts.append(tkn.content)
+            pairs.append((part, _STRFTIME_TO_GO[part]))
+        elif part != '':
+            pairs.append(('', part))
 
-    return ''.join(parts)
+    return pairs
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 87f9528..79dc265 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -3,8 +3,8 @@ from typing import (  # pylint: disable=unused-import
     Dict, List, Mapping, MutableMapping)
 
 import mapry
+import mapry.go.timeformat
 import mapry.naming
-import mapry.strftime
 import mapry.validation
 
 _KEYWORDS = {
@@ -234,32 +234,6 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
-# yapf: disable
-_GO_TIME_FORMAT_DIRECTIVES = [
-    'Monday',
-    'Mon',
-    'January',
-    'Jan',
-    '02',
-    '_2',
-    '01',
-    '2006',
-    '06',
-    '15',
-    '03',
-    '3',
-    '04',
-    'pm',
-    'PM',
-    '05',
-    '-0700',
-    'MST'
-]
-
-
-# yapf: enable
-
-
 def _validate_date_time_formats(graph: mapry.Graph
                                 ) -> List[mapry.validation.SchemaError]:
     """
@@ -278,38 +252,27 @@ def _validate_date_time_formats(graph: mapry.Graph
     # yapf: enable
 
     for a_type, ref in date_time_types:
-        tkn_lines = mapry.strftime.tokenize(format=a_type.format)
-
-        # yapf: disable
-        text_tkns = [
-            tkn
-            for tkn_line in tkn_lines
-            for tkn in tkn_line
-            if tkn.identifier == 'text'
-        ]
-        # yapf: enable
-
-        for tkn in text_tkns:
-            for directive in _GO_TIME_FORMAT_DIRECTIVES:
-                if directive in tkn.content:
-                    if isinstance(a_type, mapry.Date):
-                        type_str = 'Date'
-                    elif isinstance(a_type, mapry.Datetime):
-                        type_str = 'Date/time'
-                    elif isinstance(a_type, mapry.Time):
-                        type_str = 'Time'
-                    else:
-                        raise NotImplementedError(
-                            "Unhandled mapry type: {}".format(type(a_type)))
-
-                    errs.append(
-                        mapry.validation.SchemaError(
-                            message=(
-                                '{} format contains a conflicting '
-                                'Go time.Format directive {}: {}').format(
-                                    type_str, directive, a_type.format),
-                            ref=ref))
-                    break
+        directive = mapry.go.timeformat.find_conflict(a_format=a_type.format)
+        if directive is None:
+            continue
+
+        if isinstance(a_type, mapry.Date):
+            type_str = 'Date'
+        elif isinstance(a_type, mapry.Datetime):
+            type_str = 'Date/time'
+        elif isinstance(a_type, mapry.Time):
+            type_str = 'Time'
+        else:
+            raise NotImplementedError(
+                "Unhandled mapry type: {}".format(type(a_type)))
+
+        errs.append(
+            mapry.validation.SchemaError(
+                message=(
+                    '{} format contains a conflicting '
+                    'Go time.Format directive {}: {}').format(
+                        type_str, directive, a_type.format),
+                ref=ref))
     return errs
 
 
-- 
2.43.0


From 20bda8664a0472488920a28c809af17894277efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 20/31] fix: refuse formats which can not be parsed in Python

---
 docs/source/py_specifics.rst |  6 +++++
 mapry/py/validation.py       | 50 +++++++++++++++++++++++++++++++++++-
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/docs/source/py_specifics.rst b/docs/source/py_specifics.rst
index d804363..ecaafd8 100644
--- a/docs/source/py_specifics.rst
+++ b/docs/source/py_specifics.rst
@@ -233,6 +233,12 @@ numbers from -1.7976931348623157e+308 to 1.7976931348623157e+308. Note also that
 the closer you get to the range bounds, the sparser the representable numbers
 due to how floating-point numbers are represented by IEEE 754.
 
+Date/time Format Directives
+^^^^^^^^^^^^^^^^^^^^^^^^^^^
+The function ``datetime.datetime.strptime`` can not parse the directives ``%e``,
+``%l`` and ``%P``, and does not allow a directive to be repeated in a format.
+Mapry raises an error if you try to generate Python code for such a format.
+
 Durations
 ^^^^^^^^^
 Durations are given in Python 3 as ``datetime.timedelta``, a structured
diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 618fa98..4331e11 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -1,9 +1,10 @@
 """Validate that the Python code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping)
+    Dict, List, Mapping, MutableMapping, Set)
 
 import mapry
 import mapry.py.naming
+import mapry.strftime
 import mapry.validation
 
 _KEYWORDS = {
@@ -18,6 +19,9 @@ _KEYWORDS = {
 _RESERVED = {'self'}
 _RESERVED_IN_GRAPH_WITH_REGISTRIES = {'collections'}
 
+# Directives which can not be parsed with ``datetime.datetime.strptime``
+_UNPARSABLE_DIRECTIVES = {'%e', '%l', '%P'}
+
 
 class _Attribute:
     """Represent a Python attribute of a composite."""
@@ -253,6 +257,48 @@ def _validate_function_names(graph: mapry.Graph
     return errs
 
 
+def _validate_date_time_formats(graph: mapry.Graph
+                                ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that ``datetime.datetime.strptime`` can parse all the formats.
+
+    :param graph: mapry definition of an object graph
+    :return: list of errors, if any
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if not isinstance(a_type, (mapry.Date, mapry.Datetime, mapry.Time)):
+            continue
+
+        observed = set()  # type: Set[str]
+        for token_line in mapry.strftime.tokenize(format=a_type.format):
+            for token in token_line:
+                if token.identifier != 'directive' or token.content == '%%':
+                    continue
+
+                if token.content in _UNPARSABLE_DIRECTIVES:
+                    errs.append(
+                        mapry.validation.SchemaError(
+                            message=(
+                                "Directive {} can not be parsed "
+                                "in Python: {}").format(
+                                    token.content, a_type.format),
+                            ref=ref))
+                elif token.content in observed:
+                    errs.append(
+                        mapry.validation.SchemaError(
+                            message=(
+                                "Repeated directive {} can not be parsed "
+                                "in Python: {}").format(
+                                    token.content, a_type.format),
+                            ref=ref))
+
+                observed.add(token.content)
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Python code for the given mapry schema.
@@ -343,4 +389,6 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # (including the class registries)
     errs.extend(_validate_graph_attributes(graph=schema.graph))
 
+    errs.extend(_validate_date_time_formats(graph=schema.graph))
+
     return errs
-- 
2.43.0


From e304c5cfd41778e321e3370dd070735aaed27886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:11 +0000
Subject: [PATCH 21/31] fix: escape all the characters which Go strings can not
 hold

---
 mapry/go/generate/__init__.py | 45 +++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 0e31ec4..1caf776 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -86,6 +86,30 @@ def type_repr(a_type: mapry.Type, go: mapry.Go) -> str:
             "Unhandled Go represenation of a type: {}".format(type(a_type)))
 
 
+def _code_point(character: str) -> str:
+    r"""
+    Convert the ``character`` into a Go escape sequence of its code point.
+
+    :param character: to be escaped
+    :return: Go escape sequence
+
+    >>> print(_code_point('\0'))
+    \x00
+
+    >>> print(_code_point('\ufeff'))
+    \ufeff
+
+    """
+    code = ord(character)
+    if code <= 0x7F:
+        return '\\x{:02x}'.format(code)
+
+    if code <= 0xFFFF:
+        return '\\u{:04x}'.format(code)
+
+    return '\\U{:08x}'.format(code)
+
+
 @ensure(lambda result: not result.endswith('\n'))
 def escaped_str(text: str) -> str:
     r"""
@@ -102,6 +126,9 @@ def escaped_str(text: str) -> str:
     >>> escaped_str(text='test"me')
     '"test\\"me"'
 
+    >>> print(escaped_str(text='\x1B'))
+    "\x1b"
+
     """
     # yapf: disable
     mapping = collections.OrderedDict([
@@ -113,20 +140,22 @@ def escaped_str(text: str) -> str:
         ('\n', '\\n'),
         ('\v', '\\v'),
         ('\f', '\\f'),
-        ('\r', '\\r'),
-        ('\x1B', '\\e')])
+        ('\r', '\\r')])
     # yapf: enable
 
     result = text
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
 
-    return '"{}"'.format(result)
+    return '"{}"'.format(
+        ''.join(
+            character if character.isprintable() else _code_point(character)
+            for character in result))
 
 
 @ensure(lambda result: not result.endswith('\n'))
 def ticked_str(text: str) -> str:
-    """
+    r"""
     Convert the ``text`` into a backticked Go string literal.
 
     If there are backticks in the text, the generated string literal
@@ -142,7 +171,15 @@ def ticked_str(text: str) -> str:
     `test`+"`"+
         `me`
 
+    A raw string literal can not hold all the characters:
+
+    >>> print(ticked_str(text='test\rme'))
+    "test\rme"
+
     """
+    if not text.isprintable():
+        return escaped_str(text=text)
+
     tick_parts = text.split('`')
     parts = []  # type: List[str]
 
-- 
2.43.0


From 2f9f1780b2aab3b5185b680dd6485b5df5235c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:11 +0000
Subject: [PATCH 22/31] fix: escape percents in the messages of the Go code

---
 mapry/go/generate/fromjsonable.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index ba4181c..047c184 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -692,7 +692,8 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected to match %s, but got: %%s"|
-                    format(a_type.pattern.pattern)|escaped_str }},
+                    format(a_type.pattern.pattern|replace('%', '%%'))|
+                    escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = cast{{ uid }}
@@ -761,7 +762,8 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected layout %s, got: %%s"|
-                    format(converted_format)|escaped_str }},
+                    format(converted_format|replace('%', '%%'))|
+                    escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = target{{ uid }}
@@ -1688,7 +1690,9 @@ func {{ graph.name|ucamel_case }}FromJSONable(
                         {{ cls.plural|camel_case }}Ref,
                         fmt.Sprintf(
                             {{ "expected ID to match %s, but got: %%s"|
-                                format(cls.id_pattern.pattern)|escaped_str }},
+                                format(
+                                    cls.id_pattern.pattern|replace('%', '%%'))|
+                                escaped_str }},
                             id))
                 } else {
                     {{ preallocate_instance|
-- 
2.43.0


From f9883d0861ac9dc01f05c72a2cd4836fa3927c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:11 +0000
Subject: [PATCH 23/31] fix: escape all the characters which C++ strings can
 not hold

---
 mapry/cpp/generate/__init__.py     | 36 +++++++++++++++++++++++++++---
 mapry/cpp/generate/jsoncpp_impl.py |  9 ++++----
 mapry/cpp/jinja2_env.py            |  1 +
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 7e37be1..4b42e21 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -131,6 +131,9 @@ def escaped_str(text: str) -> str:
     >>> escaped_str(text='test"me')
     '"test\\"me"'
 
+    >>> print(escaped_str(text='\x1Bme'))
+    "\033me"
+
     """
     # yapf: disable
     mapping = collections.OrderedDict([
@@ -142,12 +145,39 @@ def escaped_str(text: str) -> str:
         ('\n', '\\n'),
         ('\v', '\\v'),
         ('\f', '\\f'),
-        ('\r', '\\r'),
-        ('\x1B', '\\e')])
+        ('\r', '\\r')])
     # yapf: enable
 
     result = text
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
 
-    return '"{}"'.format(result)
+    if '??' in result:
+        # Avoid trigraphs
+        result = result.replace('?', '\\?')
+
+    return '"{}"'.format(
+        ''.join(
+            character if character.isprintable() else ''.join(
+                '\\{:03o}'.format(byte) for byte in character.encode())
+            for character in result))
+
+
+def raw_str(text: str) -> str:
+    r"""
+    Convert the ``text`` into a C++ raw string if possible.
+
+    :param text: to be converted
+    :return: C++ string literal
+
+    >>> print(raw_str(text='^\\d$'))
+    R"v0g0n(^\d$)v0g0n"
+
+    >>> print(raw_str(text=')v0g0n"'))
+    ")v0g0n\""
+
+    """
+    if ')v0g0n"' in text or not text.isprintable():
+        return escaped_str(text=text)
+
+    return 'R"v0g0n({})v0g0n"'.format(text)
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 6580f1a..3e533ab 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -202,11 +202,12 @@ def _regex_constants(graph: mapry.Graph) -> str:
                 '''\
             namespace {composite_varname}_re {{
             const std::regex kID(
-                R"v0g0n({regex})v0g0n");
+                {regex});
             }}  // namespace {composite_varname}_re'''.format(
                     composite_varname=mapry.cpp.naming.as_variable(
                         identifier=cls.name),
-                    regex=cls.id_pattern.pattern)))
+                    regex=mapry.cpp.generate.raw_str(
+                        text=cls.id_pattern.pattern))))
 
     return "\n\n".join(blocks)
 
@@ -771,7 +772,7 @@ if (!{{ value }}.isString()) {
     {{ target_expr }} = {{ value }}.asString();
     {% else %}
     const static std::regex regex_{{ uid }}(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|raw_str }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
@@ -863,7 +864,7 @@ if (!{{ value }}.isString()) {
     {{ set_target }}
     {% else %}
     const static std::regex regex(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|raw_str }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index eff190f..a506199 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -21,6 +21,7 @@ ENV.filters.update({
     'as_composite': mapry.cpp.naming.as_composite,
     'comment': mapry.cpp.generate.comment,
     'escaped_str': mapry.cpp.generate.escaped_str,
+    'raw_str': mapry.cpp.generate.raw_str,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
-- 
2.43.0


From 0532bfd201e059b6fd9b048fe38cee6fe2fdab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:37 +0000
Subject: [PATCH 24/31] fix: parse optional dates of date.h in place

date::parse can not parse into an optional so that the generated code did
not compile.
---
 mapry/cpp/generate/jsoncpp_impl.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 3e533ab..9e304db 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -1878,12 +1878,17 @@ def _parse_property(
     ]
 
     # Special handling of the optional property
-    needs_emplace = isinstance(
+    parses_in_place = (
+        cpp.datetime_library == 'date.h'
+        and isinstance(a_property.type, (mapry.Date, mapry.Datetime)))
+
+    needs_emplace = parses_in_place or isinstance(
         a_property.type, (mapry.Array, mapry.Map, mapry.Embed))
 
     parsing_target_expr = property_target_expr
     if a_property.optional:
-        if isinstance(a_property.type, (mapry.Array, mapry.Map)):
+        if parses_in_place or isinstance(a_property.type,
+                                         (mapry.Array, mapry.Map)):
             parsing_target_expr = "*{}".format(property_target_expr)
         elif isinstance(a_property.type, mapry.Embed):
             parsing_target_expr = "(*{})".format(property_target_expr)
-- 
2.43.0


From 12e5ec6c542e137976b42987470aa11c6e8c759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 25/31] fix: define the fields of C++ structures before the
 structures

---
 mapry/cpp/generate/types_header.py | 34 +++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 5416515..f6c9279 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -294,6 +294,38 @@ def _embed_definition(embed: mapry.Embed, cpp: mapry.Cpp) -> str:
                                                       cpp=cpp)).strip()
 
 
+def _embeds_in_order(graph: mapry.Graph) -> List[mapry.Embed]:
+    """
+    Sort the embeddable structures so that the fields have complete types.
+
+    A structure which is a field of another one needs to be defined before it.
+    Otherwise, the order of the definitions in the schema is preserved.
+
+    :param graph: mapry definition of the object graph
+    :return: sorted embeddable structures
+    """
+    ordered = []  # type: List[mapry.Embed]
+    visited = set()  # type: Set[str]
+
+    def visit(embed: mapry.Embed) -> None:
+        """Append the fields of the structure before the structure."""
+        if embed.name in visited:
+            return
+
+        visited.add(embed.name)
+
+        for prop in embed.properties.values():
+            if isinstance(prop.type, mapry.Embed):
+                visit(embed=prop.type)
+
+        ordered.append(embed)
+
+    for embed in graph.embeds.values():
+        visit(embed=embed)
+
+    return ordered
+
+
 _CLASS_DEFINITION_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 {% if cls.description %}
@@ -390,7 +422,7 @@ def generate(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
 
     blocks.append(_forward_declarations(graph=graph))
 
-    for embed in graph.embeds.values():
+    for embed in _embeds_in_order(graph=graph):
         blocks.append(_embed_definition(embed=embed, cpp=cpp))
 
     for cls in graph.classes.values():
-- 
2.43.0


From 51cfd0aba5c528d2570e3c5120fdc00d72a1c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:31 +0000
Subject: [PATCH 26/31] fix: escape the quotes and backslashes at the end of
 docstrings

---
 mapry/py/generate/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index 406bfea..c8bf6d1 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -117,14 +117,19 @@ def docstring(text: str) -> str:
     :return: Python string literal
     """
     has_backslash = '\\' in text
-    has_triple_quote = '"""' in text
+    needs_escape = (
+        '"""' in text or '\0' in text or text.endswith('"')
+        or text.endswith('\\'))
 
     is_raw = False
     content = text
 
-    if has_triple_quote:
+    if needs_escape:
         is_raw = False
-        content = text.replace('\\', '\\\\').replace('"""', '\\"\\"\\"')
+        content = text.replace('\\', '\\\\').replace('\0', '\\x00')
+        content = re.sub(
+            r'"""|"\Z', lambda mtch: mtch.group().replace('"', '\\"'),
+            content)
     else:
         if has_backslash:
             is_raw = True
-- 
2.43.0


From b1c08242c39c92b773612fc8a7aceb7661ecf3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:31 +0000
Subject: [PATCH 27/31] fix: escape the characters which Go comments can not
 hold

---
 mapry/go/generate/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 1caf776..df65e83 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -19,6 +19,9 @@ def comment(text: str) -> str:
     :param text: of the comment
     :return: non-indented comment
     """
+    # Go source files can hold neither NUL nor a byte order mark.
+    text = text.replace('\0', '\\x00').replace('\ufeff', '\\ufeff')
+
     comment_lines = []  # type: List[str]
     for line in text.splitlines():
         if line.strip():
-- 
2.43.0


From 16c4f26fb9d591ea7a8d1ac394af08ae02098b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:31 +0000
Subject: [PATCH 28/31] fix: do not splice the lines of C++ to the comments in
 front of them

---
 mapry/cpp/generate/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 4b42e21..55b3654 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -15,9 +15,14 @@ def comment(text: str) -> str:
     :param text: of the comment
     :return: non-indented comment
     """
+    text = text.replace('\0', '\\x00')
+
     comment_lines = []  # type: List[str]
     for line in text.splitlines():
-        if line.strip():
+        if line.rstrip().endswith(('\\', '??/')):
+            # Otherwise, the next line would be spliced to the comment.
+            comment_lines.append('// {} //'.format(line))
+        elif line.strip():
             comment_lines.append('// {}'.format(line))
         else:
             comment_lines.append('//')
-- 
2.43.0


From fd9d0b5e79791200a496e6818cabb7f3457f5bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 29/31] fix: write the generated code in UTF-8

---
 mapry/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/main.py b/mapry/main.py
index 8410d75..78835a7 100644
--- a/mapry/main.py
+++ b/mapry/main.py
@@ -79,7 +79,7 @@ def generate_cpp(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
@@ -132,7 +132,7 @@ def generate_go(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
@@ -183,7 +183,7 @@ def generate_py(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
-- 
2.43.0


From b081b986b67df5f02f499f5ff59e3fac523a2ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 30/31] fix: read the schema in UTF-8

---
 mapry/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 17541f8..b1529e1 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -398,7 +398,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
     :param path: to the JSON-encoded mapry schema.
     :return: parsed schema
     """
-    with path.open('rt') as fid:
+    with path.open('rt', encoding='utf-8') as fid:
         jsonerr = None  # type: Optional[json.JSONDecodeError]
 
         try:
-- 
2.43.0


From 49c701eaf01755f3b6e3ccc69594f4d7e3835e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 31/31] fix: tell about JSON errors behind the last line of the
 schema

---
 mapry/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index b1529e1..fcf4342 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -408,7 +408,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
             jsonerr = err
 
         if jsonerr is not None:
-            lines = path.read_text().splitlines()
+            lines = path.read_text(encoding='utf-8').split('\n')
             line = lines[jsonerr.lineno - 1]
 
             if len(line) <= 120:
-- 
2.43.0

