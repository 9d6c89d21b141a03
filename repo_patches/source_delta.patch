From 9ff4e1d30bdf48b24312abf7d06be84d685f6cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 01/45] fix: use the referenced schema of allOf keywords when
 quoting values

---
 mappyfile/pprint.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 636bd0f..cdc7f8f 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -347,6 +347,11 @@ class PrettyPrinter:
             log.error(ex)
             return {}
 
+        # a schema reference along with further details (e.g. minVersion)
+        # is wrapped in a single item allOf list
+        if len(attr_props.get("allOf", [])) == 1:
+            attr_props = attr_props["allOf"][0]
+
         return attr_props
 
     def is_expression(self, option):
-- 
2.43.0


From 32e69a94dd26a0559e8a664a7dc6ece596e0912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:47 +0000
Subject: [PATCH 02/45] fix: quote strings that are not one of the values in
 the schema of their keyword

---
 mappyfile/pprint.py | 46 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index cdc7f8f..22ef9e9 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -387,12 +387,14 @@ class PrettyPrinter:
                     f"The property {attr} has an empty dictionary as a value"
                 )
 
-            if not isinstance(value, numbers.Number):
-                if attr == "compop":
-                    return self.quoter.add_quotes(str(value))
-                return str(value).upper()  # value is from a set list, no need for quote
+            if not self.quoter.is_string(value):
+                return value
 
-            return value
+            if attr == "compop":
+                return self.quoter.add_quotes(str(value))
+
+            if value.lower() in attr_props["enum"]:
+                return value.upper()  # value is from a set list, no need for quote
 
         if (
             "type" in attr_props and attr_props["type"] == "string"
@@ -409,26 +411,22 @@ class PrettyPrinter:
             return self.quoter.add_quotes(value)
 
         # expressions can be one of a string or an expression in brackets
-        if any(
-            i in ["oneOf", "anyOf"] for i in attr_props
-        ):  # and check that type string is in list
-            if "oneOf" in attr_props:
-                options_list = attr_props["oneOf"]
+        if self.quoter.is_string(value):
+            # the string may also not match the type of the keyword in the schema
+            options_list = attr_props.get("oneOf", attr_props.get("anyOf", []))
+
+            if self.quoter.in_parenthesis(value):
+                pass
+            elif attr == "expression" and self.quoter.in_braces(value):
+                # don't add quotes to list expressions such as {val1, val2}
+                pass
+            elif attr != "text" and self.quoter.in_brackets(value):
+                # TEXT expressions are often "[field1]-[field2]" so need to leave quotes for these
+                pass
+            elif value.startswith("NOT ") and self.quoter.in_parenthesis(value[4:]):
+                value = f"NOT {value[4:]}"
             else:
-                options_list = attr_props["anyOf"]
-            if self.quoter.is_string(value):
-                if self.quoter.in_parenthesis(value):
-                    pass
-                elif attr == "expression" and self.quoter.in_braces(value):
-                    # don't add quotes to list expressions such as {val1, val2}
-                    pass
-                elif attr != "text" and self.quoter.in_brackets(value):
-                    # TEXT expressions are often "[field1]-[field2]" so need to leave quotes for these
-                    pass
-                elif value.startswith("NOT ") and self.quoter.in_parenthesis(value[4:]):
-                    value = f"NOT {value[4:]}"
-                else:
-                    value = self.check_options_list(options_list, value)
+                value = self.check_options_list(options_list, value)
 
         if isinstance(value, list):
             new_values = []
-- 
2.43.0


From 3d9166b5b36e89b6df56cb6a9dfea69628db0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:47 +0000
Subject: [PATCH 03/45] fix: refuse to print dictionaries and None as keyword
 values

---
 mappyfile/pprint.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 22ef9e9..bf4daa6 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -381,12 +381,14 @@ class PrettyPrinter:
         if isinstance(value, bool):
             return str(value).upper()
 
-        if any(i in ["enum"] for i in attr_props):
-            if isinstance(value, dict) and not value:
-                raise ValueError(
-                    f"The property {attr} has an empty dictionary as a value"
-                )
+        if value is None:
+            raise ValueError(f"The property {attr} has no value")
 
+        if isinstance(value, dict):
+            state = "a" if value else "an empty"
+            raise ValueError(f"The property {attr} has {state} dictionary as a value")
+
+        if any(i in ["enum"] for i in attr_props):
             if not self.quoter.is_string(value):
                 return value
 
-- 
2.43.0


From 779db55d8dac1ec1ea8b8495c083122f0c22cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:47 +0000
Subject: [PATCH 04/45] fix: never quote attribute bindings in lists of values

---
 mappyfile/pprint.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index bf4daa6..ba3dea9 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -434,11 +434,8 @@ class PrettyPrinter:
             new_values = []
 
             for v in value:
-                if not isinstance(v, numbers.Number) and attr not in [
-                    "offset",
-                    "polaroffset",
-                ]:
-                    # don't add quotes to list of attributes for offset / polaroffset
+                if not isinstance(v, numbers.Number) and not self.quoter.in_brackets(v):
+                    # don't add quotes to attribute bindings e.g. for offset / polaroffset
                     v = self.quoter.add_quotes(v)
                 new_values.append(v)
 
-- 
2.43.0


From a63ccfbb31b668e6531e262be23d3019633417eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 05/45] fix: parse SYMBOL blocks starting with BACKGROUNDCOLOR

---
 mappyfile/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index ef2f081..9873fcd 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -55,6 +55,7 @@ if use_cython:
 SYMBOL_ATTRIBUTES = {
     "ANCHORPOINT",
     "ANTIALIAS",
+    "BACKGROUNDCOLOR",
     "FILLED",
     "FONT",
     "IMAGE",
-- 
2.43.0


From c2f958bb23d195fac07c7650d810b9a165f90172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 06/45] fix: parse GRID as a root block, and lowercase SYMBOL
 and NAME keywords followed by unquoted values

---
 mappyfile/parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 9873fcd..97323c8 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -204,6 +204,14 @@ class Parser:
         text = self.open_file(fn)
         return self.parse(text, fn=fn)
 
+    def _previous_keyword(self, ip: Any) -> str:
+        """
+        Return the last token on the stack of the interactive parser in uppercase,
+        or an empty string if this is not a token or the stack is empty
+        """
+        stack = ip.parser_state.value_stack
+        return str(getattr(stack[-1], "value", "")).upper() if stack else ""
+
     def parse(self, text: str, fn: str | None = None) -> Any:
         """
         Parse the Mapfile
@@ -219,13 +227,13 @@ class Parser:
                 if t.type == "UNQUOTED_STRING":
                     # Unquoted strings after SYMBOL can only be values, not attributes
                     if (
-                        ip.parser_state.value_stack[-1] == "SYMBOL"
+                        self._previous_keyword(ip) == "SYMBOL"
                         and t.value.upper() not in SYMBOL_ATTRIBUTES
                     ):
                         t.type = "UNQUOTED_STRING_VALUE"
                 elif t.type == "GRID":
                     # Unquoted 'GRID' coming after NAME is always a value, not a composite type
-                    if ip.parser_state.value_stack[-1] == "NAME":
+                    if self._previous_keyword(ip) == "NAME":
                         t.type = "UNQUOTED_STRING_VALUE"
 
             tree = ip.resume_parse()
-- 
2.43.0


From fbf767d8d272bb44f5524e64b8aceab53ffdccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 07/45] fix: parse QUERYMAP STYLE NORMAL when it is followed by
 further keywords

---
 mappyfile/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 97323c8..fd95e24 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -231,6 +231,12 @@ class Parser:
                         and t.value.upper() not in SYMBOL_ATTRIBUTES
                     ):
                         t.type = "UNQUOTED_STRING_VALUE"
+                    # NORMAL is a value of the QUERYMAP STYLE, and never an attribute of a STYLE block
+                    elif (
+                        self._previous_keyword(ip) == "STYLE"
+                        and t.value.upper() == "NORMAL"
+                    ):
+                        t.type = "UNQUOTED_STRING_VALUE"
                 elif t.type == "GRID":
                     # Unquoted 'GRID' coming after NAME is always a value, not a composite type
                     if self._previous_keyword(ip) == "NAME":
-- 
2.43.0


From 45656f0aeb81f52f7ffd0d6607bdda41574b5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 08/45] fix: print booleans in repeated keywords as booleans

---
 mappyfile/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index ba3dea9..1ec8181 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -216,7 +216,7 @@ class PrettyPrinter:
 
         for v in lst:
             k = key.upper()
-            v = self.quoter.add_quotes(v)
+            v = str(v).upper() if isinstance(v, bool) else self.quoter.add_quotes(v)
             lines.append(
                 self.__format_line(self.whitespace(level, 1), k, v, aligned_max_indent)
             )
-- 
2.43.0


From bd64cfc4f4ab1039d5ada173263451bd70c941e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 09/45] fix: read unquoted words starting with several digits
 as words

---
 mappyfile/mapfile.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 6144ea4..3373b1a 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -145,7 +145,7 @@ NULL: "NULL"i
 SIGNED_FLOAT: ["-"|"+"] FLOAT
 SIGNED_INT: ["-"|"+"] INT
 
-INT: /[0-9]+(?![_a-zA-Z])/
+INT: /[0-9]+(?![_a-zA-Z0-9])/
 
 %import common.FLOAT
 
-- 
2.43.0


From 5d9c7977778feecfa50c47fa53f6a7e658908039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:59 +0000
Subject: [PATCH 10/45] fix: print lists of values of string and enumerated
 keywords as values and not as Python lists

---
 mappyfile/pprint.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 1ec8181..15f6276 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -388,10 +388,7 @@ class PrettyPrinter:
             state = "a" if value else "an empty"
             raise ValueError(f"The property {attr} has {state} dictionary as a value")
 
-        if any(i in ["enum"] for i in attr_props):
-            if not self.quoter.is_string(value):
-                return value
-
+        if any(i in ["enum"] for i in attr_props) and self.quoter.is_string(value):
             if attr == "compop":
                 return self.quoter.add_quotes(str(value))
 
@@ -399,7 +396,9 @@ class PrettyPrinter:
                 return value.upper()  # value is from a set list, no need for quote
 
         if (
-            "type" in attr_props and attr_props["type"] == "string"
+            "type" in attr_props
+            and attr_props["type"] == "string"
+            and not isinstance(value, list)
         ):  # and "enum" not in attr_props
             # check schemas for expressions and handle accordingly
             if self.is_expression(attr_props) and self.quoter.in_slashes(value):
-- 
2.43.0


From 43e493e599e3f943b82a9fae43b070b52709a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 11/45] fix: leave case-insensitive regular expressions
 unquoted, and quote paths in slashes

---
 mappyfile/pprint.py | 5 ++++-
 mappyfile/quoter.py | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 15f6276..e25e389 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -369,7 +369,10 @@ class PrettyPrinter:
                 if value.endswith("'i") or value.endswith('"i'):
                     return value
 
-        if self.quoter.in_slashes(value):
+        if self.quoter.in_slashes(value) and any(
+            option.get("description") in ("expression", "regex")
+            for option in options_list
+        ):
             return value
 
         return self.quoter.add_quotes(value)
diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index 3d2b690..cf75771 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -29,6 +29,7 @@
 
 from __future__ import annotations
 import logging
+import re
 from typing import Any
 
 
@@ -105,8 +106,10 @@ class Quoter:
         return val.startswith("{") and val.endswith("}")
 
     def in_slashes(self, val: str) -> bool:
-        val = val.strip()
-        return self._in_quotes(val, "/")
+        """
+        Check for regular expressions such as /val/ and the case insensitive /val/i
+        """
+        return re.fullmatch(r"/[^/\n]+/i?", val) is not None
 
     def standardise_quotes(self, val: str) -> str:
         """
-- 
2.43.0


From 457d287bf2bab0ec7b827497b6b843a24b933ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 12/45] fix: recognise a value in parentheses only when the
 first one is closed by the last one

---
 mappyfile/quoter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index cf75771..7914f1e 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -99,7 +99,18 @@ class Quoter:
 
     def in_parenthesis(self, val: str) -> bool:
         val = val.strip()
-        return val.startswith("(") and val.endswith(")")
+        if not (val.startswith("(") and val.endswith(")")):
+            return False
+
+        # check the last bracket closes the first one e.g. not "(a) + (b)"
+        depth = 0
+        brackets = re.sub(r"\\.|\"[^\"]*\"|'[^']*'|`[^`]*`|[^()]", "", val)
+        for bracket in brackets[:-1]:
+            depth += 1 if bracket == "(" else -1
+            if depth == 0:
+                return False
+
+        return True
 
     def in_braces(self, val: str) -> bool:
         val = val.strip()
-- 
2.43.0


From 640e8ae8b4097d608a9abceec52357551fe782ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 13/45] fix: leave list expressions in FILTER unquoted

---
 mappyfile/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index e25e389..f17c776 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -421,7 +421,7 @@ class PrettyPrinter:
 
             if self.quoter.in_parenthesis(value):
                 pass
-            elif attr == "expression" and self.quoter.in_braces(value):
+            elif attr in ("expression", "filter") and self.quoter.in_braces(value):
                 # don't add quotes to list expressions such as {val1, val2}
                 pass
             elif attr != "text" and self.quoter.in_brackets(value):
-- 
2.43.0


From ca82258234d8cc58bc69ec2e70d0c81688500673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:21 +0000
Subject: [PATCH 14/45] fix: never print hidden keys of CONFIG

---
 mappyfile/pprint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index f17c776..0c9b87e 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -200,6 +200,8 @@ class PrettyPrinter:
         """
         lines = []
         for k, v in d.items():
+            if self.__is_metadata(k):
+                continue
             cfg_val = self.quoter.add_quotes(k.upper())
             k = f"CONFIG {cfg_val}"
             v = self.quoter.add_quotes(v)
-- 
2.43.0


From 151fb047d936361e27e37dd790a693da78c4eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 15/45] fix: keep SYMBOL and STYLE keywords with the simple
 keywords when separating complex types

---
 mappyfile/pprint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 0c9b87e..d69a205 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -291,8 +291,8 @@ class PrettyPrinter:
         return False
 
     def is_complex_type(self, composite: dict, key: str, level: int) -> bool:
-        # symbol needs special treatment
-        if key == "symbol" and level > 0:
+        # SYMBOL and STYLE can also be simple keywords, e.g. STYLE HILITE
+        if key in ("symbol", "style") and not isinstance(composite[key], (dict, list)):
             return False
         return (
             key in COMPLEX_TYPES
-- 
2.43.0


From b45cbd662a9e8f5032441fd518e2a1bf5e56765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:27 +0000
Subject: [PATCH 16/45] fix: print root METADATA, VALIDATION and
 CONNECTIONOPTIONS blocks without indentation

---
 mappyfile/pprint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index d69a205..8e930e6 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -327,7 +327,8 @@ class PrettyPrinter:
             type_ = composite["__type__"]
             if type_ in ("metadata", "validation", "connectionoptions"):
                 # types are being parsed directly, and not as an attr of a parent
-                lines += self.process_key_dict(type_, composite, level=0)
+                # at level -1 as there is no parent to indent them in
+                lines += self.process_key_dict(type_, composite, level=-1)
             else:
                 lines += self._format(composite)
 
-- 
2.43.0


From 677e967cbecaa49eb0220ccb03b0ab0ba5a5ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:27 +0000
Subject: [PATCH 17/45] fix: keep the SYMBOLSET keyword of a MAP with the
 simple keywords when separating complex types

---
 mappyfile/pprint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 8e930e6..9b7582e 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -291,8 +291,10 @@ class PrettyPrinter:
         return False
 
     def is_complex_type(self, composite: dict, key: str, level: int) -> bool:
-        # SYMBOL and STYLE can also be simple keywords, e.g. STYLE HILITE
-        if key in ("symbol", "style") and not isinstance(composite[key], (dict, list)):
+        # these can also be simple keywords, e.g. STYLE HILITE
+        if key in ("symbol", "symbolset", "style") and not isinstance(
+            composite[key], (dict, list)
+        ):
             return False
         return (
             key in COMPLEX_TYPES
-- 
2.43.0


From f331111c8a065f8bf61413acca8036daa6e25768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:20 +0000
Subject: [PATCH 18/45] fix: allow separate_complex_types with plain
 dictionaries

---
 mappyfile/dictutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index bc6e1ee..4d17681 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -317,4 +317,5 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
 
 
 def dict_move_to_end(ordered_dict, key):
-    ordered_dict.move_to_end(key)
+    # plain dicts are also ordered, but do not have a move_to_end method
+    ordered_dict[key] = ordered_dict.pop(key)
-- 
2.43.0


From 23473d9e3d2ca3688911b50708357d2354d11717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 19/45] fix: read INCLUDE file names with blanks or #, and only
 lines starting with the word INCLUDE

---
 mappyfile/parser.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index fd95e24..6542360 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -29,6 +29,7 @@
 
 from __future__ import annotations
 import os
+import re
 import logging
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
@@ -68,6 +69,12 @@ SYMBOL_ATTRIBUTES = {
 }
 
 
+# an INCLUDE keyword at the start of a line, followed by a quoted or unquoted filename
+INCLUDE_LINE = re.compile(
+    r"""\s*INCLUDE(?:\s*"([^"]*)"|\s*'([^']*)'|\s+([^\s"'#]+))""", re.IGNORECASE
+)
+
+
 class Parser:
     def __init__(
         self, expand_includes: bool = True, include_comments: bool = False, **kwargs
@@ -95,20 +102,24 @@ class Parser:
 
         return Lark.open("mapfile.lark", rel_to=__file__, parser="lalr", **extra_args)
 
-    def _get_include_filename(self, line: str) -> str:
-        if "#" in line:
-            # remove any comments on the same line
-            line = line.split("#")[0]
+    def _get_include_filename(self, line: str) -> str | None:
+        """
+        Return the name of the file referenced by an INCLUDE line,
+        or None if the line is not an INCLUDE
+        """
+        match = INCLUDE_LINE.match(line)
+
+        if match is None:
+            return None
 
-        include_pairs = line.split()
-        if len(include_pairs) > 2:
+        rest = line[match.end() :].split("#")[0]
+        if rest.strip():
             log.warning(
                 "Multiple include files have been found on the same line. "
                 "Only the first will be used. "
             )
-        inc_file_path = include_pairs[1]
 
-        return inc_file_path.strip("'").strip('"')
+        return next(g for g in match.groups() if g is not None)
 
     def load_includes(
         self, text: str, fn: str | None = None, _nested_includes: int = 0
@@ -120,12 +131,11 @@ class Parser:
         lines = text.split("\n")
         includes = {}
         for idx, l in enumerate(lines):
-            if l.strip().lower().startswith("include"):
+            inc_file_path = self._get_include_filename(l)
+            if inc_file_path is not None:
                 if _nested_includes == 5:
                     raise ValueError("Maximum nested include exceeded! (MaxNested=5)")
 
-                inc_file_path = self._get_include_filename(l)
-
                 if not os.path.isabs(inc_file_path):
                     inc_file_path = os.path.abspath(
                         os.path.join(os.path.dirname(fn), inc_file_path)
-- 
2.43.0


From e80baa6386ad9b67cce369eb07e8cd853ccee22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 20/45] fix: report validation errors in lists of values and
 repeated keywords, and validate roots against the schema of their type

---
 mappyfile/validator.py | 86 +++++++++++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 21 deletions(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index c699e8f..c1a15a3 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -34,7 +34,7 @@ from collections import OrderedDict
 import logging
 import jsonschema
 import jsonref
-from mappyfile import dictutils
+from mappyfile.tokens import COMPLEX_TYPES
 from referencing import Registry, Resource
 from referencing.jsonschema import DRAFT4
 from typing import Any
@@ -196,6 +196,37 @@ class Validator:
 
         return x
 
+    def find_item(self, d: Any, keys: list[Any]) -> Any:
+        """
+        Find an item using the keys of the lower-cased dict, as the
+        keys in the original dict can be in any case
+        """
+        for key in keys:
+            if isinstance(d, dict) and key not in d:
+                key = next(k for k in d if k.lower() == key)
+            d = d[key]
+        return d
+
+    def get_type(self, d: dict, default: str) -> str:
+        """
+        Get the name of the type of an object
+        """
+        name = next((v for k, v in d.items() if k.lower() == "__type__"), default)
+        return name if isinstance(name, str) else default
+
+    def get_root_schema_name(self, d: dict) -> str:
+        """
+        Get the name of the schema for an object based on its type
+        """
+        name = self.get_type(d, "map").lower()
+
+        if name in COMPLEX_TYPES and os.path.isfile(
+            os.path.join(self.get_schemas_folder(), f"{name}.json")
+        ):
+            return name
+
+        return "map"
+
     def create_message(
         self, rootdict: dict, path: str, error, add_comments: bool
     ) -> dict:
@@ -210,17 +241,24 @@ class Validator:
         See https://github.com/Julian/jsonschema/issues/119
         """
 
-        if not path:
+        # an error in one of the values of a list is an error of the list's keyword
+        keys = list(path)
+        while keys and not isinstance(keys[-1], str):
+            if isinstance(self.find_item(rootdict, keys), dict):
+                break
+            keys.pop()
+
+        if not keys:
             # error applies to the root type
             d = rootdict
-            key = d["__type__"]
-        elif isinstance(path[-1], int):
+            key = self.get_type(d, "map")
+        elif not isinstance(keys[-1], str):
             # the error is on an object in a list
-            d = dictutils.findkey(rootdict, *path)
-            key = d["__type__"]
+            d = self.find_item(rootdict, keys)
+            key = self.get_type(d, keys[-2])
         else:
-            key = path[-1]
-            d = dictutils.findkey(rootdict, *path[:-1])
+            key = keys[-1]
+            d = self.find_item(rootdict, keys[:-1])
 
         error_message = f"ERROR: Invalid value in {key.upper()}"
 
@@ -238,12 +276,17 @@ class Validator:
         # include position details
 
         if "__position__" in d:
-            if not path or key not in d["__position__"]:
+            if not keys or key not in d["__position__"]:
                 # position for the root object is stored in the root of the dict
                 pd = d["__position__"]
             else:
                 pd = d["__position__"][key]
 
+            if isinstance(pd, list):
+                # repeated keywords have a position for each of their values
+                index = path[len(keys)] if len(path) > len(keys) else 0
+                pd = pd[min(index, len(pd) - 1)]
+
             error_dict["line"] = pd.get("line")
             error_dict["column"] = pd.get("column")
 
@@ -277,25 +320,26 @@ class Validator:
         self,
         value: Any,
         add_comments: bool = False,
-        schema_name: str = "map",
+        schema_name: (str | None) = None,
         version: (float | None) = None,
     ):
         """
         verbose - also return the jsonschema error details
+        If no schema_name is provided each dictionary is validated
+        against the schema of its own type
         """
-        if version:
-            jsn_schema = self.get_versioned_schema(version, schema_name)
-            validator = jsonschema.Draft4Validator(schema=jsn_schema)
-        else:
-            validator = self.get_schema_validator(schema_name)
-
         error_messages = []
 
-        if isinstance(value, list):
-            for d in value:
-                error_messages += self._get_errors(d, validator, add_comments)
-        else:
-            error_messages = self._get_errors(value, validator, add_comments)
+        for d in value if isinstance(value, list) else [value]:
+            name = schema_name or self.get_root_schema_name(d)
+
+            if version:
+                jsn_schema = self.get_versioned_schema(version, name)
+                validator = jsonschema.Draft4Validator(schema=jsn_schema)
+            else:
+                validator = self.get_schema_validator(name)
+
+            error_messages += self._get_errors(d, validator, add_comments)
 
         return error_messages
 
-- 
2.43.0


From 9ea26a3246b2b4b44f444cad2d519ae8ffc4dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 21/45] fix: report object-level validation errors at the
 position of the object

---
 mappyfile/validator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index c1a15a3..e2ab783 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -275,6 +275,13 @@ class Validator:
         # add in details of the error line, when Mapfile was parsed to
         # include position details
 
+        item = self.find_item(rootdict, keys)
+
+        if isinstance(item, dict) and "__position__" in item:
+            # objects store the position of their own opening keyword
+            d = item
+            keys = []
+
         if "__position__" in d:
             if not keys or key not in d["__position__"]:
                 # position for the root object is stored in the root of the dict
-- 
2.43.0


From 91ea6ea15c68130b8570a451bcdadc35d0abc70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 22/45] fix: record the position of SYMBOLSET root objects

---
 mappyfile/mapfile.lark   | 4 +++-
 mappyfile/transformer.py | 5 +----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 3373b1a..f45f78d 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -27,7 +27,7 @@
 // 
 // =================================================================
 
-start: "SYMBOLSET"i composite_body _END   -> symbolset
+start: symbolset_type composite_body _END   -> symbolset
      | composite+
 
 composite: composite_type composite_body _END
@@ -113,6 +113,8 @@ func_params: value ("," value)*
 !true: "TRUE"i
 !false: "FALSE"i
 
+!symbolset_type: "SYMBOLSET"i
+
 !composite_type: "CLASS"i
             | "CLUSTER"i
             | "COMPOSITE"i
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 44d662b..4c17d83 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -35,7 +35,6 @@ Python dict structure
 from __future__ import annotations
 import logging
 from collections import OrderedDict
-from lark import Tree
 from lark.visitors import Transformer_InPlace, Transformer, v_args
 from lark.lexer import Token
 from .parser import lark_cython
@@ -758,10 +757,8 @@ class MapfileToDict:
 class Canonize(Transformer_InPlace):
     @v_args(tree=True)
     def symbolset(self, tree):
-        composite_type = Tree("composite_type", [Token("symbolset", "symbolset")])
-
         tree.data = "composite"
-        tree.children.insert(0, composite_type)
+        tree.children[0].data = "composite_type"
         return tree
 
 
-- 
2.43.0


From a717abf849b2e498c51b12f985786b30642bd070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 23/45] fix: refuse root CONNECTIONOPTIONS in versions without
 them, and validate against version 0

---
 mappyfile/validator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index e2ab783..3f37834 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -132,7 +132,11 @@ class Validator:
         """
         jsn_schema = self.get_expanded_schema(schema_name, version)
 
-        if version:
+        if version is not None:
+            if self.is_valid_for_version(jsn_schema, version) is False:
+                # the object itself is not available in this version
+                jsn_schema["not"] = {}
+
             # remove any properties based on minVersion and maxVersion
             properties = jsn_schema["properties"]
             jsn_schema["properties"] = self.get_versioned_properties(
@@ -340,7 +344,7 @@ class Validator:
         for d in value if isinstance(value, list) else [value]:
             name = schema_name or self.get_root_schema_name(d)
 
-            if version:
+            if version is not None:
                 jsn_schema = self.get_versioned_schema(version, name)
                 validator = jsonschema.Draft4Validator(schema=jsn_schema)
             else:
-- 
2.43.0


From a7e2e8c1416c261f0f3e9d61dd42d5b17ff42a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 24/45] fix: give % the precedence of * and / in expressions

---
 mappyfile/mapfile.lark   | 3 ++-
 mappyfile/transformer.py | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index f45f78d..36ce23d 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -88,7 +88,7 @@ expression: "(" or_test ")"
 ?or_test : (or_test ("OR"i|"||"))? and_test
 ?and_test : (and_test ("AND"i|"&&"))? comparison
 ?comparison: (comparison compare_op)? sum
-!compare_op: ">=" | "<" | "=*" | "==" | "=" | "!=" | "~" | "~*" | ">" | "%"
+!compare_op: ">=" | "<" | "=*" | "==" | "=" | "!=" | "~" | "~*" | ">"
 | "<=" | "IN"i | "NE"i | "EQ"i | "LE"i | "LT"i | "GE"i | "GT"i | "LIKE"i
 
 ?sum: product
@@ -98,6 +98,7 @@ expression: "(" or_test ")"
 ?product: unary_expr
     | product "*" unary_expr -> mul
     | product "/" unary_expr -> div
+    | product "%" unary_expr -> mod
     | product "^" unary_expr -> power
 
 ?unary_expr: atom
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 4c17d83..67fa0f2 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -512,6 +512,11 @@ class MapfileTransformer(Transformer):
         t[0].value = f"{t[0].value} * {t[1].value}"
         return t[0]
 
+    def mod(self, t):
+        assert len(t) == 2
+        t[0].value = f"( {t[0].value} % {t[1].value} )"
+        return t[0]
+
     def power(self, t):
         assert len(t) == 2
         t[0].value = f"{t[0].value} ^ {t[1].value}"
-- 
2.43.0


From 146717e27562e94a5994123e52c8780f09d3d248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 25/45] fix: reject lists of numbers as operands of expressions
 with a parse error

---
 mappyfile/mapfile.lark | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 36ce23d..9914b7a 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -52,9 +52,10 @@ _composite_item: (composite|attr|points|projection|pattern|values|config)
 attr: (UNQUOTED_STRING | composite_type) (value | UNQUOTED_STRING | UNQUOTED_STRING_VALUE)
 %declare UNQUOTED_STRING_VALUE  // generated using the interactive parser. See issues #48, #98
 
-?value: string | int | float | expression | not_expression | attr_bind | path
-| regexp | runtime_var | list | NULL | true | false | extent | rgb | hexcolor
-| colorrange | hexcolorrange | num_pair | attr_bind_pair | attr_mixed_pair | _attr_keyword
+?value: operand | extent | rgb | colorrange | hexcolorrange | num_pair | attr_bind_pair | attr_mixed_pair
+
+?operand: string | int | float | expression | not_expression | attr_bind | path
+| regexp | runtime_var | list | NULL | true | false | hexcolor | _attr_keyword
 
 int: SIGNED_INT
 int_pair: int int
@@ -77,7 +78,7 @@ float_pair: float float
 path: PATH
 regexp: REGEXP1 | REGEXP2
 runtime_var: RUNTIME_VAR
-list: "{" (value | UNQUOTED_STRING_SPACE) ("," (value | UNQUOTED_STRING_SPACE))* "}"
+list: "{" (operand | UNQUOTED_STRING_SPACE) ("," (operand | UNQUOTED_STRING_SPACE))* "}"
 
 num_pair: (int|float) (int|float)
 
@@ -105,11 +106,11 @@ expression: "(" or_test ")"
     | "-" unary_expr -> neg
     | "+" unary_expr
 
-?atom: (func_call | value)
+?atom: (func_call | operand)
 // ?multiply: (multiply "*")? (func_call | value)
 
 func_call: UNQUOTED_STRING "(" func_params ")"
-func_params: value ("," value)*
+func_params: operand ("," operand)*
 
 !true: "TRUE"i
 !false: "FALSE"i
-- 
2.43.0


From 42856a131330fe8f5bb670c3cfbb3a4273713fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 26/45] fix: keep numbers, booleans and quoted colors in
 expressions and lists as they were written

---
 mappyfile/transformer.py | 91 +++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 47 deletions(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 67fa0f2..be7ab96 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -48,7 +48,10 @@ if lark_cython:
     TOKEN_TYPES = (Token, lark_cython.Token)
 
     def update_token_value(t, value):
-        return Token.new_borrow_pos(t.type, value, t)
+        # the text of the new token is kept as it was written
+        t = Token.new_borrow_pos(t.type, t.value, t)
+        t.value = value
+        return t
 
 else:
     TOKEN_TYPES = Token  # type: ignore
@@ -454,78 +457,75 @@ class MapfileTransformer(Transformer):
 
     # for expressions
 
+    def operand_text(self, t) -> str:
+        """
+        The text of an operand - numbers, booleans, and quoted strings which look
+        like hex colors are left as they were written
+        """
+        if t.type.endswith("HEXCOLOR") or not isinstance(t.value, str):
+            return str(t)
+
+        return t.value
+
+    def update_expression(self, t, text: str):
+        return Token.new_borrow_pos("EXPRESSION", text, t)
+
+    def join_operands(self, t, operator: str):
+        assert len(t) == 2
+        left, right = [self.operand_text(v) for v in t]
+        return self.update_expression(t[0], f"{left} {operator} {right}")
+
     def comparison(self, t):
         assert len(t) == 3
-        parts = [str(p.value) for p in t]
-        v = " ".join(parts)
+        v = " ".join([self.operand_text(p) for p in t])
 
-        v = f"( {v} )"
-        t[0].value = v
-        return t[0]
+        return self.update_expression(t[0], f"( {v} )")
 
     def and_test(self, t):
-        assert len(t) == 2
-        t[0].value = f"( {t[0].value} AND {t[1].value} )"
-        return t[0]
+        v = self.join_operands(t, "AND")
+        return self.update_expression(v, f"( {v.value} )")
 
     def or_test(self, t):
-        assert len(t) == 2
-        t[0].value = f"( {t[0].value} OR {t[1].value} )"
-        return t[0]
+        v = self.join_operands(t, "OR")
+        return self.update_expression(v, f"( {v.value} )")
 
     def compare_op(self, t):
         v = t[0]
         return v
 
     def not_expression(self, t):
-        v = t[0]
-        v.value = f"NOT {v.value}"
-        return v
+        return self.update_expression(t[0], f"NOT {self.operand_text(t[0])}")
 
     def expression(self, t):
-        exp = " ".join(
-            [str(v.value) for v in t]
-        )  # convert to string for boolean expressions e.g. (true)
+        exp = " ".join([self.operand_text(v) for v in t])
 
         if not self.quoter.in_parenthesis(exp):
-            t[0].value = f"({exp})"
+            exp = f"({exp})"
 
-        return t[0]
+        return self.update_expression(t[0], exp)
 
     def add(self, t):
-        assert len(t) == 2
-        t[0].value = f"{t[0].value} + {t[1].value}"
-        return t[0]
+        return self.join_operands(t, "+")
 
     def sub(self, t):
-        assert len(t) == 2
-        t[0].value = f"{t[0].value} - {t[1].value}"
-        return t[0]
+        return self.join_operands(t, "-")
 
     def div(self, t):
-        assert len(t) == 2
-        t[0].value = f"{t[0].value} / {t[1].value}"
-        return t[0]
+        return self.join_operands(t, "/")
 
     def mul(self, t):
-        assert len(t) == 2
-        t[0].value = f"{t[0].value} * {t[1].value}"
-        return t[0]
+        return self.join_operands(t, "*")
 
     def mod(self, t):
-        assert len(t) == 2
-        t[0].value = f"( {t[0].value} % {t[1].value} )"
-        return t[0]
+        v = self.join_operands(t, "%")
+        return self.update_expression(v, f"( {v.value} )")
 
     def power(self, t):
-        assert len(t) == 2
-        t[0].value = f"{t[0].value} ^ {t[1].value}"
-        return t[0]
+        return self.join_operands(t, "^")
 
     def neg(self, t):
         assert len(t) == 1
-        t[0].value = f"-{t[0].value}"
-        return t[0]
+        return self.update_expression(t[0], f"-{self.operand_text(t[0])}")
 
     def runtime_var(self, t):
         v = t[0]
@@ -550,7 +550,7 @@ class MapfileTransformer(Transformer):
         return func
 
     def func_params(self, t):
-        params = ",".join(str(v.value) for v in t)
+        params = ",".join(self.operand_text(v) for v in t)
         return params
 
     def attr_bind(self, t):
@@ -626,8 +626,7 @@ class MapfileTransformer(Transformer):
         return t
 
     def hexcolor(self, t):
-        t[0].value = self.clean_string(t[0].value).lower()
-        return t[0]
+        return update_token_value(t[0], self.clean_string(t[0].value).lower())
 
     def num_pair(self, t):
         a, b = t
@@ -639,10 +638,8 @@ class MapfileTransformer(Transformer):
 
     def list(self, t):
         # http://www.mapserver.org/mapfile/expressions.html#list-expressions
-        v = t[0]
-        list_values = ",".join([str(s) for s in t])
-        v.value = "{%s}" % list_values
-        return v
+        list_values = ",".join([self.operand_text(v) for v in t])
+        return self.update_expression(t[0], "{%s}" % list_values)
 
 
 class CommentsTransformer(Transformer_InPlace):
-- 
2.43.0


From 4171345f9101b62e9e40a0e632b74797eb905e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 27/45] fix: keep double negatives in expressions readable

---
 mappyfile/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index be7ab96..2efa6c3 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -525,7 +525,9 @@ class MapfileTransformer(Transformer):
 
     def neg(self, t):
         assert len(t) == 1
-        return self.update_expression(t[0], f"-{self.operand_text(t[0])}")
+        v = self.operand_text(t[0])
+        # keep a space in double negatives as "--" would be read as an unquoted string
+        return self.update_expression(t[0], f"- {v}" if v.startswith("-") else f"-{v}")
 
     def runtime_var(self, t):
         v = t[0]
-- 
2.43.0


From 29d5695a5f9edda06d263c8dcb1dda9a9929ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 28/45] fix: ignore brackets in regular expressions when
 looking for enclosing parenthesis

---
 mappyfile/quoter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index 7914f1e..11ebf87 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -104,7 +104,10 @@ class Quoter:
 
         # check the last bracket closes the first one e.g. not "(a) + (b)"
         depth = 0
-        brackets = re.sub(r"\\.|\"[^\"]*\"|'[^']*'|`[^`]*`|[^()]", "", val)
+        # ignoring any brackets in strings and regular expressions
+        brackets = re.sub(
+            r"\\.|\"[^\"]*\"|'[^']*'|`[^`]*`|~\*?\s*/[^/\n]*/|[^()]", "", val
+        )
         for bracket in brackets[:-1]:
             depth += 1 if bracket == "(" else -1
             if depth == 0:
-- 
2.43.0


From 7e12ad2d2ea6a8209a90e5ed2959ee87034f512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 29/45] fix: accept POINTS and PATTERN blocks without
 coordinates

---
 mappyfile/pprint.py      |  7 +++++--
 mappyfile/transformer.py | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 9b7582e..b9be59f 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -274,9 +274,12 @@ class PrettyPrinter:
         lines = []
 
         def depth(iterable):
-            return isinstance(iterable, (tuple, list)) and max(map(depth, iterable)) + 1
+            return (
+                isinstance(iterable, (tuple, list))
+                and max(map(depth, iterable), default=0) + 1
+            )
 
-        if depth(root_list) == 2:
+        if depth(root_list) <= 2 and not any(len(p) == 0 for p in root_list):
             # single set of points only
             root_list = [root_list]
 
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 2efa6c3..367e09b 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -176,7 +176,10 @@ class MapfileTransformer(Transformer):
             # allow for multipart features in a nested list
             existing_points = composite_dict[key_name]
 
-            if calculate_depth(existing_points) == 2:
+            # an empty set of points has a depth of 1
+            if calculate_depth(existing_points) <= 2 and all(
+                len(p) for p in existing_points
+            ):
                 composite_dict[key_name] = [existing_points]
 
             if key_name not in composite_dict:
@@ -443,8 +446,9 @@ class MapfileTransformer(Transformer):
         pairs = [(v[0].value, v[1].value) for v in body]
 
         key_token = tokens[0]
-        value_token = tokens[1][0]  # take the first numeric value pair as the token
-        value_token.value = pairs  # set its value to all values
+        # take the first numeric value pair as the token, or END if there are none
+        value_token = tokens[1][0] if pairs else tokens[1]
+        value_token = update_token_value(value_token, pairs)  # set its value to all values
         tokens = (key_token, value_token)
 
         return self.attr(tokens)
@@ -771,5 +775,6 @@ def calculate_depth(iterable):
     A helper function to get the max length + 1 in a list of lists
     """
     return (
-        isinstance(iterable, (tuple, list)) and max(map(calculate_depth, iterable)) + 1
+        isinstance(iterable, (tuple, list))
+        and max(map(calculate_depth, iterable), default=0) + 1
     )
-- 
2.43.0


From e1e3556b108d8ce2afb2a1d43d1e6db13a2a079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 30/45] fix: report the line and column of block names used as
 keywords

---
 mappyfile/mapfile.lark   | 8 +++++---
 mappyfile/transformer.py | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 9914b7a..a094037 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -30,7 +30,7 @@
 start: symbolset_type composite_body _END   -> symbolset
      | composite+
 
-composite: composite_type composite_body _END
+composite: (composite_type | attr_type) composite_body _END
        | metadata
        | validation
        | connectionoptions
@@ -49,7 +49,7 @@ _composite_item: (composite|attr|points|projection|pattern|values|config)
 !validation: "VALIDATION"i string_pair* _END
 !connectionoptions: "CONNECTIONOPTIONS"i string_pair* _END
 
-attr: (UNQUOTED_STRING | composite_type) (value | UNQUOTED_STRING | UNQUOTED_STRING_VALUE)
+attr: (UNQUOTED_STRING | attr_type) (value | UNQUOTED_STRING | UNQUOTED_STRING_VALUE)
 %declare UNQUOTED_STRING_VALUE  // generated using the interactive parser. See issues #48, #98
 
 ?value: operand | extent | rgb | colorrange | hexcolorrange | num_pair | attr_bind_pair | attr_mixed_pair
@@ -133,8 +133,10 @@ func_params: operand ("," operand)*
             | "REFERENCE"i
             | "SCALEBAR"i
             | "SCALETOKEN"i
-            | "STYLE"i
             | "WEB"i
+
+// blocks which can also be simple keywords e.g. SYMBOL "circle" or STYLE NORMAL
+!attr_type: "STYLE"i
             | "SYMBOL"i
 
 AUTO: "AUTO"i
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 367e09b..59bd4c7 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -134,6 +134,9 @@ class MapfileTransformer(Transformer):
     def composite_type(self, t):
         return t
 
+    def attr_type(self, t):
+        return t
+
     def _process_composite_config(
         self,
         composite_dict: dict,
-- 
2.43.0


From e557c963b694870c067f4935be820f5d65792cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 31/45] fix: reject too deeply nested Mapfiles with a parse
 error

---
 mappyfile/parser.py      | 2 ++
 mappyfile/transformer.py | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 6542360..3626440 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -268,3 +268,5 @@ class Parser:
                 log.error("Parsing of Mapfile unsuccessful")
             log.info(ex)
             raise
+        except RecursionError as ex:
+            raise ParseError("The Mapfile is too deeply nested") from ex
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 59bd4c7..a24d823 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -35,6 +35,7 @@ Python dict structure
 from __future__ import annotations
 import logging
 from collections import OrderedDict
+from lark.exceptions import ParseError
 from lark.visitors import Transformer_InPlace, Transformer, v_args
 from lark.lexer import Token
 from .parser import lark_cython
@@ -750,6 +751,12 @@ class MapfileToDict:
         self.kwargs = kwargs
 
     def transform(self, tree):
+        try:
+            return self._transform(tree)
+        except RecursionError as ex:
+            raise ParseError("The Mapfile is too deeply nested") from ex
+
+    def _transform(self, tree):
         tree = Canonize().transform(tree)
 
         self.mapfile_transformer = self.transformer_class(
-- 
2.43.0


From 1a0fcb65192374d75659590f00ea0af419444128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 32/45] fix: raise an I/O error for INCLUDE names which are not
 valid file names

---
 mappyfile/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 3626440..42c7349 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -147,6 +147,13 @@ class Parser:
                         "Include file '%s' not found in '%s'", inc_file_path, fn
                     )
                     raise ex
+                except UnicodeDecodeError:
+                    raise
+                except ValueError as ex:
+                    # e.g. a name containing a null character
+                    raise IOError(
+                        f"The include file name {inc_file_path!r} is not valid"
+                    ) from ex
                 # recursively load any further includes
                 includes[idx] = self.load_includes(
                     include_text, fn=fn, _nested_includes=_nested_includes + 1
-- 
2.43.0


From e08d6fce07686cc9b810de57d0fcae89b848f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 33/45] fix: let update take any keyword, such as e or self, as
 a dictionary key

---
 mappyfile/ordereddict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mappyfile/ordereddict.py b/mappyfile/ordereddict.py
index ab27b0d..df9869c 100644
--- a/mappyfile/ordereddict.py
+++ b/mappyfile/ordereddict.py
@@ -138,10 +138,10 @@ class CaseInsensitiveOrderedDict(DefaultOrderedDict):
         # pylint: disable=protected-access
         return super().setdefault(self.__class__._k(key), *args, **kwargs)
 
-    def update(self, e=None, **f):
+    def update(self, e=None, /, **f):
         if e is not None:
             super().update(self.__class__(CaseInsensitiveOrderedDict, e))
-        super().update(self.__class__(CaseInsensitiveOrderedDict, **f))
+        super().update(self.__class__(CaseInsensitiveOrderedDict, f))
 
     def _convert_keys(self):
         for k in list(self.keys()):
-- 
2.43.0


From 5e428f47c5a852913c54077f2b6e0134685f66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 34/45] fix: find and findall skip items without the key, and
 findall only matches whole values

---
 mappyfile/dictutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 4d17681..edc8821 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -78,7 +78,8 @@ def find(lst: list[dict], key: str, value: Any) -> dict | None:
         cmp = mappyfile.find(d["layers"], "name", "Layer2")
         assert cmp["name"] == "Layer2"
     """
-    return next((item for item in lst if item[key.lower()] == value), None)
+    key = key.lower()
+    return next((item for item in lst if key in item and item[key] == value), None)
 
 
 def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
@@ -136,7 +137,9 @@ def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
         layers = mappyfile.findall(d["layers"], "group", "test")
         assert len(layers) == 2
     """
-    return [item for item in lst if item[key.lower()] and item[key.lower()] in value]
+    key = key.lower()
+    values = list(value) if isinstance(value, (list, tuple, set, frozenset)) else [value]
+    return [item for item in lst if key in item and item[key] in values]
 
 
 def findunique(lst, key):
-- 
2.43.0


From 1dbd47944a6bfd94b402447b4f327446220279a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 35/45] fix: findkey no longer creates the keys which it does
 not find

---
 mappyfile/dictutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index edc8821..c595a9c 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -243,6 +243,9 @@ def findkey(d: dict, *keys: list[Any]) -> dict:
     if keys:
         keys_list = list(keys)
         search_key = keys_list.pop(0)
+        if isinstance(d, dict) and search_key not in d:
+            # do not create missing keys in a DefaultOrderedDict
+            raise KeyError(search_key)
         return findkey(d[search_key], *keys_list)
 
     return d
-- 
2.43.0


From 750e3b9776eeee50b65848f0f877c883d49a8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 36/45] fix: update ignores the deletion of missing keys, and
 skips None beyond the end of a list

---
 mappyfile/dictutils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index c595a9c..bfaba9b 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -287,7 +287,7 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
         if isinstance(v, dict):
             if v.get("__delete__", False):
                 # allow a __delete__ property to be set to delete objects
-                del d1[k]
+                d1.pop(k, None)
             else:
                 d1[k] = update(d1.get(k, {}), v, overwrite)
         elif isinstance(v, (tuple, list)) and all(
@@ -298,6 +298,8 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
             new_list = []
             pairs = list(zip_longest(orig_list, v, fillvalue=None))
             for orig_item, new_item in pairs:
+                if orig_item is None and new_item is None:
+                    continue  # nothing to skip or to add
                 if orig_item is None:
                     orig_item = (
                         {}
@@ -314,8 +316,8 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
                     new_list.append(d)
             d1[k] = new_list
         else:
-            if k in d1 and v == "__delete__":
-                del d1[k]
+            if v == "__delete__":
+                d1.pop(k, None)
             else:
                 if overwrite is True or k not in d1:
                     d1[k] = v
-- 
2.43.0


From 93877dda21d4959e782bd59f148337e97f0293bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 37/45] fix: findunique also works for keywords whose values
 are lists

---
 mappyfile/dictutils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index bfaba9b..e42fd05 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -190,12 +190,14 @@ def findunique(lst, key):
         groups = mappyfile.findunique(d["classes"], "group")
         assert groups == ["group1", "group2"]
     """
-    return sorted(
-        set((item.get(key.lower(), None) for item in lst))
-        - {
-            None,
-        }
-    )
+    values: list = []
+    for item in lst:
+        value = item.get(key.lower(), None)
+        # values can be lists, so cannot always be stored in a set
+        if value is not None and value not in values:
+            values.append(value)
+
+    return sorted(values)
 
 
 def findkey(d: dict, *keys: list[Any]) -> dict:
-- 
2.43.0


From c9178866d0666ce4c94674083d5e5ca6378fd730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 38/45] fix: validate exits with an error for Mapfiles which
 cannot be parsed, or for 256 errors

---
 mappyfile/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mappyfile/cli.py b/mappyfile/cli.py
index 0fd14df..2329a28 100644
--- a/mappyfile/cli.py
+++ b/mappyfile/cli.py
@@ -219,6 +219,7 @@ def validate(_, mapfiles, expand, version):
         except Exception as ex:
             logger.exception(ex)
             click.echo(f"{fn} failed to parse successfully")
+            errors += 1
             continue
 
         validation_messages = mappyfile.validate(d, version)
@@ -238,7 +239,8 @@ def validate(_, mapfiles, expand, version):
     click.echo(
         f"{len(all_mapfiles)} file(s) validated ({validation_count} successfully)"
     )
-    sys.exit(errors)
+    # an exit status above 255 would wrap around, possibly to 0
+    sys.exit(min(errors, 255))
 
 
 @main.command(short_help="Export a Mapfile Schema")
-- 
2.43.0


From 61370732d8435ccabddc05245f93643fe0ed7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 39/45] fix: keep the carriage returns in strings when opening
 a file

---
 mappyfile/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 42c7349..5b4e775 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -207,7 +207,8 @@ class Parser:
 
     def open_file(self, fn: str):
         try:
-            with open(fn, "r", encoding="utf-8") as f:
+            # keep any carriage returns, as they could be part of a string
+            with open(fn, "r", encoding="utf-8", newline="") as f:
                 return f.read()
         except UnicodeDecodeError as ex:
             log.debug(ex)
-- 
2.43.0


From 2dca42f9bda914b85e46e0d42021d5c826a2eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 40/45] fix: load files which have no file name, but a
 descriptor, when expanding includes

---
 mappyfile/parser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 5b4e775..848fbe4 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -197,12 +197,13 @@ class Parser:
 
     def load(self, fp: IO[str]) -> Any:
         text = fp.read()
-        if hasattr(fp, "name"):
-            fn = (
-                fp.name
-            )  # name is a read-only attribute and may not be present on all file-like objects.
-        else:
+        # name is a read-only attribute and may not be present on all file-like objects,
+        # or it can be a file descriptor
+        fn = getattr(fp, "name", None)
+        if not isinstance(fn, (str, bytes, os.PathLike)):
             fn = None
+        elif isinstance(fn, bytes):
+            fn = os.fsdecode(fn)
         return self.parse(text, fn)
 
     def open_file(self, fn: str):
-- 
2.43.0


From f582f813a68f68bff6ab0ef4d05d86ac3a35b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 41/45] fix: no trailing space after METADATA pairs without
 comments

---
 mappyfile/pprint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index b9be59f..c27d719 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -492,7 +492,8 @@ class PrettyPrinter:
         return comment
 
     def process_attribute_comment(self, comments: dict, key: str) -> str:
-        if key not in comments:
+        if not comments.get(key):
+            # no trailing space for keys with an empty list of comments
             comment = ""
         else:
             value = comments[key]
-- 
2.43.0


From 0ee2be50cc6db4c62d2ad7e69db566a0740ea207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 42/45] fix: write C-style comments before # comments on the
 line of a keyword

---
 mappyfile/pprint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index c27d719..b4ce474 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -500,9 +500,10 @@ class PrettyPrinter:
             spacer = " "
 
             # for multiple comments associated with an attribute
-            # simply join them together as a single string
+            # simply join them together as a single string, with any C-style
+            # comments first, as anything after a # is part of that comment
             if isinstance(value, list):
-                value = " ".join(value)
+                value = " ".join(sorted(value, key=lambda c: c.startswith("#")))
 
             comment = self.format_comment(spacer, value)
 
-- 
2.43.0


From 2e35c11ad0377f1fd78c92a41dddd3036084f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:02 +0000
Subject: [PATCH 43/45] fix: keep a comment at the end of a keyword written
 over several lines with the keyword

---
 mappyfile/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 848fbe4..c1f0870 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -180,7 +180,7 @@ class Parser:
             if node.data in ("composite", "attr", "projection", "string_pair"):
                 # for projection blocks capture any comments within the block
 
-                if node.data in ("projection"):
+                if node.data in ("projection", "attr"):
                     line = node.meta.end_line
                 line_numbers = list(sorted(self.comments_dict.keys()))
                 comments = []
-- 
2.43.0


From bc6e603b810919c5787fc89607cbfc90ce558b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:02 +0000
Subject: [PATCH 44/45] fix: accept INCLUDE as the first keyword of a SYMBOL
 block

---
 mappyfile/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index c1f0870..3d87036 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -60,6 +60,7 @@ SYMBOL_ATTRIBUTES = {
     "FILLED",
     "FONT",
     "IMAGE",
+    "INCLUDE",
     "NAME",
     "COLOR",
     "TYPE",
-- 
2.43.0


From 7b57310a3d4e115afdfc0aca7c9a6f4ef5dc957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:02 +0000
Subject: [PATCH 45/45] fix: allow SYMBOL blocks in CLASS and STYLE schemas

---
 mappyfile/schemas/class.json | 10 ++++++++++
 mappyfile/schemas/style.json |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/mappyfile/schemas/class.json b/mappyfile/schemas/class.json
index 8ee403a..ea729c2 100644
--- a/mappyfile/schemas/class.json
+++ b/mappyfile/schemas/class.json
@@ -160,6 +160,16 @@
         "maxVersion": 7.6
       }
     },
+    "symbols": {
+      "type": "array",
+      "items": {
+        "type": "object",
+        "$ref": "symbol.json"
+      },
+      "metadata": {
+        "maxVersion": 7.6
+      }
+    },
     "template": {
       "type": "string",
       "description": "filename"
diff --git a/mappyfile/schemas/style.json b/mappyfile/schemas/style.json
index 702d4d2..62a0ac9 100644
--- a/mappyfile/schemas/style.json
+++ b/mappyfile/schemas/style.json
@@ -304,6 +304,13 @@
         }
       ]
     },
+    "symbols": {
+      "type": "array",
+      "items": {
+        "type": "object",
+        "$ref": "symbol.json"
+      }
+    },
     "width": {
       "oneOf": [
         {
-- 
2.43.0

