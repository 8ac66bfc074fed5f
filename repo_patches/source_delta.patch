From 68180dd5a4df48ddab48376c3a9340f59da349d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:12 +0000
Subject: [PATCH 001/167] fix: unescape .properties messages also when parsing
 printf placeholders

---
 python/moz/l10n/formats/properties/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 10f5881..13efe71 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -151,7 +151,7 @@ def properties_parse_message(
     if kind != LineKind.VALUE or not all(kind == LineKind.EMPTY for kind, _, _ in rest):
         raise ValueError("Source is not a .properties value")
     if printf_placeholders:
-        return PatternMessage(list(parse_printf_pattern(source)))
+        return PatternMessage(list(parse_printf_pattern(value)))
     return PatternMessage([value])
 
 
-- 
2.43.0


From da227776b96ef34f12e8da6c71385d2b78688dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 002/167] fix: use UTF-16 surrogate pairs for non-BMP
 characters in .properties escapes

---
 python/moz/l10n/formats/properties/parse.py     | 15 +++++++++++----
 python/moz/l10n/formats/properties/serialize.py |  4 ++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 13efe71..0f21638 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -31,6 +31,7 @@ class LineKind(Enum):
 
 
 esc_re = compile("\\\\(u[0-9A-Fa-f]{1,4}|.)")
+surrogate_pair_re = compile("[\ud800-\udbff][\udc00-\udfff]")
 
 
 def esc_parse(match: Match[str]) -> str:
@@ -50,6 +51,14 @@ def esc_parse(match: Match[str]) -> str:
         return esc
 
 
+def unescape(src: str) -> str:
+    res = esc_re.sub(esc_parse, src)
+    # Non-BMP characters may be escaped as a pair of UTF-16 surrogates
+    return surrogate_pair_re.sub(
+        lambda m: m.group().encode("utf-16", "surrogatepass").decode("utf-16"), res
+    )
+
+
 def properties_parse(
     source: bytes | str,
     encoding: str = "utf-8",
@@ -213,9 +222,7 @@ class PropertiesParser:
             self.pos = end = start + idx + 1
             lines.append(self.source[line_start:end])
             self.nl()
-            value = "".join(
-                esc_re.sub(esc_parse, line.lstrip("\f\t ")) for line in lines
-            )
+            value = unescape("".join(line.lstrip("\f\t ") for line in lines))
             return LineKind.VALUE, lp, value
 
         if self.source.startswith(("#", "!"), self.pos):
@@ -251,7 +258,7 @@ class PropertiesParser:
         if self.source.startswith(("=", ":"), self.pos):
             self.pos += 1
         self.at_value = True
-        return LineKind.KEY, lp, esc_re.sub(esc_parse, self.source[start:end])
+        return LineKind.KEY, lp, unescape(self.source[start:end])
 
     def nl(self) -> bool:
         if self.source.startswith("\n", self.pos):
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 83a2075..c6ab9b3 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -37,6 +37,10 @@ def encode_char(m: Match[str]) -> str:
         return r"\f"
     elif ch == "\r":
         return r"\r"
+    if ord(ch) > 0xFFFF:
+        # Java escapes are UTF-16 code units
+        units = ch.encode("utf-16-be").hex()
+        return f"\\u{units[:4]}\\u{units[4:]}"
     return f"\\u{ord(ch):04x}"
 
 
-- 
2.43.0


From 09796ab2ab9c22c5d9445c3618296e1b0c4ba1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 003/167] fix: escape leading # and ! in .properties keys

---
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index c6ab9b3..c1d90df 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -113,6 +113,8 @@ def properties_serialize(
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
                 key = key.translate(special_key_trans)
+                if key.startswith(("#", "!")):
+                    key = "\\" + key
 
                 value: str
                 msg = entry.value
-- 
2.43.0


From 4adff78aeb805a6f4cf68827184fa7fea3dfb1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:57 +0000
Subject: [PATCH 004/167] fix: serialize only valid Fluent numbers as number
 literals

---
 python/moz/l10n/formats/fluent/serialize.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 9312a18..4b7e60c 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -356,13 +356,11 @@ def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
     kv = str(key) or other
-    try:
-        float(kv)
+    if number_literal.fullmatch(kv):
         return ftl.NumberLiteral(kv)
-    except Exception:
-        if fullmatch(r"[a-zA-Z][\w-]*", kv):
-            return ftl.Identifier(kv)
-        raise ValueError(f"Unsupported variant key: {kv}")
+    if fullmatch(r"[a-zA-Z][a-zA-Z0-9_-]*", kv):
+        return ftl.Identifier(kv)
+    raise ValueError(f"Unsupported variant key: {kv}")
 
 
 def flat_pattern(
@@ -513,16 +511,16 @@ def function_ref(
 # Non-printable ASCII C0 & C1 / Unicode Cc characters
 esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
 esc_bs = compile(r'([\\"])')
+number_literal = compile(r"-?[0-9]+(\.[0-9]+)?")
 
 
 def value(
     decl: dict[str, Expression], val: str | VariableRef, decl_name: str = ""
 ) -> ftl.InlineExpression:
     if isinstance(val, str):
-        try:
-            float(val)
+        if number_literal.fullmatch(val):
             return ftl.NumberLiteral(val)
-        except Exception:
+        else:
             return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
-- 
2.43.0


From 035e758bf7326b6d8d37075ec534bcae226469ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:57 +0000
Subject: [PATCH 005/167] fix: parse Fluent select expressions in nested
 placeables

---
 python/moz/l10n/formats/fluent/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 1bcecb2..a151c1e 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -315,11 +315,11 @@ def find_selectors(
     result: list[tuple[Expression, list[ftl.InlineExpression], list[Key]]],
 ) -> list[tuple[Expression, list[ftl.InlineExpression], list[Key]]]:
     for el in pattern.elements:
-        if isinstance(el, ftl.Placeable) and isinstance(
-            el.expression, ftl.SelectExpression
-        ):
-            ftl_sel = el.expression.selector
-            keys = [variant_key(v) for v in el.expression.variants]
+        while isinstance(el, ftl.Placeable):
+            el = el.expression
+        if isinstance(el, ftl.SelectExpression):
+            ftl_sel = el.selector
+            keys = [variant_key(v) for v in el.variants]
             msg_sel = select_expression(ftl_sel, keys)
             prev = next((x for x in result if x[0] == msg_sel), None)
             if prev:
@@ -328,7 +328,7 @@ def find_selectors(
                 key_list += keys
             else:
                 result.append((msg_sel, [ftl_sel], keys))
-            for v in el.expression.variants:
+            for v in el.variants:
                 find_selectors(v.value, result)
     return result
 
-- 
2.43.0


From 2aa150ac5e2a03045ba0a85adb26437d4d8c842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 006/167] fix: keep all text of Fluent messages with multiple
 select expressions on one selector

---
 python/moz/l10n/formats/fluent/parse.py | 39 +++++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index a151c1e..7801970 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -217,17 +217,29 @@ def fluent_entry(
 def message(ftl_pattern: ftl.Pattern) -> Message:
     sel_data = find_selectors(ftl_pattern, [])
     sel_expressions = [sd[0] for sd in sel_data]
-    filter: list[Key | None] = [None] * len(sel_expressions)
+    filter: list[set[Key] | None] = [None] * len(sel_expressions)
     msg_variants: dict[tuple[Key, ...], Pattern]
     var_names: set[str] = set()
     if sel_expressions:
         key_lists = [list(dict.fromkeys(sd[2])) for sd in sel_data]
         for keys in key_lists:
             keys.sort(key=lambda k: (k[2], not k[1]))
+            # Select expressions with the same selector may have different defaults;
+            # use the first of them for all.
+            while len(keys) > 1 and keys[-2][2]:
+                keys.pop()
         msg_variants = {key: [] for key in product(*key_lists)}
     else:
         msg_variants = {(): []}
 
+    # Variant key prefixes for which the last key is in some variant of
+    # a select expression, or is only matched by its default variant.
+    explicit: set[tuple[Key, ...]] = set()
+    implicit: set[tuple[Key, ...]] = set()
+
+    def match_filter(keys: tuple[Key, ...]) -> bool:
+        return all((filt is None or key in filt) for key, filt in zip(keys, filter))
+
     def add_pattern(ftl_pattern: ftl.Pattern) -> None:
         el: (
             ftl.TextElement
@@ -242,15 +254,25 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
                 msg_sel = next(sd[0] for sd in sel_data if el.selector in sd[1])
                 idx = sel_expressions.index(msg_sel)
                 prev_filt = filter[idx]
-                for v in el.variants:
-                    filter[idx] = variant_key(v)
+                sel_keys = [variant_key(v) for v in el.variants]
+                for keys in (k for k in msg_variants if match_filter(k)):
+                    prefix = keys[: idx + 1]
+                    is_explicit = keys[idx][2] or keys[idx] in sel_keys
+                    (explicit if is_explicit else implicit).add(prefix)
+                for v, key in zip(el.variants, sel_keys):
+                    # The default variant is also used for keys that are only
+                    # included in other select expressions with the same selector.
+                    filt = (
+                        {k for k in key_lists[idx] if k[2] or k not in sel_keys}
+                        if v.default
+                        else {key}
+                    )
+                    filter[idx] = filt if prev_filt is None else prev_filt & filt
                     add_pattern(v.value)
                 filter[idx] = prev_filt
             else:
                 for keys, msg_pattern in msg_variants.items():
-                    if all(
-                        (filt is None or key == filt) for key, filt in zip(keys, filter)
-                    ):
+                    if match_filter(keys):
                         if isinstance(el, ftl.TextElement):
                             if msg_pattern and isinstance(msg_pattern[-1], str):
                                 msg_pattern[-1] += el.value
@@ -283,6 +305,11 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
             tuple(map(message_key, keys)): msg_pattern
             for keys, msg_pattern in msg_variants.items()
             if msg_pattern
+            # Leave out variants that are the same as with a catchall key
+            and not any(
+                keys[:i] in implicit and keys[:i] not in explicit
+                for i in range(1, len(keys) + 1)
+            )
         }
         return SelectMessage(declarations, tuple(selectors), variants)
     else:
-- 
2.43.0


From be33201f19518f3f9c82def30e66120eb725e397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 007/167] fix: do not confuse Fluent functions STRING and
 MESSAGE with literals and references

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 4b7e60c..e5e9b72 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -463,7 +463,7 @@ def function_ref(
 
     function = cast(str, expr.function)
     ftl_name = expr.attributes.get("fluent-fn", None)
-    if function == "string":
+    if function == "string" and not ftl_name:
         if not arg:
             raise ValueError("Argument required for :string")
         if named:
@@ -482,7 +482,7 @@ def function_ref(
                 ftl_name = "NUMBER"
             else:
                 return arg
-    if function == "message":
+    if function == "message" and not ftl_name:
         if not isinstance(arg, ftl.Literal):
             raise ValueError(
                 "Message and term references must have a literal message identifier"
-- 
2.43.0


From ed7d61f100800da687b8f2cb19817f92c8166eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 008/167] fix: keep quoted numbers as string literals in Fluent
 placeables

---
 python/moz/l10n/formats/fluent/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index e5e9b72..74caf00 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -440,6 +440,8 @@ def expression(
     arg = value(decl, expr.arg, decl_name) if expr.arg is not None else None
     if expr.function:
         return function_ref(decl, arg, expr)
+    if isinstance(arg, ftl.NumberLiteral) and isinstance(expr.arg, str):
+        return ftl.StringLiteral(expr.arg)
     if arg:
         return arg
     raise ValueError("Invalid empty expression")
-- 
2.43.0


From a01cc765c2660cf29d240a5fe8268e90abdf6efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 009/167] fix: use distinct declarations for Fluent selectors
 on the same variable

---
 python/moz/l10n/formats/fluent/parse.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 7801970..2d5e43b 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -287,11 +287,17 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
     add_pattern(ftl_pattern)
 
     if sel_expressions:
-        declarations = {}
+        declarations: dict[str, Expression] = {}
         selectors = []
+        for expr in sel_expressions:
+            var_names.update(var.name for var in expr.variable_refs())
         for expr in sel_expressions:
             name = expr.arg.name if isinstance(expr.arg, VariableRef) else None
-            if name is None or expr.attributes.get("fluent-fn") is not None:
+            if (
+                name is None
+                or name in declarations
+                or expr.attributes.get("fluent-fn") is not None
+            ):
                 stem = name or "sel"
                 name = None
                 i = 0
@@ -349,6 +355,18 @@ def find_selectors(
             keys = [variant_key(v) for v in el.variants]
             msg_sel = select_expression(ftl_sel, keys)
             prev = next((x for x in result if x[0] == msg_sel), None)
+            if prev is None and isinstance(ftl_sel, ftl.VariableReference):
+                # The same variable may be used with number and string keys
+                prev = next(
+                    (
+                        x
+                        for x in result
+                        if x[0].arg == msg_sel.arg and not x[0].attributes
+                    ),
+                    None,
+                )
+                if prev:
+                    prev[0].function = "string"
             if prev:
                 _, ftl_list, key_list = prev
                 ftl_list.append(ftl_sel)
-- 
2.43.0


From 896c0244cbd1c42e8e5e1066959c95647e537508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:32 +0000
Subject: [PATCH 010/167] fix: serialize empty Fluent variants as valid
 patterns

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 74caf00..6392af5 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -305,6 +305,10 @@ def fluent_astify_message(
         (list(keys), flat_pattern(message.declarations, value, escape_syntax))
         for keys, value in message.variants.items()
     ]
+    variants = [
+        (keys, valid_empty_pattern(pattern) if pattern_is_empty(pattern) else pattern)
+        for keys, pattern in variants
+    ]
 
     other = fallback_name(message)
     keys0 = variants[0][0]
-- 
2.43.0


From 07a15ffd26efb7746192886f988579378f34b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 011/167] fix: match only ASCII digits and a decimal point in
 MF2 numbers

---
 python/moz/l10n/formats/mf2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d379ace..d875512 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -32,7 +32,7 @@ from ...model import (
 _name_start = r"a-zA-Z_\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u061B\u061D-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFC\U00010000-\U000EFFFF"
 name_re = compile(f"[{_name_start}][{_name_start}0-9-.\xb7\u0300-\u036f\u203f-\u2040]*")
 identifier_re = compile(f"{name_re.pattern}(?::{name_re.pattern})?")
-number_re = compile(r"-?(?:0|(?:[1-9]\d*))(?:.\d+)?(?:[eE][-+]?\d+)?")
+number_re = compile(r"-?(?:0|(?:[1-9][0-9]*))(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?")
 
 
 class MF2ValidationError(ValueError):
-- 
2.43.0


From 7db9c23e61d496548244fc7290ee35ea85a5d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 012/167] fix: do not drop empty MF2 literals

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 +-
 python/moz/l10n/formats/mf2/serialize.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 95b5735..4e08db1 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -264,7 +264,7 @@ class MF2Parser:
             arg_end = self.pos
             ch = self.skip_opt_space()
         if ch == ":":
-            if arg and self.pos == arg_end:
+            if arg is not None and self.pos == arg_end:
                 raise MF2ParseError(self, "Expected space")
             function = self.identifier(1)
             options = self.options()
diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 1c90c29..e975ef6 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -103,10 +103,10 @@ def _quoted_pattern(pattern: Pattern) -> Iterator[str]:
 
 def _expression(expr: Expression) -> Iterator[str]:
     yield "{"
-    if expr.arg:
+    if expr.arg is not None:
         yield _value(expr.arg)
     if expr.function:
-        yield f" :{expr.function}" if expr.arg else f":{expr.function}"
+        yield f" :{expr.function}" if expr.arg is not None else f":{expr.function}"
     yield from _options(expr.options)
     yield from _attributes(expr.attributes)
     yield "}"
-- 
2.43.0


From b6e0a2c75affb5da0d66d9b6f0f39ece43e97422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 013/167] fix: reject a trailing backslash in MF2 text

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 4e08db1..7352b9e 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -242,6 +242,8 @@ class MF2Parser:
             else:
                 text += ch
             self.pos += 1
+        if at_esc:
+            raise MF2ParseError(self, "Incomplete escape")
         return text
 
     def expression_or_markup(self) -> Expression | Markup:
-- 
2.43.0


From 687ead457bcd69c2557cf561dbf3a0faecf5de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 014/167] fix: allow bidi marks before the pattern of an MF2
 variant

---
 python/moz/l10n/formats/mf2/message_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 7352b9e..ef6c6bf 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -199,6 +199,7 @@ class MF2Parser:
                 self,
                 f"Variant key mismatch, expected {num_sel} but found {len(keys)}",
             )
+        self.skip_opt_space()
         return tuple(keys), self.quoted_pattern()
 
     def quoted_pattern(self) -> Pattern:
-- 
2.43.0


From 33ae2e690bdc54e7d7fb581a5d52f6f9250acbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 015/167] fix: quote MF2 patterns that start like a declaration
 after bidi marks or split text

---
 python/moz/l10n/formats/mf2/serialize.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index e975ef6..6dbd0b2 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -30,7 +30,9 @@ from ...model import (
 )
 from .validate import name_re, number_re
 
-complex_start_re = compile(r"[\t\n\r \u3000]*\.")
+complex_start_re = compile(
+    r"[\t\n\r \u3000\u061c\u200e\u200f\u2066-\u2069]*\."
+)
 literal_esc_re = compile(r"[\\|]")
 text_esc_re = compile(r"[\\{}]")
 
@@ -42,17 +44,10 @@ def mf2_serialize_message(message: Message) -> str:
     Does not validate the message before serialization;
     for that, use `mf2_validate_message()`.
     """
-    if (
-        isinstance(message, PatternMessage)
-        and not message.declarations
-        and (
-            not message.pattern
-            or not isinstance(part0 := message.pattern[0], str)
-            or not complex_start_re.match(part0)
-        )
-    ):
-        # simple message
-        return "".join(mf2_serialize_pattern(message.pattern))
+    if isinstance(message, PatternMessage) and not message.declarations:
+        simple = "".join(mf2_serialize_pattern(message.pattern))
+        if not complex_start_re.match(simple):
+            return simple
 
     res = ""
     for name, expr in message.declarations.items():
-- 
2.43.0


From 6655b40ac8d36b490f42a389b4472f5b4afeeefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 016/167] fix: order MF2 declarations by dependency also with
 unrelated declarations between

---
 python/moz/l10n/formats/mf2/validate.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d875512..7967830 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -15,7 +15,6 @@
 from __future__ import annotations
 
 from collections.abc import Iterable, Mapping
-from functools import cmp_to_key
 from re import compile
 from typing import Literal
 
@@ -106,16 +105,13 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
                     deep_dependencies(dep, res)
         return res
 
-    def cmp_decl_data(a: tuple[str, bool], b: tuple[str, bool]) -> int:
-        a_name, a_input = a
-        b_name, b_input = b
-        if a_name in dependencies[b_name]:
-            return -1
-        if b_name in dependencies[a_name]:
-            return 1
-        if a_input != b_input:
-            return -1 if a_input else 1
-        return -1 if a_name < b_name else 1
+    def add_ordered(name: str, res: list[str]) -> list[str]:
+        if name not in res:
+            for dep, _ in decl_data:
+                if dep in dependencies[name]:
+                    add_ordered(dep, res)
+            res.append(name)
+        return res
 
     if not isinstance(declarations, Mapping):
         raise MF2ValidationError(f"Invalid declarations: {declarations}")
@@ -143,8 +139,11 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
         dependencies[name] = deps
 
     if len(declarations) > 1:
-        decl_data.sort(key=cmp_to_key(cmp_decl_data))
-        inserts = [(name, declarations.pop(name)) for name, _ in decl_data[1:]]
+        decl_data.sort(key=lambda data: (not data[1], data[0]))
+        order: list[str] = []
+        for name, _ in decl_data:
+            add_ordered(name, order)
+        inserts = [(name, declarations.pop(name)) for name in order[1:]]
         for name, expr in inserts:
             declarations[name] = expr
 
-- 
2.43.0


From 2920981c6efc1228f9def7367cdf380080a6a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 017/167] fix: require whitespace, not only bidi marks, before
 an MF2 function

---
 python/moz/l10n/formats/mf2/message_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index ef6c6bf..8dfb96c 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -258,16 +258,19 @@ class MF2Parser:
     def expression_body(self, ch: str) -> Expression:
         arg: str | VariableRef | None = None
         arg_end = self.pos
+        has_space = True
         if ch == "$":
             arg = self.variable()
             arg_end = self.pos
+            has_space = self.req_space()
             ch = self.skip_opt_space()
         elif ch != ":":
             arg = self.literal()
             arg_end = self.pos
+            has_space = self.req_space()
             ch = self.skip_opt_space()
         if ch == ":":
-            if arg is not None and self.pos == arg_end:
+            if not has_space:
                 raise MF2ParseError(self, "Expected space")
             function = self.identifier(1)
             options = self.options()
-- 
2.43.0


From 62a2d870e66477ba01e4bbc778af2a7327c6de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 018/167] fix: escape backslashes in JSON entry identifiers

---
 python/moz/l10n/message/from_json.py | 12 +++++++++---
 python/moz/l10n/message/to_json.py   |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index a19bb63..5bc7646 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Mapping
-from re import split
+from re import findall
 from typing import Any, Literal
 
 from ..model import (
@@ -39,8 +39,14 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
 
     May raise `MF2ValidationError`.
     """
-    if r"\." in key:
-        id = tuple(str(part).replace(r"\.", ".") for part in split(r"(?<!\\)\.", key))
+    if "\\" in key:
+        parts = [""]
+        for token in findall(r"\\[\\.]|[\s\S]", key):
+            if token == ".":
+                parts.append("")
+            else:
+                parts[-1] += token[-1]
+        id = tuple(parts)
     else:
         id = tuple(key.split("."))
     meta = [Metadata(key, value) for key, value in json["@"]] if "@" in json else []
diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 257de8a..c4b9573 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -35,7 +35,7 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
     Returns the stringified entry id and a JSON object.
     The JSON Schema of the output is provided as [entry.json](../../../../schemas/entry.json).
     """
-    id = ".".join(part.replace(".", r"\.") for part in entry.id)
+    id = ".".join(part.replace("\\", r"\\").replace(".", r"\.") for part in entry.id)
     json: dict[str, Any] = {}
     if entry.meta:
         json["@"] = list([m.key, m.value] for m in entry.meta)
-- 
2.43.0


From 997e14ae6c1dbb950db7db4ed60b6b3f8f3225ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 019/167] fix: keep declarations of an empty entry value in
 JSON

---
 python/moz/l10n/message/to_json.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index c4b9573..bbef8fe 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -45,6 +45,7 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
         not entry.properties
         or not isinstance(entry.value, PatternMessage)
         or entry.value.pattern
+        or entry.value.declarations
     ):
         json["="] = message_to_json(entry.value)
     if entry.properties:
-- 
2.43.0


From 95e8a3984663f061f40f05ee3747b2711f2d2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 020/167] fix: serialize Android strings as well-formed XML

---
 python/moz/l10n/formats/android/serialize.py | 23 ++++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 322ab9a..d9c5ef1 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -159,7 +159,7 @@ def android_serialize(
         for entity in entities:
             yield f"  {entity}\n"
         yield "]>\n"
-    yield etree.tostring(root, encoding="unicode", method="html")
+    yield xml_string(root)
     yield "\n"
 
 
@@ -174,17 +174,20 @@ def android_serialize_message(msg: Message | str, *, allow_cdata: bool = False)
 
     target = etree.Element("string")
     set_pattern_message(target, msg, allow_cdata=allow_cdata)
-    string = etree.tostring(
-        target, encoding="unicode", method="html", pretty_print=True
-    ).strip()
-    if string == "<string/>":
-        return ""
+    string = xml_string(target)
     if not string.startswith("<string>"):
         raise ValueError(f"Invalid serialization: {string}")
     # trim <string>...</string> wrapper
     return string[8:-9]
 
 
+def xml_string(root: etree._Element) -> str:
+    for el in root.iter(etree.Element):
+        if len(el) == 0 and not el.text:
+            el.text = ""  # Use <el></el> rather than <el/>
+    return etree.tostring(root, encoding="unicode")
+
+
 def get_attrib(name: str, meta: list[Metadata]) -> dict[str, str]:
     res = {"name": name}
     for m in meta:
@@ -288,9 +291,7 @@ def set_pattern_message(
         el.text = escape_part(msg)
         escape_pattern(el)
         if allow_cdata and tag_like.search(el.text) is not None:
-            # The manual wrapper is a workaround for
-            # https://bugs.launchpad.net/lxml/+bug/2111509
-            el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+            el.text = etree.CDATA(el.text)
     elif isinstance(msg, PatternMessage) and not msg.declarations:
         set_pattern(el, msg.pattern, allow_cdata=allow_cdata)
     else:
@@ -392,9 +393,7 @@ def set_pattern(
         and el.text
         and tag_like.search(el.text) is not None
     ):
-        # The manual wrapper is a workaround for
-        # https://bugs.launchpad.net/lxml/+bug/2111509
-        el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+        el.text = etree.CDATA(el.text)
 
 
 def entity_name(part: Expression) -> str | None:
-- 
2.43.0


From 365bdb5080c36afcf73cbca3028e8ed856ade0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:22 +0000
Subject: [PATCH 021/167] fix: keep Android comments that are not followed by
 an entry

---
 python/moz/l10n/formats/android/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index b941d2a..d622f7c 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -187,6 +187,8 @@ def android_parse(
                         log.warning(
                             f"Unexpected text in {name} string-array: {item.tail}"
                         )
+                if comment:
+                    entries.append(Comment(comment_str(comment)))
 
             else:
                 es = etree.tostring(el, encoding="unicode")
@@ -195,6 +197,8 @@ def android_parse(
                 comment.clear()
         if el.tail and not el.tail.isspace():
             log.warning(f"Unexpected text in resource: {el.tail}")
+    if comment:
+        entries.append(Comment(comment_str(comment)))
     return res
 
 
@@ -311,6 +315,7 @@ def parse_plurals(
             raise ValueError(f"Unsupported {name} plurals child: {cs}")
         if item.tail and not item.tail.isspace():
             log.warning(f"Unexpected text in {name} plurals: {item.tail}")
+    add_comment(var_comment)
     return msg
 
 
-- 
2.43.0


From 807e1c3caa27afcca339a4cdc17d5c09c1843c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 022/167] fix: serialize comments of and after Android string
 arrays

---
 python/moz/l10n/formats/android/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index d9c5ef1..0dfd8c8 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -131,7 +131,7 @@ def android_serialize(
                         add_comment(string_array, entry.comment, False)
                     set_string_array_item(string_array, entry)
             elif not trim_comments:
-                add_comment(string_array or root, entry.comment, True)
+                add_comment(root, entry.comment, True)
 
     etree.cleanup_namespaces(root, {"xliff": xliff_ns})
 
@@ -251,7 +251,7 @@ def set_string_array_item(
         num = int(entry.id[1])
     except ValueError:
         raise ValueError(f"Unsupported entry id: {entry.id}")
-    if num != len(parent):
+    if num != len(parent.findall("item")):
         raise ValueError(f"String-array keys must be ordered: {entry.id}")
     if isinstance(entry.value, SelectMessage):
         raise ValueError(f"Unsupported message type for {entry.id}: {entry.value}")
-- 
2.43.0


From df147b40641a90aaf3442d72308333ebb62ede21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 023/167] fix: ignore XML comments within Android strings

---
 python/moz/l10n/formats/android/parse.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index d622f7c..c75d9c7 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -343,9 +343,14 @@ def parse_pattern(
 
 
 def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
-    if el.text:
-        yield el.text
+    text = el.text or ""
     for child in el:
+        if isinstance(child, (etree._Comment, etree._ProcessingInstruction)):
+            text += child.tail or ""
+            continue
+        if text:
+            yield text
+        text = child.tail or ""
         if isinstance(child, etree._Entity):
             yield Expression(VariableRef(child.name), "entity")
         else:
@@ -395,8 +400,8 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
                 yield Markup("open", name, options=dict(child.attrib))
                 yield from flatten(child)
                 yield Markup("close", name)
-        if child.tail:
-            yield child.tail
+    if text:
+        yield text
 
 
 double_quote = compile(r'(?<!\\)"')
-- 
2.43.0


From d93c005e3381b5ba691d2cdcfeac730b43c10f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 024/167] fix: join UTF-16 surrogate pairs in Android unicode
 escapes

---
 python/moz/l10n/formats/android/parse.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index c75d9c7..ae118ba 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -442,7 +442,7 @@ def parse_quotes(
 
 
 inline_re = compile(
-    r"\\u([0-9a-fA-F]{4})|"
+    r"((?:\\u[0-9a-fA-F]{4})+)|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
     r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))"
@@ -452,6 +452,11 @@ break_tag_re = compile(r"<[bh]r/?>")
 var_idx_re = compile(r"[1-9]$")
 
 
+def unescape_unicode(src: str) -> str:
+    units = bytes.fromhex(src.replace("\\u", ""))
+    return units.decode("utf-16-be", errors="surrogatepass")
+
+
 def parse_inline(
     iter: Iterable[str | Expression | Markup],
 ) -> Iterator[str | Expression | Markup]:
@@ -476,8 +481,8 @@ def parse_inline(
                 if at_br:
                     at_br = False
                 if m[1]:
-                    # Unicode escape
-                    acc += chr(int(m[1], base=16))
+                    # Unicode escapes, as UTF-16 code units
+                    acc += unescape_unicode(m[1])
                 elif m[2]:
                     # Escaped character
                     c = m[2]
-- 
2.43.0


From d317f3ec4357c64be3478c44c55a8c2263208e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 025/167] fix: parse Android placeholders with multiple flags
 or multi-digit indices

---
 python/moz/l10n/formats/android/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index ae118ba..d653a16 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -445,11 +445,11 @@ inline_re = compile(
     r"((?:\\u[0-9a-fA-F]{4})+)|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))"
+    r"(%(?:[1-9][0-9]*\$|<)?[-#+ 0,(]*[0-9.]*([tT]?.))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-var_idx_re = compile(r"[1-9]$")
+var_idx_re = compile(r"[1-9][0-9]*$")
 
 
 def unescape_unicode(src: str) -> str:
@@ -548,7 +548,7 @@ def parse_inline(
         yield acc
 
 
-arg_idx = compile(r"%([1-9]\$)?")
+arg_idx = compile(r"%([1-9][0-9]*\$)?")
 not_name_char = compile(f"[^{xml_name_start}{xml_name_rest}]")
 not_name_start = compile(f"[^{xml_name_start}]")
 
@@ -557,7 +557,7 @@ def get_var_name(src: str) -> str:
     """Returns a valid MF2 name."""
     pm = arg_idx.match(src)
     if pm:
-        return f"arg{pm[1][0]}" if pm[1] else "arg"
+        return f"arg{pm[1][:-1]}" if pm[1] else "arg"
     name = not_name_char.sub("", src)
     if not_name_start.match(name):
         name = name[1:]
-- 
2.43.0


From dcc7f632fedc28e44b5deeae9be2c7966bfabb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 026/167] fix: normalize a space after a last <br> in Android
 strings like other such spaces

---
 python/moz/l10n/formats/android/parse.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index d653a16..eb2d64f 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -543,7 +543,13 @@ def parse_inline(
                             VariableRef(name), func, attributes={"source": source}
                         )
                 pos = m.end()
-            acc += part[pos:]
+            if pos < len(part):
+                if at_br:
+                    at_br = False
+                    if part[pos] == " ":
+                        acc += "\n"
+                        pos += 1
+                acc += part[pos:]
     if acc:
         yield acc
 
-- 
2.43.0


From c5c11a40a79bbc422fee8bd4dc52a7f020ef6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 027/167] fix: recognise an Android quote after an escaped
 backslash

---
 python/moz/l10n/formats/android/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index eb2d64f..5ea1e8e 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -404,7 +404,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
         yield text
 
 
-double_quote = compile(r'(?<!\\)"')
+double_quote = compile(r'(?<!\\)(?:\\\\)*"')
 tag_like = compile(r"<.+>")
 
 
@@ -424,7 +424,7 @@ def parse_quotes(
                         # Let's presume that double quotes near html-ish contents are intentional.
                         break
                     # All unescaped double quotes are consumed, even unpaired ones.
-                    prev = part[pos : m.start()]
+                    prev = part[pos : m.end() - 1]
                     if prev:
                         yield prev if quoted else spaces.sub(" ", prev)
                     quoted = not quoted
-- 
2.43.0


From 56a124aae0772fb4f50fb7ace616eb936d60843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 028/167] fix: unescape literal contents of Android xliff:g
 elements

---
 python/moz/l10n/formats/android/parse.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 5ea1e8e..c83230c 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import logging
 from collections.abc import Callable, Iterable, Iterator
-from re import ASCII, compile, match
+from re import ASCII, Match, compile, match
 from typing import Literal, cast
 
 from lxml import etree
@@ -387,7 +387,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
                                 arg = VariableRef(get_var_name(gc))
                                 attr["source"] = gc
                             else:
-                                arg = gc
+                                arg = literal_escape.sub(unescape_literal, gc)
                             if options:
                                 yield Expression(arg, name, options, attributes=attr)
                             else:
@@ -441,6 +441,17 @@ def parse_quotes(
             yield part
 
 
+literal_escape = compile(r"((?:\\u[0-9a-fA-F]{4})+)|\\(.)|[ \t\r\n\f\v]+")
+
+
+def unescape_literal(m: Match[str]) -> str:
+    if m[1]:
+        return unescape_unicode(m[1])
+    if m[2]:
+        return "\n" if m[2] == "n" else "\t" if m[2] == "t" else m[2]
+    return " "
+
+
 inline_re = compile(
     r"((?:\\u[0-9a-fA-F]{4})+)|"
     r"\\(.)|"
-- 
2.43.0


From 2e6236d9f4ffce3cd55880ba48776b63dbf4d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 029/167] fix: unescape &amp; and &quot; in Android entity
 values

---
 python/moz/l10n/formats/android/parse.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index c83230c..5e83f24 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -269,15 +269,23 @@ entity_ref = compile(f"&({xml_name.pattern});")
 
 def parse_entity_value(src: str | None) -> Iterator[str | Expression]:
     if src:
+        text = ""
         pos = 0
         for m in entity_ref.finditer(src):
-            start = m.start()
-            if start > pos:
-                yield src[pos:start]
-            yield Expression(VariableRef(m[1]), "entity")
+            text += src[pos : m.start()]
             pos = m.end()
-        if pos < len(src):
-            yield src[pos:]
+            if m[1] == "amp":
+                text += "&"
+            elif m[1] == "quot":
+                text += '"'
+            else:
+                if text:
+                    yield text
+                    text = ""
+                yield Expression(VariableRef(m[1]), "entity")
+        text += src[pos:]
+        if text:
+            yield text
 
 
 def parse_plurals(
-- 
2.43.0


From 5cd5aedbd57f2a7dedbb74dbeabbac514467f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 030/167] fix: unescape HTML tags in Android strings

---
 python/moz/l10n/formats/android/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 5e83f24..62b3807 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -516,6 +516,7 @@ def parse_inline(
                     elif acc:
                         yield acc
                         acc = ""
+                    tag = literal_escape.sub(unescape_literal, tag)
                     yield Expression(tag, "html")
                     at_br = bool(break_tag_re.fullmatch(tag))
                 else:
-- 
2.43.0


From d8137ae0c8e888ee33d81f248c5f74b2dab3085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 031/167] fix: do not parse an escape, tag or space as an
 Android placeholder conversion

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 62b3807..09b8d59 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -464,7 +464,7 @@ inline_re = compile(
     r"((?:\\u[0-9a-fA-F]{4})+)|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9][0-9]*\$|<)?[-#+ 0,(]*[0-9.]*([tT]?.))"
+    r"(%(?:[1-9][0-9]*\$|<)?[-#+ 0,(]*[0-9.]*([tT]?[^\s\\<]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-- 
2.43.0


From 3e4d825f0923047a8f8ea994c94e2ec5fff4ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 032/167] fix: do not parse % before an HTML end tag as an
 Android placeholder

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 09b8d59..918e0cd 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -464,7 +464,7 @@ inline_re = compile(
     r"((?:\\u[0-9a-fA-F]{4})+)|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9][0-9]*\$|<)?[-#+ 0,(]*[0-9.]*([tT]?[^\s\\<]))"
+    r"(%(?:[1-9][0-9]*\$|<(?!/))?[-#+ 0,(]*[0-9.]*([tT]?[^\s\\<]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-- 
2.43.0


From e8acf8be3658c44dde36f1d0176eb29f64a13e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 033/167] fix: escape all control characters in Android strings

---
 python/moz/l10n/formats/android/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 0dfd8c8..f236ca7 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -412,7 +412,7 @@ android_escape = str.maketrans(
 )
 
 # Control codes are not valid in XML, and nonstandard whitespace needs escaping
-control_chars = compile(r"[\x00-\x19\x7F-\x9F]|[^\S ]|(?<= ) ")
+control_chars = compile(r"[\x00-\x1F\x7F-\x9F]|[^\S ]|(?<= ) ")
 
 
 def escape_char(ch: str) -> str:
-- 
2.43.0


From 52d9e4b93ab4fe3c1929881e097aae0f3b7b953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 034/167] fix: ignore XML comments within XLIFF message
 contents

---
 .../l10n/formats/xliff/parse_trans_unit.py    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 0dcfad7..e8cdbce 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -16,7 +16,6 @@ from __future__ import annotations
 
 from collections import defaultdict
 from collections.abc import Iterator
-from typing import cast
 
 from lxml import etree
 
@@ -86,15 +85,16 @@ def parse_pattern(
         else:
             yield el.text
     for child in el:
-        q = etree.QName(cast(str, child.tag))
-        ns = q.namespace
-        name = q.localname if not ns or ns in xliff_ns else q.text
-        options: dict[str, str | VariableRef] = dict(child.attrib)
-        if name in ("x", "bx", "ex"):
-            yield Markup("standalone", name, options)
-        elif isinstance(child.tag, str):
-            yield Markup("open", name, options)
-            yield from parse_pattern(child, is_xcode)
-            yield Markup("close", name)
+        if isinstance(child.tag, str):
+            q = etree.QName(child.tag)
+            ns = q.namespace
+            name = q.localname if not ns or ns in xliff_ns else q.text
+            options: dict[str, str | VariableRef] = dict(child.attrib)
+            if name in ("x", "bx", "ex"):
+                yield Markup("standalone", name, options)
+            else:
+                yield Markup("open", name, options)
+                yield from parse_pattern(child, is_xcode)
+                yield Markup("close", name)
         if child.tail:
             yield child.tail
-- 
2.43.0


From 300413c31de96bbeaac8c2adf6ff940ff9da6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 035/167] fix: serialize namespaced names of XLIFF inline
 elements and attributes

---
 python/moz/l10n/formats/xliff/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index bc3f1b9..2fb5bdc 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -93,7 +93,7 @@ def pretty_name(el: _Element, name: str) -> str:
 
 def clark_name(nsmap: dict[str | None, str], name: str) -> str:
     """See https://lxml.de/tutorial.html#namespaces"""
-    if ":" not in name:
+    if ":" not in name or name.startswith("{"):
         return name
     ns, local = name.split(":", 1)
     if ns in nsmap:
-- 
2.43.0


From 3bd11a7ce2f5b13d28389d055a95eb289e420e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 036/167] fix: recognise duplicate and empty XLIFF elements
 that have no children

---
 python/moz/l10n/formats/xliff/parse.py            | 2 +-
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 2 +-
 python/moz/l10n/formats/xliff/serialize.py        | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 2c8c8f9..a9ef48c 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -113,7 +113,7 @@ def xliff_parse(
                 elif child.tag == f"{ns}header":
                     meta += element_as_metadata(child, "header", True)
                 elif child.tag == f"{ns}body":
-                    if body:
+                    if body is not None:
                         raise ValueError(f"Duplicate <body> in <file>: {file}")
                     body = child
                 else:
diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index e8cdbce..f76bf15 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -52,7 +52,7 @@ def parse_trans_unit(
         else:
             name = pretty_name(el, str(el.tag))
             if name == msg_name:
-                if msg_el:
+                if msg_el is not None:
                     raise ValueError(
                         f"Duplicate <{msg_name}> in <trans-unit> {id}: {unit}"
                     )
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 8e08d62..537a10f 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -226,7 +226,9 @@ def add_unit(
         and unit.find("note") is None
     ):
         if msg_el is None:
-            prev_el = unit.find("target") or unit.find("source")
+            prev_el = unit.find("target")
+            if prev_el is None:
+                prev_el = unit.find("source")
             if prev_el is None:
                 raise ValueError(f"Invalid entry with no source: {unit}")
         else:
-- 
2.43.0


From 05e179d848d9470c11925033131717a7b75745d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 037/167] fix: serialize an XLIFF file comment before the file

---
 python/moz/l10n/formats/xliff/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 537a10f..f930515 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -111,7 +111,8 @@ def xliff_serialize(
         indent = 2 * len(section.id)
         if section.comment:
             comment = etree.Comment(comment_body(section.comment, indent))
-            parent.addprevious(comment)
+            section_el = parent if len(section.id) > 1 else parent.getparent()
+            cast(etree._Element, section_el).addprevious(comment)
 
         indent += 2
         for entry in section.entries:
-- 
2.43.0


From 3b3f57de09b8faafb8227fde13c8f1b42dcccb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 038/167] fix: keep whitespace between inline elements in XLIFF
 metadata

---
 python/moz/l10n/formats/xliff/common.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index 2fb5bdc..bfdf03f 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -26,21 +26,25 @@ xliff_ns = {
     "urn:oasis:names:tc:xliff:document:1.1",
     "urn:oasis:names:tc:xliff:document:1.2",
 }
+# Elements in which all whitespace is a part of their contents
+content_elements = {"source", "target", "seg-source"}
 xml_ns = "http://www.w3.org/XML/1998/namespace"
 xcode_tool_id = Metadata("header/tool/@tool-id", "com.apple.dt.xcode")
 
 
 def element_as_metadata(
-    el: _Element, base: str, with_attrib: bool
+    el: _Element, base: str, with_attrib: bool, keep_space: bool = False
 ) -> Iterator[Metadata]:
     is_empty = True
+    if not keep_space and isinstance(el.tag, str):
+        keep_space = pretty_name(el, el.tag) in content_elements
     seen: dict[str, int] = defaultdict(int)
     if with_attrib:
         am = attrib_as_metadata(el, base)
         if am:
             yield from am
             is_empty = False
-    if el.text and not el.text.isspace():
+    if el.text and (keep_space or not el.text.isspace()):
         yield Metadata(base, el.text)
         is_empty = False
     for child in el:
@@ -52,11 +56,11 @@ def element_as_metadata(
             child_base = f"{base}/{name}" if base else name
             if idx > 1:
                 child_base += f"[{idx}]"
-            yield from element_as_metadata(child, child_base, True)
+            yield from element_as_metadata(child, child_base, True, keep_space)
             seen[name] = idx
         else:
             raise ValueError(f"Unsupported metadata element in {base}: {el}")
-        if child.tail and not child.tail.isspace():
+        if child.tail and (keep_space or not child.tail.isspace()):
             yield Metadata(base, child.tail)
         is_empty = False
     if is_empty and with_attrib:
-- 
2.43.0


From 8e3ee04f99d3887f12f391d4bbec37ebbb2d1062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 039/167] fix: do not add whitespace to XLIFF message contents

---
 python/moz/l10n/formats/xliff/serialize.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index f930515..6653509 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -33,7 +33,7 @@ from ...model import (
     SelectMessage,
     VariableRef,
 )
-from .common import clark_name
+from .common import clark_name, content_elements
 
 
 def xliff_serialize(
@@ -176,6 +176,8 @@ def xliff_serialize(
             else:
                 fn = section.id[0]
                 raise ValueError(f"Unsupported message {id} in file: {fn}")
+    for el in root.iter(*content_elements):
+        preserve_space(el)
     yield etree.tostring(root, encoding="unicode", pretty_print=True)
 
 
@@ -184,7 +186,7 @@ def xliff_serialize_message(msg: Message) -> str:
         raise ValueError(f"Unsupported message: {msg}")
     target = etree.Element("target")
     set_pattern(target, msg.pattern)
-    str = etree.tostring(target, encoding="unicode", pretty_print=True).strip()
+    str = etree.tostring(target, encoding="unicode")
     if str == "<target/>":
         return ""
     if not str.startswith("<target>"):
@@ -435,6 +437,13 @@ def assign_metadata(
             done.append(child_base)
 
 
+def preserve_space(root: etree._Element) -> None:
+    # An empty text node prevents pretty-printing from adding whitespace
+    for el in root.iter(etree.Element):
+        if len(el) > 0 and not el.text:
+            el.text = ""
+
+
 def comment_body(content: str, indent: int) -> str:
     # Comments can't include --, so add a zero width space between and after dashes beyond the first
     cc = content.strip().replace("--", "-\u200b-\u200b")
-- 
2.43.0


From 5b465af7e5c136393bffa616febbbac1e5172068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 040/167] fix: keep multiple notes of an .xcstrings trans-unit
 separate

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 6038374..804ae99 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -312,8 +312,8 @@ def parse_xliff_xcstrings_unit(
     target = unit_data.target
     meta = attrib_as_metadata(unit_data.unit, None, ("id",))
     comments: list[str] = []
+    meta += notes_as_metadata(unit_data.notes)
     for note in unit_data.notes:
-        meta += element_as_metadata(note, "note", True)
         if note.text and not note.text.isspace():
             comments.append(note.text.strip())
     if from_source:
@@ -460,6 +460,14 @@ def parse_xliff_stringsdict_unit(
             )
 
 
+def notes_as_metadata(
+    notes: list[etree._Element], base: str = ""
+) -> Iterator[Metadata]:
+    for idx, note in enumerate(notes, 1):
+        name = f"note[{idx}]" if idx > 1 else "note"
+        yield from element_as_metadata(note, base + name, True)
+
+
 def get_xcode_unit_data(ns: str, unit: etree._Element) -> XcodeUnitData:
     def error(message: str) -> NoReturn:
         raise ValueError(f'{message} in Xcode <trans-unit id="{unit.attrib["id"]}">')
-- 
2.43.0


From 730b60c194ea2352703c0df68b50d369c1927147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 041/167] fix: keep notes of .stringsdict trans-units

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 804ae99..fbd854e 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -388,6 +388,7 @@ def parse_xliff_stringsdict(
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
             if plural.format_key.target is not None:
                 meta += attrib_as_metadata(plural.format_key.target, "format/target")
+            meta += notes_as_metadata(plural.format_key.notes, "format/")
         msg = SelectMessage(
             declarations={plural.var_name: selector},
             selectors=(VariableRef(plural.var_name),),
@@ -407,6 +408,7 @@ def parse_xliff_stringsdict(
                 else:
                     meta += attrib_as_metadata(variant.target, f"{key}/target")
                     pattern_src = variant.target.text
+            meta += notes_as_metadata(variant.notes, f"{key}/")
             msg.variants[(CatchallKey("other") if key == "other" else key,)] = list(
                 parse_xcode_pattern(pattern_src)
             )
-- 
2.43.0


From c5afc4834b9a6bfb6a1fb733f4eb400b936a73e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 042/167] fix: keep the target of a .stringsdict format key

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index fbd854e..e75e988 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -388,6 +388,9 @@ def parse_xliff_stringsdict(
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
             if plural.format_key.target is not None:
                 meta += attrib_as_metadata(plural.format_key.target, "format/target")
+                format_target = plural.format_key.target.text
+                if format_target and format_target != plural.format_key.source.text:
+                    meta.append(Metadata("format/target", format_target))
             meta += notes_as_metadata(plural.format_key.notes, "format/")
         msg = SelectMessage(
             declarations={plural.var_name: selector},
-- 
2.43.0


From f9b6d0b4a9cc75af3e627a38701e0d2c1cd5f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 043/167] fix: parse Xcode placeholders also after XLIFF inline
 elements

---
 .../l10n/formats/xliff/parse_trans_unit.py    | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index f76bf15..f35fe90 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -79,13 +79,11 @@ def parse_trans_unit(
 def parse_pattern(
     el: etree._Element, is_xcode: bool
 ) -> Iterator[str | Expression | Markup]:
-    if el.text:
-        if is_xcode:
-            yield from parse_xcode_pattern(el.text)
-        else:
-            yield el.text
+    text = el.text or ""
     for child in el:
         if isinstance(child.tag, str):
+            yield from parse_text(text, is_xcode)
+            text = ""
             q = etree.QName(child.tag)
             ns = q.namespace
             name = q.localname if not ns or ns in xliff_ns else q.text
@@ -96,5 +94,12 @@ def parse_pattern(
                 yield Markup("open", name, options)
                 yield from parse_pattern(child, is_xcode)
                 yield Markup("close", name)
-        if child.tail:
-            yield child.tail
+        text += child.tail or ""
+    yield from parse_text(text, is_xcode)
+
+
+def parse_text(text: str, is_xcode: bool) -> Iterator[str | Expression]:
+    if is_xcode:
+        yield from parse_xcode_pattern(text)
+    elif text:
+        yield text
-- 
2.43.0


From b060d1c71d76fd8b88e01d3c3bf9bec0957ec4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 044/167] fix: always include a <source> for XLIFF source
 entries

---
 python/moz/l10n/formats/xliff/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 6653509..3ec3575 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -206,7 +206,8 @@ def add_unit(
     assign_metadata(unit, meta, trim_comments)
 
     msg_el = None
-    if pattern:  # only non-empty for <trans-unit>
+    # The pattern is only non-empty for <trans-unit>, for which <source> is required
+    if pattern or (source_entries and unit.tag == "trans-unit"):
         if source_entries:
             msg_el = unit.find("source")
             if msg_el is None:
-- 
2.43.0


From b43bf81c1ab5b4b516810a4cd2dca4aba884a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 045/167] fix: keep an empty Gettext message context

---
 python/moz/l10n/formats/gettext/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 45b74ef..5ba80b3 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -98,7 +98,7 @@ def gettext_parse(
             )
         else:
             value = PatternMessage([pe.msgstr])
-        id = (pe.msgid, pe.msgctxt) if pe.msgctxt else (pe.msgid,)
+        id = (pe.msgid,) if pe.msgctxt is None else (pe.msgid, pe.msgctxt)
         entries.append(Entry(id, value, comment=pe.comment, meta=meta))
     return Resource(Format.gettext, [Section((), entries)], res_comment, res_meta)
 
-- 
2.43.0


From 96bd6af74e84410e3d5f5ec34f5ba9d546ec760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 046/167] fix: do not drop Gettext plural variants that do not
 match the Plural-Forms header

---
 python/moz/l10n/formats/gettext/serialize.py | 25 +++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index ca065f2..664fdd0 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -99,16 +99,17 @@ def gettext_serialize(
                         )
                         for keys, pattern in msg.variants.items()
                     )
+                    msgstrs: dict[int, str] = {}
+                    for key, pattern in variants:
+                        idx = plural_index(key, plurals)
+                        if idx is None or idx in msgstrs:
+                            raise ValueError(
+                                f"Unsupported plural key for {entry.id}: {key}"
+                            )
+                        msgstrs[idx] = pattern
                     pe.msgstr_plural = {
-                        idx: next(
-                            (
-                                pattern
-                                for key, pattern in variants
-                                if key == (plurals[idx] if plurals else str(idx))
-                            ),
-                            "",
-                        )
-                        for idx in range(nplurals)
+                        idx: msgstrs.get(idx, "")
+                        for idx in range(max(nplurals, 1 + max(msgstrs)))
                     }
                 else:
                     raise ValueError(
@@ -143,3 +144,9 @@ def gettext_serialize(
                 raise ValueError(
                     f"Standalone comments are not supported: {entry.comment}"
                 )
+
+
+def plural_index(key: str, plurals: Sequence[str] | None) -> int | None:
+    if plurals:
+        return plurals.index(key) if key in plurals else None
+    return int(key) if match(r"(?:0|[1-9][0-9]*)\Z", key) else None
-- 
2.43.0


From cb764ea19c378f7a3f5093e7816a0ef4b1e70c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 047/167] fix: keep the previous identifiers of fuzzy Gettext
 messages

---
 python/moz/l10n/formats/gettext/parse.py     | 7 +++++++
 python/moz/l10n/formats/gettext/serialize.py | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 5ba80b3..583b729 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -60,6 +60,7 @@ def gettext_parse(
     - `obsolete`: `""`
     - `flag`: separately for each flag
     - `plural`
+    - `previous-context`, `previous-id`, `previous-plural`
     """
     pf = pofile(source if isinstance(source, str) else str(source, "utf8"))
     res_comment = pf.header.lstrip("\n").rstrip()
@@ -79,6 +80,12 @@ def gettext_parse(
             meta.append(Metadata("obsolete", "true"))
         for flag in pe.flags:
             meta.append(Metadata("flag", flag))
+        if pe.previous_msgctxt is not None:
+            meta.append(Metadata("previous-context", pe.previous_msgctxt))
+        if pe.previous_msgid is not None:
+            meta.append(Metadata("previous-id", pe.previous_msgid))
+        if pe.previous_msgid_plural is not None:
+            meta.append(Metadata("previous-plural", pe.previous_msgid_plural))
         if pe.msgid_plural:
             meta.append(Metadata("plural", pe.msgid_plural))
         if pe.msgstr_plural:
diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 664fdd0..702e87f 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -131,6 +131,12 @@ def gettext_serialize(
                             pe.occurrences.append(
                                 (pos[0], pos[1]) if len(pos) == 2 else (m.value, "")
                             )
+                        elif m.key == "previous-context":
+                            pe.previous_msgctxt = m.value
+                        elif m.key == "previous-id":
+                            pe.previous_msgid = m.value
+                        elif m.key == "previous-plural":
+                            pe.previous_msgid_plural = m.value
                         elif m.key == "flag":
                             pe.flags.append(m.value)
                         else:
-- 
2.43.0


From ab9f7eb0d1df02a6a508c7a3806ffdd687a84304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 048/167] fix: do not add a colon to Gettext references without
 a line number

---
 python/moz/l10n/formats/gettext/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 583b729..23972ab 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -73,7 +73,7 @@ def gettext_parse(
         if pe.tcomment:
             meta.append(Metadata("translator-comments", pe.tcomment))
         for file, line in pe.occurrences:
-            meta.append(Metadata("reference", f"{file}:{line}"))
+            meta.append(Metadata("reference", f"{file}:{line}" if line else file))
         if pe.obsolete:
             if skip_obsolete:
                 continue
-- 
2.43.0


From 9bec59e03dcfb8c5c7e1651931d2f5c67ec0840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 049/167] fix: keep Fluent line indents after a leading [ . or
 *

---
 python/moz/l10n/formats/fluent/serialize.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 6392af5..1dbcd50 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -382,6 +382,11 @@ def flat_pattern(
                     if ws_end == len(el):
                         continue
                     el = el[ws_end:]
+                elif el[:1] in {"[", ".", "*"} and has_indented_line(pattern):
+                    # Text starting with one of these would be put on the same line
+                    # as the identifier, so that a parser dedents the other lines.
+                    elements.append(ftl.Placeable(ftl.StringLiteral(el[0])))
+                    el = el[1:]
             if idx == last:
                 ws = ws_at_end.search(el)
                 if ws is not None:
@@ -398,6 +403,10 @@ def flat_pattern(
     return ftl.Pattern(elements)
 
 
+def has_indented_line(pattern: Pattern) -> bool:
+    return any(isinstance(el, str) and "\n " in el for el in pattern)
+
+
 def pattern_is_empty(pattern: ftl.Pattern) -> bool:
     return all(
         isinstance(el, ftl.TextElement) and (el.value == "" or el.value.isspace())
-- 
2.43.0


From a8428607dd87a92e4cf399556dc4637462669439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 050/167] fix: parse consecutive includes in DTD files

---
 python/moz/l10n/formats/dtd/parse.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index fb6aae3..2e2666a 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -67,10 +67,13 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
     resource = Resource(Format.dtd, [Section((), entries)])
 
     def handle_other_content(entry: str) -> None:
-        if sm := re_system_include.fullmatch(entry):
+        pos = 0
+        while sm := re_system_include.match(entry, pos):
             resource.meta.append(Metadata(sm[1], sm[2][1:-1]))
-        elif entry and not entry.isspace():
-            raise ValueError(f"Unexpected content in DTD: {entry}")
+            pos = sm.end()
+        rest = entry[pos:]
+        if rest and not rest.isspace():
+            raise ValueError(f"Unexpected content in DTD: {rest}")
 
     pos = 0
     at_newline = True
-- 
2.43.0


From 99fe51ce2913cc2e17c6502a2d42e30035513308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 051/167] fix: do not attach the last DTD comment over an empty
 line

---
 python/moz/l10n/formats/dtd/parse.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index 2e2666a..df3f2a9 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -75,6 +75,12 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         if rest and not rest.isspace():
             raise ValueError(f"Unexpected content in DTD: {rest}")
 
+    def add_standalone_comment(comment: str) -> None:
+        if entries or resource.comment:
+            entries.append(Comment(comment))
+        else:
+            resource.comment = comment
+
     pos = 0
     at_newline = True
     comment: str = ""
@@ -88,10 +94,7 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
                 handle_other_content(entry)
                 lines = entry.split("\n")
                 if comment and len(lines) > 2:
-                    if entries or resource.comment:
-                        entries.append(Comment(comment))
-                    else:
-                        resource.comment = comment
+                    add_standalone_comment(comment)
                     comment = ""
                 at_newline = len(lines) > 1
             else:
@@ -116,6 +119,9 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         for entry in dtd_iter(source, pos):
             if isinstance(entry, str):
                 handle_other_content(entry)
+                if comment and len(entry.split("\n")) > 2:
+                    add_standalone_comment(comment)
+                    comment = ""
             else:
                 if comment:
                     entry.comment = comment
-- 
2.43.0


From 6a78a382aae7c73c4abde88ff5254eadb54ea91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 052/167] fix: refuse DTD values and names that would not parse

---
 python/moz/l10n/formats/dtd/serialize.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index 85dd14e..5c7cdc8 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -22,6 +22,7 @@ from ...model import Entry, Message, PatternMessage, Resource
 from .parse import name, re_comment
 
 re_name = compile(name, UNICODE)
+re_comment_start = compile(r"<!\s*--")
 
 
 def dtd_serialize(
@@ -80,10 +81,15 @@ def dtd_serialize(
         else:
             quoted = value.replace('"', "&quot;")
             quoted = f'"{quoted}"'
-        return re_comment.sub("", quoted)
+        quoted = re_comment.sub("", quoted)
+        if re_comment_start.search(quoted):
+            raise ValueError(f"Unclosed comment in DTD value: {value}")
+        return quoted
 
     yield from comment(resource.comment, None, True)
     for meta in resource.meta:
+        if not re_name.fullmatch(meta.key):
+            raise ValueError(f"Unsupported DTD name: {meta.key}")
         yield f"<!ENTITY % {meta.key} SYSTEM {quote(meta.value)}>\n%{meta.key};\n"
     for section in resource.sections:
         yield from comment(section.comment, section.meta, True)
-- 
2.43.0


From 519b5f1c22b857053061aac801cf46cee24f3930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 053/167] fix: split .inc files only at line breaks

---
 python/moz/l10n/formats/inc/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/inc/parse.py b/python/moz/l10n/formats/inc/parse.py
index 0c3c8b1..c7820b1 100644
--- a/python/moz/l10n/formats/inc/parse.py
+++ b/python/moz/l10n/formats/inc/parse.py
@@ -14,7 +14,7 @@
 
 from __future__ import annotations
 
-from re import compile
+from re import compile, split
 
 from ...model import Comment, Entry, Message, PatternMessage, Resource, Section
 from .. import Format
@@ -34,7 +34,7 @@ def inc_parse(source: str | bytes) -> Resource[Message]:
     comment: str = ""
     if not isinstance(source, str):
         source = str(source, "utf8")
-    for line in source.splitlines():
+    for line in split(r"\r\n?|\n", source):
         if not line or line.isspace():
             if comment:
                 entries.append(Comment(comment))
-- 
2.43.0


From 01d4dead9ee7edb3dad26267dd5c64723aaffcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 054/167] fix: keep empty lines in .inc comments

---
 python/moz/l10n/formats/inc/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/inc/parse.py b/python/moz/l10n/formats/inc/parse.py
index c7820b1..4cfbbd1 100644
--- a/python/moz/l10n/formats/inc/parse.py
+++ b/python/moz/l10n/formats/inc/parse.py
@@ -39,7 +39,7 @@ def inc_parse(source: str | bytes) -> Resource[Message]:
             if comment:
                 entries.append(Comment(comment))
                 comment = ""
-        elif line.startswith("# "):
+        elif line.startswith("# ") or line == "#":
             nc = line[2:].lstrip()
             if nc.startswith("#"):
                 nc = line
-- 
2.43.0


From 45083bb672245eb3bf38fc67249b6c1c46596625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 055/167] fix: do not write .inc comments as values or invalid
 names

---
 python/moz/l10n/formats/inc/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index 2d12c58..efce754 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,9 +15,13 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
+from re import compile
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
+from .parse import re_define
+
+re_name = compile(r"\w+")
 
 
 def inc_serialize(
@@ -41,7 +45,7 @@ def inc_serialize(
             raise ValueError("Metadata is not supported")
         if comment:
             for line in comment.strip("\n").split("\n"):
-                if line.startswith("#"):
+                if line.startswith("#") and not re_define.fullmatch(line):
                     if not trim_comments or not line.startswith("# "):
                         yield f"{line}\n"
                 elif not trim_comments:
@@ -58,7 +62,7 @@ def inc_serialize(
         for entry in section.entries:
             if isinstance(entry, Entry):
                 yield from comment(entry.comment, entry.meta, False)
-                if len(entry.id) != 1:
+                if len(entry.id) != 1 or not re_name.fullmatch(entry.id[0]):
                     raise ValueError(f"Unsupported identifier: {entry.id}")
                 msg = entry.value
                 if isinstance(msg, str):
-- 
2.43.0


From d3a0bfd8029c561223c14327d89723e471dde9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 056/167] fix: do not parse .ini keys starting with "rem" as
 comments

---
 python/moz/l10n/formats/ini/parse.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/ini/parse.py b/python/moz/l10n/formats/ini/parse.py
index 7a96ac8..5737c65 100644
--- a/python/moz/l10n/formats/ini/parse.py
+++ b/python/moz/l10n/formats/ini/parse.py
@@ -16,6 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Generator
 from io import StringIO
+from re import compile
 from typing import TextIO
 
 from iniparse import ini  # type: ignore[import-untyped]
@@ -24,6 +25,19 @@ from ...model import Comment, Entry, Message, PatternMessage, Resource, Section
 from .. import Format
 
 
+class CommentLine(ini.CommentLine):  # type: ignore[misc]
+    # The base class regex matches all lines with any "rem" prefix,
+    # such as "remove=Remove".
+    regex = compile(r"^(?P<csep>[;#]|[rR][eE][mM](?=\s|$))(?P<comment>.*)$")
+
+
+class INIConfig(ini.INIConfig):  # type: ignore[misc]
+    _line_types = [
+        CommentLine if lt is ini.CommentLine else lt
+        for lt in ini.INIConfig._line_types
+    ]
+
+
 def ini_parse(source: TextIO | str | bytes) -> Resource[Message]:
     """
     Parse an .ini file into a message resource.
@@ -36,7 +50,7 @@ def ini_parse(source: TextIO | str | bytes) -> Resource[Message]:
         file = StringIO(str(source, "utf8"))
     else:
         file = source
-    cfg = ini.INIConfig(file, optionxformvalue=None)
+    cfg = INIConfig(file, optionxformvalue=None)
 
     resource = Resource[Message](Format.ini, [])
     section: Section[Message] | None = None
-- 
2.43.0


From 17e9c43cf2cccdfd3c17b04bbe55421aa5db72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 057/167] fix: do not write .ini values or keys as comments

---
 python/moz/l10n/formats/ini/serialize.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 6be53ae..1d21281 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
-from re import search
+from re import IGNORECASE, search
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
@@ -80,11 +80,13 @@ def ini_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id}: {msg}")
-                lines = value.rstrip().splitlines()
-                yield (
-                    f"{id_str(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
-                    + "\n"
-                )
+                lines = value.rstrip().split("\n")
+                if search(r"^[^;]*\s;", lines[0]):
+                    raise ValueError(f"Unsupported comment in value: {entry.id}")
+                name = id_str(entry.id)
+                if search(r"^([#;]|rem(\s|$)|$)", name, IGNORECASE):
+                    raise ValueError(f"Unsupported identifier: {entry.id}")
+                yield f"{name}={lines.pop(0)}".rstrip() + "\n"
                 for line in lines:
                     ls = line.rstrip()
                     yield f"  {ls}\n" if ls else "\n"
-- 
2.43.0


From 5e23024b43688c7f9c347e790db458784a34c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 058/167] fix: replace all line breaks in .inc values

---
 python/moz/l10n/formats/inc/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index efce754..ab07072 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
-from re import compile
+from re import compile, sub
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
@@ -73,7 +73,7 @@ def inc_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id[0]}: {msg}")
-                value = value.replace("\n", " ")
+                value = sub(r"\r\n?|\n", " ", value)
                 yield f"#define {entry.id[0]} {value}\n"
                 yield "\n"
             else:
-- 
2.43.0


From ae174d07acd43ff923dc0b8b4784481739f77978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 059/167] fix: do not modify the placeholders of WebExtension
 messages

---
 python/moz/l10n/formats/webext/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index 39ffc8b..e55729b 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -70,6 +70,7 @@ def webext_parse_message(
         if placeholders is not None
         else {}
     )
+    ph_names: dict[str, str] = {}
     pattern: Pattern = []
     declarations: dict[str, Expression] = {}
     pos = 0
@@ -86,8 +87,8 @@ def webext_parse_message(
             ph = ph_data.get(ph_key, None)
             if ph is None:
                 raise ValueError(f"Missing placeholders entry for {ph_key}")
-            elif "_name" in ph:
-                ph_name = ph["_name"]
+            elif ph_key in ph_names:
+                ph_name = ph_names[ph_key]
             else:
                 decl_src = ph["content"]
                 decl_arg_match = pos_arg.fullmatch(decl_src)
@@ -105,7 +106,7 @@ def webext_parse_message(
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
                 declarations[ph_name] = decl_value
-                ph["_name"] = ph_name
+                ph_names[ph_key] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
             pattern.append(exp)
         elif m[2]:
-- 
2.43.0


From 113d380224e9ce308ed14c1878a86e6012482fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 060/167] fix: refuse WebExtension placeholders with
 conflicting names

---
 python/moz/l10n/formats/webext/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index e55729b..36578c5 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -105,6 +105,8 @@ def webext_parse_message(
                 ph_name = m[1].replace("@", "_")
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
+                if ph_name in declarations:
+                    raise ValueError(f"Conflicting placeholder name {m[1]}")
                 declarations[ph_name] = decl_value
                 ph_names[ph_key] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
-- 
2.43.0


From b579a0bbe9fb45dc804edfcbb99f9e6f8f5bce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 061/167] fix: parse WebExtension placeholders after a dollar
 sign

---
 js/src/webext-parse.ts                  | 4 +++-
 python/moz/l10n/formats/webext/parse.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/js/src/webext-parse.ts b/js/src/webext-parse.ts
index 0f0940a..edd3a8c 100644
--- a/js/src/webext-parse.ts
+++ b/js/src/webext-parse.ts
@@ -31,7 +31,9 @@ export function webextParsePattern(
     else pattern.push(text)
   }
   let pos = 0
-  for (const m of src.matchAll(/\$([a-zA-Z0-9_@]+)\$|(\$[1-9])|\$(\$+)/dg)) {
+  for (const m of src.matchAll(
+    /\$([a-zA-Z0-9_@]+)\$|(\$[1-9])|\$(\$+)(?![a-zA-Z0-9_@]+\$)/dg
+  )) {
     if (m.index > pos) addText(src.substring(pos, m.index))
     const matchSrc = m[0]
     pos = m.index + matchSrc.length
diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index 36578c5..1218c5d 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -31,7 +31,7 @@ from ...model import (
 from ...util.loads import json_linecomment_loads
 from .. import Format
 
-placeholder = compile(r"\$([a-zA-Z0-9_@]+)\$|(\$[1-9])|\$(\$+)")
+placeholder = compile(r"\$([a-zA-Z0-9_@]+)\$|(\$[1-9])|\$(\$+)(?![a-zA-Z0-9_@]+\$)")
 pos_arg = compile(r"\$([1-9])")
 
 
-- 
2.43.0


From d9c196ab6730780917d58e5f78eddf20cb781e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 062/167] fix: refuse WebExtension messages that would parse
 differently

---
 python/moz/l10n/formats/webext/serialize.py | 50 ++++++++++++++++-----
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 53fb6a0..858c34c 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Iterator
 from json import dumps
-from re import sub
+from re import compile, sub
 from typing import Any
 
 from ...model import (
@@ -27,6 +27,9 @@ from ...model import (
     Resource,
     VariableRef,
 )
+from .parse import placeholder, pos_arg
+
+arg_var = compile(r"arg([1-9])")
 
 
 def webext_serialize(
@@ -102,6 +105,7 @@ def webext_serialize_message(
         raise ValueError(f"Unsupported message: {msg}")
     msgstr = ""
     placeholders: dict[str, Any] = {}
+    spans: list[tuple[int, int]] = []
     for part in msg.pattern:
         if isinstance(part, str):
             msgstr += sub(r"\$+", r"$\g<0>", part)
@@ -111,9 +115,14 @@ def webext_serialize_message(
             and part.function is None
         ):
             ph_name = part.arg.name
+            start = len(msgstr)
             source = part.attributes.get("source", None)
             local = msg.declarations.get(ph_name, None)
-            if local:
+            if local and not (
+                isinstance(source, str)
+                and pos_arg.fullmatch(source)
+                and ph_name == f"arg{source[1]}"
+            ):
                 local_source = local.attributes.get("source", None)
                 if isinstance(local_source, str):
                     content = local_source
@@ -136,21 +145,38 @@ def webext_serialize_message(
                     ph_name = source[1:-1]
                 else:
                     source = None
-                if not any(key.lower() == ph_name.lower() for key in placeholders):
-                    placeholders[ph_name] = {"content": content}
-                    example = (
-                        None if trim_comments else local.attributes.get("example", None)
+                placeholder_data = {"content": content}
+                example = (
+                    None if trim_comments else local.attributes.get("example", None)
+                )
+                if isinstance(example, str):
+                    placeholder_data["example"] = example
+                elif example:
+                    raise ValueError(
+                        f"Unsupported placeholder example for {ph_name}: {example}"
                     )
-                    if isinstance(example, str):
-                        placeholders[ph_name]["example"] = example
-                    elif example:
-                        raise ValueError(
-                            f"Unsupported placeholder example for {ph_name}: {example}"
-                        )
+                prev = next(
+                    (k for k in placeholders if k.lower() == ph_name.lower()), None
+                )
+                if prev is None:
+                    placeholders[ph_name] = placeholder_data
+                elif placeholders[prev] != placeholder_data:
+                    raise ValueError(f"Conflicting placeholders for {ph_name}")
                 msgstr += source or f"${ph_name}$"
             else:
                 arg_name = source if isinstance(source, str) else ph_name
+                if arg_match := arg_var.fullmatch(arg_name):
+                    arg_name = f"${arg_match[1]}"
                 msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
+            spans.append((start, len(msgstr)))
         else:
             raise ValueError(f"Unsupported message part: {part}")
+
+    # Verify that exactly the serialized placeholders will be parsed as such
+    names = {key.lower() for key in placeholders}
+    matches = [m for m in placeholder.finditer(msgstr) if m[1] or m[2]]
+    if [m.span() for m in matches] != spans or any(
+        m[1] and m[1].lower() not in names for m in matches
+    ):
+        raise ValueError(f"Unsupported placeholders or dollar signs in: {msgstr}")
     return msgstr, dict(sorted(placeholders.items()))
-- 
2.43.0


From 2b25a67d08e36bb44d9357ec510e5480a217a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 063/167] fix: write WebExtension placeholder contents as
 argument references

---
 python/moz/l10n/formats/webext/serialize.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 858c34c..f1a453a 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -128,9 +128,13 @@ def webext_serialize_message(
                     content = local_source
                 elif isinstance(local.arg, VariableRef):
                     content = local.arg.name
-                    if not content.startswith("$"):
-                        content = f"${content}"
-                elif isinstance(local.arg, str):
+                    if arg_match := arg_var.fullmatch(content):
+                        content = f"${arg_match[1]}"
+                    if not pos_arg.fullmatch(content):
+                        raise ValueError(
+                            f"Unsupported placeholder for {ph_name}: {local}"
+                        )
+                elif isinstance(local.arg, str) and not pos_arg.fullmatch(local.arg):
                     content = local.arg
                 else:
                     raise ValueError(f"Unsupported placeholder for {ph_name}: {local}")
-- 
2.43.0


From a02bacacae5032003d0d05e3771387d1274f8def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 064/167] fix: refuse duplicate WebExtension message
 identifiers

---
 python/moz/l10n/formats/webext/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index f1a453a..ac660a9 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -66,6 +66,8 @@ def webext_serialize(
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported entry identifier: {entry.id}")
                 name = entry.id[0]
+                if name in res:
+                    raise ValueError(f"Duplicate entry identifier: {name}")
                 if isinstance(entry.value, str):
                     res[name] = {"message": entry.value}
                     if not trim_comments and entry.comment:
-- 
2.43.0


From 2bccd5d88c07902cb86de25e1b3225e52e7ea744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 065/167] fix: refuse plain JSON identifiers with conflicting
 values

---
 .../moz/l10n/formats/plain_json/serialize.py   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index b72680f..f3e77dd 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -14,7 +14,6 @@
 
 from __future__ import annotations
 
-from collections import defaultdict
 from collections.abc import Iterator
 from json import dumps
 from typing import Any
@@ -42,16 +41,19 @@ def plain_json_serialize(
         if meta:
             raise ValueError("Metadata is not supported")
 
-    def ddict() -> dict[str, Any]:
-        return defaultdict(ddict)
+    def get_parent(obj: dict[str, Any], part: str) -> dict[str, Any]:
+        child = obj.setdefault(part, {})
+        if not isinstance(child, dict):
+            raise ValueError(f"Identifier with both a value and parts: {part}")
+        return child
 
     check(resource.comment, resource.meta)
-    root = ddict()
+    root: dict[str, Any] = {}
     for section in resource.sections:
         check(section.comment, section.meta)
         section_parent = root
         for part in section.id:
-            section_parent = section_parent[part]
+            section_parent = get_parent(section_parent, part)
         for entry in section.entries:
             if isinstance(entry, Entry):
                 check(entry.comment, entry.meta)
@@ -70,7 +72,11 @@ def plain_json_serialize(
                     )
                 parent = section_parent
                 for part in entry.id[:-1]:
-                    parent = parent[part]
+                    parent = get_parent(parent, part)
+                if entry.id[-1] in parent:
+                    raise ValueError(
+                        f"Duplicate identifier: {section.id + entry.id}"
+                    )
                 parent[entry.id[-1]] = value
             else:
                 check(entry.comment, None)
-- 
2.43.0


From f418b9dfbe13f4529174f1cfebfb20acda2aaa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 066/167] fix: escape dollar signs across adjacent WebExtension
 text parts

---
 python/moz/l10n/formats/webext/serialize.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index ac660a9..e6c11aa 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -23,6 +23,7 @@ from ...model import (
     Entry,
     Expression,
     Message,
+    Pattern,
     PatternMessage,
     Resource,
     VariableRef,
@@ -108,7 +109,13 @@ def webext_serialize_message(
     msgstr = ""
     placeholders: dict[str, Any] = {}
     spans: list[tuple[int, int]] = []
+    pattern: Pattern = []
     for part in msg.pattern:
+        if isinstance(part, str) and pattern and isinstance(pattern[-1], str):
+            pattern[-1] += part
+        else:
+            pattern.append(part)
+    for part in pattern:
         if isinstance(part, str):
             msgstr += sub(r"\$+", r"$\g<0>", part)
         elif (
-- 
2.43.0


From 3c6c2653cc6b07e0cf5208dd6d1a733eda75b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:00 +0000
Subject: [PATCH 067/167] fix: refuse gettext sections and identifiers that
 would not be kept

---
 python/moz/l10n/formats/gettext/serialize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 702e87f..83d6c29 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -49,7 +49,10 @@ def gettext_serialize(
     pf = POFile(wrapwidth=wrapwidth)
     if not trim_comments and resource.comment and not resource.comment.isspace():
         pf.header = resource.comment.rstrip() + "\n"
-    pf.metadata = {m.key: m.value for m in resource.meta}
+    for m in resource.meta:
+        if m.key in pf.metadata:
+            raise ValueError(f"Duplicate metadata key: {m.key}")
+        pf.metadata[m.key] = m.value
     yield str(pf)
 
     nplurals = 1
@@ -60,12 +63,16 @@ def gettext_serialize(
             nplurals = int(pm[1])
 
     for section in resource.sections:
+        if section.id:
+            raise ValueError("Section identifiers are not supported")
         if section.comment:
             raise ValueError("Section comments are not supported")
         if section.meta:
             raise ValueError("Section metadata is not supported")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if len(entry.id) not in (1, 2) or entry.id == ("",):
+                    raise ValueError(f"Unsupported message id: {entry.id}")
                 context = entry.id[1] if len(entry.id) == 2 else None
                 pe = POEntry(msgctxt=context, msgid=entry.id[0])
                 msg = entry.value
-- 
2.43.0


From 418d4694ff9fa22ff902630240951779103d308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:01 +0000
Subject: [PATCH 068/167] fix: ignore empty standalone comments in .properties
 files

---
 python/moz/l10n/formats/properties/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 0f21638..8f9c4e2 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -133,7 +133,9 @@ def properties_parse(
                     comment_linepos = LinePos(line, line, line, line + 1)
             elif comment:
                 # empty line or EOF after a comment
-                if entries or resource.comment:
+                if not comment.strip():
+                    pass
+                elif entries or resource.comment:
                     entries.append(Comment(comment=comment, linepos=comment_linepos))
                 else:
                     resource.comment = comment
-- 
2.43.0


From fb02d6fdb4f3b0dfbf4625f69e4e2d153ab84495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 069/167] fix: keep partially translated Xcode plural
 substitutions

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 18 +++++++++++++++++-
 python/moz/l10n/formats/xliff/serialize.py   |  7 ++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index e75e988..c81381d 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -137,7 +137,10 @@ def parse_xliff_xcstrings(
             msg = SelectMessage(
                 declarations=sub_vars,
                 selectors=tuple(VariableRef(name) for name in sub_vars),
-                variants={keys: deepcopy(sub_pattern) for keys in var_keys},
+                variants={
+                    keys: deepcopy(sub_pattern or list(sub_vars.values()))
+                    for keys in var_keys
+                },
             )
             entry = Entry((msg_id,), msg, meta=meta[:])
 
@@ -183,6 +186,19 @@ def parse_xliff_xcstrings(
                             and el.attributes.get("substitution", None) == sub_idx
                         )
                         pattern[sub_ph_idx : sub_ph_idx + 1] = var_pattern
+            untranslated = [
+                pattern
+                for pattern in msg.variants.values()
+                if any(
+                    isinstance(el, Expression)
+                    and el.function == "substitution"
+                    and el.arg in msg.selectors
+                    for el in pattern
+                )
+            ]
+            if not sub_pattern or len(untranslated) < len(msg.variants):
+                for pattern in untranslated:
+                    pattern.clear()
             for pattern in msg.variants.values():
                 pattern_: Pattern = []
                 last = None
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 3ec3575..7070720 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -369,8 +369,13 @@ def add_xcstrings_selectmessage(
                 base_meta.append(m)
         unit = etree.SubElement(parent, "trans-unit", {"id": msg_id})
         pattern: Pattern = [sel] if "source" in sel.attributes else []
+        variants = msg.variants
+        if all(sel in pattern for pattern in variants.values()):
+            # None of the variants have been translated
+            pattern = next(iter(variants.values()))
+            variants = {keys: [] for keys in variants}
         add_unit(unit, "", base_meta, pattern, source_entries, trim_comments)
-        for keys, pattern in msg.variants.items():
+        for keys, pattern in variants.items():
             key = str(keys[0]) or "other"
             id = f"{msg_id}|==|substitutions.{sub_name}.plural.{key}"
             unit = etree.SubElement(parent, "trans-unit", {"id": id})
-- 
2.43.0


From 57e33eeb51fd4b538efa2c3588c17d684c2f1608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:28 +0000
Subject: [PATCH 070/167] fix: keep gettext references with an empty line
 number

---
 python/moz/l10n/formats/gettext/serialize.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 83d6c29..2156abd 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -134,10 +134,7 @@ def gettext_serialize(
                             cs = (m.value).lstrip("\n").rstrip()
                             pe.tcomment = f"{pe.tcomment}\n{cs}" if pe.tcomment else cs
                         elif m.key == "reference":
-                            pos = m.value.split(":", 1)
-                            pe.occurrences.append(
-                                (pos[0], pos[1]) if len(pos) == 2 else (m.value, "")
-                            )
+                            pe.occurrences.append((m.value, ""))
                         elif m.key == "previous-context":
                             pe.previous_msgctxt = m.value
                         elif m.key == "previous-id":
-- 
2.43.0


From 7ca7f758f529e70245f00ce9c033c686415a260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 071/167] fix: ignore empty entry comments in .properties files

---
 python/moz/l10n/formats/properties/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 8f9c4e2..0eb572a 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -114,7 +114,7 @@ def properties_parse(
                 entry = Entry(
                     id=(value,),
                     value=PatternMessage([]),
-                    comment=comment,
+                    comment=comment if comment.strip() else "",
                     linepos=LinePos(start_line or line, line, line, line + 1),
                 )
                 prev_linepos = entry.linepos
-- 
2.43.0


From 8d8a5129c6ae631cfeb7ac64ce794de966ccea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 072/167] fix: keep DTD comments with entities apart from the
 entry before them

---
 python/moz/l10n/formats/dtd/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index df3f2a9..0b38b5b 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -106,14 +106,14 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         nc = match.group(1).strip().replace("\r\n", "\n")
         comment = f"{comment}\n{nc}" if comment else nc
         if comment:
-            if not at_newline and has_prev_entries:
+            if re_entity.search(comment):
+                entries.append(Comment(comment))
+                comment = ""
+            elif not at_newline and has_prev_entries:
                 prev = entries[-1]
                 pc = prev.comment
                 prev.comment = f"{pc}\n{comment}" if pc else comment
                 comment = ""
-            if re_entity.search(comment):
-                entries.append(Comment(comment))
-                comment = ""
         pos = match.end(0)
     if len(source) > pos:
         for entry in dtd_iter(source, pos):
-- 
2.43.0


From 13387bc6c15882c0c2d7ac83b8aabf1153128e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 073/167] fix: leave out empty lines around .properties
 comments

---
 python/moz/l10n/formats/properties/serialize.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index c1d90df..2da8070 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -90,15 +90,16 @@ def properties_serialize(
             return
         if meta:
             raise ValueError("Metadata is not supported")
+        lines = [line.rstrip() for line in comment.split("\n")]
+        comment = "\n".join(lines).strip("\n")
         if comment:
             if standalone and not at_empty_line:
                 yield "\n"
-            for line in comment.strip("\n").split("\n"):
-                if not line or line.isspace():
+            for line in comment.split("\n"):
+                if not line:
                     yield "#\n"
                 else:
-                    line = line.rstrip() + "\n"
-                    yield f"#{line}" if line.startswith("#") else f"# {line}"
+                    yield f"#{line}\n" if line.startswith("#") else f"# {line}\n"
             if standalone:
                 yield "\n"
                 at_empty_line = True
-- 
2.43.0


From 5a5548bf88328b5f2842cca7392d5beeb25e8011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:02 +0000
Subject: [PATCH 074/167] fix: read a comment that is all of a DTD file in the
 same way with and without an empty line after it

---
 python/moz/l10n/formats/dtd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index 0b38b5b..75f7f13 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -128,7 +128,7 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
                     comment = ""
                 entries.append(entry)
     if comment:
-        entries.append(Comment(comment))
+        add_standalone_comment(comment)
     return resource
 
 
-- 
2.43.0


From 536371b25dd7164102d2969dc8c2f51251268659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:49 +0000
Subject: [PATCH 075/167] fix: accept comments among Xcode plurals in XLIFF
 files

---
 python/moz/l10n/formats/xliff/parse.py       | 5 +++++
 python/moz/l10n/formats/xliff/parse_xcode.py | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index a9ef48c..aad4e1f 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -136,12 +136,17 @@ def xliff_parse(
 
             is_xcode = xcode_tool_id in meta
             if is_xcode:
+                body_comments = [
+                    Comment(comment_str(c.text)) for c in body.iterchildren(etree.Comment)
+                ]
                 if file_name.endswith(".stringsdict"):
                     plural_entries = parse_xliff_stringsdict(ns, body, source_entries)
                     if plural_entries:
+                        entries += body_comments
                         entries += plural_entries
                         continue
                 elif file_name.endswith(".xcstrings"):
+                    entries += body_comments
                     entries += parse_xliff_xcstrings(ns, body, source_entries)
                     continue
 
diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index c81381d..f8ef71f 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -75,7 +75,7 @@ def parse_xliff_xcstrings(
     ns: str, body: etree._Element, from_source: bool
 ) -> Iterator[Entry[Message]]:
     units: dict[str, XcstringsMsgData] = defaultdict(XcstringsMsgData)
-    for unit in body:
+    for unit in body.iterchildren(etree.Element):
         if unit.tag != f"{ns}trans-unit":
             raise ValueError(f"Unsupported <{unit.tag!s}> element in <body>: {body}")
         if "id" not in unit.attrib:
@@ -377,7 +377,7 @@ def parse_xliff_stringsdict(
     ns: str, body: etree._Element, from_source: bool
 ) -> list[Entry[SelectMessage]] | None:
     plurals: dict[str, StringsdictPlural] = {}
-    for unit in body:
+    for unit in body.iterchildren(etree.Element):
         if unit.tag != f"{ns}trans-unit":
             return None
         if unit.text and not unit.text.isspace():
-- 
2.43.0


From f4f1c693c2bd77a4d7eecbff687280508684b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:50 +0000
Subject: [PATCH 076/167] fix: write gettext header comments that start with :
 or , as comments

---
 python/moz/l10n/formats/gettext/serialize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 2156abd..72cf575 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -47,13 +47,15 @@ def gettext_serialize(
     """
 
     pf = POFile(wrapwidth=wrapwidth)
+    header = ""
     if not trim_comments and resource.comment and not resource.comment.isspace():
-        pf.header = resource.comment.rstrip() + "\n"
+        for line in resource.comment.rstrip().split("\n"):
+            header += f"# {line}\n" if line else "#\n"
     for m in resource.meta:
         if m.key in pf.metadata:
             raise ValueError(f"Duplicate metadata key: {m.key}")
         pf.metadata[m.key] = m.value
-    yield str(pf)
+    yield header + str(pf)
 
     nplurals = 1
     plural_forms = pf.metadata.get("Plural-Forms", None)
-- 
2.43.0


From f25db82cd67289fcc9b56a3ec2bb4402a233b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 077/167] fix: leave out XLIFF section comments with
 trim_comments

---
 python/moz/l10n/formats/xliff/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 7070720..75b1ac4 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -109,7 +109,7 @@ def xliff_serialize(
                 assign_metadata(parent, section.meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
-        if section.comment:
+        if section.comment and not trim_comments:
             comment = etree.Comment(comment_body(section.comment, indent))
             section_el = parent if len(section.id) > 1 else parent.getparent()
             cast(etree._Element, section_el).addprevious(comment)
@@ -256,7 +256,7 @@ def add_xliff_stringsdict_plural(
     source_entries: bool,
     trim_comments: bool,
 ) -> None:
-    if entry.comment:
+    if entry.comment and not trim_comments:
         raise ValueError(f"Unsupported comment on SelectMessage: {entry.comment}")
     msg = entry.value
     if len(msg.selectors) != 1:
-- 
2.43.0


From 5783017dd31a709bbb7e1a44f7bf6a6eff603aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:25 +0000
Subject: [PATCH 078/167] fix: do not share attributes between messages and
 their JSON representations

---
 python/moz/l10n/message/from_json.py | 4 ++--
 python/moz/l10n/message/to_json.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index 5bc7646..909cdb6 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -116,7 +116,7 @@ def _expression(json: dict[str, Any]) -> Expression:
         arg = None
     function = json.get("fn", None)
     options = _options(json["opt"]) if function is not None and "opt" in json else {}
-    return Expression(arg, function, options, json.get("attr", {}))
+    return Expression(arg, function, options, dict(json.get("attr", {})))
 
 
 def _markup(json: dict[str, Any]) -> Markup:
@@ -134,7 +134,7 @@ def _markup(json: dict[str, Any]) -> Markup:
         kind,
         name,
         _options(json.get("opt", {})),
-        json.get("attr", {}),
+        dict(json.get("attr", {})),
     )
 
 
diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index bbef8fe..23a04f6 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -111,7 +111,7 @@ def _expression(expr: Expression) -> dict[str, Any]:
         if expr.options:
             json["opt"] = _options(expr.options)
     if expr.attributes:
-        json["attr"] = expr.attributes
+        json["attr"] = dict(expr.attributes)
     return json
 
 
@@ -122,7 +122,7 @@ def _markup(markup: Markup) -> dict[str, Any]:
     if markup.options:
         json["opt"] = _options(markup.options)
     if markup.attributes:
-        json["attr"] = markup.attributes
+        json["attr"] = dict(markup.attributes)
     return json
 
 
-- 
2.43.0


From 1791d92cf4644c00c72b09de8e742951751a8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:06 +0000
Subject: [PATCH 079/167] fix: parse Xcode placeholders with q, z, t or j
 lengths and large indices

---
 js/src/xliff-parse.ts                        | 4 ++--
 python/moz/l10n/formats/xliff/parse_xcode.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/js/src/xliff-parse.ts b/js/src/xliff-parse.ts
index a4ef3c2..e871a94 100644
--- a/js/src/xliff-parse.ts
+++ b/js/src/xliff-parse.ts
@@ -35,7 +35,7 @@ export function xliffParsePattern(
 
 // # https://developer.apple.com/library/archive/documentation/Cocoa/Conceptual/Strings/Articles/formatSpecifiers.html
 const printf =
-  /%([1-9]\$)?[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|qztj)[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX])/g
+  /%([1-9][0-9]*\$)?[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|[qztj])[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX])/g
 
 function* parseElement(
   el: Element,
@@ -55,7 +55,7 @@ function* parseElement(
         pos = m.index + ms.length
         const attr = Object.create(null)
         attr.source = ms
-        const n = m[1]?.[0] ?? ''
+        const n = m[1]?.slice(0, -1) ?? ''
         switch (ms.at(-1)) {
           case '%':
             yield { _: '%', attr }
diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index f8ef71f..dd873c4 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -66,9 +66,9 @@ plural_categories = ("zero", "one", "two", "few", "many", "other")
 variant_key = compile(r"%#@([a-zA-Z_]\w*)@")
 # https://developer.apple.com/library/archive/documentation/Cocoa/Conceptual/Strings/Articles/formatSpecifiers.html
 printf = compile(
-    r"%([1-9]\$)?(?:#@([a-zA-Z_]\w*)@|[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|qztj)[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX]))"
+    r"%([1-9][0-9]*\$)?(?:#@([a-zA-Z_]\w*)@|[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|[qztj])[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX]))"
 )
-not_first_placeholder = compile(r"%[2-9]\$")
+not_first_placeholder = compile(r"%(?:[2-9]|[1-9][0-9]+)\$")
 
 
 def parse_xliff_xcstrings(
@@ -534,7 +534,7 @@ def parse_xcode_pattern(src: str | None) -> Iterator[str | Expression]:
         source = m[0]
         attributes: dict[str, str | Literal[True]] = {"source": source}
         if m[2]:
-            attributes["substitution"] = m[1][0] if m[1] else True
+            attributes["substitution"] = m[1][:-1] if m[1] else True
             yield Expression(VariableRef(m[2]), "substitution", attributes=attributes)
         else:
             format = source[-1]
@@ -557,7 +557,7 @@ def parse_xcode_pattern(src: str | None) -> Iterator[str | Expression]:
                     name = "arg"
                     func = None
                 if m[1]:
-                    attributes["index"] = index = m[1][0]
+                    attributes["index"] = index = m[1][:-1]
                     name += index
                 yield Expression(VariableRef(name), func, attributes=attributes)
         pos = m.end()
-- 
2.43.0


From c8fbec961da9bbc9065a0fb733d0b628a9a7b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 080/167] fix: parse printf placeholders with indices of 10 or
 more

---
 python/moz/l10n/util/printf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/util/printf.py b/python/moz/l10n/util/printf.py
index ad83c43..b2a215f 100644
--- a/python/moz/l10n/util/printf.py
+++ b/python/moz/l10n/util/printf.py
@@ -21,7 +21,7 @@ from ..model import Expression, VariableRef
 
 printf = compile(
     #     1:argnum    2:python-name                  3:java-datetime                       4:type
-    r"%(?:([1-9])\$|\(([\w.]+)\))?[-#+ 0,]?[0-9.]*(?:([Tt][A-Za-z]+)|(?:(?:hh?|ll?|[Lzjq])?([@%A-Za-z])))"
+    r"%(?:([1-9][0-9]*)\$|\(([\w.]+)\))?[-#+ 0,]?[0-9.]*(?:([Tt][A-Za-z]+)|(?:(?:hh?|ll?|[Lzjq])?([@%A-Za-z])))"
 )
 
 
-- 
2.43.0


From 5300e7ddf4133a9651e320320372eca167b671a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 081/167] fix: keep leading no-break spaces and tabs when
 parsing a Fluent message

---
 python/moz/l10n/formats/fluent/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 2d5e43b..75169c3 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -168,7 +168,7 @@ def fluent_parse_message(source: str) -> Message:
 
     Leading and trailing whitespace is stripped.
     """
-    source = source.lstrip().replace("\n", "\n ")
+    source = source.lstrip(" \r\n").replace("\n", "\n ")
     parser = FluentParser(with_spans=False)
     ps = FluentParserStream(source)
     try:
-- 
2.43.0


From 580d55582377ebcb05bb88c2ff154ce3e1412944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 082/167] fix: update each section at most once when adding
 entries from source

---
 python/moz/l10n/resource/add_entries.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/resource/add_entries.py b/python/moz/l10n/resource/add_entries.py
index b083d33..4ade6e1 100644
--- a/python/moz/l10n/resource/add_entries.py
+++ b/python/moz/l10n/resource/add_entries.py
@@ -39,6 +39,19 @@ def add_entries(
     """
 
     change_count = 0
+    updated: list[Section[Any]] = []
+
+    def update_section(tgt: Section[Any], src: Section[Any]) -> int:
+        # If multiple source sections match a target section, the first one is used.
+        if not use_source_entries or any(tgt is s for s in updated):
+            return 0
+        updated.append(tgt)
+        if tgt.comment == src.comment and tgt.meta == src.meta:
+            return 0
+        tgt.comment = src.comment
+        tgt.meta = src.meta
+        return 1
+
     cur_tgt_section: Section[Any] | None = None
     for src_section in source.sections:
         tgt_match = [s for s in target.sections if s.id == src_section.id]
@@ -56,17 +69,13 @@ def add_entries(
                     None,
                 )
                 sc = src_section.comment
-                sm = src_section.meta
                 if target_pos:
                     cur_tgt_section, idx = target_pos
                     if use_source_entries:
                         if cur_tgt_section.entries[idx] != entry:
                             cur_tgt_section.entries[idx] = entry
                             change_count += 1
-                        if cur_tgt_section.comment != sc or cur_tgt_section.meta != sm:
-                            cur_tgt_section.comment = sc
-                            cur_tgt_section.meta = sm
-                            change_count += 1
+                    change_count += update_section(cur_tgt_section, src_section)
                     prev_pos = target_pos
                 else:
                     # Entry has no section-id + entry-id match in target,
@@ -77,6 +86,7 @@ def add_entries(
                         # exactly matching this one, so we can add an entry there.
                         idx = prev_pos[1] + 1
                         prev_pos[0].entries.insert(idx, entry)
+                        change_count += update_section(prev_pos[0], src_section)
                         prev_pos = (prev_pos[0], idx)
                     else:
                         ts = next((s for s in tgt_match if s.comment == sc), None)
@@ -84,6 +94,7 @@ def add_entries(
                             # An exactly matching section exists in target,
                             # so add this entry there.
                             ts.entries.append(entry)
+                            change_count += update_section(ts, src_section)
                             prev_pos = (ts, len(ts.entries) - 1)
                         else:
                             # A new section needs to be added for this entry.
@@ -93,4 +104,5 @@ def add_entries(
             idx = target.sections.index(cur_tgt_section) + 1 if cur_tgt_section else 0
             cur_tgt_section = replace(src_section, entries=new_entries)
             target.sections.insert(idx, cur_tgt_section)
+            updated.append(cur_tgt_section)
     return change_count
-- 
2.43.0


From 5c97d8063cd4c61adb33996d84af32f2caa2bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 083/167] fix: ignore the order of sections with the same id
 when comparing resources

---
 python/moz/l10n/resource/l10n_equal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/resource/l10n_equal.py b/python/moz/l10n/resource/l10n_equal.py
index 0a57878..1fd49a2 100644
--- a/python/moz/l10n/resource/l10n_equal.py
+++ b/python/moz/l10n/resource/l10n_equal.py
@@ -42,7 +42,7 @@ def l10n_sections(resource: Resource[Any]) -> list[tuple[Any, ...]]:
         for section in resource.sections
         if any(isinstance(entry, Entry) for entry in section.entries)
     ]
-    ls.sort(key=lambda s: s[0])
+    ls.sort(key=lambda s: (s[0], s[1], bool(s[2]), [e[0] for e in s[3]]))
     nonempty_idx = next(
         (idx for idx, (id, comment, meta, _) in enumerate(ls) if id or comment or meta),
         len(ls),
-- 
2.43.0


From 090a9ef24b3b94f5b2daf5047e5f6d9542a9b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 084/167] fix: reject malformed b+ Android locale qualifiers

---
 python/moz/l10n/paths/android_locale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/paths/android_locale.py b/python/moz/l10n/paths/android_locale.py
index dcf8ebf..6e2c92a 100644
--- a/python/moz/l10n/paths/android_locale.py
+++ b/python/moz/l10n/paths/android_locale.py
@@ -48,6 +48,8 @@ def parse_android_locale(alocale: str) -> str | None:
         `iw` -> `he`, `en-rGB` -> `en-GB`, `b+sr+Latn` -> `sr-Latn`
     """
     if alocale.startswith("b+"):
+        if not fullmatch(r"b\+[A-Za-z]{2,8}(?:\+[A-Za-z0-9]{1,8})*", alocale):
+            return None  # Not a valid BCP-47 based qualifier
         lc, *rest = alocale[2:].split("+")
     else:
         m = fullmatch(r"([a-z]{2,3})(?:-r([A-Z]{2}))?", alocale)
-- 
2.43.0


From 5d1edd5c2b9af8b4cf9edb49d89010677793f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 085/167] fix: do not fail in format detection on undecodable
 contents

---
 python/moz/l10n/formats/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index f122e48..97cb698 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -16,7 +16,6 @@ from __future__ import annotations
 
 from enum import Enum
 from io import BytesIO
-from json import JSONDecodeError
 from os.path import splitext
 from typing import Any
 
@@ -115,7 +114,8 @@ def detect_format(name: str | None, source: bytes | str | None = None) -> Format
     if ext != ".xml":
         try:
             json, valid_json = json_linecomment_loads(source)
-        except JSONDecodeError:
+        except (ValueError, RecursionError):
+            # Not JSON, or not text, or not parseable within runtime limits
             json, valid_json = None, False
         if is_object_of_strings(json):
             assert isinstance(json, dict)
-- 
2.43.0


From 5965cd21004248585b79fff6cfde58569570e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:28 +0000
Subject: [PATCH 086/167] fix: ignore the declared encoding when parsing XML
 from a string

---
 python/moz/l10n/formats/__init__.py      | 10 ++++++++--
 python/moz/l10n/formats/android/parse.py |  4 +++-
 python/moz/l10n/formats/xliff/parse.py   |  6 +++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index 97cb698..cb99450 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -130,8 +130,14 @@ def detect_format(name: str | None, source: bytes | str | None = None) -> Format
     try:
         from lxml.etree import LxmlError, iterparse
 
-        bs = source.encode() if isinstance(source, str) else source
-        _, xml_root = next(iterparse(BytesIO(bs), events=("start",)))
+        if isinstance(source, str):
+            # An XML declaration may claim some other encoding
+            bs, encoding = source.encode(), "utf-8"
+        else:
+            bs, encoding = source, None
+        _, xml_root = next(
+            iterparse(BytesIO(bs), events=("start",), encoding=encoding)
+        )
         ns = xml_root.nsmap.get(None, None)
         if ns:
             return Format.xliff if ns in xliff_ns else None
diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 918e0cd..6dd67c1 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -101,7 +101,9 @@ def android_parse(
     Spans including elements will be wrapped with open/close markup
     with a similar attribute.
     """
-    parser = etree.XMLParser(resolve_entities=False)
+    # The encoding of an XML declaration does not apply to a string source.
+    encoding = "utf-8" if isinstance(source, str) else None
+    parser = etree.XMLParser(resolve_entities=False, encoding=encoding)
     root = etree.fromstring(
         source.encode() if isinstance(source, str) else source, parser
     )
diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index aad4e1f..d679b6f 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -67,7 +67,11 @@ def xliff_parse(
     NOTE: At most one substitution is supported,
     and combinations of selectors (such as device + plural) are not supported.
     """
-    root = etree.fromstring(source.encode() if isinstance(source, str) else source)
+    if isinstance(source, str):
+        # The encoding of an XML declaration does not apply to a string source.
+        root = etree.fromstring(source.encode(), etree.XMLParser(encoding="utf-8"))
+    else:
+        root = etree.fromstring(source)
     version = root.attrib.get("version", None)
     if version not in ("1.0", "1.1", "1.2"):
         raise ValueError(f"Unsupported <xliff> version: {version}")
-- 
2.43.0


From 49615c255fe99725ae1bd1a46df39e4beea2f185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 087/167] fix: respect the charset of gettext bytes as for
 files

---
 python/moz/l10n/formats/gettext/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 23972ab..1872d0e 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Sequence
 
-from polib import pofile
+from polib import detect_encoding, pofile
 
 from ...model import (
     CatchallKey,
@@ -62,7 +62,10 @@ def gettext_parse(
     - `plural`
     - `previous-context`, `previous-id`, `previous-plural`
     """
-    pf = pofile(source if isinstance(source, str) else str(source, "utf8"))
+    if not isinstance(source, str):
+        # As when parsing a file, respect the charset of the header.
+        source = str(source, detect_encoding(source))
+    pf = pofile(source)
     res_comment = pf.header.lstrip("\n").rstrip()
     res_meta: list[Metadata] = [
         Metadata(key, value.strip()) for key, value in pf.metadata.items()
-- 
2.43.0


From 9dd013477141bb139d12574c85678074f35f205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 088/167] fix: skip the byte order mark of an ignore file

---
 python/moz/l10n/util/walk_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/util/walk_files.py b/python/moz/l10n/util/walk_files.py
index 39d6fac..046bf2c 100644
--- a/python/moz/l10n/util/walk_files.py
+++ b/python/moz/l10n/util/walk_files.py
@@ -39,7 +39,7 @@ def walk_files(
     ignore = [Rule(negative=False, content=".*")]
     if ignorepath:
         try:
-            with open(join(root, ignorepath), encoding="utf-8") as file:
+            with open(join(root, ignorepath), encoding="utf-8-sig") as file:
                 ignore += parse_gitignore_file(file)
         except OSError:
             pass
-- 
2.43.0


From da0f3eb08e470c78e57db1c2ebaf79af1453bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 089/167] fix: anchor ignore patterns with a slash in the
 middle for files as well

---
 python/moz/l10n/util/walk_files.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/util/walk_files.py b/python/moz/l10n/util/walk_files.py
index 046bf2c..2a4450e 100644
--- a/python/moz/l10n/util/walk_files.py
+++ b/python/moz/l10n/util/walk_files.py
@@ -40,7 +40,11 @@ def walk_files(
     if ignorepath:
         try:
             with open(join(root, ignorepath), encoding="utf-8-sig") as file:
-                ignore += parse_gitignore_file(file)
+                for rule in parse_gitignore_file(file):
+                    if "/" in rule.content[1:-1] and not rule.content.startswith("/"):
+                        # gitignorant only anchors such patterns for directories
+                        rule.content = "/" + rule.content
+                    ignore.append(rule)
         except OSError:
             pass
     for dir in (join(root, p) for p in dirs) if dirs else (root,):
-- 
2.43.0


From 623d98e33e30ab50c4b3b343d7b1953aa117c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 090/167] fix: match special characters literally in config
 paths

---
 python/moz/l10n/paths/config.py | 40 ++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d639850..36b1038 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -20,7 +20,7 @@ from collections.abc import Callable, Iterator
 from glob import glob
 from os import sep
 from os.path import dirname, isfile, join, normpath, relpath
-from re import Pattern, compile
+from re import Pattern, compile, escape, sub
 from typing import Any, cast
 
 from .android_locale import get_android_locale
@@ -31,7 +31,7 @@ else:
     from tomli import load
 
 path_stars = compile(r"[*](?:[*](?:[/\\][*]*)?)?")
-path_var = compile(r"{(\w+)}")
+path_parts = compile(rf"({path_stars.pattern})|{{(\w+)}}")
 
 _DEFAULT_LOCALE_MAP: dict[str, Callable[[str], str]] = {
     "locale": lambda locale: locale,
@@ -56,14 +56,27 @@ def path_regex(path: str) -> Pattern[str]:
     """
     if path.startswith("{l10n_base}/"):
         path = path[12:]
-    path = path_stars.sub(
-        lambda m: (
-            "([^/]*)" if m[0] == "*" else "((?:.*/)?)" if m[0] == "**/" else "(.*)"
-        ),
-        path,
-    )
-    path = path_var.sub(r"(?P<\1>[^/]*)", path)
-    return compile(path)
+    src = ""
+    pos = 0
+    vars: set[str] = set()
+    for m in path_parts.finditer(path):
+        src += escape(path[pos : m.start()])
+        pos = m.end()
+        stars, var = m.groups()
+        if stars:
+            src += (
+                "([^/]*)"
+                if stars == "*"
+                else "((?:.*/)?)"
+                if stars == "**/"
+                else "(.*)"
+            )
+        elif var in vars:
+            src += f"(?P={var})"
+        else:
+            vars.add(var)
+            src += f"(?P<{var}>[^/]*)"
+    return compile(src + escape(path[pos:]))
 
 
 class PartialMap(dict[str, str]):
@@ -154,9 +167,7 @@ class L10nConfigPaths:
                     raise ValueError(
                         f"Wildcard mismatch between reference & l10n: {path}"
                     )
-                ref_re = compile(
-                    path_stars.sub("(.*)", ref.replace(sep, "/").replace(".", r"\."))
-                )
+                ref_re = path_regex(ref.replace(sep, "/"))
                 *tgt_parts, tgt_end = path_stars.split(target)
 
                 def get_target(ref_file: str) -> str:
@@ -166,11 +177,10 @@ class L10nConfigPaths:
                         "".join(a + b for a, b in zip(tgt_parts, m.groups())) + tgt_end
                     )
 
-                for ref_file in glob(ref, recursive=True):
+                for ref_file in glob(sub(r"[?[]", r"[\g<0>]", ref), recursive=True):
                     if isfile(ref_file):
                         self._path_data[ref_file][get_target(ref_file)] = locales
                 if fp:
-                    ref_re = path_regex(ref.replace(sep, "/"))
                     fp_match = {
                         path for path in fp if ref_re.fullmatch(path.replace(sep, "/"))
                     }
-- 
2.43.0


From c3601a884254133d3d21d57696e81c85978489e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 091/167] fix: do not load a config again when an included one
 includes it

---
 python/moz/l10n/paths/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 36b1038..3c09b34 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -194,7 +194,7 @@ class L10nConfigPaths:
         self._includes: list[L10nConfigPaths] = []
         if "includes" in toml:
             if _seen is None:
-                _seen = set()
+                _seen = {normpath(cfg_path)}
             for incl in toml["includes"]:
                 incl_path: str = incl["path"]
                 if env_map:
-- 
2.43.0


From 16a781b51c6f17f74a563eab76e30a1405d343c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 092/167] fix: apply force_paths to every matching path of a
 config and its includes

---
 python/moz/l10n/paths/config.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 3c09b34..7ecbb68 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -153,7 +153,6 @@ class L10nConfigPaths:
 
         self._path_data: dict[str, dict[str, list[str] | None]] = defaultdict(dict)
         """ ref -> target -> locales """
-        fp = set(force_paths) if force_paths else None
         for path in toml.get("paths", []):
             assert isinstance(path, dict)
             ref: str = normpath(join(self._ref_root, path["reference"]))
@@ -180,14 +179,9 @@ class L10nConfigPaths:
                 for ref_file in glob(sub(r"[?[]", r"[\g<0>]", ref), recursive=True):
                     if isfile(ref_file):
                         self._path_data[ref_file][get_target(ref_file)] = locales
-                if fp:
-                    fp_match = {
-                        path for path in fp if ref_re.fullmatch(path.replace(sep, "/"))
-                    }
-                    if fp_match:
-                        for path in fp_match:
-                            self._path_data[path][get_target(path)] = locales
-                        fp -= fp_match
+                for fp in force_paths or ():
+                    if ref_re.fullmatch(fp.replace(sep, "/")):
+                        self._path_data[fp][get_target(fp)] = locales
             else:
                 self._path_data[ref][target] = locales
 
@@ -206,6 +200,7 @@ class L10nConfigPaths:
                         L10nConfigPaths(
                             incl_path,
                             cfg_load=cfg_load,
+                            force_paths=force_paths,
                             locale_map=locale_map,
                             _seen=_seen,
                         )
-- 
2.43.0


From 0828e7f0be0afa537645060a5ee4ae1489ee05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 093/167] fix: do not repeat a relative base in target paths
 that start with {l10n_base}

---
 python/moz/l10n/paths/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 7ecbb68..8be8a9e 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -302,7 +302,7 @@ class L10nConfigPaths:
         self, format_map: dict[str, str] | None
     ) -> Iterator[tuple[tuple[str, str], list[str] | None]]:
         lc_map = PartialMap(format_map or ())
-        lc_map["l10n_base"] = self._base
+        lc_map["l10n_base"] = "."  # Joined with self._base below
         for ref, pd in self._path_data.items():
             for target, locales in pd.items():
                 target = target.format_map(lc_map)
@@ -378,7 +378,7 @@ class L10nConfigPaths:
             return None, set()
 
         fmt_map = PartialMap(format_map or ())
-        fmt_map["l10n_base"] = self._base
+        fmt_map["l10n_base"] = "."  # Joined with self._base below
         path = target.format_map(fmt_map)
         if path.endswith(".pot"):
             path = path[:-1]
-- 
2.43.0


From 4320bd563f6dbd0226f5bb09865a422bf7d08ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 094/167] fix: find the targets of all listed reference paths
 of a config

---
 python/moz/l10n/paths/config.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 8be8a9e..52271c5 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -335,10 +335,12 @@ class L10nConfigPaths:
         """
         if locale is not None and self._locales and locale not in self._locales:
             return None, set()
-        norm_ref_path = normpath(join(self._ref_root, ref_path))
-        if norm_ref_path.endswith(".po"):
-            norm_ref_path += "t"
+        norm_ref_path = normpath(ref_path)
+        if norm_ref_path not in self._path_data:
+            norm_ref_path = normpath(join(self._ref_root, ref_path))
         pd = self._path_data.get(norm_ref_path, None)
+        if pd is None and norm_ref_path.endswith(".po"):
+            pd = self._path_data.get(norm_ref_path + "t", None)
         target = None
         locales = None
         if pd:
@@ -371,7 +373,9 @@ class L10nConfigPaths:
         if target is None or locales is None:
             for incl in self._includes:
                 target_ = incl.target(
-                    norm_ref_path, format_map=format_map, locale=locale
+                    relpath(norm_ref_path, incl._ref_root),
+                    format_map=format_map,
+                    locale=locale,
                 )
                 if target_[0] is not None:
                     return target_
@@ -427,7 +431,7 @@ class L10nConfigPaths:
                     if pot_path in self._path_data:
                         return pot_path, vars
         for incl in self._includes:
-            res = incl.find_reference(abs_target)
+            res = incl.find_reference(relpath(abs_target, incl._base))
             if res is not None:
                 return res
         return None
-- 
2.43.0


From 7f2af048611a8eb40a9798eec902c9632c4ab0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 095/167] fix: consistently use the last matching paths entry
 as the target

---
 python/moz/l10n/paths/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 52271c5..38fd6d9 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -345,7 +345,9 @@ class L10nConfigPaths:
         locales = None
         if pd:
             if locale is None:
-                target = next((tgt for tgt, lc in pd.items() if lc is None), None)
+                target = next(
+                    (tgt for tgt, lc in reversed(pd.items()) if lc is None), None
+                )
                 if target is None:
                     # Select last paths entry with at least one valid locale
                     for target, locales_ in reversed(pd.items()):
@@ -360,9 +362,9 @@ class L10nConfigPaths:
                     locales = set(self._locales or [])
             else:
                 none_tgt = None
-                for tgt, lc in pd.items():
+                for tgt, lc in reversed(pd.items()):
                     if lc is None:
-                        none_tgt = tgt
+                        none_tgt = none_tgt or tgt
                     elif locale in lc:
                         target = tgt
                         break
-- 
2.43.0


From b995e8627add095cf1afb875e25e43c4f52d9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 096/167] fix: find references of .pot and unnormalised l10n
 paths of a config

---
 python/moz/l10n/paths/config.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 38fd6d9..bea82bd 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -54,8 +54,6 @@ def path_regex(path: str) -> Pattern[str]:
     Captures * groups as indexed and {vars} as named.
     Expects `path` to use `/` as separator.
     """
-    if path.startswith("{l10n_base}/"):
-        path = path[12:]
     src = ""
     pos = 0
     vars: set[str] = set()
@@ -79,6 +77,15 @@ def path_regex(path: str) -> Pattern[str]:
     return compile(src + escape(path[pos:]))
 
 
+def _norm_target(target: str) -> str:
+    """As in the paths returned for a target, but relative to the base."""
+    if target.startswith("{l10n_base}/"):
+        target = target[12:]
+    if target.endswith(".pot"):
+        target = target[:-1]
+    return normpath(target).replace(sep, "/")
+
+
 class PartialMap(dict[str, str]):
     """Allows `str.format_map()` calls with partial values."""
 
@@ -159,7 +166,9 @@ class L10nConfigPaths:
             target: str = path["l10n"]  # Note: not normalised, so sep=="/"
             if env_map:
                 target = target.format_map(env_map)
-            self._templates.append((path_stars.sub("{}", ref), path_regex(target)))
+            self._templates.append(
+                (path_stars.sub("{}", ref), path_regex(_norm_target(target)))
+            )
             locales: list[str] | None = path.get("locales", None)
             if "*" in ref:
                 if ref.count("*") != target.count("*"):
-- 
2.43.0


From 431659077b78a8dc4a19f8c30e8e236e51964895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 097/167] fix: find the targets of reference paths of included
 configs with relative paths

---
 python/moz/l10n/paths/config.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index bea82bd..0ce42c1 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -19,7 +19,7 @@ from collections import defaultdict
 from collections.abc import Callable, Iterator
 from glob import glob
 from os import sep
-from os.path import dirname, isfile, join, normpath, relpath
+from os.path import dirname, isabs, isfile, join, normpath, relpath
 from re import Pattern, compile, escape, sub
 from typing import Any, cast
 
@@ -342,11 +342,16 @@ class L10nConfigPaths:
         Any `{locale}` or `locale_map` variables will be left in unless `locale` is set.
         Additional format variables may be set in `format_map`.
         """
-        if locale is not None and self._locales and locale not in self._locales:
-            return None, set()
         norm_ref_path = normpath(ref_path)
-        if norm_ref_path not in self._path_data:
+        if isabs(self._ref_root) or norm_ref_path not in self.ref_paths:
             norm_ref_path = normpath(join(self._ref_root, ref_path))
+        return self._target(norm_ref_path, format_map, locale)
+
+    def _target(
+        self, norm_ref_path: str, format_map: dict[str, str] | None, locale: str | None
+    ) -> tuple[str | None, set[str]]:
+        if locale is not None and self._locales and locale not in self._locales:
+            return None, set()
         pd = self._path_data.get(norm_ref_path, None)
         if pd is None and norm_ref_path.endswith(".po"):
             pd = self._path_data.get(norm_ref_path + "t", None)
@@ -383,11 +388,7 @@ class L10nConfigPaths:
 
         if target is None or locales is None:
             for incl in self._includes:
-                target_ = incl.target(
-                    relpath(norm_ref_path, incl._ref_root),
-                    format_map=format_map,
-                    locale=locale,
-                )
+                target_ = incl._target(norm_ref_path, format_map, locale)
                 if target_[0] is not None:
                     return target_
             return None, set()
-- 
2.43.0


From d63cd0187f718135e07d428158407338890db15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 098/167] fix: discover paths in the current directory, and
 with mixed relative and absolute roots

---
 python/moz/l10n/paths/discover.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d40692d..9910a75 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -18,7 +18,7 @@ import re
 from collections.abc import Iterable, Iterator
 from itertools import chain
 from os import sep, walk
-from os.path import commonpath, dirname, isdir, join, normpath, relpath, splitext
+from os.path import abspath, commonpath, dirname, isdir, join, normpath, relpath, splitext
 from typing import Literal
 
 from moz.l10n.formats import l10n_extensions
@@ -30,7 +30,8 @@ locale_id = re.compile(
 
 
 def _dir_contains(dir: str, path: str) -> bool:
-    return commonpath((dir, path)) == dir
+    dir = abspath(dir)
+    return commonpath((dir, abspath(path))) == dir
 
 
 def _locale_dirname(base: str, locale: str, locale_dir_sep: Literal["-", "_"]) -> str:
@@ -130,7 +131,7 @@ class L10nDiscoverPaths:
             locale_dirs = []
             for dir in dirnames:
                 if dir in ref_dir_scores:
-                    ref_dirs[join(dirpath, dir)] = ref_dir_scores[dir]
+                    ref_dirs[normpath(join(dirpath, dir))] = ref_dir_scores[dir]
                 elif locale_id.fullmatch(dir):
                     locale_dirs.append(dir)
             if locale_dirs:
@@ -196,6 +197,8 @@ class L10nDiscoverPaths:
             key=lambda s: len(s[1]),
             default=(None, None),
         )
+        if self.base is not None:
+            self.base = normpath(self.base)
         if locale_dirs_:
             self.locales = [dir.replace("_", "-") for dir in locale_dirs_]
             self.locales.sort()
-- 
2.43.0


From 2f5b0e0accda32defdf38b037af24ac6693ca232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 099/167] fix: find the targets of all discovered reference
 paths

---
 python/moz/l10n/paths/discover.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index 9910a75..d2b0c0f 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -18,7 +18,7 @@ import re
 from collections.abc import Iterable, Iterator
 from itertools import chain
 from os import sep, walk
-from os.path import abspath, commonpath, dirname, isdir, join, normpath, relpath, splitext
+from os.path import abspath, commonpath, dirname, isabs, isdir, join, normpath, relpath, splitext
 from typing import Literal
 
 from moz.l10n.formats import l10n_extensions
@@ -265,8 +265,10 @@ class L10nDiscoverPaths:
 
         If `locale` is not set, target path will include a `{locale}` variable.
         """
-        ref_path = normpath(join(self._ref_root, ref_path))
-        if ref_path.endswith(".po"):
+        ref_path = normpath(ref_path)
+        if isabs(self._ref_root) or ref_path not in self.ref_paths:
+            ref_path = normpath(join(self._ref_root, ref_path))
+        if ref_path.endswith(".po") and ref_path not in self.ref_paths:
             ref_path += "t"
         if ref_required and ref_path not in self.ref_paths:
             return None, ()
-- 
2.43.0


From 4fbcdef1d698ac3ac0290b2ab4917cad2a46c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 100/167] fix: do not list discovered locales or reference
 paths twice

---
 python/moz/l10n/paths/discover.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d2b0c0f..d832594 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -200,8 +200,7 @@ class L10nDiscoverPaths:
         if self.base is not None:
             self.base = normpath(self.base)
         if locale_dirs_:
-            self.locales = [dir.replace("_", "-") for dir in locale_dirs_]
-            self.locales.sort()
+            self.locales = sorted({dir.replace("_", "-") for dir in locale_dirs_})
             self.locale_dir_sep = (
                 "_"
                 if sum("_" in dir for dir in locale_dirs_)
@@ -219,7 +218,9 @@ class L10nDiscoverPaths:
         )
         if force_paths:
             self.ref_paths.extend(
-                path for path in force_paths if _dir_contains(self._ref_root, path)
+                path
+                for path in force_paths
+                if _dir_contains(self._ref_root, path) and path not in self.ref_paths
             )
 
     @property
-- 
2.43.0


From 168fd6a6ad15addf8be67e3ed7e420c9c2ecf943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 101/167] fix: Discover reference files in the current
 directory, and forced paths given in another form

---
 python/moz/l10n/paths/discover.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d832594..29dcd62 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -212,16 +212,20 @@ class L10nDiscoverPaths:
             self.locale_dir_sep = "-"
 
         self.ref_paths = (
-            list(walk_files(self._ref_root, ignorepath=ignorepath))
+            [
+                normpath(path)
+                for path in walk_files(self._ref_root, ignorepath=ignorepath)
+            ]
             if isdir(self._ref_root)
             else []
         )
         if force_paths:
-            self.ref_paths.extend(
-                path
-                for path in force_paths
-                if _dir_contains(self._ref_root, path) and path not in self.ref_paths
-            )
+            for path in force_paths:
+                if _dir_contains(self._ref_root, path):
+                    rel = relpath(path, self._ref_root)
+                    path = normpath(join(self._ref_root, rel))
+                    if path not in self.ref_paths:
+                        self.ref_paths.append(path)
 
     @property
     def all_locales(self) -> set[str]:
@@ -250,7 +254,7 @@ class L10nDiscoverPaths:
         locale_root = join(self._base(), "{locale}")
         paths: dict[tuple[str, str], list[str] | None] = {}
         for ref_path in self.ref_paths:
-            target = ref_path.replace(self._ref_root, locale_root, 1)
+            target = join(locale_root, relpath(ref_path, self._ref_root))
             if target.endswith(".pot"):
                 target = target[:-1]
             paths[(ref_path, target)] = self.locales
@@ -274,7 +278,7 @@ class L10nDiscoverPaths:
         if ref_required and ref_path not in self.ref_paths:
             return None, ()
         locale_root = join(self._base(), "{locale}")
-        target = ref_path.replace(self._ref_root, locale_root, 1)
+        target = join(locale_root, relpath(ref_path, self._ref_root))
         if target.endswith(".pot"):
             target = target[:-1]
         if locale is None:
@@ -297,7 +301,7 @@ class L10nDiscoverPaths:
         base = self._base()
         locale, *path_parts = normpath(relpath(join(base, target), base)).split(sep)
         if path_parts and locale_id.fullmatch(locale):
-            ref_path = join(self._ref_root, *path_parts)
+            ref_path = normpath(join(self._ref_root, *path_parts))
             vars = {"locale": locale.replace("_", "-")}
             if ref_path in self.ref_paths:
                 return ref_path, vars
-- 
2.43.0


From e0ecfa4cccda71775069d8b9dfb373e264a9a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 102/167] fix: Do not include obsolete gettext entries in
 builds

---
 python/moz/l10n/bin/build.py      | 4 ++--
 python/moz/l10n/bin/build_file.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 8e76184..6dc5cb0 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -104,7 +104,7 @@ def cli(
     for (source_path, l10n_path_template), path_locales in paths.all().items():
         log.debug(f"source {source_path}")
         try:
-            source = parse_resource(source_path)
+            source = parse_resource(source_path, gettext_skip_obsolete=True)
         except UnsupportedFormat:
             source = None
         for locale in locales.intersection(path_locales) if path_locales else locales:
@@ -160,7 +160,7 @@ def write_target_file(
     tgt_path: str,
 ) -> tuple[int, int, list[str | list[str]]]:
     if exists(l10n_path):
-        l10n_res = parse_resource(l10n_path)
+        l10n_res = parse_resource(l10n_path, gettext_skip_obsolete=True)
         l10n_map: dict[tuple[str, ...], Any] = {
             section.id + entry.id: entry
             for section in l10n_res.sections
diff --git a/python/moz/l10n/bin/build_file.py b/python/moz/l10n/bin/build_file.py
index 48601f9..77cdde3 100644
--- a/python/moz/l10n/bin/build_file.py
+++ b/python/moz/l10n/bin/build_file.py
@@ -61,7 +61,7 @@ def cli(
 
     try:
         try:
-            source_res = parse_resource(source)
+            source_res = parse_resource(source, gettext_skip_obsolete=True)
         except UnsupportedFormat:
             source_res = None
         makedirs(dirname(target), exist_ok=True)
-- 
2.43.0


From 4b8491bd801ef07ddf15fa6f9b857a6134312f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 103/167] fix: Build resources with all of their metadata, in
 the source format, and serialize them before writing

---
 python/moz/l10n/bin/build.py      | 25 ++++++++++++++++++-------
 python/moz/l10n/bin/build_file.py |  6 +++---
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 6dc5cb0..f1f8c03 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -18,7 +18,7 @@ import json
 import logging
 from collections import defaultdict
 from os import makedirs
-from os.path import dirname, exists, join, relpath
+from os.path import abspath, dirname, exists, join, relpath
 from shutil import copyfile
 from typing import Any
 
@@ -130,7 +130,7 @@ def cli(
                     }
             else:
                 from_path = l10n_path if exists(l10n_path) else source_path
-                if from_path != tgt_path:
+                if abspath(from_path) != abspath(tgt_path):
                     copy = "copy" if from_path == l10n_path else "copy-src"
                     log.info(f"{copy} {rel_path}")
                     copyfile(from_path, tgt_path)
@@ -161,16 +161,25 @@ def write_target_file(
 ) -> tuple[int, int, list[str | list[str]]]:
     if exists(l10n_path):
         l10n_res = parse_resource(l10n_path, gettext_skip_obsolete=True)
+        json_formats = {Format.plain_json, Format.webext}
+        if {l10n_res.format, source_res.format} == json_formats:
+            # The contents of the file may look like the other JSON format.
+            with open(l10n_path, "rb") as file:
+                l10n_res = parse_resource(source_res.format, file.read())
         l10n_map: dict[tuple[str, ...], Any] = {
             section.id + entry.id: entry
             for section in l10n_res.sections
             for entry in section.entries
             if isinstance(entry, Entry)
         }
+        l10n_section_meta = {
+            section.id: section.meta for section in l10n_res.sections if section.meta
+        }
         l10n_res.sections = []
     else:
-        l10n_res = Resource(source_res.format, [])
+        l10n_res = Resource(source_res.format, [], meta=source_res.meta)
         l10n_map = {}
+        l10n_section_meta = {}
     # Fluent uses per-message fallback at runtime, allowing resources to be incomplete.
     is_fluent = source_res.format == Format.fluent
     msg_delta = 0
@@ -201,7 +210,8 @@ def write_target_file(
                     if set(sk).issubset(lk):
                         for name in set(lk).difference(sk):
                             del l10n_entry.properties[name]
-                        return l10n_entry
+                        if l10n_entry.properties or not l10n_entry.value.is_empty():
+                            return l10n_entry
                     msg_delta -= 1
                     missing_ids.append(missing_id(id))
                     return None
@@ -221,13 +231,14 @@ def write_target_file(
             for entry_ in section.entries
             if (entry := get_entry(section.id, entry_)) is not None
         ]
-        l10n_res.sections.append(Section(section.id, tgt_entries))
+        meta = l10n_section_meta.get(section.id, section.meta)
+        l10n_res.sections.append(Section(section.id, tgt_entries, meta=meta))
 
     msg = f"merge {name}"
     log.info(f"{msg} ({msg_delta:+d})" if msg_delta != 0 else msg)
+    content = "".join(serialize_resource(l10n_res, trim_comments=True))
     with open(tgt_path, "w", encoding="utf-8") as file:
-        for line in serialize_resource(l10n_res, trim_comments=True):
-            file.write(line)
+        file.write(content)
     return msg_delta, total_count, missing_ids
 
 
diff --git a/python/moz/l10n/bin/build_file.py b/python/moz/l10n/bin/build_file.py
index 77cdde3..41334af 100644
--- a/python/moz/l10n/bin/build_file.py
+++ b/python/moz/l10n/bin/build_file.py
@@ -64,16 +64,16 @@ def cli(
             source_res = parse_resource(source, gettext_skip_obsolete=True)
         except UnsupportedFormat:
             source_res = None
-        makedirs(dirname(target), exist_ok=True)
+        makedirs(dirname(target) or ".", exist_ok=True)
         total_count = 0
         missing_ids: list[str | list[str]] = []
         if source_res is None:
             from_path = l10n if l10n is not None and exists(l10n) else source
             copyfile(from_path, target)
         elif l10n is None:
+            content = "".join(serialize_resource(source_res, trim_comments=True))
             with open(target, "w", encoding="utf-8") as file:
-                for line in serialize_resource(source_res, trim_comments=True):
-                    file.write(line)
+                file.write(content)
             total_count = sum(
                 isinstance(entry, Entry)
                 for section in source_res.sections
-- 
2.43.0


From fe2a2b66ecad195490fcc9a1c0788b246c9c7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 104/167] fix: Compare with a relative source directory, in the
 current directory, and without obsolete gettext entries

---
 python/moz/l10n/bin/compare.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 32fa19c..04855b2 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import json
 from collections import defaultdict
-from os.path import abspath, basename, dirname, isdir, join, normpath, relpath
+from os.path import abspath, basename, dirname, isdir, join, relpath
 from typing import Collection
 
 import click
@@ -116,7 +116,7 @@ def cli(
         source_paths: L10nConfigPaths | L10nDiscoverPaths = (
             L10nConfigPaths(source)
             if source.endswith(".toml")
-            else L10nDiscoverPaths(source, source)
+            else L10nDiscoverPaths(source, ref_root=".")
         )
         path0 = abspath(paths[0])
         locale0 = basename(path0)
@@ -144,7 +144,7 @@ def cli(
     for path in paths:
         if not isdir(path):
             continue
-        lc = basename(normpath(path))
+        lc = basename(abspath(path))
         errors, missing = compare(source_data, path)
         if json_output:
             json_res[lc] = {
@@ -191,7 +191,7 @@ def compare(
 
 
 def msg_ids(path: str) -> Collection[str]:
-    res = parse_resource(path)
+    res = parse_resource(path, gettext_skip_obsolete=True)
     return {
         ".".join(section.id + entry.id)
         for section in res.sections
-- 
2.43.0


From a6a3fa37b3af309438b8da53ca59977be841ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 105/167] fix: Do not consider directories matching a glob
 expression as invalid resources

---
 python/moz/l10n/bin/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/utils.py b/python/moz/l10n/bin/utils.py
index a5df375..ed1bad9 100644
--- a/python/moz/l10n/bin/utils.py
+++ b/python/moz/l10n/bin/utils.py
@@ -76,7 +76,13 @@ def handle_paths(
 
     elif file_paths:
         root_dir = os.getcwd()
-        path_iter = (path for fp in file_paths for path in glob(fp, recursive=True))
+        path_iter = (
+            path
+            for fp in file_paths
+            for path in glob(fp, recursive=True)
+            # Directories match `**`, but do not have contents to work on.
+            if path == fp or not os.path.isdir(path)
+        )
 
     else:
         log.error(LOG_ERROR_CONFIG_OR_PATHS)
-- 
2.43.0


From 66e78e44c0e2679988dc4be0e60827b19e22f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 106/167] fix: Migrations do not overwrite unreadable files,
 truncate files on errors, or fail in new directories

---
 python/moz/l10n/migrate/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 66bdcd5..47be2f3 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -17,7 +17,8 @@ from __future__ import annotations
 import dataclasses
 from copy import deepcopy
 from logging import getLogger
-from os.path import isdir, isfile, join
+from os import makedirs
+from os.path import dirname, exists, isdir, isfile, join
 from typing import Any, Callable, Union
 
 from moz.l10n.formats import Format, detect_format
@@ -129,7 +130,11 @@ class Migrate:
             for locale in locales:
                 ctx = MigrationContext(self.paths, ref_path, locale, self.parse_options)
                 res = ctx.get_resource(ref_path)
+                tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                 if res is None:
+                    if exists(tgt_path):
+                        log.warning(f"Failed to parse resource: {tgt_path}")
+                        continue
                     if src_res is None:
                         src_res = _get_empty_resource(
                             join(self.paths.ref_root, ref_path)
@@ -152,11 +157,11 @@ class Migrate:
                     nc = len(changed)
                     entries = "1 entry" if nc == 1 else f"{nc} entries"
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
-                    tgt_path = self.paths.format_target_path(tgt_fmt, locale)
+                    content = "".join(serialize_resource(res))
                     if not dry_run:
+                        makedirs(dirname(tgt_path) or ".", exist_ok=True)
                         with open(tgt_path, "w", encoding="utf-8") as file:
-                            for line in serialize_resource(res):
-                                file.write(line)
+                            file.write(content)
                     all_changes[tgt_path] = changed
         return all_changes
 
-- 
2.43.0


From c00f724a297df3f9f88765e3bc6d104f10225b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 107/167] fix: Accept string results of migration functions

---
 python/moz/l10n/migrate/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 47be2f3..bb1c7ba 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -410,6 +410,8 @@ def _create_entry(
 
     # For .ini and .xliff, new_entry.id will initially contain the section id.
     # This is dropped later in insert_entry_after().
+    if isinstance(src_entry, str):
+        src_entry = PatternMessage([src_entry])
     if isinstance(src_entry, Entry):
         new_entry = dataclasses.replace(src_entry, id=ctx.target_id)
     elif isinstance(src_entry, (PatternMessage, SelectMessage)):
-- 
2.43.0


From f8301f8296a4ea6ba47ddac1c929a0667a224cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 108/167] fix: Insert migrated entries only in their own
 section, at its end if there is no other place

---
 python/moz/l10n/migrate/utils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 6743bda..92153cd 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -155,10 +155,10 @@ def insert_entry_after(
     *src_ids: tuple[str, ...] | str,
 ) -> None:
     """
-    Insert `entry` in `res` after the last entry
+    Insert `entry` in `res` after the last entry in its section
     with an `.id` matching one of `src_ids`,
     or if none such are found,
-    at the end of the last section matching any of `ids`.
+    at the end of the last section matching the entry.
 
     Note that `entry.id` is expected to include its section id,
     which will be dropped before insertion.
@@ -167,12 +167,18 @@ def insert_entry_after(
     """
     id_set = {id if isinstance(id, tuple) else (id,) for id in src_ids}
     last_section: Section[M] | None = None
+    # The entry may only be inserted in its own section.
+    entry_sid = max(
+        (s.id for s in res.sections if s.id == entry.id[: len(s.id)]),
+        key=len,
+        default=None,
+    )
     for section in reversed(res.sections):
+        if section.id != entry_sid:
+            continue
         if section.id:
             sid_len = len(section.id)
             eid_set = {id[sid_len:] for id in id_set if section.id == id[:sid_len]}
-            if not eid_set:
-                continue
         else:
             sid_len = 0
             eid_set = id_set
@@ -182,7 +188,8 @@ def insert_entry_after(
                     entry.id = entry.id[sid_len:]
                 section.entries.insert(len(section.entries) - e_rev_idx, entry)
                 return
-        last_section = section
+        if last_section is None:
+            last_section = section
     if last_section is None:
         raise StopIteration
     else:
-- 
2.43.0


From 5ff9f19788969ed36d4b7c02c6f1fca9d5db6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 109/167] fix: refuse entry properties in formats that have
 none

---
 python/moz/l10n/formats/android/serialize.py    | 4 ++++
 python/moz/l10n/formats/dtd/serialize.py        | 2 ++
 python/moz/l10n/formats/gettext/serialize.py    | 2 ++
 python/moz/l10n/formats/inc/serialize.py        | 2 ++
 python/moz/l10n/formats/ini/serialize.py        | 2 ++
 python/moz/l10n/formats/plain_json/serialize.py | 2 ++
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 python/moz/l10n/formats/webext/serialize.py     | 2 ++
 python/moz/l10n/formats/xliff/serialize.py      | 2 ++
 9 files changed, 20 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index f236ca7..bcfeaa0 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -107,6 +107,8 @@ def android_serialize(
                 name = entry.id[0]
                 if not xml_name.fullmatch(name):
                     raise ValueError(f"Invalid entry name: {name}")
+                if entry.properties:
+                    raise ValueError(f"Unsupported properties for {name}")
                 if len(entry.id) == 1:
                     attrib = get_attrib(name, entry.meta)
                     if isinstance(entry.value, SelectMessage):
@@ -221,6 +223,8 @@ def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
     name = entry.id[0]
     if not xml_name.fullmatch(name):
         raise ValueError(f"Invalid entity name: {name}")
+    if entry.properties:
+        raise ValueError(f"Unsupported properties for {name}")
 
     # Characters not allowed in XML EntityValue text
     escape = str.maketrans({"&": "&amp;", "%": "&#37;", '"': "&quot;"})
diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index 5c7cdc8..1f63fcf 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -96,6 +96,8 @@ def dtd_serialize(
         id_prefix = ".".join(section.id) + "." if section.id else ""
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported properties for {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 name = id_prefix + ".".join(entry.id)
                 if not re_name.fullmatch(name):
diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 72cf575..9cffd20 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -75,6 +75,8 @@ def gettext_serialize(
             if isinstance(entry, Entry):
                 if len(entry.id) not in (1, 2) or entry.id == ("",):
                     raise ValueError(f"Unsupported message id: {entry.id}")
+                if entry.properties:
+                    raise ValueError(f"Unsupported properties for {entry.id}")
                 context = entry.id[1] if len(entry.id) == 2 else None
                 pe = POEntry(msgctxt=context, msgid=entry.id[0])
                 msg = entry.value
diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index ab07072..b3b2c90 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -61,6 +61,8 @@ def inc_serialize(
             raise ValueError(f"Section identifiers not supported: {section.id}")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported properties for {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 if len(entry.id) != 1 or not re_name.fullmatch(entry.id[0]):
                     raise ValueError(f"Unsupported identifier: {entry.id}")
diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 1d21281..281a243 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -70,6 +70,8 @@ def ini_serialize(
         at_empty_line = False
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported properties for {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 msg = entry.value
                 if isinstance(msg, str):
diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index f3e77dd..f5163e9 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -57,6 +57,8 @@ def plain_json_serialize(
         for entry in section.entries:
             if isinstance(entry, Entry):
                 check(entry.comment, entry.meta)
+                if entry.properties:
+                    raise ValueError(f"Unsupported properties for {entry.id}")
                 if not entry.id:
                     raise ValueError(f"Unsupported empty identifier in {section.id}")
                 msg = entry.value
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 2da8070..173b15b 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -110,6 +110,8 @@ def properties_serialize(
         id_prefix = ".".join(section.id) + "." if section.id else ""
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported properties for {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index e6c11aa..831ac59 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -64,6 +64,8 @@ def webext_serialize(
         for entry in section.entries:
             if isinstance(entry, Entry):
                 check(None, entry.meta)
+                if entry.properties:
+                    raise ValueError(f"Unsupported properties for {entry.id}")
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported entry identifier: {entry.id}")
                 name = entry.id[0]
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 75b1ac4..7baf62e 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -124,6 +124,8 @@ def xliff_serialize(
 
             if len(entry.id) != 1:
                 raise ValueError(f"Unsupported entry id: {entry.id}")
+            if entry.properties:
+                raise ValueError(f"Unsupported properties for {entry.id}")
             id = entry.id[0]
             msg = entry.value
 
-- 
2.43.0


From 513bf3eebe16e9d211edc2c41f35f3ec33639f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 110/167] fix: refuse what is not valid Fluent rather than
 write it

---
 python/moz/l10n/formats/fluent/serialize.py | 33 ++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 1dbcd50..48e7bb0 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -140,6 +140,8 @@ def fluent_astify(
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
+        if section.id:
+            raise ValueError(f"Section identifiers not supported: {section.id}")
         section_comment = comment_str(section)
         if (not trim_comments and idx != 0) or section_comment:
             body.append(ftl.GroupComment(section_comment))
@@ -204,7 +206,7 @@ def fluent_astify_entry(
     )
     attributes = list(
         ftl.Attribute(
-            ftl.Identifier(key),
+            identifier(key),
             fluent_astify_message(val, escape_empty=True, escape_syntax=escape_syntax),
         )
         for key, val in entry.properties.items()
@@ -221,13 +223,13 @@ def fluent_astify_entry(
         c_str = comment_str(entry)
     comment = ftl.Comment(c_str) if c_str else None
     if is_term:
-        return ftl.Term(ftl.Identifier(id[1:]), value, attributes, comment)
+        return ftl.Term(identifier(id[1:]), value, attributes, comment)
     else:
         if pattern_is_empty(value):
             value_ = None if attributes else valid_empty_pattern(value)
         else:
             value_ = value
-        return ftl.Message(ftl.Identifier(id), value_, attributes, comment)
+        return ftl.Message(identifier(id), value_, attributes, comment)
 
 
 def fluent_serialize_message(
@@ -322,6 +324,10 @@ def fluent_astify_message(
             and not selector.arguments.named
         ):
             selector = selector.arguments.positional[0]
+        if isinstance(selector, ftl.MessageReference) or (
+            isinstance(selector, ftl.TermReference) and not selector.attribute
+        ):
+            raise ValueError(f"Unsupported selector: {message.selectors}")
         base_keys = []
         sel_exp = None
         i = 0
@@ -356,6 +362,12 @@ def fallback_name(message: SelectMessage) -> str:
     return key
 
 
+def identifier(name: str) -> ftl.Identifier:
+    if not fullmatch(r"[a-zA-Z][a-zA-Z0-9_-]*", name):
+        raise ValueError(f"Unsupported identifier: {name}")
+    return ftl.Identifier(name)
+
+
 def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
@@ -397,7 +409,10 @@ def flat_pattern(
                     continue
             elements += text(el, escape_syntax)
         elif isinstance(el, Expression):
-            elements.append(ftl.Placeable(expression(decl, el)))
+            exp = expression(decl, el)
+            if isinstance(exp, ftl.TermReference) and exp.attribute:
+                raise ValueError(f"Term attributes are not supported in text: {el}")
+            elements.append(ftl.Placeable(exp))
         else:
             raise ValueError(f"Conversion to Fluent not supported: {el}")
     return ftl.Pattern(elements)
@@ -469,7 +484,7 @@ def function_ref(
     for name, val in expr.options.items():
         ftl_val = value(decl, val)
         if isinstance(ftl_val, ftl.Literal):
-            named.append(ftl.NamedArgument(ftl.Identifier(name), ftl_val))
+            named.append(ftl.NamedArgument(identifier(name), ftl_val))
         else:
             raise ValueError(
                 f"Fluent option value must be literal for {name}: {ftl_val}"
@@ -502,7 +517,9 @@ def function_ref(
             raise ValueError(
                 "Message and term references must have a literal message identifier"
             )
-        match = fullmatch(r"(-?[a-zA-Z][\w-]*)(?:\.([a-zA-Z][\w-]*))?", arg.value)
+        match = fullmatch(
+            r"(-?[a-zA-Z][a-zA-Z0-9_-]*)(?:\.([a-zA-Z][a-zA-Z0-9_-]*))?", arg.value
+        )
         if not match:
             raise ValueError(f"Invalid message or term identifier: {arg.value}")
         msg_id = match[1]
@@ -519,6 +536,8 @@ def function_ref(
     if not ftl_name or not isinstance(ftl_name, str):
         raise ValueError(f"A @fluent-fn attribute is required for :{function}")
 
+    if not fullmatch(r"[A-Z][A-Z0-9_-]*", ftl_name):
+        raise ValueError(f"Unsupported Fluent function name: {ftl_name}")
     args = ftl.CallArguments([arg] if arg else None, named)
     return ftl.FunctionReference(ftl.Identifier(ftl_name), args)
 
@@ -540,4 +559,4 @@ def value(
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-        return ftl.VariableReference(ftl.Identifier(val.name))
+        return ftl.VariableReference(identifier(val.name))
-- 
2.43.0


From 17e0ddabe65c360af2d8e4cc1c7271de1ad48c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 111/167] fix: escape line separators in Fluent text, which
 would get indented

---
 python/moz/l10n/formats/fluent/serialize.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 48e7bb0..ea3440e 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -441,7 +441,8 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
     return ftl.Pattern([ftl.Placeable(value({}, empty_text))])
 
 
-not_text = compile(r"[{}]+|\n *[*.[]")
+# Line breaks other than \n are not text, or would get indented as such
+not_text = compile(r"[{}]+|\n *[*.[]|[\r\v\f\x1c-\x1e\x85\u2028\u2029]+")
 
 
 def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
@@ -451,11 +452,11 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
     idx = 0
     for m in not_text.finditer(source):
         start = m.start()
-        esc = m[0].lstrip()
+        esc = m[0].lstrip("\n ")
         start += len(m[0]) - len(esc)
         if start > idx:
             elements.append(ftl.TextElement(source[idx:start]))
-        elements.append(ftl.Placeable(ftl.StringLiteral(esc)))
+        elements.append(ftl.Placeable(ftl.StringLiteral(esc.translate(esc_cc))))
         idx = m.end()
     if idx < len(source):
         elements.append(ftl.TextElement(source[idx:]))
@@ -542,8 +543,12 @@ def function_ref(
     return ftl.FunctionReference(ftl.Identifier(ftl_name), args)
 
 
-# Non-printable ASCII C0 & C1 / Unicode Cc characters
-esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
+# Non-printable ASCII C0 & C1 / Unicode Cc characters, and other line breaks
+esc_cc = {
+    n: f"\\u{n:04X}"
+    for r in (range(0, 32), range(127, 160), range(0x2028, 0x202A))
+    for n in r
+}
 esc_bs = compile(r'([\\"])')
 number_literal = compile(r"-?[0-9]+(\.[0-9]+)?")
 
-- 
2.43.0


From 62ab2ea22cc4be0eeafdb252888b473b2cef8bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 112/167] fix: write the required version attribute of XLIFF
 files

---
 python/moz/l10n/formats/xliff/serialize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 7baf62e..6cd8268 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -87,6 +87,11 @@ def xliff_serialize(
         attrib={clark_name(root_nsmap, m.key[1:]): m.value for m in root_attrib},
         nsmap=root_nsmap,
     )
+    version = root.attrib.get("version", None)
+    if version is None:
+        root.attrib["version"] = "1.2"
+    elif version not in ("1.0", "1.1", "1.2"):
+        raise ValueError(f"Unsupported <xliff> version: {version}")
 
     prev: dict[tuple[str, ...], etree._Element] = {}
     for section in resource.sections:
-- 
2.43.0


From 4e2d27df073ea814458408d22b0a27c05397cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 113/167] fix: refuse Android placeholders without a source
 rather than write their names as text

---
 python/moz/l10n/formats/android/serialize.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index bcfeaa0..5d86467 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -356,18 +356,13 @@ def set_pattern(
                 else:
                     node.tail = node.tail + source if node.tail else source
             else:
-                source = None
-                if isinstance(part.arg, str):
-                    source = escape_part(part.arg)
-                elif isinstance(part.arg, VariableRef):
-                    source = part.arg.name
-                if source is not None:
-                    if node is None:
-                        parent.text = parent.text + source if parent.text else source
-                    else:
-                        node.tail = node.tail + source if node.tail else source
-                else:
+                if not isinstance(part.arg, str):
                     raise ValueError(f"Unsupported expression: {part}")
+                source = escape_part(part.arg)
+                if node is None:
+                    parent.text = parent.text + source if parent.text else source
+                else:
+                    node.tail = node.tail + source if node.tail else source
         elif any(isinstance(value, VariableRef) for value in part.options.values()):
             raise ValueError(f"Unsupported markup with variable option: {part}")
         else:
-- 
2.43.0


From aa2a629aba6c34eac0c3b034944ee77213f2f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 114/167] fix: handle Fluent text that is split into several
 pattern parts

---
 python/moz/l10n/formats/fluent/serialize.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index ea3440e..8ae867f 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -383,6 +383,7 @@ def flat_pattern(
     decl: dict[str, Expression], pattern: Pattern, escape_syntax: bool
 ) -> ftl.Pattern:
     elements: list[ftl.TextElement | ftl.Placeable] = []
+    pattern = joined(pattern)
     last = len(pattern) - 1
     for idx, el in enumerate(pattern):
         if isinstance(el, str):
@@ -418,6 +419,17 @@ def flat_pattern(
     return ftl.Pattern(elements)
 
 
+def joined(pattern: Pattern) -> Pattern:
+    """Text may be split into parts, which would hide its starts and ends."""
+    res: Pattern = []
+    for el in pattern:
+        if isinstance(el, str) and res and isinstance(res[-1], str):
+            res[-1] += el
+        elif el != "":
+            res.append(el)
+    return res
+
+
 def has_indented_line(pattern: Pattern) -> bool:
     return any(isinstance(el, str) and "\n " in el for el in pattern)
 
-- 
2.43.0


From 1aa1a876bd296c40008a3f7a7b41aeeea266fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 115/167] fix: refuse empty .ini section names

---
 python/moz/l10n/formats/ini/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 281a243..28a6155 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -65,8 +65,11 @@ def ini_serialize(
     for section in resource.sections:
         if not section.id:
             raise ValueError("Anonymous sections are not supported")
+        section_name = id_str(section.id)
+        if not section_name:
+            raise ValueError(f"Unsupported section identifier: {section.id}")
         yield from comment(section.comment, section.meta, False)
-        yield f"[{id_str(section.id)}]\n"
+        yield f"[{section_name}]\n"
         at_empty_line = False
         for entry in section.entries:
             if isinstance(entry, Entry):
-- 
2.43.0


From cb7d4308b6036896b0cd0e0a52ce3461eb2c559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 116/167] fix: refuse characters that are not valid XML in
 Android entities

---
 python/moz/l10n/formats/android/serialize.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 5d86467..dfd6e19 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -227,7 +227,7 @@ def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
         raise ValueError(f"Unsupported properties for {name}")
 
     # Characters not allowed in XML EntityValue text
-    escape = str.maketrans({"&": "&amp;", "%": "&#37;", '"': "&quot;"})
+    escape = str.maketrans({"&": "&amp;", "%": "&#37;", '"': "&quot;", "\r": "&#13;"})
 
     if isinstance(entry.value, str):
         value = entry.value.translate(escape)
@@ -245,9 +245,14 @@ def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
     else:
         raise ValueError(f"Unsupported entity value: {entry.value}")
 
+    if not_xml_char.search(value):
+        raise ValueError(f"Unsupported character in entity value: {entry.value}")
     return f'<!ENTITY {name} "{value}">'
 
 
+not_xml_char = compile(r"[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
+
+
 def set_string_array_item(
     parent: etree._Element, entry: Entry[str] | Entry[Message]
 ) -> None:
-- 
2.43.0


From 9ca4f59452a4c4c1ffa4df7c1ca0d17b2e3d3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 117/167] fix: refuse Fluent selects with no default variant

---
 python/moz/l10n/formats/fluent/serialize.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 8ae867f..054f585 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -312,6 +312,16 @@ def fluent_astify_message(
         for keys, pattern in variants
     ]
 
+    for keys in message.variants:
+        for idx, key in enumerate(keys):
+            if not isinstance(key, CatchallKey) and not any(
+                len(other) == len(keys)
+                and other[:idx] == keys[:idx]
+                and isinstance(other[idx], CatchallKey)
+                for other in message.variants
+            ):
+                raise ValueError(f"Missing fallback variant for {keys}")
+
     other = fallback_name(message)
     keys0 = variants[0][0]
     while keys0:
-- 
2.43.0


From 863a422fc0974c719ecb283122b45a927b080e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 118/167] fix: refuse gettext entries that would be read as the
 header

---
 python/moz/l10n/formats/gettext/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 9cffd20..f0f40cd 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -73,7 +73,7 @@ def gettext_serialize(
             raise ValueError("Section metadata is not supported")
         for entry in section.entries:
             if isinstance(entry, Entry):
-                if len(entry.id) not in (1, 2) or entry.id == ("",):
+                if len(entry.id) not in (1, 2) or not any(entry.id):
                     raise ValueError(f"Unsupported message id: {entry.id}")
                 if entry.properties:
                     raise ValueError(f"Unsupported properties for {entry.id}")
-- 
2.43.0


From df0888bd4034f859f700ff0a1a2c0f487674ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 119/167] fix: refuse Android markup that is not closed

---
 python/moz/l10n/formats/android/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index dfd6e19..8ea54bc 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -390,6 +390,8 @@ def set_pattern(
                 parent = cast(etree._Element, parent.getparent())
             else:
                 raise ValueError(f"Improper element nesting for {part} in {parent}")
+    if parent != el:
+        raise ValueError(f"Missing closing markup for {parent}")
     escape_pattern(el)
     if (
         allow_cdata
-- 
2.43.0


From be8d0d7f5ddb0b706b4557a72a198d10760e30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 120/167] fix: refuse duplicate Android plural quantities

---
 python/moz/l10n/formats/android/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 8ea54bc..af405de 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -283,6 +283,8 @@ def set_plural_message(plurals: etree._Element, msg: SelectMessage) -> None:
             key = key.value if has_other else "other"
         if key not in plural_categories:
             raise ValueError(f"Unsupported plural variant key: {keys}")
+        if any(prev.get("quantity") == key for prev in plurals):
+            raise ValueError(f"Duplicate plural variant key: {keys}")
         item = etree.SubElement(plurals, "item", attrib={"quantity": key})
         set_pattern(item, value)
         item.tail = "\n    "
-- 
2.43.0


From 04f24c6c5fe981f788414d143823191e7426386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 121/167] fix: keep empty <xliff:g> elements in Android strings

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 6dd67c1..3c1ac1b 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -371,7 +371,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
             )
             if child.tag == xliff_g:
                 body = list(flatten(child))
-                if any(
+                if not body or any(
                     (
                         isinstance(gc, Expression)
                         and gc.attributes.get("translate", None) == "no"
-- 
2.43.0


From 652e78c4e4b569160d12a74520243fbb3203cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 122/167] fix: refuse NUL characters in MessageFormat 2

---
 python/moz/l10n/formats/mf2/serialize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 6dbd0b2..2bcbf77 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -47,7 +47,7 @@ def mf2_serialize_message(message: Message) -> str:
     if isinstance(message, PatternMessage) and not message.declarations:
         simple = "".join(mf2_serialize_pattern(message.pattern))
         if not complex_start_re.match(simple):
-            return simple
+            return _without_nul(simple)
 
     res = ""
     for name, expr in message.declarations.items():
@@ -74,7 +74,13 @@ def mf2_serialize_message(message: Message) -> str:
                 res += "* " if isinstance(key, CatchallKey) else f"{_literal(key)} "
             for s in _quoted_pattern(pattern):
                 res += s
-    return res
+    return _without_nul(res)
+
+
+def _without_nul(src: str) -> str:
+    if "\0" in src:
+        raise ValueError("NUL characters are not supported in MessageFormat 2")
+    return src
 
 
 def mf2_serialize_pattern(pattern: Pattern) -> Iterator[str]:
-- 
2.43.0


From f75ab2e28cce7af04fb5d8fb522c7ed7be9b7460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 123/167] fix: refuse XLIFF markup that is not closed

---
 python/moz/l10n/formats/xliff/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 6cd8268..a6057e6 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -513,3 +513,5 @@ def set_pattern(el: etree._Element, pattern: Pattern) -> None:
                 add_text(part_source)
             else:
                 raise ValueError(f"Unsupported expression: {part}")
+    if parent != el:
+        raise ValueError(f"Missing closing markup for {parent}")
-- 
2.43.0


From e222d985e26de73ada4b676a87f5bca60b333fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 124/167] fix: keep the contents of XLIFF <x>, <bx>, and <ex>
 elements

---
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index f35fe90..df0a05e 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -88,7 +88,7 @@ def parse_pattern(
             ns = q.namespace
             name = q.localname if not ns or ns in xliff_ns else q.text
             options: dict[str, str | VariableRef] = dict(child.attrib)
-            if name in ("x", "bx", "ex"):
+            if name in ("x", "bx", "ex") and not child.text and len(child) == 0:
                 yield Markup("standalone", name, options)
             else:
                 yield Markup("open", name, options)
-- 
2.43.0


From 3c6287a660f1915f7fcd556720b67668d44f7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 125/167] fix: refuse .stringsdict format keys that do not name
 the variable

---
 python/moz/l10n/formats/xliff/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index a6057e6..5eeb101 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -34,6 +34,7 @@ from ...model import (
     VariableRef,
 )
 from .common import clark_name, content_elements
+from .parse_xcode import variant_key
 
 
 def xliff_serialize(
@@ -280,6 +281,9 @@ def add_xliff_stringsdict_plural(
     meta_base = "format/"
     meta = [m for m in entry.meta if m.key.startswith(meta_base)]
     if isinstance(sel_source, str):
+        var_match = variant_key.search(sel_source)
+        if var_match is None or var_match[1] != var_name:
+            raise ValueError(f"Unsupported selector source for {id}: {sel_source}")
         xcode_id = f"{id_base}/NSStringLocalizedFormatKey:dict/:string"
         unit = etree.SubElement(parent, "trans-unit", {"id": xcode_id})
         assign_metadata(unit, meta, trim_comments, meta_base)
-- 
2.43.0


From fe722ae7ed3ebbd392589b2a10f4c1f6716a54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 126/167] fix: refuse empty Fluent variant keys

---
 python/moz/l10n/formats/fluent/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 054f585..5e4a2dd 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -381,7 +381,7 @@ def identifier(name: str) -> ftl.Identifier:
 def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
-    kv = str(key) or other
+    kv = key if isinstance(key, str) else str(key) or other
     if number_literal.fullmatch(kv):
         return ftl.NumberLiteral(kv)
     if fullmatch(r"[a-zA-Z][a-zA-Z0-9_-]*", kv):
-- 
2.43.0


From 7a5c31a5fb2cb1d0288198059a206a7e519e9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 127/167] fix: keep spaces between the parts of Android strings

---
 python/moz/l10n/formats/android/serialize.py | 23 +++++++++++---------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index af405de..20da435 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -326,13 +326,20 @@ def set_pattern(
 
     parent = el
     node = None
+
+    def add_text(src: str) -> None:
+        esc = escape_part(src)
+        prev = parent.text if node is None else node.tail
+        if prev and prev.endswith(" ") and esc.startswith(" "):
+            esc = escape_char(" ") + esc[1:]
+        if node is None:
+            parent.text = parent.text + esc if parent.text else esc
+        else:
+            node.tail = node.tail + esc if node.tail else esc
+
     for part in pattern:
         if isinstance(part, str):
-            esc = escape_part(part)
-            if node is None:
-                parent.text = parent.text + esc if parent.text else esc
-            else:
-                node.tail = node.tail + esc if node.tail else esc
+            add_text(part)
         elif isinstance(part, Expression):
             ent_name = entity_name(part)
             if part.attributes.get("translate", None) == "no":
@@ -365,11 +372,7 @@ def set_pattern(
             else:
                 if not isinstance(part.arg, str):
                     raise ValueError(f"Unsupported expression: {part}")
-                source = escape_part(part.arg)
-                if node is None:
-                    parent.text = parent.text + source if parent.text else source
-                else:
-                    node.tail = node.tail + source if node.tail else source
+                add_text(part.arg)
         elif any(isinstance(value, VariableRef) for value in part.options.values()):
             raise ValueError(f"Unsupported markup with variable option: {part}")
         else:
-- 
2.43.0


From fadb615becf7a43f554dcbe2df6a4ba0a6b533b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 128/167] fix: escape the spaces of blank lines in Fluent text

---
 python/moz/l10n/formats/fluent/serialize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 5e4a2dd..8030695 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -463,8 +463,9 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
     return ftl.Pattern([ftl.Placeable(value({}, empty_text))])
 
 
-# Line breaks other than \n are not text, or would get indented as such
-not_text = compile(r"[{}]+|\n *[*.[]|[\r\v\f\x1c-\x1e\x85\u2028\u2029]+")
+# Line breaks other than \n are not text, or would get indented as such,
+# and the spaces of blank lines are not included in a pattern.
+not_text = compile(r"[{}]+|\n *[*.[]|(?<=\n) +(?=\n)|[\r\v\f\x1c-\x1e\x85\u2028\u2029]+")
 
 
 def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
@@ -474,7 +475,7 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
     idx = 0
     for m in not_text.finditer(source):
         start = m.start()
-        esc = m[0].lstrip("\n ")
+        esc = m[0].lstrip("\n ") or m[0]
         start += len(m[0]) - len(esc)
         if start > idx:
             elements.append(ftl.TextElement(source[idx:start]))
-- 
2.43.0


From 0c046fff99c36888e8792cb39354460d7251e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 129/167] fix: group the variants of Fluent selects by their
 leading keys

---
 python/moz/l10n/formats/fluent/serialize.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 8030695..4bc66ab 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -322,6 +322,15 @@ def fluent_astify_message(
             ):
                 raise ValueError(f"Missing fallback variant for {keys}")
 
+    # Keep variants with the same leading keys next to each other
+    firsts: dict[tuple[str | CatchallKey, ...], int] = {}
+    for idx, (keys, _) in enumerate(variants):
+        for n in range(1, len(keys) + 1):
+            firsts.setdefault(tuple(keys[:n]), idx)
+    variants.sort(
+        key=lambda var: [firsts[tuple(var[0][:n])] for n in range(1, len(var[0]) + 1)]
+    )
+
     other = fallback_name(message)
     keys0 = variants[0][0]
     while keys0:
-- 
2.43.0


From 59a71771eb3761e50e9354a89e9906ed8a5f6729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 130/167] fix: refuse to redefine the predefined XML entities
 in Android resources

---
 python/moz/l10n/formats/android/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 20da435..e244f87 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -223,6 +223,8 @@ def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
     name = entry.id[0]
     if not xml_name.fullmatch(name):
         raise ValueError(f"Invalid entity name: {name}")
+    if name in {"amp", "apos", "gt", "lt", "quot"}:
+        raise ValueError(f"Predefined entity cannot be redefined: {name}")
     if entry.properties:
         raise ValueError(f"Unsupported properties for {name}")
 
-- 
2.43.0


From bbccf5ca551dcaf2f8571a7ea06cf656ee841ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 131/167] fix: report the line rather than the offset of the
 end of Fluent attributes

---
 python/moz/l10n/formats/fluent/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 75169c3..ec09d96 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -209,7 +209,7 @@ def fluent_entry(
             entry.properties[attr.id.name] = prop_msg
         if lpm and entry.linepos and attr.span:
             span = attr.value.span or attr.span
-            entry.linepos.end = span.end
+            entry.linepos.end = lpm.get_line(span.end)
 
     return entry
 
@@ -464,7 +464,7 @@ class LinePosMapper:
         self._len = len(src)
         self._newlines = [m.start() for m in finditer("\n", src)]
 
-    def _get_line(self, char_idx: int) -> int:
+    def get_line(self, char_idx: int) -> int:
         # Treat the end of the string as a newline.
         if not self._newlines and char_idx >= self._len:
             return 2
@@ -474,8 +474,8 @@ class LinePosMapper:
         )
 
     def get_linepos(self, start: int, key: int, value: int, end: int) -> LinePos:
-        start_line = self._get_line(start)
-        key_line = start_line if key == start else self._get_line(key)
-        value_line = key_line if value == key else self._get_line(value)
-        end_line = self._get_line(end)
+        start_line = self.get_line(start)
+        key_line = start_line if key == start else self.get_line(key)
+        value_line = key_line if value == key else self.get_line(value)
+        end_line = self.get_line(end)
         return LinePos(start_line, key_line, value_line, end_line)
-- 
2.43.0


From 94f935fa58c717aaec187ecb57e4d591fc8b6b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 132/167] fix: report the key line as that of the missing value
 of a Fluent message

---
 python/moz/l10n/formats/fluent/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index ec09d96..0b6f38c 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -196,7 +196,7 @@ def fluent_entry(
             else ftl_entry.span
         )
         k_span = ftl_entry.id.span or ftl_entry.span
-        v_span = (ftl_entry.value.span if ftl_entry.value else None) or ftl_entry.span
+        v_span = (ftl_entry.value.span if ftl_entry.value else None) or k_span
         entry.linepos = lpm.get_linepos(
             c_span.start, k_span.start, v_span.start, v_span.end
         )
-- 
2.43.0


From c00ae5ea63d939102cdceb11f1096cdaeb3f66da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 133/167] fix: report the end of the last line of Fluent files
 with no final newline

---
 python/moz/l10n/formats/fluent/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 0b6f38c..ca8f640 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -466,8 +466,8 @@ class LinePosMapper:
 
     def get_line(self, char_idx: int) -> int:
         # Treat the end of the string as a newline.
-        if not self._newlines and char_idx >= self._len:
-            return 2
+        if char_idx >= self._len:
+            return len(self._newlines) + 2
         return next(
             (idx + 1 for idx, nl in enumerate(self._newlines) if nl > char_idx),
             len(self._newlines) + 1,
-- 
2.43.0


From 533ae2c3e27174e9ba9fd9596cbf033d2265171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 134/167] fix: report the end lines of Fluent entries in files
 with CRLF line endings

---
 python/moz/l10n/formats/fluent/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index ca8f640..cc136c5 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -462,7 +462,7 @@ def literal_value(arg: ftl.NumberLiteral | ftl.StringLiteral) -> str:
 class LinePosMapper:
     def __init__(self, src: str) -> None:
         self._len = len(src)
-        self._newlines = [m.start() for m in finditer("\n", src)]
+        self._newlines = [m.start() for m in finditer("\r?\n", src)]
 
     def get_line(self, char_idx: int) -> int:
         # Treat the end of the string as a newline.
-- 
2.43.0


From d82b5a942f3cd8c425247982dbd48ef67a929f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 135/167] fix: report the end of multi-line .properties values
 at the end of the file

---
 python/moz/l10n/formats/properties/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 0eb572a..ddd15e5 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -182,10 +182,12 @@ class PropertiesParser:
             raise StopIteration
 
         lp = self.line_pos
+        at_line_start = self.pos == 0 or self.source[self.pos - 1] in "\r\n"
         self.ws()
         if self.pos == len(self.source):
             self.done = True
-            return LineKind.EMPTY, lp, ""
+            # Treat the end of the source as a newline.
+            return LineKind.EMPTY, lp if at_line_start else lp + 1, ""
 
         if self.nl():
             self.at_value = False
-- 
2.43.0


From 43e7fb1ecee2a6628eebb9f323bc5c467dc2a1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 136/167] fix: accept xliff:g elements in Android messages
 without a namespace declaration; do not add newlines after breaks followed by
 a placeholder

---
 python/moz/l10n/formats/android/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 3c1ac1b..b625e3f 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -235,7 +235,9 @@ def android_parse_message(
     entities: list[str] = []
     while True:
         try:
-            el = etree.fromstring(f"{doctype}<string>{source}</string>", parser)
+            el = etree.fromstring(
+                f'{doctype}<string xmlns:xliff="{xliff_ns}">{source}</string>', parser
+            )
             break
         except etree.XMLSyntaxError as err:
             if err.code == etree.ErrorTypes.ERR_UNDECLARED_ENTITY:
@@ -489,6 +491,7 @@ def parse_inline(
             if acc:
                 yield acc
                 acc = ""
+            at_br = False
             yield part
         else:
             pos = 0
-- 
2.43.0


From ee5052bf97d72359e1871748e168ee0d876c30a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 137/167] fix: match the Python parsers for Android and XLIFF
 messages in JavaScript

---
 js/src/android-parse.ts     | 100 ++++++++++++++++++-----------
 js/src/android-serialize.ts |   3 +-
 js/src/xliff-parse.ts       | 121 +++++++++++++++++++-----------------
 js/src/xml-utils.ts         |  16 ++++-
 4 files changed, 147 insertions(+), 93 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 2181dd0..0daf290 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -20,17 +20,20 @@ import {
   type Markup,
   type Pattern
 } from './model.ts'
+import { getAttributes } from './xml-utils.ts'
 
-export const resoureRef = /^@(?:\w+:)?\w+\/\w+|\?(?:\w+:)?(\w+\/)?\w+$/
+export const resoureRef = /^(?:@(?:\w+:)?\w+\/\w+|\?(?:\w+:)?(\w+\/)?\w+)$/
 
+// CDATA sections are matched to not find entity references in them
+const _entityRef = /<!\[CDATA\[[^]*?\]\]>|&([a-z_][\w.-]*);/gi
 const _xmlEntities = new Set(['amp', 'lt', 'gt', 'apos', 'quot'])
 let _xmlEntityKey = Math.floor(Math.random() * 1e9)
 
 /** Matches `parse_pattern()` in `moz.l10n.formats.android.parse`. */
 export function androidParsePattern(src: string): Pattern {
   const entities: Record<string, string> = {}
-  const safe = src.replace(/&([a-z][a-z0-9_]*);/gi, (match, name) => {
-    if (_xmlEntities.has(name)) return match
+  const safe = src.replace(_entityRef, (match, name) => {
+    if (!name || _xmlEntities.has(name)) return match
     const key = `_entity_${++_xmlEntityKey}_`
     entities[key] = name
     return key
@@ -51,7 +54,7 @@ export function androidParsePattern(src: string): Pattern {
     return [{ _: root.textContent!, fn: 'reference' }]
   }
 
-  const pattern = Array.from(flattenElements(root))
+  const pattern = Array.from(flattenElements(root, entities))
   if (pattern.length > 0) {
     const part0 = pattern[0]
     if (typeof part0 === 'string') pattern[0] = part0.trimStart()
@@ -61,31 +64,45 @@ export function androidParsePattern(src: string): Pattern {
     if (typeof part1 === 'string') pattern[pattern.length - 1] = part1.trimEnd()
   }
   const spaced = parseQuotes(pattern)
-  return Array.from(parseInline(spaced, entities))
+  return Array.from(parseInline(spaced))
+}
+
+function* flattenText(
+  text: string,
+  entities: Record<string, string>
+): Iterable<string | Expression> {
+  let pos = 0
+  for (const m of text.matchAll(/_entity_\d+_/g)) {
+    const name = entities[m[0]]
+    if (name) {
+      if (m.index > pos) yield text.substring(pos, m.index)
+      pos = m.index + m[0].length
+      yield { $: name, fn: 'entity' }
+    }
+  }
+  if (pos < text.length) yield text.substring(pos)
 }
 
 function* flattenElements(
-  root: Element
+  root: Element,
+  entities: Record<string, string>
 ): Iterable<string | Expression | Markup> {
+  let text = ''
   for (const node of root.childNodes as Iterable<ChildNode>) {
     if (node instanceof Text) {
-      if (node.textContent) yield node.textContent
+      text += node.data
       continue
     }
-    if (!(node instanceof Element)) {
-      throw Error(`Unsupported node type ${node.nodeType}`)
-    }
+    // Comments and processing instructions are ignored
+    if (!(node instanceof Element)) continue
+    yield* flattenText(text, entities)
+    text = ''
 
-    let opt: Record<string, string> | undefined = undefined
-    if (node.hasAttributes()) {
-      opt = Object.create(null) as Record<string, string>
-      for (const attr of node.attributes as Iterable<Attr>) {
-        opt[attr.name] = attr.value
-      }
-    }
-    const body = Array.from(flattenElements(node))
+    const opt = getAttributes(node)
+    const body = Array.from(flattenElements(node, entities))
     if (node.tagName === 'xliff:g') {
       if (
+        body.length === 0 ||
         body.some(
           (part) =>
             isMarkup(part) ||
@@ -109,7 +126,7 @@ function* flattenElements(
               attr.source = part
               expr = { $: varName(part), attr }
             } else {
-              expr = { _: part, attr }
+              expr = { _: part.replace(_literalEscape, unescapeLiteral), attr }
             }
             if (opt) {
               expr.fn = 'xliff:g'
@@ -129,6 +146,7 @@ function* flattenElements(
       yield { close: node.tagName }
     }
   }
+  yield* flattenText(text, entities)
 }
 
 const _noTranslate = { translate: 'no' }
@@ -142,12 +160,12 @@ function* parseQuotes(
   for (const part of pattern) {
     if (typeof part === 'string') {
       let pos = 0
-      for (const m of part.matchAll(/(?<!\\)"/g)) {
+      for (const m of part.matchAll(/(?<!\\)(?:\\\\)*"/g)) {
         if (pos === 0 && /<.+>/.test(part)) {
           // Let's presume that double quotes near html-ish contents are intentional.
           break
         }
-        const prev = part.substring(pos, m.index)
+        const prev = part.substring(pos, m.index + m[0].length - 1)
         if (prev) yield quoted ? prev : prev.replace(/\s+/g, ' ')
         pos = m.index + m[0].length
         quoted = !quoted
@@ -163,16 +181,22 @@ function* parseQuotes(
   }
 }
 
+const _literalEscape = /\\u([0-9A-Fa-f]{4})|\\(.)|[ \t\r\n\f\v]+/g
+
+function unescapeLiteral(_: string, hex?: string, ch?: string): string {
+  if (hex) return String.fromCharCode(parseInt(hex, 16))
+  return ch === 'n' ? '\n' : ch === 't' ? '\t' : (ch ?? ' ')
+}
+
 const _inline =
   // 1:esc-unicode     2:esc-char       4:printf                         5:printf-conversion
-  //                         3:esc-elem                                            6:xml-entity
-  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))|(_entity_\d+_)/g
+  //                         3:esc-elem
+  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9][0-9]*\$|<(?!\/))?[-#+ 0,(]*[0-9.]*([tT]?[^\s\\<]))/g
 const _blocktag = /^<(div|h[123456r]|p|d[dt]|li|\/?[dou]l)\b/
 const _breaktag = /^<[bh]r\/?>$/
 
 function* parseInline(
-  pattern: Iterable<string | Expression | Markup>,
-  entities: Record<string, string>
+  pattern: Iterable<string | Expression | Markup>
 ): Iterable<string | Expression | Markup> {
   let buffer = ''
   let atBreak = false
@@ -206,9 +230,10 @@ function* parseInline(
             buffer = ''
           }
           if (tag) {
-            yield { _: tag, fn: 'html' }
-            atBreak = _breaktag.test(tag)
-          } else if (m[4]) {
+            const _ = tag.replace(_literalEscape, unescapeLiteral)
+            yield { _, fn: 'html' }
+            atBreak = _breaktag.test(_)
+          } else {
             const attr = Object.create(null)
             attr.source = m[0]
             let fn: string | undefined = undefined
@@ -254,8 +279,8 @@ function* parseInline(
               // # https://developer.android.com/reference/java/util/Formatter#argument-index
               if (prevVarName) {
                 name = prevVarName
-                const prevIdx = /[1-9]$/.test(name) ? name.at(-1) + '$' : ''
-                attr.source = `%${prevIdx}${m[0].substring(2)}`
+                const prevIdx = name.match(/[1-9][0-9]*$/)
+                attr.source = `%${prevIdx ? prevIdx[0] + '$' : ''}${m[0].substring(2)}`
               } else {
                 throw new ParseError(`Invalid ${m[0]} placeholder`)
               }
@@ -264,17 +289,22 @@ function* parseInline(
               prevVarName = name
             }
             yield { $: name, fn, attr }
-          } else {
-            yield { $: entities[m[6]] ?? 'UNKNOWN', fn: 'entity' }
           }
         }
       }
-      if (pos < part.length) buffer += part.substring(pos)
+      if (pos < part.length) {
+        buffer +=
+          atBreak && part[pos] === ' '
+            ? '\n' + part.substring(pos + 1)
+            : part.substring(pos)
+        atBreak = false
+      }
     } else {
       if (buffer) {
         yield buffer
         buffer = ''
       }
+      atBreak = false
       yield part
     }
   }
@@ -293,8 +323,8 @@ const _notNameChar = new RegExp(
 
 /** Returns a valid MF2 name */
 function varName(src: string): string {
-  const printf = src.match(/^%([1-9]\$)?/)
-  if (printf) return printf[1] ? `arg${printf[1][0]}` : 'arg'
+  const printf = src.match(/^%(?:([1-9][0-9]*)\$)?/)
+  if (printf) return printf[1] ? `arg${printf[1]}` : 'arg'
   let name = src.replace(_notNameChar, '')
   if (_notNameStart.test(name)) name = name.substring(1)
   return name || 'arg'
diff --git a/js/src/android-serialize.ts b/js/src/android-serialize.ts
index 5699f3e..51958a3 100644
--- a/js/src/android-serialize.ts
+++ b/js/src/android-serialize.ts
@@ -142,7 +142,8 @@ function asTextContent(
     return key
   }
   if (typeof part.attr?.source === 'string') return part.attr.source
-  if (part.fn && part.fn !== 'html') {
+  const isProtected = part.fn === 'xliff:g' && part.attr?.translate === 'no'
+  if (part.fn && part.fn !== 'html' && !isProtected) {
     onError(new SerializeError(`android: Unsupported function ${part.fn}`))
   }
   return part.$ ?? escape(part._ ?? '')
diff --git a/js/src/xliff-parse.ts b/js/src/xliff-parse.ts
index e871a94..0061d10 100644
--- a/js/src/xliff-parse.ts
+++ b/js/src/xliff-parse.ts
@@ -15,6 +15,7 @@
 
 import { ParseError } from './errors.ts'
 import type { Expression, Markup, Pattern } from './model.ts'
+import { getAttributes } from './xml-utils.ts'
 
 export function xliffParsePattern(
   src: string,
@@ -41,66 +42,20 @@ function* parseElement(
   el: Element,
   isXcode: boolean
 ): Iterable<string | Expression | Markup> {
+  let text = ''
   for (const node of el.childNodes as Iterable<ChildNode>) {
     if (node instanceof Text) {
-      const src = node.data
-      if (!isXcode) {
-        yield src
-        continue
-      }
-      let pos = 0
-      for (const m of src.matchAll(printf)) {
-        if (m.index > pos) yield src.substring(pos, m.index)
-        const ms = m[0]
-        pos = m.index + ms.length
-        const attr = Object.create(null)
-        attr.source = ms
-        const n = m[1]?.slice(0, -1) ?? ''
-        switch (ms.at(-1)) {
-          case '%':
-            yield { _: '%', attr }
-            break
-          case 'c':
-          case 'C':
-          case 's':
-          case 'S':
-            yield { $: `str${n}`, fn: 'string', attr }
-            break
-          case 'd':
-          case 'D':
-          case 'o':
-          case 'O':
-          case 'p':
-          case 'u':
-          case 'U':
-          case 'x':
-          case 'X':
-            yield { $: `int${n}`, fn: 'integer', attr }
-            break
-          case 'a':
-          case 'A':
-          case 'e':
-          case 'E':
-          case 'f':
-          case 'g':
-          case 'G':
-            yield { $: `num${n}`, fn: 'number', attr }
-            break
-          default:
-            yield { $: `arg${n}`, attr }
-        }
-      }
-      if (pos < src.length) yield src.substring(pos)
+      text += node.data
     } else if (node instanceof Element) {
+      yield* parseText(text, isXcode)
+      text = ''
       const name = node.tagName
-      let opt: Record<string, string> | undefined = undefined
-      if (node.hasAttributes()) {
-        opt = Object.create(null) as Record<string, string>
-        for (const attr of node.attributes as Iterable<Attr>) {
-          opt[attr.name] = attr.value
-        }
-      }
-      if (name === 'x' || name === 'bx' || name === 'ex') {
+      const opt = getAttributes(node)
+      if (
+        (name === 'x' || name === 'bx' || name === 'ex') &&
+        !node.textContent &&
+        node.childElementCount === 0
+      ) {
         yield { elem: name, opt }
       } else {
         yield { open: name, opt }
@@ -109,4 +64,58 @@ function* parseElement(
       }
     }
   }
+  yield* parseText(text, isXcode)
+}
+
+function* parseText(
+  src: string,
+  isXcode: boolean
+): Iterable<string | Expression> {
+  if (!isXcode) {
+    if (src) yield src
+    return
+  }
+  let pos = 0
+  for (const m of src.matchAll(printf)) {
+    if (m.index > pos) yield src.substring(pos, m.index)
+    const ms = m[0]
+    pos = m.index + ms.length
+    const attr = Object.create(null)
+    attr.source = ms
+    const n = m[1]?.slice(0, -1) ?? ''
+    switch (ms.at(-1)) {
+      case '%':
+        yield { _: '%', attr }
+        break
+      case 'c':
+      case 'C':
+      case 's':
+      case 'S':
+        yield { $: `str${n}`, fn: 'string', attr }
+        break
+      case 'd':
+      case 'D':
+      case 'o':
+      case 'O':
+      case 'p':
+      case 'u':
+      case 'U':
+      case 'x':
+      case 'X':
+        yield { $: `int${n}`, fn: 'integer', attr }
+        break
+      case 'a':
+      case 'A':
+      case 'e':
+      case 'E':
+      case 'f':
+      case 'g':
+      case 'G':
+        yield { $: `num${n}`, fn: 'number', attr }
+        break
+      default:
+        yield { $: `arg${n}`, attr }
+    }
+  }
+  if (pos < src.length) yield src.substring(pos)
 }
diff --git a/js/src/xml-utils.ts b/js/src/xml-utils.ts
index f247684..c16b253 100644
--- a/js/src/xml-utils.ts
+++ b/js/src/xml-utils.ts
@@ -15,6 +15,19 @@
 
 import type { Expression } from './model.ts'
 
+const xmlNS = '{http://www.w3.org/XML/1998/namespace}'
+
+/** The attributes of `el`, with names matching those used by lxml in the Python implementation. */
+export function getAttributes(el: Element): Record<string, string> | undefined {
+  let opt: Record<string, string> | undefined = undefined
+  for (const attr of el.attributes as Iterable<Attr>) {
+    if (attr.name.startsWith('xmlns:')) continue
+    opt ??= Object.create(null) as Record<string, string>
+    opt[attr.name.replace(/^xml:/, xmlNS)] = attr.value
+  }
+  return opt
+}
+
 export function appendText(el: Element, str: string) {
   if (el.lastChild instanceof Text) el.lastChild.data += str
   else el.appendChild(new Text(str))
@@ -38,7 +51,8 @@ export function* setAttributes(
 ): Iterable<string> {
   if (opt) {
     for (const [name, value] of Object.entries(opt)) {
-      if (typeof value === 'string') el.setAttribute(name, value)
+      if (typeof value === 'string')
+        el.setAttribute(name.replace(xmlNS, 'xml:'), value)
       else yield `Unsupported value for <${el.tagName}> option ${name}`
     }
   }
-- 
2.43.0


From 44be3828d3467fec211bff0b87dc2f4cee92dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 138/167] fix: write control characters, carriage returns,
 variant keys and positional arguments as the Python serializers do in
 JavaScript; declare the xliff prefix of Android messages

---
 js/src/android-parse.ts                      |  2 +-
 js/src/android-serialize.ts                  |  2 +-
 js/src/mf2-serialize.ts                      | 10 +++++++---
 js/src/properties-serialize.ts               |  2 +-
 js/src/webext-serialize.ts                   |  3 ++-
 js/src/xml-utils.ts                          |  5 ++++-
 python/moz/l10n/formats/android/serialize.py |  5 +++--
 7 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 0daf290..35f4605 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -191,7 +191,7 @@ function unescapeLiteral(_: string, hex?: string, ch?: string): string {
 const _inline =
   // 1:esc-unicode     2:esc-char       4:printf                         5:printf-conversion
   //                         3:esc-elem
-  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9][0-9]*\$|<(?!\/))?[-#+ 0,(]*[0-9.]*([tT]?[^\s\\<]))/g
+  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9][0-9]*\$|<(?!\/))?[-#+ 0,(]*[0-9.]*([tT]?[^\s\\<]))/gu
 const _blocktag = /^<(div|h[123456r]|p|d[dt]|li|\/?[dou]l)\b/
 const _breaktag = /^<[bh]r\/?>$/
 
diff --git a/js/src/android-serialize.ts b/js/src/android-serialize.ts
index 51958a3..b9e76f7 100644
--- a/js/src/android-serialize.ts
+++ b/js/src/android-serialize.ts
@@ -121,7 +121,7 @@ const escape = (src: string) =>
     .replaceAll('"', '\\"')
     // Control codes that are not valid in XML, and nonstandard whitespace
     // eslint-disable-next-line no-control-regex
-    .replace(/[\x00-\x19\x7F-\x9F]|[^\S ]|(?<= ) /g, escapeChar)
+    .replace(/[\x00-\x1F\x7F-\x9F]|[^\S ]|(?<= ) /g, escapeChar)
 
 function asTextContent(
   part: Expression,
diff --git a/js/src/mf2-serialize.ts b/js/src/mf2-serialize.ts
index c2c5770..707877d 100644
--- a/js/src/mf2-serialize.ts
+++ b/js/src/mf2-serialize.ts
@@ -36,12 +36,16 @@ export function mf2SerializeMessage(msg: Message) {
   for (const sel of msg.sel) res += ' $' + sel
   for (const { keys, pat } of msg.alt) {
     res += '\n'
-    for (const key of keys) res += typeof key === 'string' ? key + ' ' : '* '
+    for (const key of keys) res += typeof key === 'string' ? literal(key) + ' ' : '* '
     res += mf2SerializePattern(pat, true)
   }
   return res
 }
 
+// A pattern starting like this would be parsed as a complex message.
+const optionalSpaceAndDot =
+  /^[\t\n\r \u3000\u061c\u200e\u200f\u2066-\u2069]*\./
+
 /**
  * @param quoted - If `true`, the pattern is always {{quoted}}.
  *   If `'auto'`, the pattern is quoted if it starts with a {{.period}}.
@@ -59,7 +63,7 @@ export function mf2SerializePattern(
       str += isExpression(part) ? expression(part) : markup(part)
     }
   }
-  return quoted === true || (quoted === 'auto' && str.startsWith('.'))
+  return quoted === true || (quoted === 'auto' && optionalSpaceAndDot.test(str))
     ? '{{' + str + '}}'
     : str
 }
@@ -117,7 +121,7 @@ const name = new RegExp(
   `^[${nameStart}][${nameStart}0-9-.\\xb7\\u0300-\\u036f\\u203f-\\u2040]*$`,
   'u'
 )
-const number = /^-?(?:0|(?:[1-9]\d*))(?:.\d+)?(?:[eE][-+]?\d+)?$/
+const number = /^-?(?:0|(?:[1-9]\d*))(?:\.\d+)?(?:[eE][-+]?\d+)?$/
 function literal(lit: string) {
   return name.test(lit) || number.test(lit)
     ? lit
diff --git a/js/src/properties-serialize.ts b/js/src/properties-serialize.ts
index f79da1e..af59a77 100644
--- a/js/src/properties-serialize.ts
+++ b/js/src/properties-serialize.ts
@@ -40,7 +40,7 @@ export function propertiesSerializePattern(
   }
 
   // eslint-disable-next-line no-control-regex
-  str = str.replace(/[\x00-\x19\x5C\x7F-\x9F]/g, encodeChar)
+  str = str.replace(/[\x00-\x1F\x5C\x7F-\x9F]/g, encodeChar)
   if (str.startsWith(' ')) str = '\\' + str
   if (str.endsWith(' ') && !str.endsWith('\\ ')) {
     str = str.slice(0, -1) + '\\u0020'
diff --git a/js/src/webext-serialize.ts b/js/src/webext-serialize.ts
index fa2cdcc..d63b25c 100644
--- a/js/src/webext-serialize.ts
+++ b/js/src/webext-serialize.ts
@@ -28,7 +28,8 @@ export function webextSerializePattern(
     if (typeof part === 'string') {
       str += part.replace(/\$+/g, '$$$&')
     } else if ('$' in part) {
-      str += part.attr?.source ?? `$${part.$}$`
+      const arg = part.$?.match(/^(?:arg)?([1-9])$/)
+      str += part.attr?.source ?? (arg ? `$${arg[1]}` : `$${part.$}$`)
     } else {
       const error = `webext: Unsupported pattern part ${JSON.stringify(part)}`
       onError(new SerializeError(error, str.length))
diff --git a/js/src/xml-utils.ts b/js/src/xml-utils.ts
index c16b253..8196228 100644
--- a/js/src/xml-utils.ts
+++ b/js/src/xml-utils.ts
@@ -37,7 +37,10 @@ export function serialize(root: Element) {
   const name = root.tagName
   const str = new XMLSerializer().serializeToString(root)
   if (str.startsWith(`<${name}`) && str.endsWith(`</${name}>`)) {
-    return str.replace(/^<.*?>/, '').slice(0, -1 * (name.length + 3))
+    return str
+      .replace(/^<.*?>/, '')
+      .slice(0, -1 * (name.length + 3))
+      .replaceAll('\r', '&#13;')
   } else if (new RegExp(`^<${name}[^<>]*/>$`).test(str)) {
     return ''
   } else {
diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index e244f87..984a7ba 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -387,10 +387,11 @@ def set_pattern(
             else:
                 name = part.name
             attrib = cast(dict[str, str], part.options)
+            nsmap = {"xliff": xliff_ns} if name == xliff_g else None
             if part.kind == "standalone":
-                node = etree.SubElement(parent, name, attrib=attrib)
+                node = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
             elif part.kind == "open":
-                parent = etree.SubElement(parent, name, attrib=attrib)
+                parent = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
                 node = None
             elif parent != el and name == parent.tag:  # kind == 'close'
                 node = parent
-- 
2.43.0


From bddb6e7791a136d4575fe0e8cb68afda81a3ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 139/167] fix: JavaScript Fluent literals, nested placeables
 and multiline values

Selectors in nested placeables are found, escapes in string arguments are
decoded, string literals are not written as numbers, and the first character
of a multiline value is escaped when needed. A backslash before U+2028 is
an escape in properties. Python: refuse variables as options of xliff:g.
---
 js/src/fluent-parse.ts                       | 39 ++++++++++++--------
 js/src/fluent-serialize.ts                   | 31 +++++++++++-----
 js/src/properties-parse.ts                   |  2 +-
 python/moz/l10n/formats/android/serialize.py |  2 +
 4 files changed, 49 insertions(+), 25 deletions(-)

diff --git a/js/src/fluent-parse.ts b/js/src/fluent-parse.ts
index 5b0427b..1770839 100644
--- a/js/src/fluent-parse.ts
+++ b/js/src/fluent-parse.ts
@@ -196,13 +196,16 @@ function findSelectors(
   pattern: FTL.Pattern,
   result: SelectorResultRow[]
 ): SelectorResultRow[] {
-  for (const el of pattern.elements) {
-    if (
-      el instanceof FTL.Placeable &&
-      el.expression instanceof FTL.SelectExpression
-    ) {
-      const ftlSel = el.expression.selector
-      const keys = el.expression.variants.map(variantKey)
+  let el:
+    | FTL.TextElement
+    | FTL.Placeable
+    | FTL.InlineExpression
+    | FTL.SelectExpression
+  for (el of pattern.elements) {
+    while (el instanceof FTL.Placeable) el = el.expression
+    if (el instanceof FTL.SelectExpression) {
+      const ftlSel = el.selector
+      const keys = el.variants.map(variantKey)
       const msgSel = selectExpression(ftlSel, keys)
       let foundPrev = false
       for (const row of result) {
@@ -215,7 +218,7 @@ function findSelectors(
       if (!foundPrev) {
         result.push({ msgSel, ftlSelectors: [ftlSel], keys })
       }
-      for (const v of el.expression.variants) findSelectors(v.value, result)
+      for (const v of el.variants) findSelectors(v.value, result)
     }
   }
   return result
@@ -258,7 +261,7 @@ function selectExpression(
       : 'string'
     return { $: ftlSel.id.name, fn }
   } else if (ftlSel instanceof FTL.StringLiteral) {
-    return { _: ftlSel.value, fn: 'string' }
+    return { _: literalValue(ftlSel), fn: 'string' }
   } else {
     return expression(ftlSel, true)
   }
@@ -326,7 +329,7 @@ function expression(
   isSelector: boolean
 ): Expression {
   if (fe instanceof FTL.NumberLiteral) return { _: fe.value, fn: 'number' }
-  if (fe instanceof FTL.StringLiteral) return { _: fe.parse().value }
+  if (fe instanceof FTL.StringLiteral) return { _: literalValue(fe) }
   if (fe instanceof FTL.VariableReference) return { $: fe.id.name }
   if (fe instanceof FTL.MessageReference) {
     let name = fe.id.name
@@ -343,7 +346,7 @@ function expression(
     if (fe.arguments?.named.length) {
       expr.opt = Object.create(null) as Record<string, string>
       for (const arg of fe.arguments.named) {
-        expr.opt[arg.name.name] = arg.value.value
+        expr.opt[arg.name.name] = literalValue(arg.value)
       }
     }
     return expr
@@ -351,10 +354,13 @@ function expression(
   if (fe instanceof FTL.FunctionReference) {
     const ftlName = fe.id.name
     const name = ftlName.toLowerCase()
-    const arg = fe.arguments.positional[0]
+    let arg: FTL.InlineExpression | FTL.Placeable | undefined =
+      fe.arguments.positional[0]
+    while (arg instanceof FTL.Placeable)
+      arg = arg.expression as FTL.InlineExpression | FTL.Placeable
     let expr: Expression
-    if (arg instanceof FTL.BaseLiteral) {
-      expr = { _: arg.value, fn: name }
+    if (arg instanceof FTL.NumberLiteral || arg instanceof FTL.StringLiteral) {
+      expr = { _: literalValue(arg), fn: name }
     } else if (arg instanceof FTL.VariableReference) {
       expr = { $: arg.id.name, fn: name }
     } else {
@@ -363,7 +369,7 @@ function expression(
     if (fe.arguments?.named.length) {
       expr.opt = Object.create(null) as Record<string, string>
       for (const arg of fe.arguments.named) {
-        expr.opt[arg.name.name] = arg.value.value
+        expr.opt[arg.name.name] = literalValue(arg.value)
       }
     }
     expr.attr = { 'fluent-fn': ftlName }
@@ -371,3 +377,6 @@ function expression(
   }
   throw new FluentError('E0028')
 }
+
+const literalValue = (lit: FTL.NumberLiteral | FTL.StringLiteral): string =>
+  lit instanceof FTL.StringLiteral ? lit.parse().value : lit.value
diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 9f503fa..57748eb 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -42,7 +42,7 @@ export function fluentSerializeEntry(
   const msgStr = fluentSerializeMessage(entry['='], options)
   if (msgStr) {
     str += msgStr.includes('\n')
-      ? '\n' + msgStr.replace(/^/gm, '    ')
+      ? '\n' + block(msgStr, '    ')
       : ' ' + msgStr
   } else if (isTerm || !entry['+']) {
     str += ' { "" }'
@@ -59,7 +59,7 @@ export function fluentSerializeEntry(
       str += `    .${name} =`
       const attrStr = fluentSerializeMessage(value, options) || '{ "" }'
       str += attrStr.includes('\n')
-        ? `\n${attrStr.replace(/^/gm, '        ')}\n`
+        ? `\n${block(attrStr, '        ')}\n`
         : ` ${attrStr}\n`
     }
   }
@@ -157,10 +157,14 @@ function variant(
   const pre = `   ${d}[${k}]`
   const value = pattern.join('').trimEnd() || '{ "" }'
   return value.includes('\n')
-    ? `${pre}\n${value.replace(/^/gm, '        ')}\n`
+    ? `${pre}\n${block(value, '        ')}\n`
     : `${pre} ${value}\n`
 }
 
+/** Indents a multiline value, escaping its first character if needed. */
+const block = (value: string, indent: string) =>
+  indent + value.replace(/^[*.[]/, '{ "$&" }').replaceAll('\n', `\n${indent}`)
+
 export function fluentSerializePattern(
   pattern: Pattern,
   declarations?: Record<string, Expression>,
@@ -221,7 +225,11 @@ function expression(
   }
 
   let arg: string | undefined
-  if ('_' in expr && expr._ !== undefined) arg = literal(expr._)
+  if ('_' in expr && expr._ !== undefined)
+    arg =
+      !('fn' in expr) || (expr.fn === 'string' && !expr.attr?.['fluent-fn'])
+        ? stringLiteral(expr._)
+        : literal(expr._)
   else if ('$' in expr && isIdentifier(expr.$)) arg = '$' + expr.$
 
   if ('fn' in expr && isIdentifier(expr.fn)) {
@@ -236,8 +244,12 @@ function expression(
       }
     }
     options.sort()
-    let ftlName
-    switch (expr.fn) {
+    let ftlName = expr.attr?.['fluent-fn']
+    // MESSAGE() and STRING() are not references or literals
+    const isCall =
+      typeof ftlName === 'string' &&
+      (expr.fn === 'message' || expr.fn === 'string')
+    switch (isCall ? '' : expr.fn) {
       case 'message': {
         if (expr._ !== undefined) {
           const id = expr._
@@ -278,7 +290,6 @@ function expression(
         if (!arg) {
           throw new SerializeError(`fluent: Argument required for :${expr.fn}`)
         }
-        ftlName = expr.attr?.['fluent-fn']
         if (!ftlName) {
           if (expr.fn === 'number') {
             if (options.length === 0) return arg
@@ -290,7 +301,6 @@ function expression(
       // fallthrough
 
       default: {
-        ftlName ??= expr.attr?.['fluent-fn']
         if (!ftlName || typeof ftlName !== 'string') {
           const error = `fluent: A @fluent-fn attribute is required for :${expr.fn}`
           throw new SerializeError(error)
@@ -307,7 +317,10 @@ function expression(
 
 function literal(value: string | undefined): string {
   if (!value) return '""'
-  if (/^-?\d+(\.\d*)?$/.test(value)) return value
+  return /^-?\d+(\.\d+)?$/.test(value) ? value : stringLiteral(value)
+}
+
+function stringLiteral(value: string): string {
   const escStr = value
     // eslint-disable-next-line no-control-regex
     .replace(/[\x00-\x1F\\"\x7F-\x9F]/g, (ch) => {
diff --git a/js/src/properties-parse.ts b/js/src/properties-parse.ts
index 621f54d..476c9fe 100644
--- a/js/src/properties-parse.ts
+++ b/js/src/properties-parse.ts
@@ -16,7 +16,7 @@
 import type { Pattern } from './model.ts'
 
 export function propertiesParsePattern(src: string): Pattern {
-  const value = src.replace(/\\(u[0-9A-Fa-f]{1,4}|.)/g, decodeEscape)
+  const value = src.replace(/\\(u[0-9A-Fa-f]{1,4}|.)/gs, decodeEscape)
   return value ? [value] : []
 }
 
diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 984a7ba..07c35ff 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -346,6 +346,8 @@ def set_pattern(
             ent_name = entity_name(part)
             if part.attributes.get("translate", None) == "no":
                 # <xliff:g>
+                if not all(isinstance(v, str) for v in part.options.values()):
+                    raise ValueError(f"Unsupported placeholder option value: {part}")
                 attrib = cast(dict[str, str], part.options) if part.function else None
                 nsmap = {"xliff": xliff_ns} if not el.nsmap.get("xliff", None) else None
                 node = etree.SubElement(parent, xliff_g, attrib=attrib, nsmap=nsmap)
-- 
2.43.0


From b7645516525979ed945fcd64e10b9306719b9bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 140/167] fix: normalizeMessage with variables named like
 properties of Object

---
 js/src/model-utils.ts | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/js/src/model-utils.ts b/js/src/model-utils.ts
index 117bae6..05bffed 100644
--- a/js/src/model-utils.ts
+++ b/js/src/model-utils.ts
@@ -97,7 +97,7 @@ function normalizeDeclarations(
   msg: PatternMessage | SelectMessage,
   varRefs: Set<string>
 ): Record<string, Expression> | null {
-  const declRefs: Record<string, Set<string>> = {}
+  const declRefs = new Map<string, Set<string>>()
   for (const [name, decl] of Object.entries(msg.decl)) {
     const refs = new Set<string>()
     if (typeof decl.$ === 'string' && decl.$ !== name) refs.add(decl.$)
@@ -106,13 +106,13 @@ function normalizeDeclarations(
         if (typeof optVal !== 'string') refs.add(optVal.$)
       }
     }
-    if (refs.size) declRefs[name] = refs
+    if (refs.size) declRefs.set(name, refs)
   }
 
   function* varDependencies(name: string): Iterable<string> {
-    const drs = declRefs[name]
+    const drs = declRefs.get(name)
     if (drs) {
-      delete declRefs[name]
+      declRefs.delete(name)
       for (const dr of drs) {
         yield dr
         yield* varDependencies(dr)
@@ -124,15 +124,8 @@ function normalizeDeclarations(
     for (const dr of varDependencies(ref)) varRefs.add(dr)
   }
 
-  let hasDecl = false
-  const decl: Record<string, Expression> = {}
-  for (const [name, exp] of Object.entries(msg.decl)) {
-    if (varRefs.has(name)) {
-      decl[name] = structuredClone(exp)
-      hasDecl = true
-    }
-  }
-  return hasDecl ? decl : null
+  const decl = Object.entries(msg.decl).filter(([name]) => varRefs.has(name))
+  return decl.length ? Object.fromEntries(structuredClone(decl)) : null
 }
 
 /**
-- 
2.43.0


From 568f50fa7940dfcb573cbe94187509c4b66e430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 141/167] fix: JSON readers refuse malformed documents and
 repeated variants with MF2ValidationError

---
 python/moz/l10n/formats/mf2/from_json.py |  28 +++--
 python/moz/l10n/message/from_json.py     | 127 ++++++++++++++++-------
 2 files changed, 107 insertions(+), 48 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 654484b..85d97f8 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -42,7 +42,7 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             raise MF2ValidationError(f"Invalid JSON message: {json}")
 
         declarations: dict[str, Expression] = {}
-        for decl in json["declarations"]:
+        for decl in _list(json["declarations"]):
             decl_type = decl["type"]
             if decl_type not in {"input", "local"}:
                 raise MF2ValidationError(f"Invalid JSON declaration type: {decl}")
@@ -63,13 +63,15 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             return PatternMessage(pattern, declarations)
 
         assert msg_type == "select"
-        selectors = tuple(_variable(sel) for sel in json["selectors"])
-        variants = {
-            tuple(_key(key) for key in vari["keys"]): _pattern(vari["value"])
-            for vari in json["variants"]
-        }
+        selectors = tuple(_variable(sel) for sel in _list(json["selectors"]))
+        variants: dict[tuple[str | CatchallKey, ...], Pattern] = {}
+        for vari in _list(json["variants"]):
+            keys = tuple(_key(key) for key in _list(vari["keys"]))
+            if keys in variants:
+                raise MF2ValidationError(f"Duplicate JSON variant: {vari}")
+            variants[keys] = _pattern(vari["value"])
         return SelectMessage(declarations, selectors, variants)
-    except (IndexError, KeyError, TypeError) as err:
+    except (AttributeError, IndexError, KeyError, TypeError) as err:
         raise MF2ValidationError(f"Invalid JSON: {err!r}")
 
 
@@ -80,7 +82,7 @@ def _pattern(json: list[Any]) -> Pattern:
         else _markup(part)
         if part["type"] == "markup"
         else _expression(part)
-        for part in json
+        for part in _list(json)
     ]
 
 
@@ -88,8 +90,8 @@ def _expression(json: dict[str, Any]) -> Expression:
     if json["type"] != "expression":
         raise MF2ValidationError(f"Invalid JSON expression type: {json}")
     arg = _value(json["arg"]) if "arg" in json else None
-    json_func = json.get("function", None)
-    if json_func:
+    if "function" in json:
+        json_func = json["function"]
         if json_func["type"] != "function":
             raise MF2ValidationError(f"Invalid JSON function type: {json_func}")
         function = _string(json_func, "name")
@@ -160,3 +162,9 @@ def _string(obj: dict[str, Any], key: str | None = None) -> str:
         return value
     else:
         raise MF2ValidationError(f"Expected a string value for {key} in {obj}")
+
+
+def _list(json: Any) -> list[Any]:
+    if isinstance(json, list):
+        return json
+    raise MF2ValidationError(f"Expected a JSON array: {json}")
diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index 909cdb6..506de8a 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -18,6 +18,7 @@ from collections.abc import Mapping
 from re import findall
 from typing import Any, Literal
 
+from ..formats.mf2.validate import MF2ValidationError
 from ..model import (
     CatchallKey,
     Entry,
@@ -49,14 +50,22 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
         id = tuple(parts)
     else:
         id = tuple(key.split("."))
-    meta = [Metadata(key, value) for key, value in json["@"]] if "@" in json else []
+    if not isinstance(json, Mapping):
+        raise MF2ValidationError(f"Invalid JSON entry: {json}")
+    meta = []
+    for item in _list(json["@"]) if "@" in json else []:
+        if len(_list(item)) != 2:
+            raise MF2ValidationError(f"Invalid JSON metadata: {item}")
+        meta.append(Metadata(_string(item[0]), _string(item[1])))
 
     return Entry(
         id=id,
         meta=meta,
-        comment=json.get("#", ""),
+        comment=_string(json["#"]) if "#" in json else "",
         value=message_from_json(json["="]) if "=" in json else PatternMessage([]),
-        properties={key: message_from_json(value) for key, value in json["+"].items()}
+        properties={
+            key: message_from_json(value) for key, value in _mapping(json["+"]).items()
+        }
         if "+" in json
         else {},
     )
@@ -69,31 +78,36 @@ def message_from_json(json: list[Any] | dict[str, Any]) -> Message:
 
     May raise `MF2ValidationError`.
     """
-    if isinstance(json, Mapping) and "sel" in json:
-        return SelectMessage(
-            declarations={
-                name: _expression(value) for name, value in json["decl"].items()
-            },
-            selectors=tuple(VariableRef(sel) for sel in json["sel"]),
-            variants={
-                tuple(
-                    key if isinstance(key, str) else CatchallKey(key["*"] or None)
-                    for key in variant["keys"]
-                ): _pattern(variant["pat"])
-                for variant in json["alt"]
-            },
-        )
-    else:
-        declarations = {}
-        if isinstance(json, Mapping):
-            if "decl" in json:
-                declarations = {
-                    name: _expression(value) for name, value in json["decl"].items()
-                }
-            pattern = _pattern(json["msg"])
+    try:
+        if isinstance(json, Mapping) and "sel" in json:
+            variants: dict[tuple[str | CatchallKey, ...], Pattern] = {}
+            for variant in _list(json["alt"]):
+                keys = tuple(_key(key) for key in _list(variant["keys"]))
+                if keys in variants:
+                    raise MF2ValidationError(f"Duplicate JSON variant: {variant}")
+                variants[keys] = _pattern(variant["pat"])
+            return SelectMessage(
+                declarations=_declarations(json["decl"]),
+                selectors=tuple(
+                    VariableRef(_string(sel)) for sel in _list(json["sel"])
+                ),
+                variants=variants,
+            )
+        elif isinstance(json, Mapping):
+            declarations = _declarations(json["decl"]) if "decl" in json else {}
+            return PatternMessage(_pattern(json["msg"]), declarations)
         else:
-            pattern = _pattern(json)
-        return PatternMessage(pattern, declarations)
+            return PatternMessage(_pattern(json))
+    except (KeyError, TypeError) as err:
+        raise MF2ValidationError(f"Invalid JSON: {err!r}")
+
+
+def _declarations(json: dict[str, Any]) -> dict[str, Expression]:
+    return {name: _expression(value) for name, value in _mapping(json).items()}
+
+
+def _key(json: str | dict[str, Any]) -> str | CatchallKey:
+    return json if isinstance(json, str) else CatchallKey(_string(json["*"]) or None)
 
 
 def _pattern(json: list[str | dict[str, Any]]) -> Pattern:
@@ -103,24 +117,36 @@ def _pattern(json: list[str | dict[str, Any]]) -> Pattern:
         else _expression(part)
         if "_" in part or "$" in part or "fn" in part
         else _markup(part)
-        for part in json
+        for part in _list(json)
     ]
 
 
 def _expression(json: dict[str, Any]) -> Expression:
+    arg: str | VariableRef | None
     if "_" in json:
-        arg = json["_"]
+        arg = _string(json["_"])
     elif "$" in json:
-        arg = VariableRef(json["$"])
+        arg = VariableRef(_string(json["$"]))
     else:
         arg = None
-    function = json.get("fn", None)
-    options = _options(json["opt"]) if function is not None and "opt" in json else {}
-    return Expression(arg, function, options, dict(json.get("attr", {})))
+    function = _string(json["fn"]) if "fn" in json else None
+    if arg is None and function is None:
+        raise MF2ValidationError(
+            f"Invalid JSON expression with no operand and no function: {json}"
+        )
+    options = _options(json["opt"]) if "opt" in json else {}
+    return Expression(
+        arg,
+        function,
+        options if function is not None else {},
+        _attributes(json["attr"]) if "attr" in json else {},
+    )
 
 
 def _markup(json: dict[str, Any]) -> Markup:
     kind: Literal["open", "standalone", "close"]
+    if ("open" in json) + ("close" in json) + ("elem" in json) != 1:
+        raise MF2ValidationError(f"Invalid JSON markup: {json}")
     if "open" in json:
         kind = "open"
         name = json["open"]
@@ -132,14 +158,39 @@ def _markup(json: dict[str, Any]) -> Markup:
         name = json["elem"]
     return Markup(
         kind,
-        name,
-        _options(json.get("opt", {})),
-        dict(json.get("attr", {})),
+        _string(name),
+        _options(json["opt"]) if "opt" in json else {},
+        _attributes(json["attr"]) if "attr" in json else {},
     )
 
 
 def _options(json: dict[str, Any]) -> dict[str, str | VariableRef]:
     return {
-        name: value if isinstance(value, str) else VariableRef(value["$"])
-        for name, value in json.items()
+        name: value if isinstance(value, str) else VariableRef(_string(value["$"]))
+        for name, value in _mapping(json).items()
+    }
+
+
+def _attributes(json: dict[str, Any]) -> dict[str, str | Literal[True]]:
+    return {
+        name: True if value is True else _string(value)
+        for name, value in _mapping(json).items()
     }
+
+
+def _list(json: Any) -> list[Any]:
+    if isinstance(json, list):
+        return json
+    raise MF2ValidationError(f"Expected a JSON array: {json}")
+
+
+def _mapping(json: Any) -> Mapping[str, Any]:
+    if isinstance(json, Mapping):
+        return json
+    raise MF2ValidationError(f"Expected a JSON object: {json}")
+
+
+def _string(json: Any) -> str:
+    if isinstance(json, str):
+        return json
+    raise MF2ValidationError(f"Expected a JSON string: {json}")
-- 
2.43.0


From d4653a9c376cba51c31e12a60d6608e5100b2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 142/167] fix: XLIFF parser refuses text and elements that it
 does not keep

---
 python/moz/l10n/formats/xliff/parse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index d679b6f..a0931e2 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -108,6 +108,8 @@ def xliff_parse(
             file_name = file.attrib.get("original", None)
             if file_name is None:
                 raise ValueError(f'Missing "original" attribute for <file>: {file}')
+            if file.text and not file.text.isspace():
+                raise ValueError(f"Unexpected text in <file>: {file.text}")
             meta = attrib_as_metadata(file, None, ("original",))
             entries: list[Entry[Message] | Comment] = []
             body = None
@@ -140,6 +142,9 @@ def xliff_parse(
 
             is_xcode = xcode_tool_id in meta
             if is_xcode:
+                for unit in body:
+                    if unit.tail and not unit.tail.isspace():
+                        raise ValueError(f"Unexpected text in <body>: {unit.tail}")
                 body_comments = [
                     Comment(comment_str(c.text)) for c in body.iterchildren(etree.Comment)
                 ]
@@ -171,6 +176,8 @@ def xliff_parse(
                     )
                 if unit.tail and not unit.tail.isspace():
                     raise ValueError(f"Unexpected text in <body>: {unit.tail}")
+        elif isinstance(file.tag, str):
+            raise ValueError(f"Unsupported <{file.tag}> element in <xliff>: {root}")
     return res
 
 
-- 
2.43.0


From 5298a706a1cea1383f6321743c80e64f9ac61a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 143/167] fix: Android parser refuses repeated plural
 quantities and warns about item attributes

---
 python/moz/l10n/formats/android/parse.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index b625e3f..33d33d9 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -173,6 +173,13 @@ def android_parse(
                     if isinstance(item, etree._Comment):
                         comment.append(item.text)
                     elif item.tag == "item":
+                        if item.attrib:
+                            cs = etree.tostring(
+                                item, encoding="unicode", with_tail=False
+                            )
+                            log.warning(
+                                f"Unsupported attributes in {name} string-array: {cs}"
+                            )
                         value = PatternMessage(
                             list(parse_pattern(item, ascii_spaces, literal_quotes))
                         )
@@ -312,6 +319,13 @@ def parse_plurals(
             key = item.attrib.get("quantity", None)
             if key not in plural_categories:
                 raise ValueError(f"Invalid quantity for {name} plurals item: {key}")
+            variant_key: str | CatchallKey
+            variant_key = CatchallKey(key) if key == "other" else key
+            if (variant_key,) in msg.variants:
+                raise ValueError(f"Duplicate quantity for {name} plurals item: {key}")
+            if len(item.attrib) > 1:
+                cs = etree.tostring(item, encoding="unicode", with_tail=False)
+                log.warning(f"Unsupported attributes in {name} plurals: {cs}")
             if var_comment:
                 add_comment(
                     (f"{key}: {c}" for c in var_comment if c)
@@ -319,7 +333,7 @@ def parse_plurals(
                     else var_comment
                 )
                 var_comment.clear()
-            msg.variants[(CatchallKey(key) if key == "other" else key,)] = list(
+            msg.variants[(variant_key,)] = list(
                 parse_pattern(item, ascii_spaces, literal_quotes)
             )
         else:
-- 
2.43.0


From de8da70996a60521e402d324bdcc434b30c91aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 144/167] fix: refuse several keys per variant in .xcstrings
 messages

---
 python/moz/l10n/formats/xliff/serialize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 5eeb101..dda0e27 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -365,6 +365,9 @@ def add_xcstrings_selectmessage(
         raise ValueError(
             f"Serialization is only supported for messages with one selector: {msg.selectors}"
         )
+    for keys in msg.variants:
+        if len(keys) != 1:
+            raise ValueError(f"Unsupported variants keys for {msg_id}: {keys}")
     (sel,) = msg.selector_expressions()
 
     # Also catches empty sel_exp
-- 
2.43.0


From fa532bdca5e17327a30bb9ad25372cc17318edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 145/167] fix: Android relative placeholders keep referring to
 the argument before them

---
 js/src/android-parse.ts                  | 12 +++++++++++-
 python/moz/l10n/formats/android/parse.py | 10 ++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 35f4605..cfb4cd0 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -15,6 +15,7 @@
 
 import { ParseError } from './errors.ts'
 import {
+  isExpression,
   isMarkup,
   type Expression,
   type Markup,
@@ -280,7 +281,7 @@ function* parseInline(
               if (prevVarName) {
                 name = prevVarName
                 const prevIdx = name.match(/[1-9][0-9]*$/)
-                attr.source = `%${prevIdx ? prevIdx[0] + '$' : ''}${m[0].substring(2)}`
+                if (prevIdx) attr.source = `%${prevIdx[0]}$${m[0].substring(2)}`
               } else {
                 throw new ParseError(`Invalid ${m[0]} placeholder`)
               }
@@ -305,6 +306,15 @@ function* parseInline(
         buffer = ''
       }
       atBreak = false
+      if (isExpression(part) && part.attr?.translate) {
+        // The contents of an <xliff:g> may include placeholders
+        const body = part.attr.source || part._
+        for (const m of (typeof body === 'string' ? body : '').matchAll(_inline)) {
+          if (m[5] && !'%n'.includes(m[5]) && !m[4].startsWith('%<')) {
+            prevVarName = varName(m[4])
+          }
+        }
+      }
       yield part
     }
   }
diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 33d33d9..5e8b779 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -506,6 +506,12 @@ def parse_inline(
                 yield acc
                 acc = ""
             at_br = False
+            if isinstance(part, Expression) and "translate" in part.attributes:
+                # The contents of an <xliff:g> may include placeholders
+                body = part.attributes.get("source", None) or part.arg
+                for m in inline_re.finditer(body if isinstance(body, str) else ""):
+                    if m[5] and m[5] not in {"%", "n"} and not m[4].startswith("%<"):
+                        prev_var_name = get_var_name(m[4])
             yield part
         else:
             pos = 0
@@ -571,8 +577,8 @@ def parse_inline(
                             if prev_var_name:
                                 name = prev_var_name
                                 prev_idx_m = var_idx_re.search(name)
-                                prev_idx = prev_idx_m[0] + "$" if prev_idx_m else ""
-                                source = f"%{prev_idx}{source[2:]}"
+                                if prev_idx_m:
+                                    source = f"%{prev_idx_m[0]}${source[2:]}"
                             else:
                                 raise ValueError(f"Invalid {source} placeholder")
                         else:
-- 
2.43.0


From a75046795141eb34ced50cca61cdfb793ba793ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 146/167] fix: refuse duplicate units in .xcstrings files

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index dd873c4..390789a 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -75,11 +75,15 @@ def parse_xliff_xcstrings(
     ns: str, body: etree._Element, from_source: bool
 ) -> Iterator[Entry[Message]]:
     units: dict[str, XcstringsMsgData] = defaultdict(XcstringsMsgData)
+    seen: set[str] = set()
     for unit in body.iterchildren(etree.Element):
         if unit.tag != f"{ns}trans-unit":
             raise ValueError(f"Unsupported <{unit.tag!s}> element in <body>: {body}")
         if "id" not in unit.attrib:
             raise ValueError(f'Missing "id" attribute for <trans-unit>: {unit}')
+        if unit.attrib["id"] in seen:
+            raise ValueError(f"Duplicate Xcode message {unit.attrib['id']}")
+        seen.add(unit.attrib["id"])
         if unit.text and not unit.text.isspace():
             raise ValueError(f"Unexpected text in <trans-unit>: {unit.text}")
         parse_xliff_xcstrings_unit(ns, units, unit, from_source)
-- 
2.43.0


From 7ca287d217609672036ab05b0e9b6131a968028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 147/167] fix: Android references next to comments, and
 variable names of identifiers that start with digits or dashes; match these
 in JavaScript

---
 js/src/android-parse.ts                  | 16 +++++++++-------
 python/moz/l10n/formats/android/parse.py | 17 ++++++++++-------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index cfb4cd0..e3b8404 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -50,7 +50,11 @@ export function androidParsePattern(src: string): Pattern {
     throw new ParseError(errMsg)
   }
 
-  if (root.childElementCount === 0 && resoureRef.test(root.textContent ?? '')) {
+  if (
+    root.childElementCount === 0 &&
+    Object.keys(entities).length === 0 &&
+    resoureRef.test(root.textContent ?? '')
+  ) {
     // https://developer.android.com/guide/topics/resources/providing-resources#ResourcesFromXml
     return [{ _: root.textContent!, fn: 'reference' }]
   }
@@ -323,11 +327,11 @@ function* parseInline(
 
 // Exclude : for compatibility with MF2
 const _notNameStart =
-  /^[^A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u{010000}-\u{0EFFFF}]/u
+  /^[^A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u{010000}-\u{0EFFFF}]+/u
 const _notNameChar = new RegExp(
   // eslint-disable-next-line no-misleading-character-class
-  _notNameStart.source.slice(1, -1) +
-    '.0-9\\xB7\\u0300-\\u036F\\u203F-\\u2040]',
+  _notNameStart.source.slice(1, -2) +
+    '.0-9\\xB7\\u0300-\\u036F\\u203F-\\u2040-]',
   'gu'
 )
 
@@ -335,7 +339,5 @@ const _notNameChar = new RegExp(
 function varName(src: string): string {
   const printf = src.match(/^%(?:([1-9][0-9]*)\$)?/)
   if (printf) return printf[1] ? `arg${printf[1]}` : 'arg'
-  let name = src.replace(_notNameChar, '')
-  if (_notNameStart.test(name)) name = name.substring(1)
-  return name || 'arg'
+  return src.replace(_notNameChar, '').replace(_notNameStart, '') || 'arg'
 }
diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 5e8b779..215a2b4 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -351,11 +351,15 @@ resource_ref = compile(r"@(?:\w+:)?\w+/\w+|\?(?:\w+:)?(\w+/)?\w+")
 def parse_pattern(
     el: etree._Element, ascii_spaces: bool, literal_quotes: bool
 ) -> Iterator[str | Expression | Markup]:
-    if len(el) == 0 and el.text and resource_ref.fullmatch(el.text):
+    parts = list(flatten(el))
+    if (
+        len(parts) == 1
+        and isinstance(parts[0], str)
+        and resource_ref.fullmatch(parts[0])
+    ):
         # https://developer.android.com/guide/topics/resources/providing-resources#ResourcesFromXml
-        yield Expression(el.text, "reference")
+        yield Expression(parts[0], "reference")
     else:
-        parts = list(flatten(el))
         if parts:
             if isinstance(parts[0], str):
                 parts[0] = parts[0].lstrip()
@@ -601,7 +605,7 @@ def parse_inline(
 
 arg_idx = compile(r"%([1-9][0-9]*\$)?")
 not_name_char = compile(f"[^{xml_name_start}{xml_name_rest}]")
-not_name_start = compile(f"[^{xml_name_start}]")
+not_name_start = compile(f"[^{xml_name_start}]+")
 
 
 def get_var_name(src: str) -> str:
@@ -610,6 +614,5 @@ def get_var_name(src: str) -> str:
     if pm:
         return f"arg{pm[1][:-1]}" if pm[1] else "arg"
     name = not_name_char.sub("", src)
-    if not_name_start.match(name):
-        name = name[1:]
-    return name or "arg"
+    start = not_name_start.match(name)
+    return (name[start.end() :] if start else name) or "arg"
-- 
2.43.0


From 16743f5b190508f19d1bce63efe5bed684842fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 148/167] fix: XLIFF placeholders that hold only a comment, and
 non-ASCII Android references in JavaScript

---
 js/src/android-parse.ts                           | 3 ++-
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index e3b8404..e50b0c4 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -23,7 +23,8 @@ import {
 } from './model.ts'
 import { getAttributes } from './xml-utils.ts'
 
-export const resoureRef = /^(?:@(?:\w+:)?\w+\/\w+|\?(?:\w+:)?(\w+\/)?\w+)$/
+export const resoureRef =
+  /^(?:@(?:[\p{L}\p{N}_]+:)?[\p{L}\p{N}_]+\/[\p{L}\p{N}_]+|\?(?:[\p{L}\p{N}_]+:)?([\p{L}\p{N}_]+\/)?[\p{L}\p{N}_]+)$/u
 
 // CDATA sections are matched to not find entity references in them
 const _entityRef = /<!\[CDATA\[[^]*?\]\]>|&([a-z_][\w.-]*);/gi
diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index df0a05e..ac79a05 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -88,11 +88,12 @@ def parse_pattern(
             ns = q.namespace
             name = q.localname if not ns or ns in xliff_ns else q.text
             options: dict[str, str | VariableRef] = dict(child.attrib)
-            if name in ("x", "bx", "ex") and not child.text and len(child) == 0:
+            body = list(parse_pattern(child, is_xcode))
+            if name in ("x", "bx", "ex") and not body:
                 yield Markup("standalone", name, options)
             else:
                 yield Markup("open", name, options)
-                yield from parse_pattern(child, is_xcode)
+                yield from body
                 yield Markup("close", name)
         text += child.tail or ""
     yield from parse_text(text, is_xcode)
-- 
2.43.0


From d1f98505b7ae2dd3da173a4c8acb83ccd7cae67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 149/167] fix: non-ASCII entity names of Android references in
 JavaScript

---
 js/src/android-parse.ts | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index e50b0c4..df786c6 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -26,8 +26,18 @@ import { getAttributes } from './xml-utils.ts'
 export const resoureRef =
   /^(?:@(?:[\p{L}\p{N}_]+:)?[\p{L}\p{N}_]+\/[\p{L}\p{N}_]+|\?(?:[\p{L}\p{N}_]+:)?([\p{L}\p{N}_]+\/)?[\p{L}\p{N}_]+)$/u
 
+// Exclude : for compatibility with MF2
+const _nameStart =
+  'A-Z_a-z\\xC0-\\xD6\\xD8-\\xF6\\xF8-\\u02FF\\u0370-\\u037D\\u037F-\\u1FFF\\u200C-\\u200D\\u2070-\\u218F\\u2C00-\\u2FEF\\u3001-\\uD7FF\\uF900-\\uFDCF\\uFDF0-\\uFFFD\\u{010000}-\\u{0EFFFF}'
+const _nameChar = _nameStart + '.0-9\\xB7\\u0300-\\u036F\\u203F-\\u2040\\-'
+const _notNameStart = new RegExp(`^[^${_nameStart}]+`, 'u')
+const _notNameChar = new RegExp(`[^${_nameChar}]`, 'gu')
+
 // CDATA sections are matched to not find entity references in them
-const _entityRef = /<!\[CDATA\[[^]*?\]\]>|&([a-z_][\w.-]*);/gi
+const _entityRef = new RegExp(
+  `<!\\[CDATA\\[[^]*?\\]\\]>|&([${_nameStart}][${_nameChar}]*);`,
+  'gu'
+)
 const _xmlEntities = new Set(['amp', 'lt', 'gt', 'apos', 'quot'])
 let _xmlEntityKey = Math.floor(Math.random() * 1e9)
 
@@ -326,16 +336,6 @@ function* parseInline(
   if (buffer) yield buffer
 }
 
-// Exclude : for compatibility with MF2
-const _notNameStart =
-  /^[^A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u{010000}-\u{0EFFFF}]+/u
-const _notNameChar = new RegExp(
-  // eslint-disable-next-line no-misleading-character-class
-  _notNameStart.source.slice(1, -2) +
-    '.0-9\\xB7\\u0300-\\u036F\\u203F-\\u2040-]',
-  'gu'
-)
-
 /** Returns a valid MF2 name */
 function varName(src: string): string {
   const printf = src.match(/^%(?:([1-9][0-9]*)\$)?/)
-- 
2.43.0


From 52362a47d3d5564576aa4e23de659375fd98026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 150/167] fix: Use the default of get_pattern() when an entry
 does not have the property

---
 python/moz/l10n/migrate/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 92153cd..8be8cfe 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -130,6 +130,8 @@ def get_pattern(
         msg = entry.value
     elif property in entry.properties:
         msg = entry.properties[property]
+    elif default is not None:
+        return default
     else:
         raise StopIteration
 
-- 
2.43.0


From d5c1efdf06a7f46e5c1671a5b508d675b1e8838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 151/167] fix: Copy all variants of the property in migration
 copies

---
 python/moz/l10n/migrate/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index bb1c7ba..2110dce 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -218,6 +218,13 @@ def copy(
                 log.debug(f"Copy-from entry not found: {ctx.pretty_id(id)}")
                 return None
 
+        if property is not None and variant is None:
+            entry = get_entry(res_, *id)
+            if entry and isinstance(entry.properties.get(property), SelectMessage):
+                msg = deepcopy(entry.properties[property])
+                _replace_placeholders(msg, replace)
+                return msg, {id}
+
         try:
             pattern = get_pattern(res_, *id, property=property, variant=variant)
             pattern = deepcopy(pattern)
-- 
2.43.0


From 9e0d20aab11bd4709ebc78811f55c8da38b88742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 152/167] fix: Do not drop Fluent resource metadata that
 follows its info field

---
 python/moz/l10n/formats/fluent/serialize.py | 28 ++++++++-------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 4bc66ab..6eb5e02 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -108,16 +108,10 @@ def fluent_astify(
         if trim_comments:
             return ""
         cs = node.comment.rstrip()
-        if not isinstance(node, Comment) and node.meta:
-            if not serialize_metadata:
-                raise ValueError("Metadata requires serialize_metadata parameter")
-            for field in node.meta:
-                if (
-                    isinstance(node, Resource)
-                    and field.key == "info"
-                    and field == node.meta[0]
-                ):
-                    continue
+        if not isinstance(node, Comment):
+            for field in node.meta[1:] if node is resource and has_info else node.meta:
+                if not serialize_metadata:
+                    raise ValueError("Metadata requires serialize_metadata parameter")
                 meta_str = serialize_metadata(field)
                 if meta_str:
                     ms = meta_str.strip("\n")
@@ -126,17 +120,15 @@ def fluent_astify(
 
     body: list[ftl.EntryType] = []
     res_info = resource.meta[0] if resource.meta else None
-    if (
-        not trim_comments
-        and res_info
+    has_info = (
+        res_info is not None
         and res_info.key == "info"
         and isinstance(res_info.value, str)
-        and res_info.value
-    ):
+        and res_info.value != ""
+    )
+    if res_info and has_info and not trim_comments:
         body.append(ftl.Comment(res_info.value))
-        res_comment = resource.comment.rstrip()
-    else:
-        res_comment = comment_str(resource)
+    res_comment = comment_str(resource)
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
-- 
2.43.0


From 01c2ab755d45228e8c544312900908cde181a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 153/167] fix: Ignore Xcode notes with only white space, as is
 done for empty ones

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 390789a..90a420a 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -516,7 +516,7 @@ def get_xcode_unit_data(ns: str, unit: etree._Element) -> XcodeUnitData:
             else:
                 error("Duplicate <target>")
         elif el.tag == f"{ns}note":
-            if el.attrib or el.text:
+            if el.attrib or (el.text and not el.text.isspace()):
                 notes.append(el)
         else:
             error(f"Unexpected <{el.tag!s}>")
-- 
2.43.0


From 1d5770045fb568ad587931b9679d94bde38d648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 154/167] fix: Do not open a file named by the contents given
 to parse_resource

---
 python/moz/l10n/formats/gettext/parse.py   | 2 ++
 python/moz/l10n/resource/parse_resource.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 1872d0e..5c04c03 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -63,6 +63,8 @@ def gettext_parse(
     - `previous-context`, `previous-id`, `previous-plural`
     """
     if not isinstance(source, str):
+        # With a final newline, polib will not take contents for a file path.
+        source += b"\n"
         # As when parsing a file, respect the charset of the header.
         source = str(source, detect_encoding(source))
     pf = pofile(source)
diff --git a/python/moz/l10n/resource/parse_resource.py b/python/moz/l10n/resource/parse_resource.py
index de819a5..a3e2589 100644
--- a/python/moz/l10n/resource/parse_resource.py
+++ b/python/moz/l10n/resource/parse_resource.py
@@ -77,6 +77,9 @@ def parse_resource(
     elif format == Format.gettext:
         # Workaround for https://github.com/izimobil/polib/issues/170
         source_ = cast(str, input) if input_is_file else source
+        if isinstance(source_, str) and not input_is_file:
+            # With a final newline, polib will not take contents for a file path.
+            source_ += "\n"
         return gettext_parse(
             source_, plurals=gettext_plurals, skip_obsolete=gettext_skip_obsolete
         )
-- 
2.43.0


From 066350aa60adb7aed388fe9046b0b819812c76b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 155/167] fix: Do not read files named by the DTD of an XML
 source

---
 python/moz/l10n/formats/__init__.py    |  7 ++++++-
 python/moz/l10n/formats/xliff/parse.py | 19 ++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index cb99450..3d19bd4 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -136,7 +136,12 @@ def detect_format(name: str | None, source: bytes | str | None = None) -> Format
         else:
             bs, encoding = source, None
         _, xml_root = next(
-            iterparse(BytesIO(bs), events=("start",), encoding=encoding)
+            iterparse(
+                BytesIO(bs),
+                events=("start",),
+                encoding=encoding,
+                resolve_entities=False,  # Do not read external entities from files
+            )
         )
         ns = xml_root.nsmap.get(None, None)
         if ns:
diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index a0931e2..a8c08fd 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -42,6 +42,13 @@ from .parse_trans_unit import parse_pattern, parse_trans_unit
 from .parse_xcode import parse_xliff_stringsdict, parse_xliff_xcstrings
 
 
+class NoExternalEntities(etree.Resolver):
+    """Keep the external parameter entities of a DTD from being read from files."""
+
+    def resolve(self, system_url, public_id, context):  # type: ignore[no-untyped-def]
+        return self.resolve_string("", context)
+
+
 def xliff_parse(
     source: str | bytes, *, source_entries: bool = False
 ) -> Resource[Message]:
@@ -67,11 +74,13 @@ def xliff_parse(
     NOTE: At most one substitution is supported,
     and combinations of selectors (such as device + plural) are not supported.
     """
-    if isinstance(source, str):
-        # The encoding of an XML declaration does not apply to a string source.
-        root = etree.fromstring(source.encode(), etree.XMLParser(encoding="utf-8"))
-    else:
-        root = etree.fromstring(source)
+    # The encoding of an XML declaration does not apply to a string source.
+    encoding = "utf-8" if isinstance(source, str) else None
+    parser = etree.XMLParser(encoding=encoding)
+    parser.resolvers.add(NoExternalEntities())
+    root = etree.fromstring(
+        source.encode() if isinstance(source, str) else source, parser
+    )
     version = root.attrib.get("version", None)
     if version not in ("1.0", "1.1", "1.2"):
         raise ValueError(f"Unsupported <xliff> version: {version}")
-- 
2.43.0


From 8037cd685960081ee7cf598132978178674fb690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 156/167] fix: Refuse WebExtension messages with values of the
 wrong type

---
 python/moz/l10n/formats/webext/parse.py | 28 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index 1218c5d..071f916 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -45,14 +45,20 @@ def webext_parse(source: str | bytes) -> Resource[Message]:
     The parsed resource will not include any metadata.
     """
     json: dict[str, dict[str, Any]] = json_linecomment_loads(source)[0]
-    entries: list[Entry[Message] | Comment] = [
-        Entry(
-            (key,),
-            webext_parse_message(msg["message"], msg.get("placeholders", None)),
-            comment=msg.get("description", ""),
-        )
-        for key, msg in json.items()
-    ]
+    if not isinstance(json, dict):
+        raise ValueError(f"Unexpected root value: {json}")
+    entries: list[Entry[Message] | Comment] = []
+    for key, msg in json.items():
+        if not isinstance(msg, dict) or not isinstance(msg.get("message"), str):
+            raise ValueError(f"Unexpected value at {key}: {msg}")
+        placeholders = msg.get("placeholders", None)
+        if not isinstance(placeholders, (dict, type(None))):
+            raise ValueError(f"Unexpected placeholders at {key}: {placeholders}")
+        comment = msg.get("description", "")
+        if not isinstance(comment, str):
+            raise ValueError(f"Unexpected description at {key}: {comment}")
+        value = webext_parse_message(msg["message"], placeholders)
+        entries.append(Entry((key,), value, comment=comment))
     return Resource(Format.webext, [Section((), entries)])
 
 
@@ -87,6 +93,12 @@ def webext_parse_message(
             ph = ph_data.get(ph_key, None)
             if ph is None:
                 raise ValueError(f"Missing placeholders entry for {ph_key}")
+            elif (
+                not isinstance(ph, dict)
+                or not isinstance(ph.get("content"), str)
+                or not isinstance(ph.get("example", ""), str)
+            ):
+                raise ValueError(f"Invalid placeholders entry for {ph_key}: {ph}")
             elif ph_key in ph_names:
                 ph_name = ph_names[ph_key]
             else:
-- 
2.43.0


From 302079d156d5f2e5500e66472ea21c04f6aee895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 157/167] fix: refuse gettext metadata that would be read as
 something else

---
 python/moz/l10n/formats/gettext/serialize.py | 25 +++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index f0f40cd..912123c 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -49,11 +49,17 @@ def gettext_serialize(
     pf = POFile(wrapwidth=wrapwidth)
     header = ""
     if not trim_comments and resource.comment and not resource.comment.isspace():
-        for line in resource.comment.rstrip().split("\n"):
+        for line in resource.comment.rstrip().splitlines():
             header += f"# {line}\n" if line else "#\n"
     for m in resource.meta:
         if m.key in pf.metadata:
             raise ValueError(f"Duplicate metadata key: {m.key}")
+        if (
+            ":" in m.key
+            or len(m.key.splitlines()) > 1
+            or any(":" in line for line in m.value.splitlines()[1:])
+        ):
+            raise ValueError(f"Unsupported metadata: {m}")
         pf.metadata[m.key] = m.value
     yield header + str(pf)
 
@@ -127,7 +133,7 @@ def gettext_serialize(
                         f"Value for {entry.id} is not supported: {entry.value}"
                     )
                 if not trim_comments and entry.comment:
-                    pe.comment = entry.comment.lstrip("\n").rstrip()
+                    pe.comment = comment_str(entry.comment)
                 for m in entry.meta:
                     if m.key == "obsolete":
                         pe.obsolete = m.value != "false"
@@ -135,9 +141,13 @@ def gettext_serialize(
                         pe.msgid_plural = m.value
                     elif not trim_comments:
                         if m.key == "translator-comments":
-                            cs = (m.value).lstrip("\n").rstrip()
+                            cs = comment_str(m.value)
                             pe.tcomment = f"{pe.tcomment}\n{cs}" if pe.tcomment else cs
                         elif m.key == "reference":
+                            if m.value.split() != [m.value]:
+                                raise ValueError(
+                                    f"Unsupported reference for {entry.id}: {m.value}"
+                                )
                             pe.occurrences.append((m.value, ""))
                         elif m.key == "previous-context":
                             pe.previous_msgctxt = m.value
@@ -146,6 +156,10 @@ def gettext_serialize(
                         elif m.key == "previous-plural":
                             pe.previous_msgid_plural = m.value
                         elif m.key == "flag":
+                            if "," in m.value or len(m.value.splitlines()) > 1:
+                                raise ValueError(
+                                    f"Unsupported flag for {entry.id}: {m.value}"
+                                )
                             pe.flags.append(m.value)
                         else:
                             raise ValueError(
@@ -160,6 +174,11 @@ def gettext_serialize(
                 )
 
 
+def comment_str(comment: str) -> str:
+    # Any other line separators would also end the comment.
+    return "\n".join(comment.lstrip("\n").rstrip().splitlines())
+
+
 def plural_index(key: str, plurals: Sequence[str] | None) -> int | None:
     if plurals:
         return plurals.index(key) if key in plurals else None
-- 
2.43.0


From b614ba7d9eceec23ea330075a3c42d348c505626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 158/167] fix: end comment lines of .properties and .inc at all
 line breaks

---
 python/moz/l10n/formats/inc/serialize.py        | 4 ++--
 python/moz/l10n/formats/properties/serialize.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index b3b2c90..eef316e 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
-from re import compile, sub
+from re import compile, split, sub
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
@@ -44,7 +44,7 @@ def inc_serialize(
         if meta:
             raise ValueError("Metadata is not supported")
         if comment:
-            for line in comment.strip("\n").split("\n"):
+            for line in split(r"\r\n?|\n", comment.strip("\n")):
                 if line.startswith("#") and not re_define.fullmatch(line):
                     if not trim_comments or not line.startswith("# "):
                         yield f"{line}\n"
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 173b15b..0b20745 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
-from re import Match, compile
+from re import Match, compile, split
 from typing import Any, Callable, Literal
 
 from ...model import Entry, Message, PatternMessage, Resource
@@ -90,7 +90,7 @@ def properties_serialize(
             return
         if meta:
             raise ValueError("Metadata is not supported")
-        lines = [line.rstrip() for line in comment.split("\n")]
+        lines = [line.rstrip() for line in split(r"\r\n?|\n", comment)]
         comment = "\n".join(lines).strip("\n")
         if comment:
             if standalone and not at_empty_line:
-- 
2.43.0


From 6bd224939396a36c9f7c0bc77afe7cf8ed0d9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 159/167] fix: refuse resource comments with characters not
 allowed in XML

---
 python/moz/l10n/formats/android/serialize.py | 3 ++-
 python/moz/l10n/formats/xliff/serialize.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 07c35ff..276d165 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -67,7 +67,8 @@ def android_serialize(
 
     yield '<?xml version="1.0" encoding="utf-8"?>\n'
     if resource.comment and not trim_comments:
-        yield f"\n<!--{comment_body(resource.comment, 0)}-->\n\n"
+        comment = etree.Comment(comment_body(resource.comment, 0))
+        yield f"\n{etree.tostring(comment, encoding='unicode')}\n\n"
 
     # The nsmap needs to be set during creation
     # https://bugs.launchpad.net/lxml/+bug/555602
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index dda0e27..0010ec0 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -66,7 +66,8 @@ def xliff_serialize(
 
     yield '<?xml version="1.0" encoding="utf-8"?>\n'
     if resource.comment and not trim_comments:
-        yield f"\n<!--{comment_body(resource.comment, 0)}-->\n\n"
+        comment = etree.Comment(comment_body(resource.comment, 0))
+        yield f"\n{etree.tostring(comment, encoding='unicode')}\n\n"
 
     # The nsmap needs to be set during creation
     # https://bugs.launchpad.net/lxml/+bug/555602
-- 
2.43.0


From b823c11727bbd6cd8a87e314f62e17c6d12bb361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 160/167] fix: refuse XLIFF metadata that would be read as
 something else

---
 python/moz/l10n/formats/xliff/serialize.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 0010ec0..d05f93e 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -109,11 +109,15 @@ def xliff_serialize(
             parent_key += (id_part,)
             if parent == root:
                 file = etree.SubElement(root, "file", {"original": id_part})
-                assign_metadata(file, section.meta, trim_comments)
+                if len(section.id) == 1:
+                    assign_metadata(file, section.meta, trim_comments)
+                    if any(child.tag != "header" for child in file):
+                        raise ValueError(f"Unsupported metadata for {section.id}")
                 parent = etree.SubElement(file, "body")
             else:
                 parent = etree.SubElement(parent, "group", {"id": id_part})
-                assign_metadata(parent, section.meta, trim_comments)
+                if len(parent_key) == len(section.id):
+                    assign_metadata(parent, section.meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
         if section.comment and not trim_comments:
@@ -434,7 +438,10 @@ def assign_metadata(
         elif key == "comment()":
             el.append(etree.Comment(m.value))
         elif key.startswith("@"):
-            el.attrib[clark_name(el.nsmap, key[1:])] = m.value
+            name = clark_name(el.nsmap, key[1:])
+            if name in el.attrib:
+                raise ValueError(f"Unsupported metadata: {m}")
+            el.attrib[name] = m.value
         else:
             if "/" in key:
                 q = m.key
-- 
2.43.0


From 614853e49e3ede460220f2511abdec36283d25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:13 +0000
Subject: [PATCH 161/167] fix: refuse DTD metadata that would be read as a
 message

---
 python/moz/l10n/formats/dtd/serialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index 1f63fcf..efb7ea2 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -19,7 +19,7 @@ from re import UNICODE, compile
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
-from .parse import name, re_comment
+from .parse import name, re_comment, re_entity
 
 re_name = compile(name, UNICODE)
 re_comment_start = compile(r"<!\s*--")
@@ -90,6 +90,8 @@ def dtd_serialize(
     for meta in resource.meta:
         if not re_name.fullmatch(meta.key):
             raise ValueError(f"Unsupported DTD name: {meta.key}")
+        if re_entity.search(meta.value):
+            raise ValueError(f"Unsupported DTD metadata: {meta}")
         yield f"<!ENTITY % {meta.key} SYSTEM {quote(meta.value)}>\n%{meta.key};\n"
     for section in resource.sections:
         yield from comment(section.comment, section.meta, True)
-- 
2.43.0


From eabdecebafe0acae1537d5784b5d5b41129d20e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 162/167] fix: refuse gettext flags ending in a line break

---
 python/moz/l10n/formats/gettext/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 912123c..476fdc4 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -56,7 +56,7 @@ def gettext_serialize(
             raise ValueError(f"Duplicate metadata key: {m.key}")
         if (
             ":" in m.key
-            or len(m.key.splitlines()) > 1
+            or m.key.splitlines() != [m.key]
             or any(":" in line for line in m.value.splitlines()[1:])
         ):
             raise ValueError(f"Unsupported metadata: {m}")
@@ -156,7 +156,7 @@ def gettext_serialize(
                         elif m.key == "previous-plural":
                             pe.previous_msgid_plural = m.value
                         elif m.key == "flag":
-                            if "," in m.value or len(m.value.splitlines()) > 1:
+                            if "," in m.value or m.value.splitlines() != [m.value]:
                                 raise ValueError(
                                     f"Unsupported flag for {entry.id}: {m.value}"
                                 )
-- 
2.43.0


From 494d44bb2ab696ed0caad3f61d18c870c32d9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 163/167] fix: refuse unknown XLIFF namespaces

---
 python/moz/l10n/formats/xliff/serialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index d05f93e..80b58ca 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -33,7 +33,7 @@ from ...model import (
     SelectMessage,
     VariableRef,
 )
-from .common import clark_name, content_elements
+from .common import clark_name, content_elements, xliff_ns
 from .parse_xcode import variant_key
 
 
@@ -77,6 +77,8 @@ def xliff_serialize(
         k = m.key
         v = m.value
         if k == "@xmlns":
+            if v and v not in xliff_ns:
+                raise ValueError(f"Unsupported namespace: {v}")
             root_nsmap[None] = v
         elif k.startswith("@xmlns:"):
             root_nsmap[k[7:]] = v
-- 
2.43.0


From e84cbea7b39cb600a6a3a13f0eab68c17f647971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:27 +0000
Subject: [PATCH 164/167] fix: Compare localizations with the paths of their
 own locale

---
 python/moz/l10n/bin/compare.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 04855b2..abe05eb 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -107,29 +107,25 @@ def cli(
         excluded = ext_exclude and any(path.endswith(ext) for ext in ext_exclude)
         return included and not excluded
 
+    source_paths: L10nConfigPaths | L10nDiscoverPaths | None = None
     if source.endswith(".json"):
         with open(source) as f:
             source_data: dict[str, Collection[str]] = json.load(f)
         if ext_include or ext_exclude:
             source_data = {k: set(v) for k, v in source_data.items() if ext_filter(k)}
     else:
-        source_paths: L10nConfigPaths | L10nDiscoverPaths = (
+        source_paths = (
             L10nConfigPaths(source)
             if source.endswith(".toml")
             else L10nDiscoverPaths(source, ref_root=".")
         )
-        path0 = abspath(paths[0])
-        locale0 = basename(path0)
-        source_paths.base = dirname(path0)
+        source_paths.base = dirname(abspath(paths[0]))
         source_data = {}
         for ref_path, tgt_path in source_paths.all():
             if not ext_filter(tgt_path):
                 continue
             try:
-                path = relpath(
-                    source_paths.format_target_path(tgt_path, locale0), path0
-                )
-                source_data[path] = msg_ids(ref_path)
+                source_data[tgt_path] = msg_ids(ref_path)
             except UnsupportedFormat:
                 continue
 
@@ -145,7 +141,16 @@ def cli(
         if not isdir(path):
             continue
         lc = basename(abspath(path))
-        errors, missing = compare(source_data, path)
+        if source_paths is None:
+            lc_source_data = source_data
+        else:
+            # The locale may be included more than once in a target path.
+            lc_root = join(dirname(abspath(paths[0])), lc)
+            lc_source_data = {
+                relpath(source_paths.format_target_path(tgt_path, lc), lc_root): messages
+                for tgt_path, messages in source_data.items()
+            }
+        errors, missing = compare(lc_source_data, path)
         if json_output:
             json_res[lc] = {
                 "errors": errors or None,
-- 
2.43.0


From 7d5f801b5c011203323cb2639af398e76c6c7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 165/167] fix: drop carriage returns at the ends of Fluent
 comment lines

---
 python/moz/l10n/formats/fluent/serialize.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 6eb5e02..ccae84d 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -39,6 +39,7 @@ from ...model import (
 
 ws_at_start = compile(r"\s+")
 ws_at_end = compile(r"\s+$")
+cr_at_line_end = compile(r"\r+(?=\n|$)")
 
 
 def fluent_serialize(
@@ -107,7 +108,7 @@ def fluent_astify(
     ) -> str:
         if trim_comments:
             return ""
-        cs = node.comment.rstrip()
+        cs = comment_lines(node.comment).rstrip()
         if not isinstance(node, Comment):
             for field in node.meta[1:] if node is resource and has_info else node.meta:
                 if not serialize_metadata:
@@ -127,7 +128,7 @@ def fluent_astify(
         and res_info.value != ""
     )
     if res_info and has_info and not trim_comments:
-        body.append(ftl.Comment(res_info.value))
+        body.append(ftl.Comment(comment_lines(res_info.value)))
     res_comment = comment_str(resource)
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
@@ -140,7 +141,7 @@ def fluent_astify(
         for entry in section.entries:
             if isinstance(entry, Comment):
                 if not trim_comments:
-                    body.append(ftl.Comment(entry.comment))
+                    body.append(ftl.Comment(comment_lines(entry.comment)))
             else:
                 body.append(
                     fluent_astify_entry(
@@ -150,6 +151,11 @@ def fluent_astify(
     return ftl.Resource(body)
 
 
+def comment_lines(comment: str) -> str:
+    # A carriage return before a newline would be read as a part of it.
+    return cr_at_line_end.sub("", comment)
+
+
 def fluent_serialize_entry(
     entry: Entry[str | Message],
     *,
@@ -210,7 +216,7 @@ def fluent_astify_entry(
     if comment_str is None:
         if entry.meta:
             raise ValueError("Metadata requires custom serializer")
-        c_str = entry.comment.rstrip()
+        c_str = comment_lines(entry.comment).rstrip()
     else:
         c_str = comment_str(entry)
     comment = ftl.Comment(c_str) if c_str else None
-- 
2.43.0


From 7bf9b609e8ebd3002e9622bb2d39dea6a47a550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:17 +0000
Subject: [PATCH 166/167] fix: Refuse XLIFF metadata that would be written as
 stray text

---
 python/moz/l10n/formats/xliff/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 80b58ca..ed98ae1 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -431,6 +431,8 @@ def assign_metadata(
     for m in meta:
         key = m.key[key_start:] if key_start else m.key
         if key == "":
+            if el.tag in ("file", "group", "trans-unit") and not base:
+                raise ValueError(f"Unsupported metadata: {m}")
             if m.value:
                 if len(el) == 0:
                     el.text = (el.text or "") + m.value
-- 
2.43.0


From 7ebe6a5e65ea822940bcfba90c1599d4fa66f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:17 +0000
Subject: [PATCH 167/167] fix: Refuse Android metadata and comments that would
 be dropped

---
 python/moz/l10n/formats/android/serialize.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 276d165..1ea2b68 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -81,6 +81,8 @@ def android_serialize(
             root_nsmap[None] = v
         elif k.startswith("xmlns:"):
             root_nsmap[k[6:]] = v
+        elif k in root_attrib:
+            raise ValueError(f"Unsupported metadata: {m}")
         else:
             root_attrib[k] = v
     root = etree.Element("resources", attrib=root_attrib, nsmap=root_nsmap)
@@ -95,6 +97,8 @@ def android_serialize(
         if section.id:
             if section.id == ("!ENTITY",):
                 for entry in section.entries:
+                    if entry.comment and not trim_comments:
+                        raise ValueError(f"Comments on entities are not supported: {entry}")
                     if isinstance(entry, Entry):
                         entities.append(entity_definition(entry))
                 continue
@@ -126,10 +130,13 @@ def android_serialize(
                         set_pattern_message(el, entry.value, allow_cdata=True)
                 else:
                     # <string-array>
+                    attrib = get_attrib(name, entry.meta)
                     if string_array is None or name != string_array.get("name"):
                         string_array = etree.SubElement(
-                            root, "string-array", attrib=get_attrib(name, entry.meta)
+                            root, "string-array", attrib=attrib
                         )
+                    elif any(string_array.get(k) != v for k, v in attrib.items()):
+                        raise ValueError(f"Unsupported metadata for {entry.id}")
                     if entry.comment and not trim_comments:
                         add_comment(string_array, entry.comment, False)
                     set_string_array_item(string_array, entry)
@@ -194,8 +201,8 @@ def xml_string(root: etree._Element) -> str:
 def get_attrib(name: str, meta: list[Metadata]) -> dict[str, str]:
     res = {"name": name}
     for m in meta:
-        if m.key == "name":
-            raise ValueError(f'Unsupported "name" metadata for {name}')
+        if m.key in res:
+            raise ValueError(f'Unsupported "{m.key}" metadata for {name}')
         res[m.key] = m.value
     return res
 
@@ -228,6 +235,8 @@ def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
         raise ValueError(f"Predefined entity cannot be redefined: {name}")
     if entry.properties:
         raise ValueError(f"Unsupported properties for {name}")
+    if entry.meta:
+        raise ValueError(f"Unsupported metadata for {name}")
 
     # Characters not allowed in XML EntityValue text
     escape = str.maketrans({"&": "&amp;", "%": "&#37;", '"': "&quot;", "\r": "&#13;"})
-- 
2.43.0

