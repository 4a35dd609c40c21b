From af7dfece9405fbf6560d6f02d13294d183f280c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 001/130] fix: compile an SRT template against an empty
 stringset

Nothing translated means every subtitle section is removed, as with VTT;
SrtHandler.compile raised StopIteration instead.
---
 openformats/formats/srt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/srt.py b/openformats/formats/srt.py
index bd1f371..4f0dd10 100644
--- a/openformats/formats/srt.py
+++ b/openformats/formats/srt.py
@@ -146,7 +146,7 @@ class SrtHandler(Handler):
         transcriber = Transcriber(template)
         template = transcriber.source
         stringset = iter(stringset)
-        string = next(stringset)
+        string = next(stringset, None)
 
         for start, subtitle_section in self.\
                 _generate_split_subtitles(template):
@@ -158,9 +158,10 @@ class SrtHandler(Handler):
             second_newline = subtitle_section.index('\n', first_newline + 1)
             hash_position = second_newline + 1
 
-            if (subtitle_section[
-                    hash_position:
-                    hash_position + len(string.template_replacement)
+            if string is not None and (
+                    subtitle_section[
+                        hash_position:
+                        hash_position + len(string.template_replacement)
                     ] == string.template_replacement):
                 # found it
                 transcriber.copy_until(start + hash_position)
-- 
2.43.0


From 7653c10a375fa9d60c80a90a265b04e544f95d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 002/130] fix: detect CRLF newlines in bytes content

Indexing bytes gives an int on Python 3, so find_newline_type always said
UNIX for bytes.
---
 openformats/utils/newlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/newlines.py b/openformats/utils/newlines.py
index 71aec58..e3156be 100644
--- a/openformats/utils/newlines.py
+++ b/openformats/utils/newlines.py
@@ -17,7 +17,8 @@ def find_newline_type(content):
         return 'UNIX'
     else:
         if (first_newline_pos > 0 and
-                content[first_newline_pos - 1] == CARRIAGE_RETURN):
+                content[first_newline_pos - 1:first_newline_pos] ==
+                CARRIAGE_RETURN):
             return 'DOS'
         else:
             return 'UNIX'
-- 
2.43.0


From e6b5d34fa112d99b6adbc80daeb6de549505a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 003/130] fix: scan every JSON number with an exponent

DumbJson knew exponents only on lower-case integers without a plus sign, so
valid JSON such as 1.5e3, 1E5 or 1e+5 was refused with a ValueError.
---
 openformats/utils/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index f8b8a50..de76f47 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -242,7 +242,7 @@ class DumbJson(object):
             r'{_float}|{integer}'.format(
                 dict_list_string=r'[{\["]',
                 true_false_null=r'true|false|null',
-                e_notation=r'-?\d+e-?\d+',
+                e_notation=r'-?\d+(?:\.\d+)?[eE][+-]?\d+',
                 _float=r'-?\d+\.\d+',
                 integer=r'-?\d+',
             )
-- 
2.43.0


From df172d44712ef72b7439aa4e4b37b10225267a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 004/130] fix: keep the character before a container removed
 from a JSON list

The section of a list item started one character early when the item was not
a string, so removing a nested object or list could take the enclosing
bracket with it and leave invalid JSON.
---
 openformats/formats/json.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index abf7321..54d1402 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -478,7 +478,12 @@ class JsonHandler(Handler):
         at_least_one = not bool(list(parsed))
 
         for value, value_position in parsed:
-            self.transcriber.copy_until(value_position - 1)
+            # the position of a string is that of its first character, its
+            # section has to include the opening quote too
+            is_string = isinstance(value, (six.binary_type, six.text_type))
+            self.transcriber.copy_until(
+                value_position - 1 if is_string else value_position
+            )
             self.transcriber.mark_section_start()
 
             tmp_at_least_one = self._insert_item(
-- 
2.43.0


From 9772963de7706d1551f245dd1f0d67107d5557be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 005/130] fix: leave string contents alone when cleaning up a
 JSON template

_clean_empties ran its patterns over the whole text, so removing a string
also rewrote keys and metadata that happen to contain e.g. ', ,' or ',}'.
---
 openformats/formats/json.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 54d1402..0bd5bc0 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -548,6 +548,17 @@ class JsonHandler(Handler):
             '{, "a": "b", "c": "d"}' -> '{"a": "b", "c": "d"}'
             '["a", , "b"]' -> '["a", "b"]'
         """
+        # Only punctuation between strings can be a leftover; what is inside a
+        # string is content
+        return "".join(
+            part if index % 2 else self._clean_empties_between_strings(part)
+            for index, part in enumerate(
+                re.split(r'("(?:[^"\\]|\\.)*")', compiled)
+            )
+        )
+
+    @staticmethod
+    def _clean_empties_between_strings(compiled):
         while True:
             # First key-value of a dict was removed
             match = re.search(r"{\s*,", compiled)
-- 
2.43.0


From 942bb9c2877f21b6dbf023a2e259f01a2838404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 006/130] fix: unescape a lone surrogate whatever follows it

The 12 characters looked at for a surrogate pair may end in the middle of
another escape sequence (or hold a quote), which made json.loads raise.
---
 openformats/utils/json.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index de76f47..00af00e 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -398,7 +398,11 @@ def _unescape_generator(string):
             # Surrogates: https://unicode.org/faq/utf_bom.html#utf16-2
             if 0xd800 <= ord(unescaped) <= 0xdfff:
                 unicode_escaped = string[ptr:ptr+12]
-                escaped = json.loads('"' + unicode_escaped + '"')
+                try:
+                    escaped = json.loads('"' + unicode_escaped + '"')
+                except ValueError:
+                    # Not followed by (all of) the other half of a pair
+                    escaped = u''
                 if len(escaped) == 1:
                     yield escaped
                     ptr += 12
-- 
2.43.0


From b21f2c4030b697f5b7eee8e617511c072f53846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 007/130] fix: write structured JSON metadata whatever values
 surround it

---
 openformats/formats/json.py | 47 ++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 0bd5bc0..d9a56bf 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -831,22 +831,42 @@ class StructuredJsonHandler(JsonHandler):
         self.transcriber.copy_to_end()
         return self.transcriber.get_destination()
 
+    @staticmethod
+    def _value_end(source, value, value_position):
+        """Return the position right after the given value of the source."""
+        if isinstance(value, DumbJson):
+            return value.end + 1
+        if isinstance(value, six.text_type):
+            # Include the closing quote
+            return value_position + len(value) + 1
+        # The way a number is written may differ from how python prints it
+        return re.compile(r"[^\s,}\]]*").match(source, value_position).end()
+
     def _compile_value(self, value, template_value, value_position, skip=False):
-        value = template_value if skip else value
+        value_end = self._value_end(
+            self.transcriber.source, template_value, value_position
+        )
+        if skip:
+            self.transcriber.copy_until(value_end)
+            return
 
         if value is not None:
             if value == "" and template_value is None:
                 self.transcriber.add("null")
             else:
-                if template_value is None:
+                if template_value is None and isinstance(value, six.text_type):
                     self.transcriber.add(f'"{value}"')
                 else:
                     self.transcriber.add(f"{value}")
         else:
             self.transcriber.add("null")
 
-        self.transcriber.skip(len(f"{template_value}"))
-        self.transcriber.copy_until(value_position + len(f"{template_value}") + 1)
+        if isinstance(template_value, six.text_type):
+            # Keep the closing quote
+            self.transcriber.skip_until(value_end - 1)
+        else:
+            self.transcriber.skip_until(value_end)
+        self.transcriber.copy_until(value_end)
 
     def _compile_recursively(self, current_part):
         if isinstance(current_part, DumbJson):
@@ -876,12 +896,19 @@ class StructuredJsonHandler(JsonHandler):
                     line_separator = None
                     key_value_separator = None
                     for key, key_position, value, value_position in current_part:
-                        prev_position_end = self.transcriber.ptr
+                        line_start = key_position - 1
+                        while current_part.source[line_start - 1].isspace():
+                            line_start -= 1
                         line_separator = current_part.source[
-                            prev_position_end + 1 : key_position - 1
+                            line_start : key_position - 1
                         ]
                         key_value_separator = current_part.source[
-                            key_position + len(key) : value_position - 1
+                            key_position
+                            + len(key) : (
+                                value_position - 1
+                                if isinstance(value, six.text_type)
+                                else value_position
+                            )
                         ]
                         self.transcriber.copy_until(key_position - 1)
                         self.transcriber.copy_until(value_position)
@@ -920,9 +947,11 @@ class StructuredJsonHandler(JsonHandler):
                             self._compile_value(
                                 string_replacement, value, value_position
                             )
-                        elif not isinstance(value, DumbJson):
+                        else:
                             self.transcriber.copy_until(
-                                value_position + len(f"{value}") + 1
+                                self._value_end(
+                                    current_part.source, value, value_position
+                                )
                             )
 
                     extra_elements = []
-- 
2.43.0


From 7f76dff5d9a7d1cd72ecd06dd41d2d38456f37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 008/130] fix: leave strings of a root list out of
 STRUCTURED_JSON parsing

---
 openformats/formats/json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index d9a56bf..5647073 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -138,7 +138,8 @@ class JsonHandler(Handler):
                 else:
                     key = f"{nest}..{index}.."
                 if isinstance(item, (six.binary_type, six.text_type)):
-                    if not item.strip():
+                    # Strings of STRUCTURED_JSON are never list items
+                    if not item.strip() or self.name == "STRUCTURED_JSON":
                         continue
 
                     openstring = self._create_openstring(key, item, item_position)
-- 
2.43.0


From a13693eed75515e34f7947559c9b485b37976a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 009/130] fix: compile only the STRUCTURED_JSON strings that
 parsing extracts

---
 openformats/formats/json.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 5647073..76bcfbe 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -869,18 +869,22 @@ class StructuredJsonHandler(JsonHandler):
             self.transcriber.skip_until(value_end)
         self.transcriber.copy_until(value_end)
 
-    def _compile_recursively(self, current_part):
+    def _compile_recursively(self, current_part, may_be_string=False):
+        # Visit the same parts that `_extract` does: the root (and the items of
+        # a root list) only hold strings, lists further down are left alone
         if isinstance(current_part, DumbJson):
-            if current_part.type == list:
+            if current_part.type == list and not may_be_string:
                 for value, value_position in current_part:
                     self._compile_recursively(value)
             if current_part.type == dict:
-                (value, _) = current_part.find_children(self.STRING_KEY)[0]
+                value = None
+                if may_be_string:
+                    (value, _) = current_part.find_children(self.STRING_KEY)[0]
                 if not value:
                     for key, key_position, value, value_position in current_part:
                         self.transcriber.copy_until(key_position - 1)
                         self.transcriber.copy_until(value_position)
-                        self._compile_recursively(value)
+                        self._compile_recursively(value, may_be_string=True)
                 else:
                     (value, _) = current_part.find_children(self.STRING_KEY)[0]
                     if not value.strip():
-- 
2.43.0


From d65edf8aaf34b18da48672f04dded0c44f716a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 010/130] fix: sync a STRUCTURED_JSON template that has empty
 strings

---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 76bcfbe..521b8bc 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1270,7 +1270,7 @@ class StructuredJsonHandler(JsonHandler):
 
                         if current.pluralized:
                             # hash embedded inside ICU plural string
-                            if templ in string_value:
+                            if templ in (string_value or ""):
                                 keep = True
                         else:
                             # plain hash
-- 
2.43.0


From 76f22530ffefdc72002ccf6c1d85b10ef900093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 011/130] fix: compile a STRUCTURED_JSON plural whose context
 changed

---
 openformats/formats/json.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 521b8bc..af3706b 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -943,9 +943,13 @@ class StructuredJsonHandler(JsonHandler):
                                 string_replacement = ICUCompiler().serialize_strings(
                                     translation.string, delimiter=" "
                                 )
-                                string_replacement = value.replace(
-                                    translation.template_replacement,
+                                # The context may have changed since parsing,
+                                # and so may have the hash
+                                start = re.search(r"[0-9a-f]{32}_pl", value).start()
+                                string_replacement = "{}{}{}".format(
+                                    value[:start],
                                     string_replacement,
+                                    value[start + 35 :],
                                 )
                             else:
                                 string_replacement = translation.string
-- 
2.43.0


From 10f0d0eae026aba92a5504c30084cfd1b36e5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 012/130] fix: escape the metadata of added STRUCTURED_JSON
 strings once

---
 openformats/formats/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index af3706b..08e4bfa 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1343,9 +1343,9 @@ class StructuredJsonHandler(JsonHandler):
 
         # Optional metadata – only add if present
         if getattr(os, "context", None):
-            payload[self.CONTEXT_KEY] = self.escape(os.context)
+            payload[self.CONTEXT_KEY] = os.context
         if getattr(os, "developer_comment", None):
-            payload[self.DEVELOPER_COMMENT_KEY] = self.escape(os.developer_comment)
+            payload[self.DEVELOPER_COMMENT_KEY] = os.developer_comment
         if getattr(os, "character_limit", None) is not None:
             payload[self.CHARACTER_LIMIT_KEY] = os.character_limit
 
-- 
2.43.0


From 576506b7d4b7851d24dddad9b0bd01ad75852819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 013/130] fix: escape the keys of strings added to a JSON list
 once

---
 openformats/formats/json.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 08e4bfa..a155dfa 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -385,10 +385,8 @@ class JsonHandler(Handler):
         return f'"{self._unescape_key(os.key)}": "{os.template_replacement}"'
 
     def _make_added_entry_for_list(self, os):
-        return json.dumps(
-            {self._unescape_key(os.key): os.template_replacement},
-            ensure_ascii=False,
-        )
+        # The key is already JSON-escaped
+        return f'{{"{self._unescape_key(os.key)}": "{os.template_replacement}"}}'
 
     def _insert(self, parsed, is_real_stringset):
         if parsed.type == dict:
@@ -1407,9 +1405,12 @@ class StructuredJsonHandler(JsonHandler):
               }
             }
         """
-        container = {self._unescape_key(os.key): self._build_structured_payload(os)}
+        value_literal = json.dumps(
+            self._build_structured_payload(os), ensure_ascii=False, indent=2
+        ).replace("\n", "\n  ")
 
-        return json.dumps(container, ensure_ascii=False, indent=2)
+        # The key is already JSON-escaped
+        return f'{{\n  "{self._unescape_key(os.key)}": {value_literal}\n}}'
 
 
 class ChromeI18nHandler(JsonHandler):
-- 
2.43.0


From da5517a5b9cdab5b8290e57d07e9957f45dd228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 014/130] fix: keep unicode line separators in added
 STRUCTURED_JSON metadata

---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index a155dfa..af22afa 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1373,7 +1373,7 @@ class StructuredJsonHandler(JsonHandler):
         value_literal = json.dumps(payload, ensure_ascii=False, indent=2)
 
         # Optional cosmetic tab indent after the first line
-        lines = value_literal.splitlines()
+        lines = value_literal.split("\n")
         if len(lines) > 1:
             lines = [lines[0]] + ["\t" + line for line in lines[1:]]
         value_literal = "\n".join(lines)
-- 
2.43.0


From aceaf53942b6705b22d63e35ebf828e1df3f85ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 015/130] fix: parse ARB files that hold lists

---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index af22afa..5bfffb3 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -676,7 +676,7 @@ class ArbHandler(JsonHandler):
                 elif key.endswith(".description"):
                     self.metadata[key] = value
 
-            if isinstance(value, DumbJson):
+            if isinstance(value, DumbJson) and value.type == dict:
                 self._find_keys(value, key)
             else:
                 pass
-- 
2.43.0


From 41ef80a306864f15bb3f001c9b3afdc79aa40ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 016/130] fix: ignore ARB contexts and descriptions that are
 not texts

---
 openformats/formats/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 5bfffb3..c362f70 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -671,6 +671,8 @@ class ArbHandler(JsonHandler):
             elif key.startswith("@"):
                 if key.endswith(".type") and value != "text":
                     self.existing_keys.add(key)
+                elif not isinstance(value, six.text_type):
+                    pass
                 elif key.endswith(".context"):
                     self.metadata[key] = value
                 elif key.endswith(".description"):
-- 
2.43.0


From 1dcba8f0640602046f6b958636c3410fa9e3baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 017/130] fix: replace every form of ARB locale

---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index c362f70..8e5d5b2 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -749,7 +749,7 @@ class ArbHandler(JsonHandler):
         stringset = list(stringset)
 
         if language_info is not None:
-            match = re.search(r"(\"@@locale\"\s*:\s*\")([A-Z_a-z]*)\"", template)
+            match = re.search(r"(\"@@locale\"\s*:\s*\")([^\"]*)\"", template)
             if match:
                 template = "{}{}{}".format(
                     template[: match.start(2)],
-- 
2.43.0


From 179a53982dac673283ffedc9daf23859ff05eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 018/130] fix: match strings with a context when syncing a JSON
 template

---
 openformats/formats/json.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 8e5d5b2..d65714a 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -272,6 +272,7 @@ class JsonHandler(Handler):
                 openstring.template_replacement,
                 order=openstring.order,  # type: ignore
                 pluralized=openstring.pluralized,
+                context=openstring.context,
             )
             for openstring in stringset
         ]
-- 
2.43.0


From 38f6bae9910e96337d1cc2998b8dfdf489c36e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 019/130] fix: parse CHROME messages that are not in an object
 of the root

---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index d65714a..ce5741a 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1471,7 +1471,7 @@ class ChromeI18nHandler(JsonHandler):
         key_split = key.split(".")
         try:
             return self.json_dict[key_split[0]]["description"]
-        except KeyError:
+        except (KeyError, TypeError):
             return ""
 
     def _copy_until_and_remove_section(self, pos):
-- 
2.43.0


From e14ec832e60eb40e5ce3562b63ad7be9d8ca5b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 020/130] fix: extract no CHROME plurals other than messages

---
 openformats/formats/json.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index ce5741a..4f2e5d0 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1433,6 +1433,14 @@ class ChromeI18nHandler(JsonHandler):
         stringset = list(stringset)
         return self._replace_translations(template, stringset, is_real_stringset=True)
 
+    def _create_pluralized_string(self, icu_string, value_position):
+        # As with regular strings, only parse the messages
+        if not icu_string.key.endswith(self.STRING_KEY):
+            return None
+        return super(ChromeI18nHandler, self)._create_pluralized_string(
+            icu_string, value_position
+        )
+
     def _create_regular_string(self, key, value, value_position):
         """
         Return a new OpenString based on the given key and value
-- 
2.43.0


From 24fcefee3261eaa4c9a85afa3831e68a0c9db7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 021/130] fix: keep the description of CHROME plurals

---
 openformats/formats/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 4f2e5d0..47af787 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1438,7 +1438,9 @@ class ChromeI18nHandler(JsonHandler):
         if not icu_string.key.endswith(self.STRING_KEY):
             return None
         return super(ChromeI18nHandler, self)._create_pluralized_string(
-            icu_string, value_position
+            icu_string,
+            value_position,
+            description_value=self._get_description(icu_string.key),
         )
 
     def _create_regular_string(self, key, value, value_position):
-- 
2.43.0


From 1f7614bd0798a097cc6dd527b2b63ba5e488a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 022/130] fix: accept an ICU plural whose forms repeat one
 another

---
 openformats/utils/icu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index fe089cc..7f58979 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -347,7 +347,7 @@ class ICUParser(object):
         # Replace all matches with spaces in the given string.
         remaining_str = serialized_strings
         for match in all_matches:
-            remaining_str = remaining_str.replace(match[0], '')
+            remaining_str = remaining_str.replace(match[0], '', 1)
 
         # Then make sure all whitespace is removed as well
         # Special characters may be present with double backslashes,
-- 
2.43.0


From c58231d1b389c48face6c1929261e3141ad31dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 023/130] fix: accept spaces before the equals sign of an XML
 attribute

---
 openformats/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 9f1ca87..cc3dcc0 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -462,7 +462,8 @@ class NewDumbXml(object):
                     # <a b="c" ... >
                     #        ^
                     status = None
-                    self._attributes.append((key_position, u''.join(key),
+                    self._attributes.append((key_position,
+                                             u''.join(key).rstrip(),
                                              value_position, u''.join(value)))
                 else:
                     # <a b="cde" ... >
-- 
2.43.0


From a482ce383cc7c24967d0d6b880dc69f6fcd16b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 024/130] fix: report an XML element that the document ends in
 as a syntax error

---
 openformats/utils/xml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index cc3dcc0..3d677b2 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -558,6 +558,11 @@ class NewDumbXml(object):
 
         start = self.text_position + len(self.text)
         while True:
+            if start + 1 >= len(self.source):
+                raise DumbXmlSyntaxError(
+                    u"Tag '{}' not closed on line {}".
+                    format(self.tag, self._find_line_number())
+                )
             if self.source[start + 1] == self.FORWARD_SLASH:
                 # We found the closing tag
                 self._content_end = start
-- 
2.43.0


From 9b5ff8c73d50eaf0427834937df1b12964919fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 025/130] fix: keep blank ANDROID strings and array items when
 compiling

---
 openformats/formats/android.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 1b45dd2..f4ef519 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -436,10 +436,13 @@ class AndroidHandler(Handler):
             self.transcriber.copy_until(child.end)
             self.transcriber.mark_section_end()
             self.next_string = self._get_next_string()
-        elif not child.text:
+        elif not child.content or not child.content.strip():
             # In the case of a string-array we don't want to skip an
             # empty array element that was initially empty.
-            pass
+            self.transcriber.copy_until(child.tail_position)
+            self.transcriber.mark_section_start()
+            self.transcriber.copy_until(child.end)
+            self.transcriber.mark_section_end()
         else:
             self._skip_tag(child)
 
@@ -456,8 +459,9 @@ class AndroidHandler(Handler):
         """
         item_iterator = list(child.find_children(self.STRING_ITEM))
 
-        # If placeholder (has no children) skip
-        if len(item_iterator) == 0:
+        # If placeholder (has no children, or only blank ones) skip
+        if all(not item_tag.content or not item_tag.content.strip()
+               for item_tag in item_iterator):
             self.transcriber.copy_until(child.end)
             return
 
-- 
2.43.0


From e54343ed5bd9f3eb35d075ad78379f52331d8071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 026/130] fix: keep the comment of a blank ANDROID string off
 the next string

---
 openformats/formats/android.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index f4ef519..67dba02 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -80,6 +80,7 @@ class AndroidHandler(Handler):
             strings = self._handle_child(child)
             if strings is not None:
                 stringset.extend(strings)
+            if child.tag != DumbXml.COMMENT:
                 self.current_comment = u""
 
         self.transcriber.copy_until(len(source))
-- 
2.43.0


From 211e9cdaaaf3a45657d3a3beca38ed16ad5f2731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 027/130] fix: keep other ANDROID resources when removing the
 string after them

---
 openformats/formats/android.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 67dba02..b021202 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -386,17 +386,18 @@ class AndroidHandler(Handler):
         first_tag_position = parsed.text_position + len(parsed.text)
         self.transcriber.copy_until(first_tag_position)
 
-        children_iterator = parsed.find_children(
-            self.STRING,
-            self.STRING_ARRAY,
-            self.STRING_PLURAL
-        )
+        children_iterator = parsed.find_children()
 
         self.is_source = is_source
         self.stringset = iter(stringset)
         self.next_string = self._get_next_string()
         for child in children_iterator:
-            self._compile_child(child)
+            if child.tag in (self.STRING, self.STRING_ARRAY,
+                             self.STRING_PLURAL):
+                self._compile_child(child)
+            elif child.tag != DumbXml.COMMENT:
+                # Not a string resource, retain it
+                self.transcriber.copy_until(child.end)
 
         self.transcriber.copy_until(len(source))
         compiled = (template[:resources_tag_position] +
-- 
2.43.0


From 2a660b5b8eb0409cde2713da7303b5d39c1e6335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 028/130] fix: keep blank ANDROID plurals when removing the
 string after them

---
 openformats/formats/android.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index b021202..3537a6c 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -498,6 +498,7 @@ class AndroidHandler(Handler):
         """
         # If placeholder (has empty children) skip
         if len(list(child.find_children(self.STRING_ITEM))):
+            self.transcriber.copy_until(child.end)
             return
 
         if self._should_compile(child):
-- 
2.43.0


From 04081f4b84b734b23321326ab1131b721d7b17da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 029/130] fix: escape a leading at-sign of an ANDROID text only
 at its start

---
 openformats/formats/android.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 3537a6c..3278dfa 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -597,18 +597,18 @@ class AndroidHandler(Handler):
         """
 
         def _escape_text(string):
-            # If the string starts with an at-sign that doesn't identify
-            # another string, then we need to escape it using a leading
-            # backslash
-            if string.startswith(u'@') and not string.startswith(u'@string/'):
-                string = string.replace(u'@', u'\\@', 1)
             return string.\
                 replace(DumbXml.DOUBLE_QUOTES,
                         u''.join([DumbXml.BACKSLASH, DumbXml.DOUBLE_QUOTES])).\
                 replace(DumbXml.SINGLE_QUOTE,
                         u''.join([DumbXml.BACKSLASH, DumbXml.SINGLE_QUOTE]))
 
-        return xml_escape(string, AndroidHandler.INLINE_TAGS, _escape_text)
+        escaped = xml_escape(string, AndroidHandler.INLINE_TAGS, _escape_text)
+        # If the string starts with an at-sign that doesn't identify another
+        # string, then we need to escape it using a leading backslash
+        if string.startswith(u'@') and not string.startswith(u'@string/'):
+            escaped = u''.join([DumbXml.BACKSLASH, escaped])
+        return escaped
 
     @staticmethod
     def unescape(string):
-- 
2.43.0


From cb5996d00636cb87598c6dcb70039f6969e0eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 030/130] fix: escape the whole of an XML text that closes more
 tags than it opens

---
 openformats/utils/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 3d677b2..710d719 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -29,6 +29,9 @@ def escape(string, inline_tags, escape_text):
     wrapped_text = transcriber.source
     try:
         root = NewDumbXml(wrapped_text)
+        if root.tail_position != len(wrapped_text):
+            # The text closes the temporary tag
+            return escape_text(string)
         _escape_tag(root, transcriber, inline_tags, escape_text)
     except DumbXmlSyntaxError:
         # If opening-closing tags do not match within text, revert to the
-- 
2.43.0


From 217175f8e5d1d3b5f3452d537f1e16bedcda8afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 031/130] fix: escape an at-sign once in ANDROID_UNESCAPED
 texts

---
 openformats/formats/android_unescaped.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index 76c77ce..67bbe69 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -167,13 +167,11 @@ class AndroidUnescapedHandler(AndroidHandler):
                 # escape all special characters. One case of these errors is the
                 # presence of '<' symbols without corresponding closing tags, causing
                 # parsing errors.
-                string = AndroidHandler.escape(string)
-                string = AndroidUnescapedHandler.escape_special_characters(string)
+                string = AndroidUnescapedHandler._escape_all(string)
                 string = string.replace("<", "&lt;")
                 return string
 
-            string = AndroidHandler.escape(string)
-            string = AndroidUnescapedHandler.escape_special_characters(string)
+            string = AndroidUnescapedHandler._escape_all(string)
             return AndroidUnescapedHandler._unprotect_inline_tags(
                 string, protected_tags
             )
@@ -201,6 +199,14 @@ class AndroidUnescapedHandler(AndroidHandler):
             string, _unescape, is_escape=False
         )
 
+    @staticmethod
+    def _escape_all(string):
+        escaped = AndroidHandler.escape(string)
+        if string.startswith("@") and escaped.startswith("\\@"):
+            # `escape_special_characters` takes care of all the at-signs
+            escaped = escaped[1:]
+        return AndroidUnescapedHandler.escape_special_characters(escaped)
+
     @staticmethod
     def escape_special_characters(string):
         """
-- 
2.43.0


From e330895c1886104d371e0490f052ec1e2752d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 032/130] fix: escape the tags that ANDROID_UNESCAPED does not
 protect

---
 openformats/formats/android_unescaped.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index 67bbe69..f7c0134 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -172,6 +172,8 @@ class AndroidUnescapedHandler(AndroidHandler):
                 return string
 
             string = AndroidUnescapedHandler._escape_all(string)
+            # The inline tags are protected, so what is left is not one
+            string = string.replace("<", "&lt;")
             return AndroidUnescapedHandler._unprotect_inline_tags(
                 string, protected_tags
             )
-- 
2.43.0


From 6f36679fa2ee0688f9f56d22a035d9140ab08797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 033/130] fix: protect an inline tag that another one repeats
 in ANDROID_UNESCAPED

---
 openformats/formats/android_unescaped.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index f7c0134..2e92de6 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -72,15 +72,20 @@ class AndroidUnescapedHandler(AndroidHandler):
         wrapped_text = f"<x>{text}</x>"
         parsed = DumbXml(wrapped_text)
         children_iterator = parsed.find_children()
+        pieces = []
+        position = len("<x>")
 
         for child in children_iterator:
             if child.tag in AndroidHandler.INLINE_TAGS:
                 child_content = child.source[child.position : child.tail_position]
                 string_hash = md5(child_content.encode("utf-8")).hexdigest()
-                text = text.replace(child_content, string_hash)
+                pieces.append(wrapped_text[position : child.position])
+                pieces.append(string_hash)
+                position = child.tail_position
                 protected_tags[string_hash] = child_content
 
-        return text, protected_tags
+        pieces.append(wrapped_text[position : -len("</x>")])
+        return "".join(pieces), protected_tags
 
     @staticmethod
     def _unprotect_inline_tags(text, protected_tags):
-- 
2.43.0


From 204672d69b1014a527a0f9a1a86d99def9eec865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 034/130] fix: report an ANDROID file without resources as a
 parse error

---
 openformats/formats/android.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 3278dfa..16228e9 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -7,7 +7,7 @@ import six
 
 from openformats.utils.compat import ensure_unicode
 
-from ..exceptions import RuleError
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
@@ -63,7 +63,9 @@ class AndroidHandler(Handler):
 
         source = self.transcriber.source
         # Skip XML info declaration
-        resources_tag_position = source.index(self.PARSE_START)
+        resources_tag_position = source.find(self.PARSE_START)
+        if resources_tag_position == -1:
+            raise ParseError(u"No <resources> tag found in the file")
 
         parsed = DumbXml(source, resources_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
-- 
2.43.0


From 0d6d39a8174a85a4b4ce8a7f3ad3ba26d3325775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 035/130] fix: detect ANDROID plurals that repeat after a
 string of their name

---
 openformats/formats/android.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 16228e9..850b03e 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -278,6 +278,7 @@ class AndroidHandler(Handler):
                         context=format_dict
                     )
                 else:
+                    self.existing_hashes[(name, product)].append(child.tag)
                     product += child.tag
             # Create OpenString
             string = OpenString(
-- 
2.43.0


From 00981faad08c8098d1d1c135012834bdf61309eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 036/130] fix: PO entries whose msgid_plural is blank stay
 plural when compiling

---
 openformats/formats/po.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 82f51c1..ff0087c 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -274,7 +274,7 @@ class PoHandler(Handler):
 
         for i, entry in enumerate(po):
             if next_string is not None:
-                is_plural = True if entry.msgid_plural.strip() else False
+                is_plural = bool(entry.msgid_plural)
                 if is_plural:
                     compiled = self._compile_plural_entry(entry, next_string)
                 else:
@@ -308,7 +308,7 @@ class PoHandler(Handler):
 
         for i, entry in enumerate(po):
             if next_string is not None:
-                is_plural = True if entry.msgid_plural.strip() else False
+                is_plural = bool(entry.msgid_plural)
                 if (
                     (is_plural and entry.msgstr_plural.get("0") == next_string.template_replacement)
                     or entry.msgstr == next_string.template_replacement
-- 
2.43.0


From 8cf44eaa48ebaf00ac2dfe4721518585a3ae7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 037/130] fix: split a PO key whose msgid ends in a backslash
 at its separator

---
 openformats/formats/po.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index ff0087c..773f8e9 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -360,8 +360,13 @@ class PoHandler(Handler):
         """
         # find first *unescaped* colon
         separation_index = None
+        escaped = False
         for i, ch in enumerate(key):
-            if ch == ":" and (i == 0 or key[i - 1] != "\\"):
+            if escaped:
+                escaped = False
+            elif ch == "\\":
+                escaped = True
+            elif ch == ":":
                 separation_index = i
                 break
 
-- 
2.43.0


From f657081c1b08ca252fb126d1f8ac42ae4215fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 038/130] fix: keep the custom tags of YAML list items

---
 openformats/formats/yaml/utils.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 22826dc..3563adc 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -158,6 +158,18 @@ class TxYamlLoader(yaml.SafeLoader):
                         tag,
                         re.IGNORECASE)
 
+    def _get_custom_tag(self, value_node):
+        """ Returns the custom tag of a node without its exclamation mark, or
+        None if it does not have one.
+        """
+        if (
+            hasattr(value_node, 'tag')
+            and self._is_custom_tag(value_node.tag)
+        ):
+            tag = six.text_type(value_node.tag)
+            return tag[1:] if tag.startswith('!') else tag
+        return None
+
     def construct_mapping(self, node, deep=True):
         """
         Override `yaml.SafeLoader.construct_mapping` to return for each item
@@ -221,16 +233,7 @@ class TxYamlLoader(yaml.SafeLoader):
                   isinstance(value, six.text_type)):
                 style = value_node.style
 
-            # Setup the node's tag
-            tag = None
-            if (
-                hasattr(value_node, 'tag')
-                and self._is_custom_tag(value_node.tag)
-            ):
-                tag = six.text_type(value_node.tag)
-                # remove the exclamation mark from the tag
-                tag = tag[1:] if tag.startswith('!') else tag
-
+            tag = self._get_custom_tag(value_node)
             value = Node(value, start, end, style, tag)
             pairs.append((key, value))
 
@@ -290,7 +293,8 @@ class TxYamlLoader(yaml.SafeLoader):
                 values.append(Node(value, start, end, style, None))
             else:
                 style = value_node.style
-                values.append(Node(value, start, end, style, None))
+                tag = self._get_custom_tag(value_node)
+                values.append(Node(value, start, end, style, tag))
         return values
 
     def _calculate_block_end_pos(self, start, end):
-- 
2.43.0


From d2e0bf61ea9fa5d4cefd6a381d727dce01addeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 039/130] fix: find the YAML indentation behind a key without a
 value

---
 openformats/formats/yaml/yaml.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 0e4c729..6371786 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -448,15 +448,13 @@ class YamlHandler(Handler):
         Returns:
             The number of spaces.
         """
-        # Match all whitespace characters after first `:` (end of first  key).
-        # Stops on first non whitespace character.
+        # Match all whitespace characters before the first indented line after
+        # a `:` (end of a key), skipping blank lines in between.
         indent_pattern = re.compile(
-            ensure_unicode(r':\r?\n(?P<indent>[ \t\n]+)')
+            ensure_unicode(r':\r?\n(?:[ \t]*\r?\n)*(?P<indent>[ \t]+)(?=\S)')
         )
         m = indent_pattern.search(template)
         indent = m.groups('indent')[0] if m else ' ' * 2
-        # keep only last line
-        indent = indent.splitlines()[-1]
         indent = indent.replace('\t', ' ' * 4)
         return len(indent)
 
-- 
2.43.0


From 0d25c49cbef70ff0b833e8d4a25ce813c1aeb617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 040/130] fix: indent YAML block texts relative to the entry
 they belong to

---
 openformats/formats/yaml/yaml.py | 51 ++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 6371786..e2ea11b 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -331,7 +331,33 @@ class YamlHandler(Handler):
         """
         return yaml_data
 
-    def _write_styled_literal(self, string):
+    # The part of a line in front of a value: list item indicators, the key
+    # and an anchor
+    LINE_START = re.compile(
+        ensure_unicode(r'^(?P<items>(?: *- +)*)(?P<key> *\S.*?:)?\s*'
+                       r'(?:&\S+\s+)?$')
+    )
+
+    def _get_parent_indent(self, line_start):
+        """ Find the column of the entry (key or list item) a value belongs to
+
+        Args:
+            line_start: The part of the line in front of the value
+
+        Returns:
+            The column or None if the entry starts in a previous line.
+        """
+        m = self.LINE_START.match(line_start)
+        if m is None:
+            return None
+        items, key = m.group('items'), m.group('key')
+        if key:
+            return len(items) + len(key) - len(key.lstrip(' '))
+        if items:
+            return items.rindex('-')
+        return None
+
+    def _write_styled_literal(self, string, parent_indent=None):
         """ Produce a properly formatted YAML string
 
         Properly format translation string based on string's style
@@ -339,6 +365,8 @@ class YamlHandler(Handler):
 
         Args:
             string: An OpenString instance
+            parent_indent: The column of the entry the string belongs to; if
+                missing, it is deduced from the levels of the string's key
 
         Returns:
             The formatted string.
@@ -358,6 +386,12 @@ class YamlHandler(Handler):
 
         style = string.flags.split(':')[-1]
 
+        if style in ('|', '>') and parent_indent is not None:
+            # The indentation indicator of a block is relative to its parent
+            # and has one digit
+            emitter.best_indent = min(max(self.indent, 1), 9)
+            emitter.indent = parent_indent + emitter.best_indent
+
         if style == '"':
             emitter.write_double_quoted(string.string)
         elif style == '\'':
@@ -392,13 +426,23 @@ class YamlHandler(Handler):
         """
         transcriber = Transcriber(template)
         template = transcriber.source
+        previous_end = 0
 
         for string in stringset:
+            hash_position = template.index(string.template_replacement)
             if string.pluralized:
                 translation = self._compile_pluralized(string)
             else:
-                translation = self._write_styled_literal(string)
-            hash_position = template.index(string.template_replacement)
+                # the line end after a block is part of the replaced text
+                line_start = max(
+                    template.rfind('\n', 0, hash_position) + 1, previous_end
+                )
+                translation = self._write_styled_literal(
+                    string,
+                    self._get_parent_indent(
+                        template[line_start:hash_position]
+                    ),
+                )
             transcriber.copy_until(hash_position)
             # The context contains custom tags. If it exists, we must prepend
             # it and apply a space afterwards so it doesn't get merged with the
@@ -409,6 +453,7 @@ class YamlHandler(Handler):
                 transcriber.add(' ')
             transcriber.add(translation)
             transcriber.skip(len(string.template_replacement))
+            previous_end = hash_position + len(string.template_replacement)
 
         transcriber.copy_until(len(template))
         compiled = transcriber.get_destination()
-- 
2.43.0


From 9814d3ecca2ad1ebb45485b26df07bf119931d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 041/130] fix: do not take a comment beside a YAML string for
 the next string's

---
 openformats/formats/yaml/yaml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index e2ea11b..ec2f524 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -296,6 +296,12 @@ class YamlHandler(Handler):
 
     def _find_comment(self, content, start, end):
         """ Finds comment lines that precede a part of the YAML structure """
+        content = content[:end]
+        if start > 0 and content[start - 1] != '\n':
+            # what remains of the previous string's line is not about this one
+            start = content.find('\n', start)
+            if start == -1:
+                return ''
         lines = [
             line.strip()
             for line in content[start:end].split('\n')
-- 
2.43.0


From 427dd37822bf818ff6a6119422f363f68cf03305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 042/130] fix: quote plain YAML texts that would be read as
 another type

---
 openformats/formats/yaml/yaml.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index ec2f524..9644b0c 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -8,6 +8,7 @@ from yaml.constructor import SafeConstructor
 from yaml.emitter import Emitter
 
 from openformats.exceptions import ParseError
+from openformats.formats.yaml.constants import YAML_STRING_ID
 from openformats.formats.yaml.utils import (TxYamlDumper, TxYamlLoader,
                                             YamlGenerator, yaml)
 from openformats.handlers import Handler
@@ -363,6 +364,15 @@ class YamlHandler(Handler):
             return items.rindex('-')
         return None
 
+    @staticmethod
+    def _is_plain_string(value):
+        """ Check that an unquoted value is read as a string and not as a
+        number, a boolean etc """
+        tag = yaml.resolver.Resolver().resolve(
+            yaml.ScalarNode, value, (True, False)
+        )
+        return tag == YAML_STRING_ID
+
     def _write_styled_literal(self, string, parent_indent=None):
         """ Produce a properly formatted YAML string
 
@@ -406,7 +416,8 @@ class YamlHandler(Handler):
             else:
                 emitter.write_double_quoted(string.string)
         elif style == '':
-            if analysis.allow_block_plain and analysis.allow_flow_plain:
+            if (analysis.allow_block_plain and analysis.allow_flow_plain and
+                    (string.context or self._is_plain_string(string.string))):
                 emitter.write_plain(string.string)
             else:
                 emitter.write_double_quoted(string.string)
-- 
2.43.0


From edf20d5bb05d7c334fa7341b5d26aa126df001ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 043/130] fix: quote YAML block texts with characters a block
 cannot hold

---
 openformats/formats/yaml/yaml.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 9644b0c..6e5d7c8 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -364,6 +364,13 @@ class YamlHandler(Handler):
             return items.rindex('-')
         return None
 
+    # Characters that are not printable or would be read as another line end
+    NOT_IN_BLOCK = re.compile(
+        ensure_unicode(u'[^\n\t\x20-\x7e\xa0-\u2027\u202a-\ud7ff'
+                       u'\ue000-\ufefe\uff00-\ufffd'
+                       u'\U00010000-\U0010ffff]')
+    )
+
     @staticmethod
     def _is_plain_string(value):
         """ Check that an unquoted value is read as a string and not as a
@@ -408,7 +415,11 @@ class YamlHandler(Handler):
             emitter.best_indent = min(max(self.indent, 1), 9)
             emitter.indent = parent_indent + emitter.best_indent
 
-        if style == '"':
+        if style in ('|', '>') and self.NOT_IN_BLOCK.search(string.string):
+            emitter.write_double_quoted(string.string)
+            # the line end of the block is part of the replaced text
+            stream.write(u'\n')
+        elif style == '"':
             emitter.write_double_quoted(string.string)
         elif style == '\'':
             if analysis.allow_single_quoted:
-- 
2.43.0


From 94087e4173adccd46264ee61f3f983dfe8d65b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 044/130] fix: quote YAML block texts that are only spaces

---
 openformats/formats/yaml/yaml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 6e5d7c8..71af799 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -415,7 +415,9 @@ class YamlHandler(Handler):
             emitter.best_indent = min(max(self.indent, 1), 9)
             emitter.indent = parent_indent + emitter.best_indent
 
-        if style in ('|', '>') and self.NOT_IN_BLOCK.search(string.string):
+        if style in ('|', '>') and (
+                not string.string.strip(' ') or
+                self.NOT_IN_BLOCK.search(string.string)):
             emitter.write_double_quoted(string.string)
             # the line end of the block is part of the replaced text
             stream.write(u'\n')
-- 
2.43.0


From 6b624c8d58d61a9f96a1d5452feb74d11e76c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 045/130] fix: end every folded YAML text with a line end

---
 openformats/formats/yaml/yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 71af799..9153a7b 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -440,7 +440,7 @@ class YamlHandler(Handler):
             emitter.write_folded(string.string)
 
         translation = emitter.stream.getvalue() or string.string
-        if translation.startswith(">-") and not translation.endswith("\n"):
+        if style == '>' and not translation.endswith("\n"):
             translation += "\n"
         emitter.stream.close()
         return translation
-- 
2.43.0


From a239cc46166250a1bad7ad5d21cbea2865b834a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 046/130] fix: keep YAML plurals with a single form plural

---
 openformats/formats/yaml/yaml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 9153a7b..91e6e58 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -100,6 +100,7 @@ class YamlHandler(Handler):
                 continue
             string_object = OpenString(
                 key, value, context=tag or '', flags=style, order=order,
+                pluralized=node.get('pluralized'),
             )
             stringset.append(string_object)
             order += 1
-- 
2.43.0


From 6048406ccf7e0dcbe87a1eb58ca2fafb903f9945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 047/130] fix: find where YAML plurals in flow style start

---
 openformats/formats/yaml/utils.py     |  3 +++
 openformats/formats/yaml/yaml_i18n.py | 20 ++------------------
 2 files changed, 5 insertions(+), 18 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 3563adc..6cacd57 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -220,6 +220,9 @@ class TxYamlLoader(yaml.SafeLoader):
             if isinstance(value, list) or isinstance(value, dict):
                 if value_node.flow_style:
                     style = 'flow'
+                    if isinstance(value, dict) and value_node.value:
+                        # start at the first key inside the brackets
+                        start = value_node.value[0][0].start_mark.index
                 else:
                     style = 'block'
                     start = (start -
diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index 876f8b8..40db43a 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -210,7 +210,8 @@ class I18nYamlHandler(YamlHandler):
             A dictionary representing the parsed leaf node
         """
         value, styles = self._parse_pluralized_value(node.value)
-        start = self._find_pluralized_start_pos(node.value) if node.style =='flow' else node.start
+        # in flow style as well, this is where the first plural rule starts
+        start = node.start
         end = self._find_pluralized_end_pos(node.value)
         style.append(node.style or '')
         # Append the plural styles dictionary to the string's style using a
@@ -234,23 +235,6 @@ class I18nYamlHandler(YamlHandler):
         # the last plural element and not the end position of the parent node.
         return max([entry.end for entry in six.itervalues(node)])
 
-    def _find_pluralized_start_pos(self, node):
-        """ Calculate start position of pluralized string """
-
-        # This is called on flow nodes so this means that we want to return
-        # the start of the top-most element in the flow list.
-        # For eg. if we have the structure:
-        # abc: {
-        #   bcd: 'efg'.
-        #   hij: 'klm'
-        # }
-        # we want to return exactly where 'bcd' starts,
-        # so that template generation picks up both the indentation and the {.
-        # So 1) we get the top-most element: bcd.
-        # 2) We get it's start position (where 'efg' starts).
-        # 3) We move back len('bcd") + len(' ') + len(':') from it.
-        return min([entry.start - len(name) - 2 for name, entry in six.iteritems(node)])
-
     def _parse_pluralized_value(self, node):
         """ Parses input value into an OpenString pluralized value
 
-- 
2.43.0


From 9c1789f79be15fb5f0bf0baeb5949d2c6f9d92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:15 +0000
Subject: [PATCH 048/130] fix: compile YAML plurals into readable files
 whatever their texts and layout

---
 openformats/formats/yaml/yaml.py      | 37 +++++++++++++++++++-----
 openformats/formats/yaml/yaml_i18n.py | 41 +++++++++++++++++++++------
 2 files changed, 63 insertions(+), 15 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 91e6e58..e20f197 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -461,13 +461,20 @@ class YamlHandler(Handler):
 
         for string in stringset:
             hash_position = template.index(string.template_replacement)
+            hash_end = hash_position + len(string.template_replacement)
+            # the line end after a block is part of the replaced text
+            line_start = max(
+                template.rfind('\n', 0, hash_position) + 1, previous_end
+            )
             if string.pluralized:
-                translation = self._compile_pluralized(string)
-            else:
-                # the line end after a block is part of the replaced text
-                line_start = max(
-                    template.rfind('\n', 0, hash_position) + 1, previous_end
+                translation = self._compile_pluralized(
+                    string, hash_position - line_start
                 )
+                if 'flow' not in string.flags:
+                    translation = self._fit_line_end(
+                        translation, template, hash_end
+                    )
+            else:
                 translation = self._write_styled_literal(
                     string,
                     self._get_parent_indent(
@@ -484,13 +491,29 @@ class YamlHandler(Handler):
                 transcriber.add(' ')
             transcriber.add(translation)
             transcriber.skip(len(string.template_replacement))
-            previous_end = hash_position + len(string.template_replacement)
+            previous_end = hash_end
 
         transcriber.copy_until(len(template))
         compiled = transcriber.get_destination()
 
         return compiled
 
+    @staticmethod
+    def _fit_line_end(translation, template, end):
+        """ Have one line end between a block and what follows it
+
+        Args:
+            translation: A text that ends a line
+            template: The template
+            end: Where the template continues after the text
+        """
+        if translation.endswith(u'\n'):
+            if re.compile(r'\r?\n').match(template, end):
+                translation = translation[:-1]
+        elif not re.compile(r'[ \t]*(?:\r?\n|$)|[ \t]+#').match(template, end):
+            translation += u'\n'
+        return translation
+
     def _compile_without_template(self, stringset):
         yg = YamlGenerator(self)
         yaml_dict = yg.generate_yaml_dict(stringset)
@@ -534,7 +557,7 @@ class YamlHandler(Handler):
         indent = indent.replace('\t', ' ' * 4)
         return len(indent)
 
-    def _compile_pluralized(self, string):
+    def _compile_pluralized(self, string, column=None):
         """ Prepare a pluralized string to be added to the template
         """
         raise NotImplementedError
diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index 40db43a..6caea24 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -105,7 +105,20 @@ class I18nYamlHandler(YamlHandler):
                 pass
         return {}
 
-    def _compile_pluralized(self, string):
+    def _compile_pluralized(self, string, column=None):
+        """
+        Prepare a pluralized string to be added to the template
+
+        Args:
+            string: The OpenString to compile
+            column: The column of the template's line the string is put at; if
+                missing, it is deduced from the levels of the string's key
+
+        Returns:
+            A string with the plural rules. It has a line end if it ends with
+            a literal or folded text and the string is not in flow style.
+        """
+        flow = 'flow' in string.flags
         # Retrieve the styles of the plural rules that are stored in the
         # string's flag
         plural_styles_json = self._get_plural_styles(string)
@@ -124,13 +137,16 @@ class I18nYamlHandler(YamlHandler):
             # single YAML rule and preserve the string's style
             plural = yaml.safe_dump(
                 {self.get_rule_string(rule): translation},
-                default_flow_style=False,
+                default_flow_style=flow,
                 default_style=plural_style,
                 allow_unicode=True,
                 width=float('inf'),
             )
             if isinstance(plural, six.binary_type):
                 plural = plural.decode('utf8')
+            if flow:
+                # The brackets are part of the template
+                plural = plural.strip()[1:-1] + u'\n'
             # The safe_dump method places quotes around the keys too, which are
             # unnecessary. Remove them using the regular expression below. By
             # default, the safe_dump method wraps the keys in double quotes
@@ -147,18 +163,26 @@ class I18nYamlHandler(YamlHandler):
             # styles. We need to remove it for consistency between the compiled
             # file and the original one
             if plural_style in ['|', '>']:
-                plural = plural.replace('|-', '|').replace('>-', '>')
+                plural = re.sub(r'^(\w+: [|>]\d?)-', r'\g<1>', plural)
+                # It also ends the document after a text whose last line is
+                # blank
+                plural = re.sub(r'\n\.\.\.\n$', u'\n', plural)
             plurals.append(plural)
 
         # Calculate the indentation we need to prepend to each line of the
         # plural rules
-        indentation_levels = len(string.key.split('.')) + self.extra_indent
-        indent = " " * indentation_levels * self.indent
-        plural_entry = self._indent_plurals(plurals, indent, flow='flow' in string.flags)
+        if column is None or flow:
+            indentation_levels = len(string.key.split('.')) + self.extra_indent
+            indent = " " * indentation_levels * self.indent
+        else:
+            indent = " " * (column + self.indent)
+        plural_entry = self._indent_plurals(plurals, indent, flow=flow)
+        if not flow and plural_style in ['|', '>']:
+            plural_entry += u'\n'
 
         # Hash replacement in template is already indented in the template
         # so for the first line we need to keep on one level of indentation
-        if 'flow' in string.flags:
+        if flow:
             return plural_entry[(len(indent)):]
         else:
             return plural_entry[(len(indent) - self.indent):]
@@ -172,7 +196,8 @@ class I18nYamlHandler(YamlHandler):
         # of spaces.
         try:
             plurals = [
-                re.sub('\n(\s+)', '\n{}\g<1>'.format(indentation), line)
+                re.sub(u'([\n\x85\u2028\u2029])([ \t]+)',
+                       u'\g<1>{}\g<2>'.format(indentation), line)
                 for line in plurals
             ]
         except re.error:
-- 
2.43.0


From 1978575093eba0b209ba2120764b107dd9417f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 049/130] fix: generate YAML list items whose predecessors are
 not included

---
 openformats/formats/yaml/utils.py               | 11 +++++------
 .../formats/yaml/yaml_representee_classes.py    | 17 +++++++++++++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 6cacd57..4d13b2c 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -484,14 +484,13 @@ class YamlGenerator(object):
                         yaml_dict[key] = self._create_dict_node(styles[i])
                     yaml_dict = yaml_dict[key]
             else:
-                if index < len(yaml_dict):
-                    yaml_dict = yaml_dict[index]
-                else:
+                if index not in yaml_dict.positions:
                     if next_is_list:
-                        yaml_dict.append(self._create_list_node(styles[i]))
+                        node = self._create_list_node(styles[i])
                     else:
-                        yaml_dict.append(self._create_dict_node(styles[i]))
-                    yaml_dict = yaml_dict[index]
+                        node = self._create_dict_node(styles[i])
+                    yaml_dict.append_at(index, node)
+                yaml_dict = yaml_dict[yaml_dict.positions[index]]
             if is_last:
                 if next_is_list:
                     yaml_dict.append(self._get_styled_string(entry,
diff --git a/openformats/formats/yaml/yaml_representee_classes.py b/openformats/formats/yaml/yaml_representee_classes.py
index 6375064..78977c7 100644
--- a/openformats/formats/yaml/yaml_representee_classes.py
+++ b/openformats/formats/yaml/yaml_representee_classes.py
@@ -38,11 +38,24 @@ class single_quoted_unicode(plain_unicode):  # noqa: N801
     pass
 
 
-class BlockList(list):
+class IndexedList(list):
+    """ A list that knows which index its items have in the source file, where
+    other items may have been between them """
+
+    def __init__(self, *args, **kwargs):
+        super(IndexedList, self).__init__(*args, **kwargs)
+        self.positions = {}
+
+    def append_at(self, index, item):
+        self.positions[index] = len(self)
+        self.append(item)
+
+
+class BlockList(IndexedList):
     pass
 
 
-class FlowList(list):
+class FlowList(IndexedList):
     pass
 
 
-- 
2.43.0


From 6779e758b67123f972cab55c6b32e2c59dc45045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 050/130] fix: generate YAML files whose root is a list

---
 openformats/formats/yaml/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 4d13b2c..9fcb57f 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -349,9 +349,12 @@ class YamlGenerator(object):
         Returns:
             An YAML serializable OrderedDict instance.
         """
-        yaml_dict = OrderedDict()
+        yaml_dict = None
         for se in stringset:
             keys = se.key.split('.')
+            if yaml_dict is None:
+                _, is_list = self._parse_list_index_key(keys[0])
+                yaml_dict = BlockList() if is_list else OrderedDict()
             flags = se.flags.split(':')
             keys = list(map(self.handler.unescape_dots, keys))
             if se.pluralized:
@@ -368,7 +371,7 @@ class YamlGenerator(object):
                 self._insert_translation_in_dict(
                     yaml_dict, keys, flags, se.string, tag=tag,
                 )
-        return yaml_dict
+        return OrderedDict() if yaml_dict is None else yaml_dict
 
     def _get_styled_string(self, translation_string, style, tag=None):
         """
@@ -458,9 +461,11 @@ class YamlGenerator(object):
         yaml_dict = parent_dict
         entry = translation_string
         if len(keys) == 1:
-            key = self._parse_int_key(keys[0])
-            yaml_dict[key] = self._get_styled_string(entry, styles[-1],
-                                                     tag=tag)
+            value = self._get_styled_string(entry, styles[-1], tag=tag)
+            if isinstance(yaml_dict, list):
+                yaml_dict.append(value)
+            else:
+                yaml_dict[self._parse_int_key(keys[0])] = value
             return
 
         for i, key in enumerate(keys[:-1]):
-- 
2.43.0


From 1c91317d1c35086c7a72af6e7ce9cf1cbcda53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:39 +0000
Subject: [PATCH 051/130] fix: generate the custom tags of YAML block texts

---
 openformats/formats/yaml/yaml_representers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/yaml/yaml_representers.py b/openformats/formats/yaml/yaml_representers.py
index 857d1c6..bc1273b 100644
--- a/openformats/formats/yaml/yaml_representers.py
+++ b/openformats/formats/yaml/yaml_representers.py
@@ -19,11 +19,13 @@ def unicode_representer(dumper, data):
 
 
 def folded_unicode_representer(dumper, data):
-    return dumper.represent_scalar(YAML_STRING_ID, data, style='>')
+    tag = getattr(data, 'tag', YAML_STRING_ID)
+    return dumper.represent_scalar(tag, data, style='>')
 
 
 def literal_unicode_representer(dumper, data):
-    return dumper.represent_scalar(YAML_STRING_ID, data, style='|')
+    tag = getattr(data, 'tag', YAML_STRING_ID)
+    return dumper.represent_scalar(tag, data, style='|')
 
 
 def double_quoted_unicode_representer(dumper, data):
-- 
2.43.0


From 79b39865109db454fa874b537b5452c933382803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:10 +0000
Subject: [PATCH 052/130] fix: generate YAML mappings under and inside integer
 keys

---
 openformats/formats/yaml/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 9fcb57f..4404d4b 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -472,9 +472,12 @@ class YamlGenerator(object):
             is_last = i == (len(keys) - 2)
             next_key = keys[i+1]
 
-            key = self._parse_int_key(key)
             key, is_list = self._parse_list_index_key(key)
+            if not is_list:
+                key = self._parse_int_key(key)
             next_key, next_is_list = self._parse_list_index_key(next_key)
+            if not next_is_list:
+                next_key = self._parse_int_key(next_key)
 
             if is_list:
                 index = key
-- 
2.43.0


From 78a1b83121722af79ac85dfba5a154b7ff859e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 053/130] fix: report a YAML file without a language root as a
 parse error

---
 openformats/formats/yaml/yaml_i18n.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index 6caea24..aa64248 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -67,6 +67,9 @@ class I18nYamlHandler(YamlHandler):
         return True
 
     def _get_yaml_data_to_parse(self, yaml_data):
+        if not isinstance(yaml_data, dict) or not yaml_data:
+            raise ParseError("YAML file does not contain a root key.")
+
         keys = list(six.iterkeys(yaml_data))
         if len(keys) > 1:
             raise ParseError("YAML file contains more than one root keys.")
-- 
2.43.0


From 3b857bfbfd69f979c875cd3632385033316270ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 054/130] fix: take the text around a stringsdict variable out
 of the format string itself

---
 openformats/formats/stringsdict.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 26f6565..269cea4 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -154,6 +154,8 @@ class StringsDictHandler(Handler):
                         "variable": matches.group("variable"),
                         "prefix": matches.group("prefix"),
                         "suffix": matches.group("suffix"),
+                        "start": value_tag.text_position,
+                        "end": value_tag.content_end,
                     }
                 # If the key is the one of the stringsdict defaults skip it
                 continue
@@ -185,21 +187,15 @@ class StringsDictHandler(Handler):
 
         # If inline-replacement [1] is required, the first step is to remove
         # the prefix and the suffix from the original string.
-        if extras is not None:
-            # This isolates the part of the source file between the main key
-            # and the plural rules, so we only replace the value of the
-            # NSStringLocalizedFormatKey value
-            text = self.transcriber.source[
-                self.transcriber.ptr:dict_tag.position
-            ]
-            text = text.replace(u'<string>{}'.format(extras['prefix']),
-                                u'<string>', 1)
-            text = text.replace(u'{}</string>'.format(extras['suffix']),
-                                u'</string>', 1)
-            self.transcriber.add(text)
-            self.transcriber.skip_until(dict_tag.position)
-        else:
-            self.transcriber.copy_until(dict_tag.position)
+        if extras is not None and self.transcriber.ptr <= extras['start']:
+            # Only the variable is left of the NSStringLocalizedFormatKey value
+            self.transcriber.copy_until(extras['start'])
+            self.transcriber.skip(len(extras['prefix']))
+            self.transcriber.copy_until(
+                extras['end'] - len(extras['suffix'])
+            )
+            self.transcriber.skip(len(extras['suffix']))
+        self.transcriber.copy_until(dict_tag.position)
 
         # Save the line in which the plural rule starts to associate it with
         # the openstring object. This is used later for generating helpful
-- 
2.43.0


From da6479aa1332d8dc863eec8bbdc33b26fe65fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:57 +0000
Subject: [PATCH 055/130] fix: an empty form of a stringsdict variable with
 text around it is extracted once

---
 openformats/formats/stringsdict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 269cea4..19daf36 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -224,7 +224,7 @@ class StringsDictHandler(Handler):
             if extras is not None and extras["variable"] == secondary_key:
                 content = u"{prefix}{content}{suffix}".format(
                     prefix=extras["prefix"],
-                    content=value_tag.content,
+                    content=value_tag.content or u"",
                     suffix=extras["suffix"],
                 )
             else:
@@ -234,7 +234,7 @@ class StringsDictHandler(Handler):
             # If empty <string> tag keep it. It is either a placeholder which
             # should be kept or it is missing plurals and we will raise a
             # ParseError on self._create_string.
-            if value_tag.content and value_tag.content.strip() != "":
+            if content and content.strip() != "":
                 self.transcriber.skip_until(value_tag.end)
             else:
                 self.transcriber.copy_until(value_tag.tail_position)
-- 
2.43.0


From 9a246c11aa71a8286ae32f142d6a431919f8eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 056/130] fix: keep the text around a stringsdict variable that
 has no plural rules after it

---
 openformats/formats/stringsdict.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 19daf36..0e8c2a8 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -133,7 +133,8 @@ class StringsDictHandler(Handler):
 
         # The first key tag contains the main key
         main_key = self._handle_key(key_tag, main_key=True)
-        dict_iterator = self._handle_dict(dict_tag)
+        children = list(self._handle_dict(dict_tag))
+        dict_iterator = iter(children)
 
         string_list = []
         # A helper variable to save the prefix and suffix needed for the
@@ -147,7 +148,12 @@ class StringsDictHandler(Handler):
             if secondary_key == self.KEY_FORMAT:
                 matches = re.match(ensure_unicode(self.VALUE_CONTENT_RE),
                                    value_tag.content)
-                if matches is not None:
+                # The variable's plural rules have yet to come
+                if matches is not None and any(
+                        child.tag == self.KEY and
+                        child.position > value_tag.position and
+                        child.content == matches.group("variable")
+                        for child in children):
                     # The prefix and the suffix are relative to the FIRST
                     # variable
                     text_extras = {
-- 
2.43.0


From 8eaed3810d29a13674a3927dd0402c2116b10f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:14 +0000
Subject: [PATCH 057/130] fix: accept an empty format string in a stringsdict
 file

---
 openformats/formats/stringsdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 0e8c2a8..c0dabe8 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -147,7 +147,7 @@ class StringsDictHandler(Handler):
             value_tag = self._get_key_value(dict_iterator, key_child)
             if secondary_key == self.KEY_FORMAT:
                 matches = re.match(ensure_unicode(self.VALUE_CONTENT_RE),
-                                   value_tag.content)
+                                   value_tag.content or u"")
                 # The variable's plural rules have yet to come
                 if matches is not None and any(
                         child.tag == self.KEY and
-- 
2.43.0


From 067076e2be01ff68ca28c7c51097c52c8185033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 058/130] fix: extract all of a format string of many lines in
 a stringsdict file

---
 openformats/formats/stringsdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index c0dabe8..c3d72d4 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -147,7 +147,7 @@ class StringsDictHandler(Handler):
             value_tag = self._get_key_value(dict_iterator, key_child)
             if secondary_key == self.KEY_FORMAT:
                 matches = re.match(ensure_unicode(self.VALUE_CONTENT_RE),
-                                   value_tag.content or u"")
+                                   value_tag.content or u"", re.DOTALL)
                 # The variable's plural rules have yet to come
                 if matches is not None and any(
                         child.tag == self.KEY and
-- 
2.43.0


From 957eeea80dd6887f88197c68ff69d13f1d14eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 059/130] fix: refuse a stringsdict file without a <dict> tag
 with a parse error

---
 openformats/formats/stringsdict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index c3d72d4..f967ba7 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -8,7 +8,7 @@ import six
 
 from openformats.utils.compat import ensure_unicode
 
-from ..exceptions import RuleError
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
@@ -63,7 +63,9 @@ class StringsDictHandler(Handler):
         self.order_counter = itertools.count()
         source = self.transcriber.source
         # Skip xml info declaration
-        dict_tag_position = source.index(self.PARSE_START)
+        dict_tag_position = source.find(self.PARSE_START)
+        if dict_tag_position == -1:
+            raise ParseError(u"Could not find a <dict> tag in the file")
 
         parsed = NewDumbXml(source, dict_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
-- 
2.43.0


From ca07cf00bb3623596af32f5d370a02610b0ce46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 060/130] fix: find the root of a custom XML file with \r\n
 newlines before it

---
 openformats/formats/customizable_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index a00cb77..d41129d 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -130,7 +130,7 @@ class CustomizableXMLHandler(Handler):
         source = transcriber.source
 
         # Everything starts at the root tag
-        root_tag_pos = self._get_root_node_pos(content)
+        root_tag_pos = self._get_root_node_pos(source)
         parsed = NewDumbXml(source, root_tag_pos)
         stringset = []
 
-- 
2.43.0


From e300ea96d77ada06871704bbf10ec2dd6b23d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 061/130] fix: refuse custom XML sections without an id with a
 parse error

---
 openformats/formats/customizable_xml.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index d41129d..e7bffba 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -155,7 +155,7 @@ class CustomizableXMLHandler(Handler):
                     string = OpenString(
                         key,
                         tag.content,
-                        context=section_tag.attrib[self.section_id_name],
+                        context=self._get_section_id(section_tag),
                         order=next(order_counter),
                     )
                     stringset.append(string)
@@ -264,6 +264,23 @@ class CustomizableXMLHandler(Handler):
                 )
             )
 
+    def _get_section_id(self, section_tag):
+        """Return the id of the given section, the context of its strings.
+
+        :param NewDumbXml section_tag: the XML tag of the section
+        :return: the id of the section
+        :rtype: str
+        """
+        try:
+            return section_tag.attrib[self.section_id_name]
+        except KeyError:
+            raise ParseError(
+                'Missing "{key}" attribute in <{section}> node'.format(
+                    key=self.section_id_name,
+                    section=self.section_name,
+                )
+            )
+
     def _get_key(self, string_tag, tag):
         """Return the key that corresponds to a given translatable string.
 
-- 
2.43.0


From acf18504ae55dd2c6d24acc9336909aae8a2f87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 062/130] fix: compile the custom XML strings that were parsed,
 and no other tags

---
 openformats/formats/customizable_xml.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index e7bffba..7e9c867 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -197,13 +197,12 @@ class CustomizableXMLHandler(Handler):
         source = self.transcriber.source
 
         parsed = NewDumbXml(source)
-        string_iterator = parsed.find_descendants(self.string_name)
-
         self.stringset = iter(stringset)
         self.next_string = self._get_next_string()
 
-        for string_tag in string_iterator:
-            self._compile_string(string_tag)
+        for section_tag in parsed.find_children(self.section_name):
+            for string_tag in section_tag.find_children(self.string_name):
+                self._compile_string(string_tag)
 
         self.transcriber.copy_to_end()
         compiled = (
@@ -226,21 +225,20 @@ class CustomizableXMLHandler(Handler):
               <variant context="b">Yet another string</variant>
             </string>
         """
-        # Copy until "<string key="..." ...>"
-        self.transcriber.copy_until(string_tag.text_position)
-
         base_and_variants = string_tag.find_children(
             self.base_string_name, self.variant_string_name,
         )
         for translatable_str_node in base_and_variants:
+            # Only consume the current translation if the XML node has content
+            if not translatable_str_node.content:
+                continue
+
             # Copy until "<base>" or "<variant>"
             self.transcriber.copy_until(translatable_str_node.text_position)
 
-            # Only consume the current translation if the XML node has text
-            if translatable_str_node.text:
-                # Add the translation
-                self.transcriber.add(self.next_string.string)
-                self.next_string = self._get_next_string()
+            # Add the translation
+            self.transcriber.add(self.next_string.string)
+            self.next_string = self._get_next_string()
 
             # Skip the hash placeholder
             self.transcriber.skip_until(translatable_str_node.content_end)
-- 
2.43.0


From 69689fec0cd6c121ad365eec0f873208b6d6e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 063/130] fix: parse markdown files that begin with a code
 block

---
 openformats/formats/github_markdown.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index 0e58bfe..c8b3213 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -35,10 +35,12 @@ def string_handler(token, template):
     if key == 'block_code':
         lines = string.split('\n')
         line = lines[0]
-        spaces = re.findall(
-            ensure_unicode(r'\n( *){}').format(re.escape(line)),
-            template
-        )[0]
+        indentation = re.search(
+            ensure_unicode(r'^( *){}').format(re.escape(line)),
+            template,
+            re.MULTILINE
+        )
+        spaces = indentation.group(1) if indentation else ''
         if spaces:
             string = ''
             for line in lines:
-- 
2.43.0


From 49a38cacb23f9bc340d6f5531c8c7959672b0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 064/130] fix: extract markdown headings with a # inside

---
 openformats/formats/github_markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index c8b3213..a0e427f 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -55,7 +55,7 @@ def string_handler(token, template):
     # Drop # chars from beginning of the string
     match_header_line = re.search(ensure_unicode(r'^#+\s'), string)
     if match_header_line:
-        return string.replace(match_header_line.group(), '')
+        return string[match_header_line.end():]
 
     # Extract Text from `[Text]: link` or `"[Text]: link"` lines
     match_reference = re.search(ensure_unicode(r'^"?\[([^\[^\]]+)\]:.+"?$'), string)
-- 
2.43.0


From ae1aa29ff16cab4687883149eb7027faa8532021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 065/130] fix: read \\uXXXX in markdown headers as hexadecimal

---
 openformats/formats/github_markdown_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index d0dc40f..f7650a7 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -236,8 +236,8 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             for match in reversed(all_matches):
                 escaped = match.group()
                 # From a string like '\u0008' get everything after `\u`
-                # and convert it to a character based on its int value
-                char = six.unichr(int(escaped[2:]))
+                # and convert it to a character based on its hex int value
+                char = six.unichr(int(escaped[2:], 16))
                 if Reader.NON_PRINTABLE.match(char):
                     string = '{before}{repl}{after}'.format(
                         before=string[:match.start()],
-- 
2.43.0


From 09281834c6181fe5fcf61379a0b4519a4377fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 066/130] fix: keep the spaces at the end of markdown alerts

---
 openformats/formats/github_markdown_v2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index f7650a7..e81fc7b 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -126,8 +126,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
                 bool(re.match(block_pattern, string))
                 or string in md_template[curr_pos:]
             ):
-                # Special handling for [!NOTE] blocks
-                if bool(re.match(block_pattern, string)):
+                # Special handling for [!NOTE] blocks whose whitespace is not
+                # that of the template, eg because of their indentation
+                if string not in md_template[curr_pos:]:
                     start, end = self.find_fuzzy_substring(
                         string, md_template, curr_pos
                     )
@@ -142,7 +143,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
                             + md_template[end:]
                         )
                         curr_pos = start + len(string_object.template_replacement)
-                elif string in md_template[curr_pos:]:
+                else:
                     string_object = OpenString(
                         six.text_type(order), string, order=order
                     )
-- 
2.43.0


From 8be6db37d675ea0b27140c158db73d1d91d08da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 067/130] fix: look for each markdown string after the whole of
 the token before

---
 openformats/formats/github_markdown.py    | 28 +++++++++++++++++++++--
 openformats/formats/github_markdown_v2.py | 13 ++++++++---
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index a0e427f..4681e50 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -77,6 +77,25 @@ def string_handler(token, template):
     return string
 
 
+def find_token(token, template, start):
+    """
+    Find the whole of a token, as opposed to the string extracted from it, in
+    the template.
+    Parameters:
+    token: Tuple of (string, string_type), see `string_handler`.
+    template: the template of the resource
+    start: the position of the template to start from
+
+    returns: the position the token starts at and the one it ends at, both
+             `start` if it was not found.
+    """
+    string = token[0].strip('\n')
+    position = template.find(string, start)
+    if position == -1:
+        return start, start
+    return position, position + len(string)
+
+
 class TxBlockLexer(BlockLexer):
 
     md_stringset = []
@@ -219,8 +238,10 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
 
         order = 0
         curr_pos = 0
-        for string in (yaml_stringset + block.md_stringset):
-            string = string_handler(string, template)
+        for token in (yaml_stringset + block.md_stringset):
+            string = string_handler(token, template)
+            # Everything up to the end of the token is done with this string
+            curr_pos, token_end = find_token(token, template, curr_pos)
             if string and string in template[curr_pos:]:
                 string_object = OpenString(six.text_type(order),
                                            string,
@@ -233,4 +254,7 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
                 )
                 curr_pos = template.find(string_object.template_replacement)
                 curr_pos = curr_pos + len(string_object.template_replacement)
+                token_end += len(string_object.template_replacement)
+                token_end -= len(string)
+            curr_pos = max(curr_pos, token_end)
         return force_newline_type(template, newline_type), stringset
diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index e81fc7b..3bec731 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -7,7 +7,9 @@ import unicodedata
 from mistune import Markdown
 from yaml.reader import Reader
 
-from openformats.formats.github_markdown import TxBlockLexer, string_handler
+from openformats.formats.github_markdown import (
+    TxBlockLexer, find_token, string_handler
+)
 from openformats.formats.yaml import YamlHandler
 from openformats.utils.compat import ensure_unicode
 
@@ -117,8 +119,10 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         block_label_string = ("|").join(self.SUPPORTED_BLOCK_LABELS)
         block_pattern = rf'^\s*>\s{{0,4}}\[!({block_label_string})\]'
 
-        for string in block.md_stringset:
-            string = string_handler(string, md_template)
+        for token in block.md_stringset:
+            string = string_handler(token, md_template)
+            # Everything up to the end of the token is done with this string
+            curr_pos, token_end = find_token(token, md_template, curr_pos)
             # Ignore any string that does not appear in the template,
             # We do this to avoid parsing strings that are not properly
             # handled by the Markdown library, such as ```code``` blocks
@@ -157,6 +161,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
 
                     curr_pos = md_template.find(string_object.template_replacement)
                     curr_pos = curr_pos + len(string_object.template_replacement)
+                    token_end += len(string_object.template_replacement)
+                    token_end -= len(string)
+            curr_pos = max(curr_pos, token_end)
 
         template = yaml_template + seperator + md_template
         return force_newline_type(template, newline_type), stringset
-- 
2.43.0


From df6b9cc6083501ed321750b9a030ee2072ff8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 068/130] fix: look for the cells of markdown tables after the
 delimiter row

---
 openformats/formats/github_markdown.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index 4681e50..fc19add 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -48,6 +48,10 @@ def string_handler(token, template):
                 string += '\n'
                 string += line
 
+    # Part of the syntax of a table
+    if key == 'delimiter_row':
+        return
+
     # Line is a liquid template tag, ignore.
     if string.startswith('{%') and string.endswith('%}'):
         return
@@ -140,6 +144,10 @@ class TxBlockLexer(BlockLexer):
                     if 'header' in keys and 'cells' in keys:
                         self.md_stringset.extend(
                             [(h, 'header') for h in table_token['header']])
+                        # Not to mistake its dashes for those of a cell
+                        self.md_stringset.append(
+                            (m.group(0).strip('\n').split('\n')[1],
+                             'delimiter_row'))
                         self.md_stringset.extend(
                             [(cell, 'cell') for row in table_token['cells']
                                 for cell in row]
-- 
2.43.0


From f5e5147ae6d83e1e9d013a31bab55a8814045109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 069/130] fix: keep backslashes and line breaks of strings in
 markdown headers

---
 openformats/formats/github_markdown_v2.py | 24 +++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 3bec731..5d3cba4 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -46,6 +46,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
     # ... or '\x2D'
     ESCAPED_UNICODE_HEX = re.compile(r'\\x[a-fA-F0-9]{2}')
 
+    # What needs a backslash within double quotes
+    ESCAPABLE = re.compile(r'\\u[a-f0-9]{4}|[\\"]')
+
     def compile(self, template, stringset, **kwargs):
         # assume stringset is ordered within the template
         transcriber = Transcriber(template)
@@ -284,7 +287,14 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         """
         should_wrap, quote_char = self._should_wrap_in_quotes(openstring)
         if should_wrap:
-            string = self._wrap_in_quotes(openstring.string, quote_char)
+            is_folded = openstring.flags.endswith('>')
+            if self.NEWLINE in openstring.string and not is_folded:
+                # Only double quotes can have a line break, as an escape
+                string = self._wrap_in_quotes(
+                    openstring.string, self.DOUBLE_QUOTES
+                ).replace(self.NEWLINE, self.BACKSLASH + 'n')
+            else:
+                string = self._wrap_in_quotes(openstring.string, quote_char)
         else:
             string = openstring.string
 
@@ -307,7 +317,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         :raise ValueError: if `quote_char` is not one of the valid values
         """
         if quote_char == '"':
-            string = string.replace(quote_char, self.BACKSLASH + quote_char)
+            string = self.ESCAPABLE.sub(self._escape_match, string)
         elif quote_char == u"'":
             string = string.replace(quote_char, quote_char * 2)
         else:
@@ -320,6 +330,16 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         # wrap string with quotes
         return '{}{}{}'.format(quote_char, string, quote_char)
 
+    @staticmethod
+    def _escape_match(match):
+        """Escape a character that has a meaning within double quotes."""
+        text = match.group()
+        if len(text) > 1 and Reader.NON_PRINTABLE.match(
+                six.unichr(int(text[2:], 16))):
+            # escaped by _escape_invalid_chars
+            return text
+        return GithubMarkdownHandlerV2.BACKSLASH + text
+
     def _should_wrap_in_quotes(self, openstring):
         """Check if the given string should be wrapped in quotes.
 
-- 
2.43.0


From 92075fbd82dea918af12aefa4a552c7c61154bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 070/130] fix: keep the tags of strings in markdown headers

---
 openformats/formats/github_markdown_v2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 5d3cba4..db55501 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -59,6 +59,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             if self._is_yaml_string(openstring):
                 self._escape_invalid_chars(openstring)
                 tr_string = self._transform_yaml_string(openstring)
+                if openstring.context:
+                    # The tag was replaced together with the string
+                    tr_string = u'!{} {}'.format(openstring.context, tr_string)
 
             hash_position = template.index(openstring.template_replacement)
             transcriber.copy_until(hash_position)
-- 
2.43.0


From 3aea0290703ec7f3565c9a1c9d7ccf328d2d1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 071/130] fix: keep the quotes of nested strings in markdown
 headers

---
 openformats/formats/github_markdown_v2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index db55501..f447696 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -360,8 +360,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             return False, openstring.flags
 
         # If single or double quote flags appear, wrap it.
-        if openstring.flags in [self.DOUBLE_QUOTES, self.SINGLE_QUOTE]:
-            return True, openstring.flags
+        style = openstring.flags.split(self.COLON)[-1]
+        if style in [self.DOUBLE_QUOTES, self.SINGLE_QUOTE]:
+            return True, style
 
         string = openstring.string.strip()
 
-- 
2.43.0


From 85e1a4ef8829e6d991d35be494564cef92dbe7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 072/130] fix: quote strings of markdown headers that would not
 be read as such

---
 openformats/formats/github_markdown_v2.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index f447696..d99a2fe 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -5,6 +5,7 @@ import re
 import six
 import unicodedata
 from mistune import Markdown
+from yaml.emitter import Emitter
 from yaml.reader import Reader
 
 from openformats.formats.github_markdown import (
@@ -343,6 +344,21 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             return text
         return GithubMarkdownHandlerV2.BACKSLASH + text
 
+    def _is_read_as_string(self, openstring):
+        """Check if the given string can be left without quotes."""
+        string = openstring.string.strip()
+        if not string or string[0] in (self.PIPE, self.BRACKET_LEFT):
+            return True
+        # a tag tells the type
+        if not openstring.context and not YamlHandler._is_plain_string(string):
+            return False
+        analysis = Emitter(
+            six.StringIO(), allow_unicode=True
+        ).analyze_scalar(string)
+        if 'flow' in openstring.flags:
+            return analysis.allow_flow_plain
+        return analysis.allow_block_plain
+
     def _should_wrap_in_quotes(self, openstring):
         """Check if the given string should be wrapped in quotes.
 
@@ -409,6 +425,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             string.startswith(self.AMPERSAND),
             string.startswith(self.DASH),
             string.startswith(self.AT_SIGN),
+            not self._is_read_as_string(openstring),
             (
                 string.startswith(self.BRACKET_LEFT)
                 and not string.endswith(self.BRACKET_RIGHT)
-- 
2.43.0


From f341bf4700861e919ab92b3eb28be835f6664177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 073/130] fix: quote strings of markdown headers that begin and
 end with a quoted word

---
 openformats/formats/github_markdown_v2.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index d99a2fe..71cea78 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -47,6 +47,10 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
     # ... or '\x2D'
     ESCAPED_UNICODE_HEX = re.compile(r'\\x[a-fA-F0-9]{2}')
 
+    # A string that is quoted as a whole
+    DOUBLE_QUOTED = re.compile(r'"(?:[^"\\]|\\.)*"$', re.S)
+    SINGLE_QUOTED = re.compile(r"'(?:[^']|'')*'$")
+
     # What needs a backslash within double quotes
     ESCAPABLE = re.compile(r'\\u[a-f0-9]{4}|[\\"]')
 
@@ -383,17 +387,15 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         string = openstring.string.strip()
 
         # If wrapped already in double quotes, don't wrap again
-        wrapped_in_double_quotes = (
-            string.startswith(self.DOUBLE_QUOTES)
-            and string.endswith(self.DOUBLE_QUOTES)
+        wrapped_in_double_quotes = bool(
+            self.DOUBLE_QUOTED.match(string)
         )
         if wrapped_in_double_quotes:
             return False, None
 
         # If wrapped already in single quotes, don't wrap again
-        wrapped_in_single_quotes = (
-            string.startswith(self.SINGLE_QUOTE)
-            and string.endswith(self.SINGLE_QUOTE)
+        wrapped_in_single_quotes = bool(
+            self.SINGLE_QUOTED.match(string)
         )
         if wrapped_in_single_quotes:
             return False, None
-- 
2.43.0


From f520bb37f903bcbb31beb17a5212cedd88f1fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 074/130] fix: keep the spaces of texts that are only spaces in
 office documents

---
 openformats/formats/docx.py                   |  4 ++--
 openformats/formats/office_open_xml/parser.py | 14 ++++++++++++--
 openformats/formats/pptx.py                   |  8 ++++----
 openformats/formats/xlsx_unstructured.py      | 12 ++++++------
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 1f8a8ba..0290278 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -292,7 +292,7 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         """
         docx = DocxFile(content)
 
-        soup = BeautifulSoup(docx.get_document(), 'xml')
+        soup = self._parse_xml(docx.get_document())
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
 
         stringset = []
@@ -316,7 +316,7 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
             string.string_hash: string for string in stringset
         }
         docx = DocxFile(template)
-        soup = BeautifulSoup(docx.get_document(), 'xml')
+        soup = self._parse_xml(docx.get_document())
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
         is_rtl = kwargs.get('is_rtl', False)
 
diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index d1aeff0..6dbd053 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -66,6 +66,16 @@ class OfficeOpenXmlHandler(object):
                     if format:
                         text_element.insert_before(format)
 
+    @staticmethod
+    def _parse_xml(content):
+        """ Parse a part of the document. By default BeautifulSoup replaces
+            text that is nothing but spaces with a single one.
+        """
+        return BeautifulSoup(
+            content, 'xml',
+            preserve_whitespace_tags={'t', 'wrapper'},
+        )
+
     @staticmethod
     def _escape_xml(translation):
         """ Do escaping: BeautifulSoup doesn't like unescaped '&' or '<' in its
@@ -178,8 +188,8 @@ class OfficeOpenXmlHandler(object):
         translation_string = stringset[txid].string
         escaped_translation_string = cls._escape_xml(translation_string)
 
-        translation_soup = BeautifulSoup(
-            u'<wrapper>{}</wrapper>'.format(escaped_translation_string), 'xml',
+        translation_soup = cls._parse_xml(
+            u'<wrapper>{}</wrapper>'.format(escaped_translation_string)
         ).find_all(text=True)
 
         added_hl_text_elements = defaultdict(list)
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 642715c..e24bf21 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -362,7 +362,7 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
 
         for slide in pptx.get_slides():
             notes_slide = pptx.is_notes_slide(slide)
-            soup = BeautifulSoup(pptx.get_slide(slide), 'xml')
+            soup = self._parse_xml(pptx.get_slide(slide))
             rels_soup = BeautifulSoup(pptx.get_slide_rels(slide), 'xml')
 
             for parent in soup.find_all(['p:sp', 'p:graphicFrame']):
@@ -389,7 +389,7 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
         pptx = PptxFile(template)
         is_rtl = kwargs.get('is_rtl', False)
         for slide in pptx.get_slides():
-            soup = BeautifulSoup(pptx.get_slide(slide), 'xml')
+            soup = self._parse_xml(pptx.get_slide(slide))
             rels_soup = BeautifulSoup(pptx.get_slide_rels(slide), 'xml')
 
             for parent in soup.find_all(['p:sp', 'p:graphicFrame']):
@@ -501,8 +501,8 @@ class PptxHandlerV2(PptxHandler):
         translation_string = stringset[txid].string
         escaped_translation_string = cls._escape_xml(translation_string)
 
-        translation_soup = BeautifulSoup(
-            u'<wrapper>{}</wrapper>'.format(escaped_translation_string), 'xml',
+        translation_soup = cls._parse_xml(
+            u'<wrapper>{}</wrapper>'.format(escaped_translation_string)
         ).find_all(text=True)
 
         added_hl_text_elements = defaultdict(list)
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index f3a0f48..5621a9b 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -236,7 +236,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
         sheet_names = self._extract_sheet_names(xlsx)
 
-        shared_strings_soup = BeautifulSoup(xlsx.get_shared_strings_content(), "xml")
+        shared_strings_soup = self._parse_xml(xlsx.get_shared_strings_content())
         shared_strings = shared_strings_soup.find_all("si")
 
         extracted_strings = {}
@@ -254,7 +254,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             sheet_index += 1
             sheet_name = sheet_names[sheet_index].string
 
-            sheet_soup = BeautifulSoup(xlsx.get_sheet_content(sheet), "xml")
+            sheet_soup = self._parse_xml(xlsx.get_sheet_content(sheet))
             sheet_rels_soup = None
             if xlsx.has_rels(sheet):
                 sheet_rels_soup = BeautifulSoup(xlsx.get_sheet_rels_content(sheet), "xml")
@@ -420,12 +420,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
         }
         xlsx = XlsxFile(template)
 
-        shared_strings_soup = BeautifulSoup(xlsx.get_shared_strings_content(), "xml")
+        shared_strings_soup = self._parse_xml(xlsx.get_shared_strings_content())
         shared_strings = shared_strings_soup.find_all("si")
 
         self._compile_workbook(xlsx, stringset)
         for sheet in xlsx.get_sheets():
-            sheet_soup = BeautifulSoup(xlsx.get_sheet_content(sheet), "xml")
+            sheet_soup = self._parse_xml(xlsx.get_sheet_content(sheet))
             sheet_rels_soup = None
             if xlsx.has_rels(sheet):
                 sheet_rels_soup = BeautifulSoup(
@@ -495,8 +495,8 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 - <tx>part1</tx><tx>part2</tx>
                 - <tx href='app.transifex.com'><tx>part1</tx><tx>part2</tx></tx>
                 """
-                translation_soup = BeautifulSoup(
-                    u'<wrapper>{}</wrapper>'.format(escaped_translation_string), 'xml',
+                translation_soup = self._parse_xml(
+                    u'<wrapper>{}</wrapper>'.format(escaped_translation_string)
                 )
                 translation_hyperlink = translation_soup.find(
                     lambda tag: tag.has_attr("href")
-- 
2.43.0


From b3dae3657b2d014121a3b1f870a7bb7ca9cf70b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 075/130] fix: keep the rest of a DOCX hyperlink when one of
 its texts is removed

---
 openformats/formats/docx.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 0290278..4669d04 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -235,8 +235,12 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
     def remove_text_element(cls, text_element):
         if text_element.find_parent('w:r') is not None:
             run_parent = text_element.find_parent('w:r').parent
-            if run_parent.name == 'hyperlink':
-                return text_element.find_parent('w:hyperlink').decompose()
+            hyperlink = text_element.find_parent('w:hyperlink')
+            if run_parent.name == 'hyperlink' and len(
+                hyperlink.find_all(cls.TEXT_ELEMENT_TAG)
+            ) == 1:
+                # nothing is left of the link
+                return hyperlink.decompose()
 
         return text_element.decompose()
 
-- 
2.43.0


From f31f4b3e6edd77447b296e5404e90f15eff3b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 076/130] fix: take all of the empty texts before a text of an
 office document into account

---
 openformats/formats/office_open_xml/parser.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index 6dbd053..3257223 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -194,7 +194,7 @@ class OfficeOpenXmlHandler(object):
 
         added_hl_text_elements = defaultdict(list)
         deleted_hl_text_elements = defaultdict(list)
-        empty_text_element = None
+        empty_text_elements = []
         elements_for_removal = []
         last_element = None
 
@@ -211,8 +211,8 @@ class OfficeOpenXmlHandler(object):
             # detect text elements that contain no text
             # and remove leading whitespace from the next string
             if not text.strip():
-                leading_spaces = len(text) - len(text.strip())
-                empty_text_element = text_element
+                leading_spaces += len(text) - len(text.strip())
+                empty_text_elements.append(text_element)
                 continue
 
             last_element = text_element
@@ -234,11 +234,10 @@ class OfficeOpenXmlHandler(object):
 
                 if not translation[:leading_spaces].strip():
                     translation = translation[leading_spaces:]
-                    leading_spaces = 0
                 else:
-                    if empty_text_element:
-                        elements_for_removal.append(empty_text_element)
-                        empty_text_element = None
+                    elements_for_removal.extend(empty_text_elements)
+                leading_spaces = 0
+                empty_text_elements = []
 
                 text_element.clear()
                 text_element.insert(0, translation)
-- 
2.43.0


From 083821e2de6b4066282763c3dd5c3fc6b3f59a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 077/130] fix: keep ]]> in the translations of office documents

---
 openformats/formats/office_open_xml/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index 3257223..e9e0e21 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -87,6 +87,7 @@ class OfficeOpenXmlHandler(object):
             replace(u"</tx>", u"__TX__CLOSING__TAG__").\
             replace(u"&", "&amp;").\
             replace(u"<", "&lt;").\
+            replace(u"]]>", "]]&gt;").\
             replace(u"__TX__OPENING__TAG__", u"<tx").\
             replace(u"__TX__CLOSING__TAG__", u"</tx>")
 
-- 
2.43.0


From 0bf8511f92301e6c880052dc75c253ee0ab717d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 078/130] fix: remove the empty texts before a removed text of
 an office document

---
 openformats/formats/office_open_xml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index e9e0e21..d8c7ec2 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -226,6 +226,8 @@ class OfficeOpenXmlHandler(object):
             # text parts of the document, so we will just remove
             # any exceeding part from the document
             if len(translation_soup) == 0:
+                elements_for_removal.extend(empty_text_elements)
+                empty_text_elements = []
                 elements_for_removal.append(text_element)
                 continue
             else:
-- 
2.43.0


From b3fc5895fd57b699959c4aa1a1b5e0241331752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 079/130] fix: put the properties of right to left DOCX
 paragraphs first

---
 openformats/formats/docx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 4669d04..4c242d8 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -251,7 +251,8 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
 
         if len(ppr_tags) == 0:
             pPr = soup.new_tag("w:pPr")
-            paragraph.append(pPr)
+            # the properties must be the first element of a paragraph
+            paragraph.insert(0, pPr)
             ppr_tags = [pPr]
 
         for ppr_tag in ppr_tags:
-- 
2.43.0


From 8802eb904cf39694d7b210d1b7020526ded975bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 080/130] fix: remove a DOCX hyperlink from the text alone that
 lost it

---
 openformats/formats/docx.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 4c242d8..5dba7ce 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -5,6 +5,7 @@ import re
 import shutil
 import tempfile
 import uuid
+from copy import copy
 from zipfile import ZIP_DEFLATED, ZipFile
 
 import six
@@ -229,7 +230,23 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
 
     @classmethod
     def remove_hyperlink(cls, text_element):
-        text_element.parent.parent.unwrap()
+        run = text_element.find_parent('w:r')
+        hyperlink = run.parent
+        if hyperlink.name != 'hyperlink':
+            # already removed
+            return
+
+        # what follows in the hyperlink remains linked
+        following = list(run.next_siblings)
+        hyperlink.insert_after(run)
+        if following:
+            rest = copy(hyperlink)
+            rest.clear()
+            for element in following:
+                rest.append(element)
+            run.insert_after(rest)
+        if not hyperlink.contents:
+            hyperlink.extract()
 
     @classmethod
     def remove_text_element(cls, text_element):
-- 
2.43.0


From 87547db4dc927853b567f1b86ccbaba9ffeb6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 081/130] fix: keep the fields of office documents apart from
 the texts around them

---
 openformats/formats/office_open_xml/parser.py | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index d8c7ec2..eb789da 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -104,6 +104,15 @@ class OfficeOpenXmlHandler(object):
         leading_spaces = 0
         for index, text_element in enumerate(text_elements):
             text = text_element.text
+
+            try:
+                hyperlink_url = cls.get_hyperlink_url(
+                    text_element, rels_soup
+                )
+            except MissingParentError:
+                leading_spaces = 0
+                continue
+
             # skip text elements that contain no text
             # and prepend leading whitespace to the next string
             if not text.strip():
@@ -113,13 +122,6 @@ class OfficeOpenXmlHandler(object):
                 text = u"".join([u" "*leading_spaces, text])
                 leading_spaces = 0
 
-            try:
-                hyperlink_url = cls.get_hyperlink_url(
-                    text_element, rels_soup
-                )
-            except MissingParentError:
-                continue
-
             if all([
                 text_elements_count == 2,
                 not hyperlink_url or hyperlink_url == open_hyperlink
@@ -209,6 +211,13 @@ class OfficeOpenXmlHandler(object):
         for index, text_element in enumerate(text_elements):
             text = six.text_type(text_element.text)
 
+            try:
+                hyperlink_url = cls.get_hyperlink_url(text_element, rels_soup)
+            except MissingParentError:
+                leading_spaces = 0
+                empty_text_elements = []
+                continue
+
             # detect text elements that contain no text
             # and remove leading whitespace from the next string
             if not text.strip():
@@ -217,10 +226,6 @@ class OfficeOpenXmlHandler(object):
                 continue
 
             last_element = text_element
-            try:
-                hyperlink_url = cls.get_hyperlink_url(text_element, rels_soup)
-            except MissingParentError:
-                continue
 
             # the text parts of the translation are less that the
             # text parts of the document, so we will just remove
-- 
2.43.0


From eb26ae9dfa15c2b255289a4b8e122d80acb49faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 082/130] fix: keep the fields of PPTX v2 apart from the texts
 before them

---
 openformats/formats/pptx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index e24bf21..1f97492 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -516,12 +516,13 @@ class PptxHandlerV2(PptxHandler):
             cls.set_rtl_orientation(paragraph)
 
         for _, text_element in enumerate(text_elements):
-            last_element = text_element
             try:
                 hyperlink_url = cls.get_hyperlink_url(text_element, rels_soup)
             except MissingParentError:
                 continue
 
+            last_element = text_element
+
             # the text parts of the translation are less that the
             # text parts of the document, so we will just remove
             # any exceeding part from the document
-- 
2.43.0


From 8aef6b60c2d2fa2f44baf7ffd074e99e6ee0691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 083/130] fix: do not extract PPTX v2 paragraphs that are only
 spaces

---
 openformats/formats/pptx.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 1f97492..f4f3fb3 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -421,7 +421,8 @@ class PptxHandlerV2(PptxHandler):
 
         text_elements_count = len(text_elements)
 
-        open_hyperlink = None        
+        open_hyperlink = None
+        has_text = False
         for index, text_element in enumerate(text_elements):
             text = text_element.text            
 
@@ -432,6 +433,8 @@ class PptxHandlerV2(PptxHandler):
             except MissingParentError:
                 continue
 
+            has_text = has_text or bool(text.strip())
+
             if all([
                 text_elements_count == 2,
                 not hyperlink_url or hyperlink_url == open_hyperlink
@@ -474,7 +477,7 @@ class PptxHandlerV2(PptxHandler):
             open_hyperlink = None
 
         paragraph_text = u''.join(paragraph_text)
-        if not paragraph_text.strip():
+        if not has_text:
             return None
 
         open_string = OpenString(
-- 
2.43.0


From d2b0fd522e010a550eaa7f641fa622cec125c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 084/130] fix: skip the empty texts of PPTX v2 paragraphs,
 which have no part in the string

---
 openformats/formats/pptx.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index f4f3fb3..32ac00d 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -524,6 +524,10 @@ class PptxHandlerV2(PptxHandler):
             except MissingParentError:
                 continue
 
+            # there is no text part for an element without text
+            if not text_element.text:
+                continue
+
             last_element = text_element
 
             # the text parts of the translation are less that the
-- 
2.43.0


From 532bb1e1046d5c14ac577806a968bde76a6595f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 085/130] fix: add PPTX hyperlinks to texts without properties

---
 openformats/formats/pptx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 32ac00d..3d6f662 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -320,7 +320,11 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
                 "a:hlinkClick",
                 **{"r:id": rid}
             )
-            element.parent.rPr.append(hyperlink)
+            rpr = element.parent.rPr
+            if rpr is None:
+                rpr = document_rels.new_tag("a:rPr")
+                element.insert_before(rpr)
+            rpr.append(hyperlink)
 
     @classmethod
     def remove_hyperlink(cls, text_element):
-- 
2.43.0


From 1c1d399402b5163b457ae5230757f30037801d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 086/130] fix: mark PPTX paragraphs without properties as right
 to left

---
 openformats/formats/pptx.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 3d6f662..cb08ffa 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -340,6 +340,13 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
     @classmethod
     def set_rtl_orientation(cls, paragraph):
         ppr_tags = paragraph.find_all("a:pPr")
+
+        if len(ppr_tags) == 0:
+            ppr_tag = BeautifulSoup("", "xml").new_tag("a:pPr")
+            # the properties must be the first element of a paragraph
+            paragraph.insert(0, ppr_tag)
+            ppr_tags = [ppr_tag]
+
         for ppr_tag in ppr_tags:
             ppr_tag["rtl"] = "1"
             if ppr_tag.get("algn") == "l":
-- 
2.43.0


From 9e0c019dd99c7d3bbf537550fe0ed5841a34770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 087/130] fix: replace the internal link of a PPTX text by its
 new one

---
 openformats/formats/pptx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index cb08ffa..a256d2a 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -320,6 +320,7 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
                 "a:hlinkClick",
                 **{"r:id": rid}
             )
+            cls.remove_hyperlink(element)
             rpr = element.parent.rPr
             if rpr is None:
                 rpr = document_rels.new_tag("a:rPr")
-- 
2.43.0


From a62b862990c9c1d9c4ba805c11af7f4739c33804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 088/130] fix: remove PPTX texts together with their runs

---
 openformats/formats/pptx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index a256d2a..590f53f 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -336,7 +336,8 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
 
     @classmethod
     def remove_text_element(cls, text_element):
-        text_element.decompose()
+        # a run must have a text
+        text_element.find_parent('a:r').decompose()
 
     @classmethod
     def set_rtl_orientation(cls, paragraph):
-- 
2.43.0


From 30d5539c5a9c38707749e2e2bd664bb49ee5b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 089/130] fix: add hyperlinks to office documents that have no
 numbered relationships

---
 openformats/formats/docx.py | 5 +++--
 openformats/formats/pptx.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 5dba7ce..dcabf2b 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -207,9 +207,10 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
 
     @classmethod
     def create_hyperlink_url(cls, element, document_rels, url):
-        max_rid = max([
-            int(re.findall(r'\d+', e["Id"])[0])
+        max_rid = max([0] + [
+            int(number)
             for e in document_rels.find_all(attrs={"Id": True})
+            for number in re.findall(r'\d+', e["Id"])[:1]
         ])
 
         rid = "rId{}".format(max_rid+1)
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 590f53f..1ce0c2d 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -302,9 +302,10 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
         if cls.get_hyperlink_url(element, document_rels):
             cls.set_hyperlink_url(element, document_rels, url)
         else:
-            max_rid = max([
-                int(re.findall(r'\d+', e["Id"])[0])
+            max_rid = max([0] + [
+                int(number)
                 for e in document_rels.find_all(attrs={"Id": True})
+                for number in re.findall(r'\d+', e["Id"])[:1]
             ])
 
             rid = "rId{}".format(max_rid+1)
-- 
2.43.0


From 40a985b6d5722d0d2948f06f51c1c8db6ece93b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 090/130] fix: keep the line breaks in the attributes of office
 documents

---
 openformats/formats/docx.py                   |  6 ++--
 openformats/formats/office_open_xml/parser.py | 29 +++++++++++++++++++
 openformats/formats/pptx.py                   |  6 ++--
 openformats/formats/xlsx_unstructured.py      | 14 +++++----
 4 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index dcabf2b..a43624f 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -328,7 +328,7 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
             open_string.order = next(order)
             stringset.append(open_string)
 
-        docx.set_document(six.text_type(soup))
+        docx.set_document(self._to_xml(soup))
 
         template = docx.compress()
         docx.delete()
@@ -352,8 +352,8 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
             for tbl in soup.find_all("w:tbl"):
                 self.set_rtl_orientation_tables(tbl, soup)
 
-        docx.set_document(six.text_type(soup))
-        docx.set_document_rels(six.text_type(rels_soup))
+        docx.set_document(self._to_xml(soup))
+        docx.set_document_rels(self._to_xml(rels_soup))
 
         result = docx.compress()
         docx.delete()
diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index eb789da..89c0e78 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -4,9 +4,34 @@ from copy import copy
 from openformats.exceptions import MissingParentError
 from openformats.strings import OpenString
 from bs4 import BeautifulSoup
+from bs4.dammit import EntitySubstitution
+from bs4.formatter import XMLFormatter
 from collections import defaultdict
 
 
+class OfficeOpenXmlFormatter(XMLFormatter):
+    """Keeps the white space that is normalized when XML is read."""
+
+    def __init__(self):
+        super(OfficeOpenXmlFormatter, self).__init__(
+            entity_substitution=EntitySubstitution.substitute_xml
+        )
+
+    def substitute(self, ns):
+        return super(OfficeOpenXmlFormatter, self).substitute(ns).replace(
+            u"\r", u"&#13;"
+        )
+
+    def attribute_value(self, value):
+        return super(
+            OfficeOpenXmlFormatter, self
+        ).attribute_value(value).replace(
+            u"\n", u"&#10;"
+        ).replace(
+            u"\t", u"&#9;"
+        )
+
+
 class OfficeOpenXmlHandler(object):
     @classmethod
     def get_hyperlink_url(cls, element, document_rels):
@@ -76,6 +101,10 @@ class OfficeOpenXmlHandler(object):
             preserve_whitespace_tags={'t', 'wrapper'},
         )
 
+    @staticmethod
+    def _to_xml(soup):
+        return soup.decode(formatter=OfficeOpenXmlFormatter())
+
     @staticmethod
     def _escape_xml(translation):
         """ Do escaping: BeautifulSoup doesn't like unescaped '&' or '<' in its
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 1ce0c2d..b621c60 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -390,7 +390,7 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
                         open_string.tags = ['notes']
                     stringset.append(open_string)
 
-            pptx.set_slide(slide, six.text_type(soup))
+            pptx.set_slide(slide, self._to_xml(soup))
 
         template = pptx.compress()
         pptx.delete()
@@ -412,8 +412,8 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
                         paragraph, rels_soup, stringset, is_rtl=is_rtl
                     )
 
-            pptx.set_slide(slide, six.text_type(soup))
-            pptx.set_slide_rels(slide, six.text_type(rels_soup))
+            pptx.set_slide(slide, self._to_xml(soup))
+            pptx.set_slide_rels(slide, self._to_xml(rels_soup))
 
         result = pptx.compress()
         pptx.delete()
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 5621a9b..bb01fdc 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -10,17 +10,19 @@ from uuid import uuid4
 from zipfile import ZipFile, ZIP_DEFLATED
 
 from bs4 import BeautifulSoup
-from bs4.dammit import EntitySubstitution
-from bs4.formatter import XMLFormatter
 
-from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
+from openformats.formats.office_open_xml.parser import (
+    OfficeOpenXmlFormatter, OfficeOpenXmlHandler
+)
 from openformats.handlers import Handler
 from openformats.strings import OpenString
 
 
-class UnsortedAttributes(XMLFormatter):
-    def __init__(self, *args, **kwargs):
-        super(XMLFormatter, self).__init__(entity_substitution=lambda string: EntitySubstitution.substitute_xml(string).replace('"', '&quot;'))
+class UnsortedAttributes(OfficeOpenXmlFormatter):
+    def substitute(self, ns):
+        return super(UnsortedAttributes, self).substitute(ns).replace(
+            '"', '&quot;'
+        )
 
     def attributes(self, tag):
         for k, v in tag.attrs.items():
-- 
2.43.0


From 9730a584d7eb17f6ef8f5b0d260291f920ac49f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 091/130] fix: read XLSX files that have no shared strings

---
 openformats/formats/xlsx_unstructured.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index bb01fdc..9e21e39 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -127,10 +127,15 @@ class XlsxFile(object):
                 "id": sheet_item["id"]
             }
 
-        shared_strings_path_internal = content_types_soup.find(
+        # there are none if all of the strings are inline
+        self._shared_strings_path = None
+        shared_strings_item = content_types_soup.find(
             attrs={'ContentType': self.SHARED_STRINGS_CONTENT_TYPE}
-        )["PartName"]
-        self._shared_strings_path = "{}{}".format(self.__tmp_folder, shared_strings_path_internal)
+        )
+        if shared_strings_item:
+            self._shared_strings_path = "{}{}".format(
+                self.__tmp_folder, shared_strings_item["PartName"]
+            )
 
     def get_workbook_path(self):
         return self._workbook_path
@@ -178,11 +183,15 @@ class XlsxFile(object):
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_shared_strings_content(self):
+        if self.get_shared_strings_path() is None:
+            return ""
         with open(self.get_shared_strings_path(), "r") as f:
             shared_strings_content = f.read()
         return shared_strings_content
 
     def set_shared_strings_content(self, content):
+        if self.get_shared_strings_path() is None:
+            return
         with open(self.get_shared_strings_path(), "w") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
-- 
2.43.0


From 3c67221524592ecb347722907091a2cecd61b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 092/130] fix: take the names of XLSX sheets from the files
 that the workbook names

---
 openformats/formats/xlsx_unstructured.py | 36 ++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 9e21e39..7712f1b 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -2,6 +2,7 @@ import copy
 import io
 import itertools
 import os
+import posixpath
 import re
 import shutil
 import tempfile
@@ -91,6 +92,7 @@ class XlsxFile(object):
             attrs={'ContentType': self.WORKBOOK_CONTENT_TYPE}
         )['PartName']
         self._workbook_path = "{}{}".format(self.__tmp_folder, workbook_path_internal)
+        self._workbook_folder = posixpath.dirname(workbook_path_internal)
 
         comment_paths_internal = {
             comment["PartName"]
@@ -140,6 +142,9 @@ class XlsxFile(object):
     def get_workbook_path(self):
         return self._workbook_path
 
+    def get_workbook_folder(self):
+        return self._workbook_folder
+
     def get_sheets(self):
         return self._sheets
 
@@ -161,6 +166,14 @@ class XlsxFile(object):
         with open(self.get_workbook_path(), "w") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
+    def get_workbook_rels_content(self):
+        rels_path = get_rels_path(self.get_workbook_path())
+        if not os.path.exists(rels_path):
+            return ""
+        with open(rels_path, "r") as f:
+            workbook_rels = f.read()
+        return workbook_rels
+
     def get_sheet_content(self, sheet):
         with open(self.get_sheet(sheet)["path"], "r") as f:
             sheet_content = f.read()
@@ -229,7 +242,13 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             xlsx.get_workbook_content(), "xml"
         )
         sheets = wordbook_soup.find_all("sheet")
+        rels_soup = BeautifulSoup(xlsx.get_workbook_rels_content(), "xml")
+        targets = {
+            relationship.attrs["Id"]: relationship.attrs["Target"]
+            for relationship in rels_soup.find_all("Relationship")
+        }
         sheet_names = []
+        names_by_sheet = {}
         for sheet in sheets:
             open_string = OpenString(
                 sheet["name"],
@@ -237,15 +256,24 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             )
             sheet.attrs['txid'] = open_string.string_hash
             sheet_names.append(open_string)
+            if sheet.get("r:id") in targets:
+                # relative to the folder of the workbook
+                names_by_sheet[
+                    posixpath.normpath(
+                        posixpath.join(
+                            xlsx.get_workbook_folder(), targets[sheet["r:id"]]
+                        )
+                    )
+                ] = open_string.string
         xlsx.set_workbook_content(wordbook_soup)
-        return sheet_names
+        return sheet_names, names_by_sheet
 
     def parse(self, content, **kwargs):
         xlsx = XlsxFile(content)
 
         order = itertools.count()
 
-        sheet_names = self._extract_sheet_names(xlsx)
+        sheet_names, names_by_sheet = self._extract_sheet_names(xlsx)
 
         shared_strings_soup = self._parse_xml(xlsx.get_shared_strings_content())
         shared_strings = shared_strings_soup.find_all("si")
@@ -263,7 +291,9 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
         sheet_index = -1
         for sheet, sheet_details in xlsx.get_sheets().items():
             sheet_index += 1
-            sheet_name = sheet_names[sheet_index].string
+            sheet_name = names_by_sheet.get(sheet)
+            if sheet_name is None:
+                sheet_name = sheet_names[sheet_index].string
 
             sheet_soup = self._parse_xml(xlsx.get_sheet_content(sheet))
             sheet_rels_soup = None
-- 
2.43.0


From d831aaea42f7aa461ed5f6e99a9322d0e3f8d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 093/130] fix: keep the spaces between the texts of XLSX cells

---
 openformats/formats/xlsx_unstructured.py | 31 ++++++++++++------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 7712f1b..3fb4ac4 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -413,25 +413,20 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
     @staticmethod
     def _prepare_string(input_list, n):
         cleaned_strings = []
-        spaces = 0
-        for i, string in enumerate(input_list):
-            tmp_string = string
-            if len(string.strip()) == 0:
+        spaces = ""
+        for string in input_list:
+            if not string.strip() and len(string.parent.contents) > 1:
+                # spaces that are between the tags go to the next string
+                spaces += string
                 continue
-            elif len(string) > 0 and not string.strip():
-                spaces = len(string)
-            else:
-                if spaces:
-                    spaces_text = {spaces * " "}
-                    if len(cleaned_strings) > 0:
-                        tmp_string = "{}{}".format(spaces_text, string)
-                    else:
-                        tmp_string = "{}{}".format(string, spaces_text)
-                    spaces=0
-            if len(cleaned_strings) >= n:
+            tmp_string = spaces + string
+            spaces = ""
+            if cleaned_strings and len(cleaned_strings) >= n:
                 cleaned_strings[-1] += tmp_string
             else:
                 cleaned_strings.append(tmp_string)
+        if spaces and cleaned_strings:
+            cleaned_strings[-1] += spaces
 
         return cleaned_strings
 
@@ -576,7 +571,11 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                             )
 
                 else:
-                    t_strings = replace_string_to.find_all("t")
+                    # there is no part for an element without text
+                    t_strings = [
+                        t_string for t_string in replace_string_to.find_all("t")
+                        if t_string.text
+                    ]
                     t_strings_len = len(t_strings)
 
                     translation_parts_cleaned = self._prepare_string(
-- 
2.43.0


From 73cc1ec51beb21d65bacd19cbee6859398161c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 094/130] fix: do not extract XLSX cells without text

---
 openformats/formats/xlsx_unstructured.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 3fb4ac4..f14fcb8 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -375,7 +375,9 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                         string_parts.append(text)
                     string = "".join(string_parts)
 
-                    if cell_hyper_link:
+                    if not any(t_string.text for t_string in t_strings):
+                        string = None
+                    elif cell_hyper_link:
                         string = wrap(string, cell_hyper_link)
 
                 if string:
-- 
2.43.0


From 9205f49aa214d4dd90bc50fa02677d65bc9aea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 095/130] fix: leave no marks in compiled XLSX files

---
 openformats/formats/xlsx_unstructured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index f14fcb8..abc5233 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -345,6 +345,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
                 if cell_hyper_link and shared_string_element:
                     sheet_text_cell.v.replace_with(copy.copy(shared_string_element))
+                    sheet_text_cell.si.attrs.pop("txid", None)
                     sheet_text_cell.si.name = "is"
                     find_string_from = sheet_text_cell
                     sheet_text_cell.attrs["t"] = "inlineStr"
@@ -438,7 +439,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
         )
         sheets = workbook_soup.find_all("sheet")
         for sheet in sheets:
-            txid = sheet.attrs.get("txid")
+            txid = sheet.attrs.pop("txid", None)
             if not txid:
                 continue
             open_string = stringset.get(txid)
@@ -447,7 +448,6 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 continue
 
             sheet.attrs["name"] = open_string.string
-            sheet.attrs.pop("txid", None)
         xlsx.set_workbook_content(workbook_soup)
 
 
@@ -517,6 +517,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 if not replace_string_to:
                     continue
 
+                replace_string_to.attrs.pop("txid", None)
                 open_string = stringset.get(txid)
 
                 if not open_string:
@@ -595,7 +596,6 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                             t_string.string = ""
                             continue
                         t_string.string = translation
-                replace_string_to.attrs.pop("txid", None)
             xlsx.set_sheet_content(sheet, sheet_soup)
             xlsx.set_shared_strings_content(shared_strings_soup)
             if xlsx.has_rels(sheet):
-- 
2.43.0


From 71a5810388a92ed52fad3421ca8686432765ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 096/130] fix: keep the rest of XLSX formulas with a hyperlink

---
 openformats/formats/xlsx_unstructured.py | 31 +++++++++++++++---------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index abc5233..333b4c4 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -231,6 +231,12 @@ def wrap(string, hyperlink=None):
     return "<tx{}>{}</tx>".format(href, string)
 
 
+# The arguments are strings, quotes are doubled in them
+HYPERLINK = re.compile(
+    r'HYPERLINK\("((?:[^"]|"")*)","((?:[^"]|"")*)"\)'
+)
+
+
 class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
     PROCESSES_BINARY = True
     EXTRACTS_RAW = False
@@ -361,10 +367,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     sheet_text_cell.f,
                 ]):
                     link_content = sheet_text_cell.f.text
-                    match = re.search(r'HYPERLINK\("(.*?)","(.*?)"\)', link_content)
+                    match = HYPERLINK.search(link_content)
                     link, text = match.groups() if match else (None, None)
                     if link and text:
-                        string = wrap(text, link)
+                        string = wrap(
+                            text.replace('""', '"'), link.replace('""', '"')
+                        )
                 else:
                     t_strings = find_string_from.find_all("t")
                     t_strings_len = len(t_strings)
@@ -560,18 +568,19 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     sheet_text_cell.f,
                 ]):
                     link_content = sheet_text_cell.f.text
-                    match = re.search(r'HYPERLINK\("(.*?)","(.*?)"\)', link_content)
+                    match = HYPERLINK.search(link_content)
                     link, text = match.groups() if match else (None, None)
                     if link and text:
-                        translation = "".join(translation_parts)
+                        translation = "".join(translation_parts).replace(
+                            '"', '""'
+                        )
                         if target_url:
-                            sheet_text_cell.f.string = (
-                                f'HYPERLINK("{target_url}","{translation}")'
-                            )
-                        else:
-                            sheet_text_cell.f.string = (
-                                f'HYPERLINK("{link}","{translation}")'
-                            )
+                            link = target_url.replace('"', '""')
+                        sheet_text_cell.f.string = "".join([
+                            link_content[:match.start()],
+                            f'HYPERLINK("{link}","{translation}")',
+                            link_content[match.end():],
+                        ])
 
                 else:
                     # there is no part for an element without text
-- 
2.43.0


From e0c85e914f7d652fb42f7a7463421bfe1f600958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 097/130] fix: quote the URLs of XLSX hyperlinks that have an
 apostrophe

---
 openformats/formats/xlsx_unstructured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 333b4c4..8bccec1 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -227,7 +227,8 @@ class XlsxFile(object):
 def wrap(string, hyperlink=None):
     href = ""
     if hyperlink:
-        href = " href='{}'".format(hyperlink)
+        quote = '"' if "'" in hyperlink else "'"
+        href = " href={0}{1}{0}".format(quote, hyperlink)
     return "<tx{}>{}</tx>".format(href, string)
 
 
-- 
2.43.0


From 895a17ea6438b4ba5573e7e7150ec41ffec48ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 098/130] fix: write the direction of XLSX sheets as a boolean
 of XML

---
 openformats/formats/xlsx_unstructured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 8bccec1..54bec23 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -482,7 +482,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             if is_rtl is not None:
                 sheet_view = sheet_soup.find("sheetView")
                 if sheet_view:
-                    sheet_view.attrs["rightToLeft"] = is_rtl
+                    sheet_view.attrs["rightToLeft"] = "1" if is_rtl else "0"
 
             sheet_text_cells = sheet_soup.find_all(
                 "c",
-- 
2.43.0


From 4beea5fd592bb971ac3a2df3896f542c87503927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 099/130] fix: accept XLSX cells without value or reference

---
 openformats/formats/xlsx_unstructured.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 54bec23..519019e 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -338,7 +338,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                         hyperlink_map[hyperlink.attrs["ref"]] = rels_map[r_id]
 
             for sheet_text_cell in sheet_text_cells:
-                cell_ref = sheet_text_cell.attrs["r"]
+                cell_ref = sheet_text_cell.attrs.get("r")
                 cell_hyper_link = hyperlink_map.get(cell_ref)
 
                 shared_string_element = None
@@ -516,6 +516,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     not txid,
                     sheet_text_cell.has_attr("t"),
                     sheet_text_cell.attrs["t"] == 's',
+                    sheet_text_cell.v,
                 ]):
                     shared_string_index = int(sheet_text_cell.v.text)
                     shared_string_element = shared_strings[shared_string_index]
@@ -532,7 +533,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 if not open_string:
                     continue
 
-                cell_ref = sheet_text_cell.attrs["r"]
+                cell_ref = sheet_text_cell.attrs.get("r")
 
                 translation_string = open_string.string
                 escaped_translation_string = self._escape_xml(translation_string)
-- 
2.43.0


From 426be221e05624d2f65cff29a6ffce0ad0762269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 100/130] fix: read office documents that begin with a byte
 order mark

---
 openformats/formats/docx.py              | 10 +++++-----
 openformats/formats/pptx.py              | 10 +++++-----
 openformats/formats/xlsx_unstructured.py | 20 ++++++++++----------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index a43624f..27164a0 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -102,7 +102,7 @@ class DocxFile(object):
         os.remove(docx_path)
 
         base_rels_path = '{}/{}'.format(self.__tmp_folder, '_rels/.rels')
-        with io.open(base_rels_path, 'r') as f:
+        with io.open(base_rels_path, 'r', encoding='utf-8-sig') as f:
             base_rels = f.read()
 
         if base_rels.startswith("\ufeff"):
@@ -129,7 +129,7 @@ class DocxFile(object):
 
     def get_document(self):
         if self.__document is None:
-            with io.open(self.__document_path, 'r') as f:
+            with io.open(self.__document_path, 'r', encoding='utf-8-sig') as f:
                 self.__document = f.read()
 
             if self.__document.startswith("\ufeff"):
@@ -141,12 +141,12 @@ class DocxFile(object):
     def set_document(self, document):
         self.__document = document
 
-        with io.open(self.__document_path, 'w') as f:
+        with io.open(self.__document_path, 'w', encoding='utf-8') as f:
             f.write(document)
 
     def get_document_rels(self):
         if self.__document_rels is None:
-            with io.open(self.__document_rels_path, 'r') as f:
+            with io.open(self.__document_rels_path, 'r', encoding='utf-8-sig') as f:
                 self.__document_rels = f.read()
 
         return self.__document_rels
@@ -154,7 +154,7 @@ class DocxFile(object):
     def set_document_rels(self, document_rels):
         self.__document_rels = document_rels
 
-        with io.open(self.__document_rels_path, 'w') as f:
+        with io.open(self.__document_rels_path, 'w', encoding='utf-8') as f:
             f.write(document_rels)
 
     def compress(self):
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index b621c60..459c510 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -107,7 +107,7 @@ class PptxFile(object):
         content_types_path = '{}/{}'.format(
             self.__tmp_folder, '[Content_Types].xml'
         )
-        with io.open(content_types_path, 'r') as f:
+        with io.open(content_types_path, 'r', encoding='utf-8-sig') as f:
             content_types = f.read()
 
         slide_content_type = 'application/vnd.openxmlformats-officedocument.presentationml.slide+xml'  # noqa
@@ -172,7 +172,7 @@ class PptxFile(object):
 
     def get_slide(self, slide):
         if self.__slides[slide]['slide']['content'] is None:
-            with io.open(self.__slides[slide]['slide']['path'], 'r') as f:
+            with io.open(self.__slides[slide]['slide']['path'], 'r', encoding='utf-8-sig') as f:
                 self.__slides[slide]['slide']['content'] = f.read()
 
         return self.__slides[slide]['slide']['content']
@@ -183,12 +183,12 @@ class PptxFile(object):
     def set_slide(self, slide, content):
         self.__slides[slide]['slide']['content'] = content
 
-        with io.open(self.__slides[slide]['slide']['path'], 'w') as f:
+        with io.open(self.__slides[slide]['slide']['path'], 'w', encoding='utf-8') as f:
             f.write(content)
 
     def get_slide_rels(self, slide):
         if self.__slides[slide]['rels']['content'] is None:
-            with io.open(self.__slides[slide]['rels']['path'], 'r') as f:
+            with io.open(self.__slides[slide]['rels']['path'], 'r', encoding='utf-8-sig') as f:
                 self.__slides[slide]['rels']['content'] = f.read()
 
         return self.__slides[slide]['rels']['content']
@@ -196,7 +196,7 @@ class PptxFile(object):
     def set_slide_rels(self, slide, content):
         self.__slides[slide]['rels']['content'] = content
 
-        with io.open(self.__slides[slide]['rels']['path'], 'w') as f:
+        with io.open(self.__slides[slide]['rels']['path'], 'w', encoding='utf-8') as f:
             f.write(content)
 
     def compress(self):
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 519019e..5e8cb57 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -84,7 +84,7 @@ class XlsxFile(object):
         </c>
         """
         content_types_file_path = "{}/{}".format(self.__tmp_folder, self.CONTENT_TYPES)
-        with io.open(content_types_file_path, "r") as f:
+        with io.open(content_types_file_path, 'r', encoding='utf-8-sig') as f:
             content_types_file = f.read()
         content_types_soup = BeautifulSoup(content_types_file,'xml')
 
@@ -158,54 +158,54 @@ class XlsxFile(object):
         return self._comment_paths
 
     def get_workbook_content(self):
-        with open(self.get_workbook_path(), "r") as f:
+        with open(self.get_workbook_path(), 'r', encoding='utf-8-sig') as f:
             workbook_content = f.read()
         return workbook_content
 
     def set_workbook_content(self, content):
-        with open(self.get_workbook_path(), "w") as f:
+        with open(self.get_workbook_path(), 'w', encoding='utf-8') as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_workbook_rels_content(self):
         rels_path = get_rels_path(self.get_workbook_path())
         if not os.path.exists(rels_path):
             return ""
-        with open(rels_path, "r") as f:
+        with open(rels_path, 'r', encoding='utf-8-sig') as f:
             workbook_rels = f.read()
         return workbook_rels
 
     def get_sheet_content(self, sheet):
-        with open(self.get_sheet(sheet)["path"], "r") as f:
+        with open(self.get_sheet(sheet)["path"], 'r', encoding='utf-8-sig') as f:
             sheet_content = f.read()
         return sheet_content
 
     def set_sheet_content(self, sheet, content):
-        with open(self.get_sheet(sheet)["path"], "w") as f:
+        with open(self.get_sheet(sheet)["path"], 'w', encoding='utf-8') as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def has_rels(self, sheet):
         return os.path.exists(self.get_sheet(sheet)["rels_path"])
 
     def get_sheet_rels_content(self, sheet):
-        with open(self.get_sheet(sheet)["rels_path"], "r") as f:
+        with open(self.get_sheet(sheet)["rels_path"], 'r', encoding='utf-8-sig') as f:
             sheet_rels = f.read()
         return sheet_rels
 
     def set_sheet_rels_content(self, sheet, content):
-        with open(self.get_sheet(sheet)["rels_path"], "w") as f:
+        with open(self.get_sheet(sheet)["rels_path"], 'w', encoding='utf-8') as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_shared_strings_content(self):
         if self.get_shared_strings_path() is None:
             return ""
-        with open(self.get_shared_strings_path(), "r") as f:
+        with open(self.get_shared_strings_path(), 'r', encoding='utf-8-sig') as f:
             shared_strings_content = f.read()
         return shared_strings_content
 
     def set_shared_strings_content(self, content):
         if self.get_shared_strings_path() is None:
             return
-        with open(self.get_shared_strings_path(), "w") as f:
+        with open(self.get_shared_strings_path(), 'w', encoding='utf-8') as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def delete(self):
-- 
2.43.0


From f8a914febf3b8958e1afa582d74190758982ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 101/130] fix: do not read or write files that are not part of
 an office document

---
 openformats/formats/docx.py                   | 13 ++++++++-----
 openformats/formats/office_open_xml/parser.py | 13 ++++++++++++-
 openformats/formats/pptx.py                   | 14 ++++++++------
 openformats/formats/xlsx_unstructured.py      | 12 ++++++------
 4 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 27164a0..500c82f 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -11,7 +11,9 @@ from zipfile import ZIP_DEFLATED, ZipFile
 import six
 from bs4 import BeautifulSoup
 from openformats.handlers import Handler
-from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
+from openformats.formats.office_open_xml.parser import (
+    OfficeOpenXmlHandler, get_file_path
+)
 
 
 class DocxFile(object):
@@ -116,14 +118,15 @@ class DocxFile(object):
             if relationship.attrs.get('Type').endswith('/officeDocument')
         )).attrs['Target']
 
-        self.__document_path = '{}/{}'.format(
+        self.__document_path = get_file_path(
             self.__tmp_folder, document_relative_path
         )
         self.__document = None
 
         document_folder, document_file = os.path.split(document_relative_path)
-        self.__document_rels_path = '{}/{}/_rels/{}.rels'.format(
-            self.__tmp_folder, document_folder, document_file
+        self.__document_rels_path = get_file_path(
+            self.__tmp_folder,
+            '{}/_rels/{}.rels'.format(document_folder, document_file)
         )
         self.__document_rels = None
 
@@ -162,7 +165,7 @@ class DocxFile(object):
 
         with ZipFile(docx_path, "w", compression=ZIP_DEFLATED) as z:
             for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
+                z.write(get_file_path(self.__tmp_folder, filename), filename)
 
         with io.open(docx_path, 'rb') as f:
             result = f.read()
diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index 89c0e78..a2ae582 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -1,7 +1,8 @@
+import os
 import six
 from copy import copy
 
-from openformats.exceptions import MissingParentError
+from openformats.exceptions import MissingParentError, ParseError
 from openformats.strings import OpenString
 from bs4 import BeautifulSoup
 from bs4.dammit import EntitySubstitution
@@ -9,6 +10,16 @@ from bs4.formatter import XMLFormatter
 from collections import defaultdict
 
 
+def get_file_path(folder, name):
+    """The path of a file of an archive that is extracted to a folder, which
+    it must not leave.
+    """
+    path = os.path.normpath(u'{}/{}'.format(folder, name))
+    if not path.startswith(os.path.normpath(folder) + os.sep):
+        raise ParseError(u"Invalid path in the document: {}".format(name))
+    return path
+
+
 class OfficeOpenXmlFormatter(XMLFormatter):
     """Keeps the white space that is normalized when XML is read."""
 
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 459c510..e126910 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -11,7 +11,9 @@ import six
 from bs4 import BeautifulSoup
 from openformats.handlers import Handler
 from openformats.exceptions import MissingParentError
-from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
+from openformats.formats.office_open_xml.parser import (
+    OfficeOpenXmlHandler, get_file_path
+)
 from openformats.strings import OpenString
 from collections import defaultdict
 
@@ -131,12 +133,12 @@ class PptxFile(object):
             self.__slides[slide_path] = {
                 'slide': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, slide_path),
+                    'path': get_file_path(self.__tmp_folder, slide_path),
                     'notes':  False
                 },
                 'rels': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, self.get_rels_path(slide_path))  # noqa
+                    'path': get_file_path(self.__tmp_folder, self.get_rels_path(slide_path))
                 }
             }
 
@@ -144,12 +146,12 @@ class PptxFile(object):
             self.__slides[notes_path] = {
                 'slide': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, notes_path),
+                    'path': get_file_path(self.__tmp_folder, notes_path),
                     'notes':  True
                 },
                 'rels': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, self.get_rels_path(notes_path))  # noqa
+                    'path': get_file_path(self.__tmp_folder, self.get_rels_path(notes_path))
                 }
             }
 
@@ -204,7 +206,7 @@ class PptxFile(object):
 
         with ZipFile(pptx_path, "w", compression=ZIP_DEFLATED) as z:
             for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
+                z.write(get_file_path(self.__tmp_folder, filename), filename)
 
         with io.open(pptx_path, 'rb') as f:
             result = f.read()
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 5e8cb57..981f46f 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -13,7 +13,7 @@ from zipfile import ZipFile, ZIP_DEFLATED
 from bs4 import BeautifulSoup
 
 from openformats.formats.office_open_xml.parser import (
-    OfficeOpenXmlFormatter, OfficeOpenXmlHandler
+    OfficeOpenXmlFormatter, OfficeOpenXmlHandler, get_file_path
 )
 from openformats.handlers import Handler
 from openformats.strings import OpenString
@@ -91,7 +91,7 @@ class XlsxFile(object):
         workbook_path_internal = content_types_soup.find(
             attrs={'ContentType': self.WORKBOOK_CONTENT_TYPE}
         )['PartName']
-        self._workbook_path = "{}{}".format(self.__tmp_folder, workbook_path_internal)
+        self._workbook_path = get_file_path(self.__tmp_folder, workbook_path_internal)
         self._workbook_folder = posixpath.dirname(workbook_path_internal)
 
         comment_paths_internal = {
@@ -101,7 +101,7 @@ class XlsxFile(object):
             )
         }
         self._comment_paths = {
-            "{}{}".format(self.__tmp_folder, comment_path)
+            get_file_path(self.__tmp_folder, comment_path)
             for comment_path in comment_paths_internal
         }
 
@@ -121,7 +121,7 @@ class XlsxFile(object):
         )
         self._sheets = {}
         for sheet_item in sheet_items_internal:
-            sheet_path = "{}{}".format(self.__tmp_folder, sheet_item["path"])
+            sheet_path = get_file_path(self.__tmp_folder, sheet_item["path"])
             sheet_rels_tmp_path = get_rels_path(sheet_path)
             self._sheets[sheet_item["path"]] = {
                 "path": sheet_path,
@@ -135,7 +135,7 @@ class XlsxFile(object):
             attrs={'ContentType': self.SHARED_STRINGS_CONTENT_TYPE}
         )
         if shared_strings_item:
-            self._shared_strings_path = "{}{}".format(
+            self._shared_strings_path = get_file_path(
                 self.__tmp_folder, shared_strings_item["PartName"]
             )
 
@@ -215,7 +215,7 @@ class XlsxFile(object):
         output_path = self.__tmp_folder + "/out.xlsx"
         with ZipFile(output_path, "w", compression=ZIP_DEFLATED) as z:
             for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
+                z.write(get_file_path(self.__tmp_folder, filename), filename)
 
         with io.open(output_path, 'rb') as f:
             result = f.read()
-- 
2.43.0


From 20221265bb58579d4c8e2e5414810bde14c0a26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 102/130] fix: remove the temporary files of office documents
 that cannot be read

---
 openformats/formats/docx.py              | 25 ++++++++++++++++++-----
 openformats/formats/pptx.py              | 26 +++++++++++++++++++-----
 openformats/formats/xlsx_unstructured.py | 24 ++++++++++++++++------
 3 files changed, 59 insertions(+), 16 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 500c82f..3c21dc4 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -91,7 +91,13 @@ class DocxFile(object):
             tempfile.gettempdir(), uuid.uuid4().hex
         )
         os.mkdir(self.__tmp_folder)
+        try:
+            self.__extract(content)
+        except Exception:
+            self.delete()
+            raise
 
+    def __extract(self, content):
         docx_path = '{}/{}.docx'.format(self.__tmp_folder, 'in')
         with io.open(docx_path, 'wb') as f:
             f.write(content)
@@ -317,7 +323,12 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         compilation takes place.
         """
         docx = DocxFile(content)
+        try:
+            return self._parse(docx)
+        finally:
+            docx.delete()
 
+    def _parse(self, docx):
         soup = self._parse_xml(docx.get_document())
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
 
@@ -334,7 +345,6 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         docx.set_document(self._to_xml(soup))
 
         template = docx.compress()
-        docx.delete()
         return template, stringset
 
     def compile(self, template, stringset, **kwargs):
@@ -342,9 +352,16 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
             string.string_hash: string for string in stringset
         }
         docx = DocxFile(template)
+        try:
+            return self._compile(
+                docx, stringset, is_rtl=kwargs.get('is_rtl', False)
+            )
+        finally:
+            docx.delete()
+
+    def _compile(self, docx, stringset, is_rtl):
         soup = self._parse_xml(docx.get_document())
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
-        is_rtl = kwargs.get('is_rtl', False)
 
         for paragraph in soup.find_all('w:p'):
             self.compile_paragraph(
@@ -358,6 +375,4 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         docx.set_document(self._to_xml(soup))
         docx.set_document_rels(self._to_xml(rels_soup))
 
-        result = docx.compress()
-        docx.delete()
-        return result
+        return docx.compress()
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index e126910..ce637a3 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -94,7 +94,13 @@ class PptxFile(object):
             tempfile.gettempdir(), uuid.uuid4().hex
         )
         os.mkdir(self.__tmp_folder)
+        try:
+            self.__extract(content)
+        except Exception:
+            self.delete()
+            raise
 
+    def __extract(self, content):
         pptx_path = '{}/{}.pptx'.format(self.__tmp_folder, 'in')
         with io.open(pptx_path, 'wb') as f:
             f.write(content)
@@ -372,7 +378,12 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
         compilation takes place.
         """
         pptx = PptxFile(content)
+        try:
+            return self._parse(pptx)
+        finally:
+            pptx.delete()
 
+    def _parse(self, pptx):
         stringset = []
         order = itertools.count()
 
@@ -395,7 +406,6 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
             pptx.set_slide(slide, self._to_xml(soup))
 
         template = pptx.compress()
-        pptx.delete()
         return template, stringset
 
     def compile(self, template, stringset, **kwargs):
@@ -403,7 +413,14 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
             string.string_hash: string for string in stringset
         }
         pptx = PptxFile(template)
-        is_rtl = kwargs.get('is_rtl', False)
+        try:
+            return self._compile(
+                pptx, stringset, is_rtl=kwargs.get('is_rtl', False)
+            )
+        finally:
+            pptx.delete()
+
+    def _compile(self, pptx, stringset, is_rtl):
         for slide in pptx.get_slides():
             soup = self._parse_xml(pptx.get_slide(slide))
             rels_soup = BeautifulSoup(pptx.get_slide_rels(slide), 'xml')
@@ -417,9 +434,8 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
             pptx.set_slide(slide, self._to_xml(soup))
             pptx.set_slide_rels(slide, self._to_xml(rels_soup))
 
-        result = pptx.compress()
-        pptx.delete()
-        return result
+        return pptx.compress()
+
 
 class PptxHandlerV2(PptxHandler):
     """
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 981f46f..1062d63 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -56,8 +56,14 @@ class XlsxFile(object):
     def __init__(self, content):
         self.__tmp_folder = "{}/{}".format(tempfile.gettempdir(), uuid4().hex)
         os.mkdir(self.__tmp_folder)
+        try:
+            self.__extract(content)
+        except Exception:
+            self.delete()
+            raise
 
-        input_path = self.__tmp_folder + "in.xlsx"
+    def __extract(self, content):
+        input_path = self.__tmp_folder + "/in.xlsx"
 
         with io.open(input_path, 'wb') as f:
             f.write(content)
@@ -277,7 +283,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
     def parse(self, content, **kwargs):
         xlsx = XlsxFile(content)
+        try:
+            return self._parse(xlsx)
+        finally:
+            xlsx.delete()
 
+    def _parse(self, xlsx):
         order = itertools.count()
 
         sheet_names, names_by_sheet = self._extract_sheet_names(xlsx)
@@ -418,8 +429,6 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             all_strings.append(open_string)
 
         template = xlsx.compress()
-
-        xlsx.delete()
         return template, all_strings
 
     @staticmethod
@@ -466,7 +475,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             string.string_hash: string for string in stringset
         }
         xlsx = XlsxFile(template)
+        try:
+            return self._compile(xlsx, stringset, is_rtl)
+        finally:
+            xlsx.delete()
 
+    def _compile(self, xlsx, stringset, is_rtl):
         shared_strings_soup = self._parse_xml(xlsx.get_shared_strings_content())
         shared_strings = shared_strings_soup.find_all("si")
 
@@ -612,7 +626,5 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             if xlsx.has_rels(sheet):
                 xlsx.set_sheet_rels_content(sheet, sheet_rels_soup)
 
-        result = xlsx.compress()
-        xlsx.delete()
-        return result
+        return xlsx.compress()
 
-- 
2.43.0


From 5137784547eee7ff9d7937644b6eed421a7e006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 103/130] fix: quote strings of flow mappings that are a whole
 markdown header

---
 openformats/formats/github_markdown_v2.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 71cea78..2405494 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -52,18 +52,21 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
     SINGLE_QUOTED = re.compile(r"'(?:[^']|'')*'$")
 
     # What needs a backslash within double quotes
+    FLOW_HEADER = re.compile(r'---\s+(#.*\s+)*[\[{]')
     ESCAPABLE = re.compile(r'\\u[a-f0-9]{4}|[\\"]')
 
     def compile(self, template, stringset, **kwargs):
         # assume stringset is ordered within the template
         transcriber = Transcriber(template)
         template = transcriber.source
+        # The style of the outermost collection is not in the strings' flags
+        is_flow = bool(self.FLOW_HEADER.match(template))
 
         for openstring in stringset:
             tr_string = openstring.string
             if self._is_yaml_string(openstring):
                 self._escape_invalid_chars(openstring)
-                tr_string = self._transform_yaml_string(openstring)
+                tr_string = self._transform_yaml_string(openstring, is_flow)
                 if openstring.context:
                     # The tag was replaced together with the string
                     tr_string = u'!{} {}'.format(openstring.context, tr_string)
@@ -286,14 +289,17 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
 
             openstring._strings[rule] = string
 
-    def _transform_yaml_string(self, openstring):
+    def _transform_yaml_string(self, openstring, is_flow=False):
         """Transform the given YAML-formatted string to make it valid for compilation.
 
         :param OpenString openstring: the string object to use for the transformation
+        :param bool is_flow: whether the whole header is in flow style
         :return: a string that is valid for exporting
         :rtype: str
         """
-        should_wrap, quote_char = self._should_wrap_in_quotes(openstring)
+        should_wrap, quote_char = self._should_wrap_in_quotes(
+            openstring, is_flow
+        )
         if should_wrap:
             is_folded = openstring.flags.endswith('>')
             if self.NEWLINE in openstring.string and not is_folded:
@@ -348,7 +354,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             return text
         return GithubMarkdownHandlerV2.BACKSLASH + text
 
-    def _is_read_as_string(self, openstring):
+    def _is_read_as_string(self, openstring, is_flow=False):
         """Check if the given string can be left without quotes."""
         string = openstring.string.strip()
         if not string or string[0] in (self.PIPE, self.BRACKET_LEFT):
@@ -359,11 +365,11 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         analysis = Emitter(
             six.StringIO(), allow_unicode=True
         ).analyze_scalar(string)
-        if 'flow' in openstring.flags:
+        if is_flow or 'flow' in openstring.flags:
             return analysis.allow_flow_plain
         return analysis.allow_block_plain
 
-    def _should_wrap_in_quotes(self, openstring):
+    def _should_wrap_in_quotes(self, openstring, is_flow=False):
         """Check if the given string should be wrapped in quotes.
 
         In order to decide if wrapping is necessary, it takes into account
@@ -371,6 +377,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         whether or not it contains special characters, etc.
 
         :param unicode string: the string to check
+        :param bool is_flow: whether the whole header is in flow style
         :return: a tuple that shows if wrapping is needed, as well as
             the character that should be used for wrapping
         :rtype: tuple (bool, str)
@@ -427,7 +434,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             string.startswith(self.AMPERSAND),
             string.startswith(self.DASH),
             string.startswith(self.AT_SIGN),
-            not self._is_read_as_string(openstring),
+            not self._is_read_as_string(openstring, is_flow),
             (
                 string.startswith(self.BRACKET_LEFT)
                 and not string.endswith(self.BRACKET_RIGHT)
-- 
2.43.0


From 76a7698b015699f5ed05c7a6c6119b7b597107af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 104/130] fix: refuse structured JSON entries that have a key
 twice

---
 openformats/formats/json.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 47af787..b4b9e12 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -99,6 +99,7 @@ class JsonHandler(Handler):
                             if isinstance(
                                 string_value, (six.binary_type, six.text_type)
                             ):
+                                self._validate_unique_keys(value, key)
                                 if string_value.strip():
                                     openstring = self._create_openstring(key, value)
 
@@ -154,6 +155,25 @@ class JsonHandler(Handler):
         else:
             raise ParseError("Invalid JSON")
 
+    def _validate_unique_keys(self, parsed, nest):
+        """Check that the keys of the entry of a string are unique.
+
+        :param DumbJson parsed: the entry of the string
+        :param str nest: the key of the entry
+        :raise ParseError: if the entry has the same key more than once
+        """
+        keys = set()
+        for key, key_position, _, _ in parsed:
+            if key in keys:
+                # Need this for line number
+                self.transcriber.copy_until(key_position)
+                raise ParseError(
+                    "Duplicate string key ('{}.{}') in line {}".format(
+                        nest, self._escape_key(key), self.transcriber.line_number
+                    )
+                )
+            keys.add(key)
+
     def _create_openstring(self, key, value, value_position):
         """Return a new OpenString based on the given key and value
         and update the transcriber accordingly based on the provided position.
-- 
2.43.0


From d6572c5e1c8987d850d32e25760c37970f15d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 105/130] fix: refuse PO plural forms whose index is not a
 number

---
 openformats/formats/po.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 773f8e9..89b52cf 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -88,9 +88,17 @@ class PoHandler(Handler):
             string_data.update(self._get_metadata(entry))
 
             if pluralized:
-                msgstrs = {
-                    int(key): value for key, value in entry.msgstr_plural.items()
-                }
+                try:
+                    msgstrs = {
+                        int(key): value for key, value in entry.msgstr_plural.items()
+                    }
+                except ValueError:
+                    raise ParseError(
+                        (
+                            "Found invalid msgstr[*] on the entry with msgid '{}' and "
+                            "msgid_plural '{}'"
+                        ).format(entry.msgid, entry.msgid_plural)
+                    )
             else:
                 msgstrs = {5: entry.msgstr}
 
-- 
2.43.0


From f819f3e1af739327f9444e2e2b876852b2026917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 106/130] fix: refuse XML attributes whose values are not in
 quotes

---
 openformats/utils/xml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 710d719..309ac74 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -460,6 +460,12 @@ class NewDumbXml(object):
                     #      ^
                     (status, quote_type, value_position,
                      value) = "IN_VALUE", candidate, ptr + 1, []
+                elif not candidate.isspace():
+                    raise DumbXmlSyntaxError(
+                        u"Value of attribute '{}' not in quotes on line {}".
+                        format(u''.join(key).rstrip(),
+                               self._find_line_number(ptr))
+                    )
             elif status == "IN_VALUE":
                 if candidate == quote_type:
                     # <a b="c" ... >
-- 
2.43.0


From 3378412e9d5efb60ad0a49669f99045481133f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 107/130] fix: refuse plural rules of ICU strings that are
 unknown or appear twice

---
 openformats/utils/icu.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index 7f58979..46c35c3 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -289,18 +289,21 @@ class ICUParser(object):
             key, serialized_strings, all_matches,
         )
 
+        # Create a list of tuples [(plurality_str, content_with_braces)]
+        all_strings_list = [
+            self._parse_plural_content(match[0])
+            for match in all_matches
+        ]
+
         # Make sure the plurality rules are valid
         # If not, an error will be raised
-        if len(valid_matches) != len(all_matches):
+        if (len(valid_matches) != len(all_matches) or
+                any(rule not in SUPPORTED_PLURAL_RULES
+                    for rule, _ in all_strings_list)):
             self._handle_invalid_plural_format(
                 serialized_strings, any_plural_item, key, value
             )
-
-        # Create a list of tuples [(plurality_str, content_with_braces)]
-        all_strings_list = [
-            self._parse_plural_content(match[0])
-            for match in valid_matches
-        ]
+        self._validate_unique_rules(key, value, all_strings_list)
 
         icu_string = ICUString(key, all_strings_list, pluralized=True)
 
@@ -399,6 +402,23 @@ class ICUParser(object):
             )
         )
 
+    @staticmethod
+    def _validate_unique_rules(key, value, all_strings_list):
+        """Make sure that no plural rule appears twice, because one of the
+        strings would be lost.
+
+        :raise ParseError: if a plural rule appears twice
+        """
+        rules = set()
+        for rule, _ in all_strings_list:
+            rule = normalize_plural_rule(rule)
+            if rule in rules:
+                raise ParseError(
+                    'Duplicate plural rule "{}" in pluralized entry '
+                    'with key: {}, value: "{}"'.format(rule, key, value)
+                )
+            rules.add(rule)
+
     @staticmethod
     def _parse_plural_content(string):
         # Find the content inside the brackets
-- 
2.43.0


From bc2661931ab8932cf22219275ccea5d4728bcd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 108/130] fix: compile Android files whose <resources> tag
 closes itself

---
 openformats/formats/android.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 850b03e..51f9db3 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -386,8 +386,9 @@ class AndroidHandler(Handler):
 
         # This is needed in case the first tag is skipped to retain
         # the file's formating
-        first_tag_position = parsed.text_position + len(parsed.text)
-        self.transcriber.copy_until(first_tag_position)
+        if parsed.text is not None:  # <resources /> has nothing in it
+            first_tag_position = parsed.text_position + len(parsed.text)
+            self.transcriber.copy_until(first_tag_position)
 
         children_iterator = parsed.find_children()
 
-- 
2.43.0


From 929b5d28e1b92bd5a79d4e9cbf6899ab56b1d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 109/130] fix: set the locale of an ARB file at its root only

---
 openformats/formats/json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index b4b9e12..843872f 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -770,12 +770,12 @@ class ArbHandler(JsonHandler):
         stringset = list(stringset)
 
         if language_info is not None:
-            match = re.search(r"(\"@@locale\"\s*:\s*\")([^\"]*)\"", template)
-            if match:
+            ((locale, position),) = DumbJson(template).find_children("@@locale")
+            if isinstance(locale, six.text_type):
                 template = "{}{}{}".format(
-                    template[: match.start(2)],
+                    template[:position],
                     language_info["code"],
-                    template[match.end(2) :],
+                    template[position + len(locale) :],
                 )
 
         return self._replace_translations(template, stringset, True)
-- 
2.43.0


From a13124e2b0ccb21b6fec98827640b522e5140a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 110/130] fix: name only the invalid rules in errors about ICU
 plurals

---
 openformats/utils/icu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index 46c35c3..8c5ae30 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -390,7 +390,7 @@ class ICUParser(object):
 
         invalid_rules = [
             rule for rule in all_keys
-            if rule not in six.iterkeys(Handler._RULES_ATOI)
+            if rule not in SUPPORTED_PLURAL_RULES
         ]
         raise ParseError(
             'Invalid plural rule(s): "{}" in pluralized entry '
-- 
2.43.0


From c93a289f419f370de1bb8233d44fa502338a1fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 111/130] fix: leave the strings given to compile markdown as
 they are

---
 openformats/formats/github_markdown_v2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 2405494..6909190 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -1,6 +1,7 @@
 from __future__ import absolute_import, unicode_literals
 
 import re
+from copy import copy
 
 import six
 import unicodedata
@@ -65,6 +66,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         for openstring in stringset:
             tr_string = openstring.string
             if self._is_yaml_string(openstring):
+                # Escape a copy, the string belongs to the caller
+                openstring = copy(openstring)
+                openstring._strings = dict(openstring._strings)
                 self._escape_invalid_chars(openstring)
                 tr_string = self._transform_yaml_string(openstring, is_flow)
                 if openstring.context:
-- 
2.43.0


From 0510b6d7bea4a9e98c16e0967631aba36c53153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:29 +0000
Subject: [PATCH 112/130] fix: compile InDesign stories with \r\n newlines

---
 openformats/formats/indesign.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index c43f0ba..d7610eb 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -197,6 +197,7 @@ class InDesignHandler(Handler):
             compiled_story: the compiled story content
         """
         transcriber = Transcriber(story_content)
+        story_content = transcriber.source
         hash_regex = re.compile(ensure_unicode(r'[a-z,0-9]{32}_tr'))
         found = True
         while found:
-- 
2.43.0


From b036648ecb275cc6abd0e7ad262a97aa797e65e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 113/130] fix: keep the InDesign special characters that
 parsing accepts

---
 openformats/formats/indesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index d7610eb..95f8b57 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -288,7 +288,7 @@ class InDesignHandler(Handler):
         escaped_lt_positions = {
             match.span()[0]
             for match in re.finditer(
-                r'<(\?ACE 18\?|\?ACE 19\?|\?ACE 3\?|\?ACE 8\?|\?ACE 7\?|Br\/)>',
+                r'<(\?ACE \d+\?|Br\/)>',
                 string)}
         target_positions = sorted(all_lt_positions - escaped_lt_positions)
 
-- 
2.43.0


From 911d8134b59a9ab59325ec918cabd071a88bad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 114/130] fix: parse every InDesign file on its own

---
 openformats/formats/indesign.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index 95f8b57..7feba12 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -53,6 +53,9 @@ class InDesignHandler(Handler):
             * Return the (template, stringset) tuple
         """
 
+        self.order = count()
+        self.stringset = []
+
         idml = UCF(io.BytesIO(content))
         ordered_stories = self._get_ordered_stories(idml)
 
-- 
2.43.0


From d7d7be46e8d71d95b41b2aed8ea15be2402da512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 115/130] fix: remove no texts that look like the placeholders
 of InDesign strings

---
 openformats/formats/indesign.py | 36 ++++++++++++---------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index 7feba12..55aebbc 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -201,32 +201,22 @@ class InDesignHandler(Handler):
         """
         transcriber = Transcriber(story_content)
         story_content = transcriber.source
-        hash_regex = re.compile(ensure_unicode(r'[a-z,0-9]{32}_tr'))
-        found = True
-        while found:
-            try:
-                current_string = self.stringset.pop(0)
-                hash_position = story_content.index(
-                    current_string.template_replacement
-                )
-            except ValueError:
-                found = False
-                self.stringset.insert(0, current_string)
-            except IndexError:
-                break
-            else:
-                transcriber.copy_until(hash_position)
-                transcriber.add(self._escape_special_chars(
-                    current_string.string))
-                transcriber.skip(len(current_string.template_replacement))
+        strings = {string.template_replacement: string.string
+                   for string in self.stringset}
+        for match in re.finditer(ensure_unicode(r'[a-f0-9]{32}_tr'),
+                                 story_content):
+            transcriber.copy_until(match.start())
+            # in case there is no string left for a hash, replace it with an
+            # empty string
+            transcriber.add(self._escape_special_chars(
+                strings.pop(match.group(), u'')))
+            transcriber.skip(len(match.group()))
+        self.stringset = [string for string in self.stringset
+                          if string.template_replacement in strings]
 
         # Update the XML file to contain the template strings
         transcriber.copy_until(len(story_content))
-        compiled_story = transcriber.get_destination()
-        # in case there are any hashes that have not been replaced, replace
-        # them with an empty string
-        compiled_story = hash_regex.sub(u'', compiled_story)
-        return compiled_story
+        return transcriber.get_destination()
 
     def _escape_special_chars(self, string):
         string = self._escape_amps(string)
-- 
2.43.0


From 12fb7bcfbb5314e5b893e33fc8679159bba7d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 116/130] fix: escape ]]> in the translations of InDesign files

---
 openformats/formats/indesign.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index 55aebbc..8bfbf42 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -221,7 +221,8 @@ class InDesignHandler(Handler):
     def _escape_special_chars(self, string):
         string = self._escape_amps(string)
         string = self._escape_lt(string)
-        return string
+        # This is not allowed in the texts of XML
+        return string.replace(u']]>', u']]&gt;')
 
     @staticmethod
     def _escape_amps(string):
-- 
2.43.0


From bbaa0bcd9bd0e942f79df4a1b26f423becf22b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 117/130] fix: replace the values of markdown headers where
 they are

---
 openformats/formats/github_markdown.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index fc19add..c3ab871 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -179,7 +179,12 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
         block = False
         block_string = ''
         indent = 0
-        for line in yaml_header.splitlines():
+        # The position of the current line and of the block
+        line_end = block_start = 0
+        for line in yaml_header.splitlines(True):
+            line_start = line_end
+            line_end += len(line)
+            line = line.rstrip('\n')
             # ignore comments
             if line.startswith('#'):
                 continue
@@ -190,7 +195,7 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
                     block_string += '\n'
                     continue
                 else:
-                    yaml_strings.append((block_string, None))
+                    yaml_strings.append((block_string, None, block_start))
                     block_string = ''
                     block = False
             key_value = line.split(':', 1)
@@ -204,8 +209,11 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
                                            key_value[0]).
                                  group(0))
                     block = True
+                    block_start = line_end
                     continue
-                yaml_strings.append((value, None))
+                yaml_strings.append(
+                    (value, None, line_start + line.rindex(value))
+                )
         return yaml_strings
 
     def parse(self, content, **kwargs):
@@ -247,6 +255,10 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
         order = 0
         curr_pos = 0
         for token in (yaml_stringset + block.md_stringset):
+            if len(token) == 3:
+                # The position in the document is known
+                curr_pos = token[2] + len(template) - len(content)
+                token = token[:2]
             string = string_handler(token, template)
             # Everything up to the end of the token is done with this string
             curr_pos, token_end = find_token(token, template, curr_pos)
-- 
2.43.0


From ddc113654b71d183e61f8f206c0fb2479053b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 118/130] fix: keep the values of XLSX cells that are only
 spaces

---
 openformats/formats/office_open_xml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index a2ae582..cb0ed36 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -109,7 +109,7 @@ class OfficeOpenXmlHandler(object):
         """
         return BeautifulSoup(
             content, 'xml',
-            preserve_whitespace_tags={'t', 'wrapper'},
+            preserve_whitespace_tags={'t', 'v', 'wrapper'},
         )
 
     @staticmethod
-- 
2.43.0


From b0e78b606f7946688fbfe74a0cf765b2db0207fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 119/130] fix: leave the texts of DOCX text boxes to their own
 paragraphs

---
 openformats/formats/office_open_xml/parser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index cb0ed36..0b07f9c 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -131,10 +131,21 @@ class OfficeOpenXmlHandler(object):
             replace(u"__TX__OPENING__TAG__", u"<tx").\
             replace(u"__TX__CLOSING__TAG__", u"</tx>")
 
+    @staticmethod
+    def _find_own(paragraph, tag):
+        """ The elements of a paragraph, without those of the paragraphs that
+            are inside of it, eg in a text box.
+        """
+        return [
+            element
+            for element in paragraph.find_all(tag)
+            if element.find_parent(paragraph.name) is paragraph
+        ]
+
     @classmethod
     def parse_paragraph(cls, paragraph, rels_soup):
         paragraph_text = []
-        text_elements = paragraph.find_all(cls.TEXT_ELEMENT_TAG)
+        text_elements = cls._find_own(paragraph, cls.TEXT_ELEMENT_TAG)
         if not text_elements:
             return None
 
@@ -216,7 +227,7 @@ class OfficeOpenXmlHandler(object):
         return open_string
 
     def compile_paragraph(cls, paragraph, rels_soup, stringset, is_rtl=False):
-        text_elements = paragraph.find_all(cls.TEXT_ELEMENT_TAG)
+        text_elements = cls._find_own(paragraph, cls.TEXT_ELEMENT_TAG)
         if not text_elements:
             return
 
-- 
2.43.0


From 3528e5c981da281d6bc47299a22757d6a3da1ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:34 +0000
Subject: [PATCH 120/130] fix: set the direction of DOCX paragraphs with text
 boxes

---
 openformats/formats/docx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 3c21dc4..dffae17 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -274,7 +274,7 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
     @classmethod
     def set_rtl_orientation(cls, paragraph):
         soup = BeautifulSoup("", "xml")
-        ppr_tags = paragraph.find_all("w:pPr")
+        ppr_tags = cls._find_own(paragraph, "w:pPr")
 
         if len(ppr_tags) == 0:
             pPr = soup.new_tag("w:pPr")
@@ -288,7 +288,7 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
             bidi_tag = soup.new_tag("w:bidi", **{"w:val": "1"})
             ppr_tag.append(bidi_tag)
 
-        rpr_tags = paragraph.find_all("w:rPr")
+        rpr_tags = cls._find_own(paragraph, "w:rPr")
         for rpr_tag in rpr_tags:
             if rpr_tag.rtl is not None:
                 rpr_tag.rtl.decompose()
-- 
2.43.0


From 0de7404e71080f57eba031914997d64551c0fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:09 +0000
Subject: [PATCH 121/130] fix: copy no text twice after the items of a
 BETA_ANDROID array

---
 openformats/formats/beta_android.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index 1a32fac..e0d7d80 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -144,8 +144,7 @@ class BetaAndroidHandler(Handler):
             # orld</item>   <it...
             #            ^
             self.transcriber.copy_until(
-                string_array_offset + item_offset + item_tag.inner_offset +
-                len(item_tag.content)
+                string_array_offset + item_offset + len(item_tag.content)
             )
 
         # </item>  </string-array>
-- 
2.43.0


From f4e78186ca1dca78c6c7848ccff0d887ac733b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:29 +0000
Subject: [PATCH 122/130] fix: keep what follows a BETA_ANDROID plural that is
 not on its own line

---
 openformats/formats/beta_android.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index e0d7d80..ae6d243 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -357,9 +357,7 @@ class BetaAndroidHandler(Handler):
                             rule=self.get_rule_string(rule), string=value
                         )
                     )
-                self.transcriber.skip(indent_length +
-                                      len(next_string.template_replacement) +
-                                      tail_length)
+                self.transcriber.skip(len(next_string.template_replacement))
 
             # finish up by copying until the end of </plurals>
             self.transcriber.copy_until(plurals_offset +
-- 
2.43.0


From 14853c00042996ef4a660efd70f3c09798f4c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:01 +0000
Subject: [PATCH 123/130] fix: ignore the comments inside of BETA_ANDROID
 arrays and plurals

---
 openformats/formats/beta_android.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index ae6d243..b371074 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -47,8 +47,12 @@ class BetaAndroidHandler(Handler):
                                                "plurals", DumbXml.COMMENT)):
             if self._should_ignore(tag):
                 last_comment = ""
+                self.transcriber.copy_until(offset + len(tag.content))
                 continue
             if tag.name == DumbXml.COMMENT:
+                if offset < self.transcriber.ptr:
+                    # It is inside of the previous tag
+                    continue
                 last_comment = tag.inner
                 self.transcriber.copy_until(offset + len(tag.content))
             elif tag.name == "string":
-- 
2.43.0


From bfe517aefe3a0fc8304b02969fc6f99e30549344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:12 +0000
Subject: [PATCH 124/130] fix: compile BETA_ANDROID plurals that have comments
 beside their items

---
 openformats/formats/beta_android.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index b371074..f375fbf 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -311,7 +311,7 @@ class BetaAndroidHandler(Handler):
         except IndexError:
             next_string = None
         if (next_string is not None and
-                next_string.template_replacement == plurals_tag.inner.strip()):
+                next_string.template_replacement in plurals_tag.inner):
             # found one to replace, if the hash is on its own on a line with
             # only spaces, we have to remember it's indent
             self._stringset_index += 1
-- 
2.43.0


From 587c11ef27cbce8e9c461e6f7f6b5dd52cc9c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:04 +0000
Subject: [PATCH 125/130] fix: mark DOCX tables that have no properties around
 ones that do

---
 openformats/formats/docx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index dffae17..48885ec 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -300,7 +300,7 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         """
         Ensure <w:bidiVisual/> is present under the table's <w:tblPr>.
         """
-        tblPr = tbl.find("w:tblPr")
+        tblPr = tbl.find("w:tblPr", recursive=False)
         if tblPr is None:
             tblPr = soup.new_tag("w:tblPr")
             tbl.insert(0, tblPr)
-- 
2.43.0


From 798db436ecd462f25e78946fea95b6e3f6cc0665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:45 +0000
Subject: [PATCH 126/130] fix: split the occurrences of new PO entries at their
 last colon

---
 openformats/formats/po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 89b52cf..1de87e6 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -432,7 +432,7 @@ class PoHandler(Handler):
             if isinstance(os.occurrences, six.text_type):
                 for occ in os.occurrences.split(", "):
                     if ":" in occ:
-                        filename, lineno = occ.split(":", 1)
+                        filename, lineno = occ.rsplit(":", 1)
                         occs.append((filename, lineno))
             else:
                 occs = os.occurrences
-- 
2.43.0


From 908651fa7652c9e244ee5feb9cdc29cf4472b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:39 +0000
Subject: [PATCH 127/130] fix: read plural rules right after an escaped newline
 or tab

A text like "{n, plural,\none {a}\nother {b}}" of a JSON file was refused, as
the letter of the escape was taken for the start of the rule.
---
 openformats/utils/icu.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index 8c5ae30..4edf5c0 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -281,9 +281,13 @@ class ICUParser(object):
             pyparsing.nestedExpr('{', '}', ignoreExpr=pyparsing.Literal("'"))
         )
 
-        all_matches = pyparsing.originalTextFor(any_plural_item).searchString(
-            serialized_strings
+        # The letter of an escaped newline or tab is not a part of the rule
+        escapes = pyparsing.Suppress(
+            pyparsing.ZeroOrMore(pyparsing.oneOf(['\\n', '\\t']))
         )
+        all_matches = (
+            escapes + pyparsing.originalTextFor(any_plural_item)
+        ).searchString(serialized_strings)
 
         self._validate_plural_content_format(
             key, serialized_strings, all_matches,
@@ -301,7 +305,7 @@ class ICUParser(object):
                 any(rule not in SUPPORTED_PLURAL_RULES
                     for rule, _ in all_strings_list)):
             self._handle_invalid_plural_format(
-                serialized_strings, any_plural_item, key, value
+                serialized_strings, escapes + any_plural_item, key, value
             )
         self._validate_unique_rules(key, value, all_strings_list)
 
-- 
2.43.0


From 1a66f463f2b8542f7eda77bb40fd7461a7daa4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:32 +0000
Subject: [PATCH 128/130] fix: let the testbed save its state with the Django
 it requires

---
 testbed/main/views.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/testbed/main/views.py b/testbed/main/views.py
index 41b1fc6..62115ea 100644
--- a/testbed/main/views.py
+++ b/testbed/main/views.py
@@ -167,6 +167,7 @@ class ApiView(HandlerMixin, View):
 class SaveView(CreateView):
     http_method_names = ['post']
     model = Payload
+    fields = ['payload']
 
     def form_valid(self, form):
         try:
-- 
2.43.0


From a6ec64060a80ce3f78a21d6ab9e5c78fcfec78c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:49 +0000
Subject: [PATCH 129/130] fix: find the names of plural rules when compiling
 plurals in place

---
 openformats/utils/compilers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/utils/compilers.py b/openformats/utils/compilers.py
index 7537e3c..e896a83 100644
--- a/openformats/utils/compilers.py
+++ b/openformats/utils/compilers.py
@@ -42,7 +42,7 @@ class OrderedCompilerMixin(object):
                     for rule, value in six.iteritems(string.string):
                         transcriber.add(
                             indent + self.plural_template.format(
-                                rule=self.RULES_ITOA[rule], string=value
+                                rule=self.get_rule_string(rule), string=value
                             ) + tail + '\n'
                         )
                     transcriber.skip(indent_length +
@@ -54,7 +54,7 @@ class OrderedCompilerMixin(object):
                     transcriber.copy_until(hash_position)
                     for rule, value in six.iteritems(string.string):
                         transcriber.add(self.plural_template.format(
-                            rule=self.RULES_ITOA[rule], string=value
+                            rule=self.get_rule_string(rule), string=value
                         ))
                     transcriber.skip(len(string.template_replacement))
 
-- 
2.43.0


From b8079222ef09f83bca535e97a57551b8ecd01432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:12 +0000
Subject: [PATCH 130/130] fix: compile plurals in the first and last line of a
 template

---
 openformats/utils/compilers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openformats/utils/compilers.py b/openformats/utils/compilers.py
index e896a83..4c35838 100644
--- a/openformats/utils/compilers.py
+++ b/openformats/utils/compilers.py
@@ -26,9 +26,10 @@ class OrderedCompilerMixin(object):
             else:
                 # if the hash is on its own on a line with only spaces, we have
                 # to remember it's indent
-                indent_length = template[hash_position::-1].index('\n') - 1
+                indent_length = (hash_position - 1 -
+                                 template.rfind('\n', 0, hash_position))
                 indent = template[hash_position - indent_length:hash_position]
-                tail_length = template[
+                tail_length = (template + '\n')[
                     hash_position + len(string.template_replacement):
                 ].index('\n')
                 tail = template[
-- 
2.43.0

