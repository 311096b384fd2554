From a8f951689e596dab8241f9520c5cd0b8100e3ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:01 +0000
Subject: [PATCH 01/85] fix: don't skip macros following an escaped percent
 sign in ValueParser.parse()

The search offset is relative to the start of the current literal.
---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 1b57c26..b219a0c 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -250,7 +250,7 @@ class ValueParser:
                 end = value.index("%", start + offset)
                 try:
                     if value[end + 1] == "%":
-                        offset = end + 2
+                        offset = end + 2 - start
                         continue
                 except IndexError:
                     raise UnterminatedMacroException
-- 
2.43.0


From a04648ccdc5d812fa9be2f972566c04fb9038563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:01 +0000
Subject: [PATCH 02/85] fix: ignore escaped parentheses when looking for the
 end of a macro

A backslash escapes the character that follows it (see matchchar() in RPM).
---
 specfile/value_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index b219a0c..75e6f39 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -215,15 +215,18 @@ class ValueParser:
 
         def find_matching_parenthesis(index):
             level = 0
-            for i in range(index, len(value)):
+            i = index
+            while i < len(value):
                 if value[i] == "\\":
-                    continue
+                    # skip the escaped character, as RPM does
+                    i += 1
                 elif value[i] == pairs[value[index]]:
                     level -= 1
                     if level <= 0:
                         return i + 1
                 elif value[i] == value[index]:
                     level += 1
+                i += 1
             return None
 
         def find_macro_end(index):
-- 
2.43.0


From 03ab00a439e4330cface486030d61d90c6c66e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:01 +0000
Subject: [PATCH 03/85] fix: recognize %** macro

---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 75e6f39..89f4257 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -239,7 +239,7 @@ class ValueParser:
                 i += 1
             while i < len(value) and (value[i].isalnum() or value[i] == "_"):
                 i += 1
-            if i + 1 < len(value) and value[i : i + 1] == "**":
+            if i + 1 < len(value) and value[i : i + 2] == "**":
                 i += 2
             elif i < len(value) and value[i] in "*#":
                 i += 1
-- 
2.43.0


From 3842d9dd784e839d5631b059997a1d623f6b85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 04/85] fix: don't treat non-ASCII characters as part of macro
 names

RPM only accepts ASCII letters, digits and underscores.
---
 specfile/value_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 89f4257..0b61eff 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -3,6 +3,7 @@
 
 import itertools
 import re
+import string
 from abc import ABC
 from string import Template
 from typing import TYPE_CHECKING, Generator, List, Optional, Pattern, Set, Tuple
@@ -16,6 +17,9 @@ if TYPE_CHECKING:
 
 SUBSTITUTION_GROUP_PREFIX = "sub_"
 
+# characters that RPM accepts in macro names, regardless of locale
+MACRO_NAME_CHARACTERS = set(string.ascii_letters + string.digits + "_")
+
 
 class Node(ABC):
     """Base class for all nodes."""
@@ -237,7 +241,7 @@ class ValueParser:
                 i += 1
             if i < len(value) and value[i] == "-":
                 i += 1
-            while i < len(value) and (value[i].isalnum() or value[i] == "_"):
+            while i < len(value) and value[i] in MACRO_NAME_CHARACTERS:
                 i += 1
             if i + 1 < len(value) and value[i : i + 2] == "**":
                 i += 2
-- 
2.43.0


From 51c6b5860f6dd52b5e6f14b0ab4b05966d9a5681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 05/85] fix: preserve whitespace in EnclosedMacroSubstitution
 and accept an empty one

Re-rendering a parsed value must not alter it, and %{} must not cause a crash.
---
 specfile/value_parser.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 0b61eff..a3d26c7 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -108,16 +108,21 @@ class EnclosedMacroSubstitution(Node):
             _, self.prefix, rest = tokens
         self.name: str
         self.args: List[str]
-        self.name, *self.args = rest.split()
+        self.name, *self.args = rest.split() or [""]
+        self._rest = rest
+
+    def _body(self) -> str:
+        tokens = [self.name, *self.args]
+        # preserve original whitespace unless there was a change
+        rest = self._rest if (self._rest.split() or [""]) == tokens else " ".join(tokens)
+        return self.prefix + rest
 
     @formatted
     def __repr__(self) -> str:
-        args = (" " + " ".join(self.args)) if self.args else ""
-        return f"EnclosedMacroSubstitution({(self.prefix + self.name + args)!r})"
+        return f"EnclosedMacroSubstitution({self._body()!r})"
 
     def __str__(self) -> str:
-        args = (" " + " ".join(self.args)) if self.args else ""
-        return f"%{{{self.prefix}{self.name}{args}}}"
+        return f"%{{{self._body()}}}"
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, self.__class__):
-- 
2.43.0


From 35bbcae0c7fa978fc3345447d4ab5c222070c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:00 +0000
Subject: [PATCH 06/85] fix: preserve the original representation of unchanged
 option tokens

Backslashes, quotes inside of macros and empty quoted strings were lost when
converting tokenized options back to a string.
---
 specfile/options.py | 47 +++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index a6d7d8c..acb41d0 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -28,15 +28,19 @@ class Token(collections.abc.Hashable):
         value: Token value.
     """
 
-    def __init__(self, type: TokenType, value: str) -> None:
+    def __init__(self, type: TokenType, value: str, raw: Optional[str] = None) -> None:
         self.type = type
         self.value = value
+        # original representation, only applicable until there is a change
+        self._raw = None if raw is None else (type, value, raw)
 
     @formatted
     def __repr__(self) -> str:
         return f"Token({self.type!r}, {self.value!r})"
 
     def __str__(self) -> str:
+        if self._raw and self._raw[:2] == self._key():
+            return self._raw[2]
         if self.type == TokenType.WHITESPACE:
             return self.value
         elif self.type == TokenType.QUOTED:
@@ -47,8 +51,8 @@ class Token(collections.abc.Hashable):
             # escape double quotes
             value = self.value.replace('"', r"\"")
             return f'"{value}"'
-        # escape quotes and whitespace
-        return re.sub(r"['\"\s]", r"\\\g<0>", self.value)
+        # escape backslashes, quotes and whitespace
+        return re.sub(r"[\\'\"\s]", r"\\\g<0>", self.value)
 
     def _key(self) -> tuple:
         return self.type, self.value
@@ -475,6 +479,7 @@ class Options(collections.abc.MutableMapping):
         """
         result: List[Token] = []
         token = ""
+        raw = ""
         quote = None
         inp = []
         for node in ValueParser.parse(option_string):
@@ -485,18 +490,18 @@ class Options(collections.abc.MutableMapping):
         while inp:
             c = inp.pop(0)
             if c == quote:
-                if token:
-                    result.append(
-                        Token(
-                            (
-                                TokenType.QUOTED
-                                if quote == "'"
-                                else TokenType.DOUBLE_QUOTED
-                            ),
-                            token,
-                        )
+                result.append(
+                    Token(
+                        (
+                            TokenType.QUOTED
+                            if quote == "'"
+                            else TokenType.DOUBLE_QUOTED
+                        ),
+                        token,
+                        quote + raw + quote,
                     )
-                    token = ""
+                )
+                token = raw = ""
                 quote = None
                 continue
             if quote:
@@ -504,14 +509,16 @@ class Options(collections.abc.MutableMapping):
                     if not inp:
                         raise OptionsException("No escaped character")
                     c = inp.pop(0)
+                    raw += "\\"
                     if c != quote:
                         token += "\\"
                 token += c
+                raw += c
                 continue
             if c.isspace():
                 if token:
-                    result.append(Token(TokenType.DEFAULT, token))
-                    token = ""
+                    result.append(Token(TokenType.DEFAULT, token, raw))
+                    token = raw = ""
                 whitespace = c
                 while inp:
                     c = inp.pop(0)
@@ -526,17 +533,19 @@ class Options(collections.abc.MutableMapping):
                 continue
             if c in ('"', "'"):
                 if token:
-                    result.append(Token(TokenType.DEFAULT, token))
-                    token = ""
+                    result.append(Token(TokenType.DEFAULT, token, raw))
+                    token = raw = ""
                 quote = c
                 continue
             if c == "\\":
                 if not inp:
                     raise OptionsException("No escaped character")
                 c = inp.pop(0)
+                raw += "\\"
             token += c
+            raw += c
         if quote:
             raise OptionsException("No closing quotation")
         if token:
-            result.append(Token(TokenType.DEFAULT, token))
+            result.append(Token(TokenType.DEFAULT, token, raw))
         return result
-- 
2.43.0


From e427e19bac9962ec0b868b25b3becabd3e882eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:05 +0000
Subject: [PATCH 07/85] fix: consider all preceding branches when processing
 %elif and %else

Only the immediately preceding branch was considered, so a branch following
a true one could have been incorrectly marked as valid.
---
 specfile/conditions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 77f14ab..5cca27d 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -112,6 +112,8 @@ def process_conditions(
     )
     result = []
     branches = [True]
+    # for each condition, whether any of its branches processed so far has been true
+    resolved = [True]
     indexed_lines = list(enumerate(lines))
     while indexed_lines:
         index, line = indexed_lines.pop(0)
@@ -132,10 +134,10 @@ def process_conditions(
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
+            resolved.pop()
         elif keyword.startswith("%el"):
             result.append((line, branches[-2]))
-            if branches[-2]:
-                branches[-1] = not branches[-1]
+            branches[-1] = branches[-2] and not resolved[-1]
         else:
             result.append((line, branches[-1]))
         if keyword.startswith("%if") or keyword.startswith("%elif"):
@@ -154,6 +156,8 @@ def process_conditions(
             )
             if keyword.startswith("%el"):
                 branches[-1] = branch
+                resolved[-1] = resolved[-1] or branch
             else:
                 branches.append(branch)
+                resolved.append(branch)
     return result
-- 
2.43.0


From 0be04c512bcc58993abaaa5adcfacf3c6014ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:11 +0000
Subject: [PATCH 08/85] fix: don't crash on a branch or an end of a condition
 opened elsewhere

Conditions can span multiple sections, %else, %elif or %endif can be processed
without the matching %if.
---
 specfile/conditions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 5cca27d..67e8e65 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -131,6 +131,10 @@ def process_conditions(
             result.append((line, branches[-1]))
             continue
         keyword = m.group("kwd")
+        if keyword.startswith("%e") and len(branches) < 2:
+            # the matching condition is outside of the processed lines
+            result.append((line, branches[-1]))
+            continue
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
-- 
2.43.0


From 78fab91d661b6ce2eadf63e6764c047b18b2acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:17 +0000
Subject: [PATCH 09/85] fix: preserve trailing whitespace on the first line of
 a multiline macro body

It was moved to the end of the last line of the body.
---
 specfile/macro_definitions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index cc7c775..bb1dc14 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -337,7 +337,9 @@ class MacroDefinitions(UserList[MacroDefinition]):
                     bc, pc = count_brackets(body)
                     while (bc > 0 or pc > 0 or body.endswith("\\")) and lines:
                         line, _ = pop(lines)
-                        body += "\n" + line
+                        # trailing whitespace of the first line is part of the body
+                        body += ws3 + "\n" + line
+                        ws3 = ""
                         bc, pc = count_brackets(body)
                 tokens = re.split(r"([^\S\n]+)$", body, maxsplit=1)
                 if len(tokens) == 1:
-- 
2.43.0


From b66f14e3a190216ede5b559e8605c54b7010c8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:22 +0000
Subject: [PATCH 10/85] fix: don't lose %dnl preceding a commented out macro
 definition

---
 specfile/macro_definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index bb1dc14..824d30b 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -358,7 +358,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                             if hashed
                             else (
                                 CommentOutStyle.OTHER
-                                if escaped and "#" in sc
+                                if not dnl and escaped and "#" in sc
                                 else CommentOutStyle.DNL
                             )
                         ),
-- 
2.43.0


From 75fa0c531302dcc0c2ad2b2fc4183b06d838045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:28 +0000
Subject: [PATCH 11/85] fix: don't lose preceding lines when deleting a macro
 definition by name

Also delete regular attributes rather than just accessing them.
---
 specfile/macro_definitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 824d30b..77ea489 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -207,9 +207,9 @@ class MacroDefinitions(UserList[MacroDefinition]):
 
     def __delattr__(self, name: str) -> None:
         if name not in self:
-            return super().__getattribute__(name)
+            return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            del self[self.find(name)]
         except ValueError:
             raise AttributeError(name)
 
-- 
2.43.0


From a59ab6b287a66d872f74889c1f612e6f6b8029dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:34 +0000
Subject: [PATCH 12/85] fix: support negative indices when deleting macro
 definitions

Preceding lines were moved to a wrong place or IndexError was raised.
---
 specfile/macro_definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 77ea489..f9e2716 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -242,7 +242,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "MacroDefinitions":
         return copy.copy(self)
-- 
2.43.0


From 85a2722a821456a9f0ffd60d5198386f6017e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:39 +0000
Subject: [PATCH 13/85] fix: get correct position of a macro definition that is
 not unique

Position of the first equal macro definition was returned.
---
 specfile/macro_definitions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index f9e2716..a30b1af 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -126,9 +126,12 @@ class MacroDefinition:
         Returns:
             Position expressed as line number (starting from 0).
         """
-        return sum(
-            len(md.get_raw_data()) for md in container[: container.index(self)]
-        ) + len(self._preceding_lines)
+        index = next((i for i, md in enumerate(container.data) if md is self), None)
+        if index is None:
+            index = container.index(self)
+        return sum(len(md.get_raw_data()) for md in container.data[:index]) + len(
+            self._preceding_lines
+        )
 
     def get_raw_data(self) -> List[str]:
         result = self._preceding_lines.copy()
-- 
2.43.0


From c6428f8bb6b535a0a0d17dd465b6ea856c2fb232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:26 +0000
Subject: [PATCH 14/85] fix: don't lose an empty line at the end of an
 unterminated macro definition

$ matches also before a newline at the end of a string.
---
 specfile/macro_definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index a30b1af..09c2000 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -344,7 +344,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                         body += ws3 + "\n" + line
                         ws3 = ""
                         bc, pc = count_brackets(body)
-                tokens = re.split(r"([^\S\n]+)$", body, maxsplit=1)
+                tokens = re.split(r"([^\S\n]+)\Z", body, maxsplit=1)
                 if len(tokens) == 1:
                     body = tokens[0]
                 else:
-- 
2.43.0


From d617ad706623dd714fd3776f675861e603af95e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:31 +0000
Subject: [PATCH 15/85] fix: don't split section lines on characters other than
 newline

str.splitlines() splits also on form feeds, vertical tabs, Unicode line separators
and other characters that are not line boundaries in a spec file.
---
 specfile/sections.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 7b5ae98..5c21d6e 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -134,7 +134,11 @@ class Section(collections.UserList):
     def get_raw_data(self) -> List[str]:
         if self.normalized_id == PREAMBLE:
             return self.data
-        return str(self).splitlines()
+        lines = str(self).split("\n")
+        if not lines[-1]:
+            # there is nothing after the last newline
+            lines.pop()
+        return lines
 
 
 class Sections(UserList[Section]):
-- 
2.43.0


From ffdffeef0d7480c05602ba00217e209cd433848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:52 +0000
Subject: [PATCH 16/85] fix: compare section names only as ASCII

Unicode case folding made lines such as '%po\u017ft' match and crash parsing.
---
 specfile/sections.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 5c21d6e..cd6889e 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -274,7 +274,9 @@ class Sections(UserList[Section]):
             position = md.get_position(macro_definitions)
             excluded_lines.append(range(position, position + len(md.body.split("\n"))))
         section_id_regexes = [
-            re.compile(rf"^%{re.escape(n)}(\s+.*(?<!\\)$|$)", re.IGNORECASE)
+            re.compile(
+                rf"^%{re.escape(n)}(\s+.*(?<!\\)$|$)", re.IGNORECASE | re.ASCII
+            )
             for n in SECTION_NAMES
         ]
         section_starts = []
-- 
2.43.0


From f3055c4fb3e681c2ab34037477565d2e92364fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:09 +0000
Subject: [PATCH 17/85] fix: don't duplicate trailing whitespace in multiline
 tag values

Trailing whitespace of a line was repeated on subsequent lines without any.
---
 specfile/tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/tags.py b/specfile/tags.py
index f89c4a0..9d0161e 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -520,6 +520,7 @@ class Tags(UserList[Tag]):
                     bc, pc = count_brackets(value)
                     while (bc > 0 or pc > 0) and lines:
                         value += ws
+                        ws = ""
                         line, _ = pop(lines)
                         tokens = re.split(r"([^\S\n]+)$", line, maxsplit=1)
                         if len(tokens) > 1:
-- 
2.43.0


From b7e48236d834e94b67f748d2184aad670509490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:14 +0000
Subject: [PATCH 18/85] fix: don't lose preceding lines when deleting a tag by
 name

---
 specfile/tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index 9d0161e..eff4256 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -419,7 +419,7 @@ class Tags(UserList[Tag]):
         if name not in self:
             return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            del self[self.find(name)]
         except ValueError:
             raise AttributeError(name)
 
-- 
2.43.0


From e2cb817da7f2b6cd26415cffaaef57e2d3952619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:20 +0000
Subject: [PATCH 19/85] fix: support negative indices when deleting tags

Preceding lines were moved to a wrong place or IndexError was raised.
---
 specfile/tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index eff4256..c21559e 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -386,7 +386,7 @@ class Tags(UserList[Tag]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __contains__(self, name: object) -> bool:
         try:
-- 
2.43.0


From 9767e0db6e8dba967372d7fcc4208f73b5f0a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:26 +0000
Subject: [PATCH 20/85] fix: get correct position of a tag preceded by an equal
 or multiline one

Position of the first equal tag was returned and every tag was considered
a single line.
---
 specfile/tags.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index c21559e..8904169 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -297,9 +297,12 @@ class Tag:
         Returns:
             Position expressed as line number (starting from 0).
         """
+        index = next((i for i, t in enumerate(container.data) if t is self), None)
+        if index is None:
+            index = container.index(self)
         return sum(
-            len(t.comments.get_raw_data()) + 1
-            for t in container[: container.index(self)]
+            len(t.comments.get_raw_data()) + t.value.count("\n") + 1
+            for t in container.data[:index]
         ) + len(self.comments.get_raw_data())
 
 
-- 
2.43.0


From 1444d64f992f3323e681b92b5106b9949ffcd721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:17 +0000
Subject: [PATCH 21/85] fix: support negative indices when deleting changelog
 entries

Following lines were moved to a wrong place or IndexError was raised.
---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 506a6f4..3f45575 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -257,7 +257,7 @@ class Changelog(UserList[ChangelogEntry]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "Changelog":
         return copy.copy(self)
-- 
2.43.0


From 0640831ce228cec4f77325f468f3f07f30949a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:23 +0000
Subject: [PATCH 22/85] fix: don't fail when filtering a changelog with entries
 without EVR

---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 3f45575..6daf8b9 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -280,7 +280,7 @@ class Changelog(UserList[ChangelogEntry]):
 
         def parse_evr(s):
             try:
-                return EVR.from_string(s)
+                return EVR.from_string(s or "")
             except SpecfileException:
                 return EVR(version="0")
 
-- 
2.43.0


From 238c63cbe4b85fb01e51ca533fff308446819ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:59 +0000
Subject: [PATCH 23/85] fix: don't strip conditional macro expansions from
 other lines in %prep

---
 specfile/prep.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index bf5c880..e8f4112 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -366,8 +366,8 @@ class Prep(collections.abc.Container):
         )
         data = []
         buffer: List[str] = []
-        for line in section:
-            line, prefix, suffix = split_conditional_macro_expansion(line)
+        for raw_line in section:
+            line, prefix, suffix = split_conditional_macro_expansion(raw_line)
             m = macro_regex.search(line)
             if m:
                 name, delimiter, option_string = (
@@ -377,7 +377,7 @@ class Prep(collections.abc.Container):
                 )
                 if delimiter == "" and option_string != "":
                     # delimiter can't be empty unless the match is just base macro with no options
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 prefix += line[: m.start("m")]
                 suffix = line[m.end("o") :] + suffix
@@ -390,7 +390,7 @@ class Prep(collections.abc.Container):
                     None,
                 )
                 if not klass:
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 options = Options(
                     Options.tokenize(option_string),
@@ -400,7 +400,7 @@ class Prep(collections.abc.Container):
                 data.append(klass(name, options, delimiter, prefix, suffix, buffer))
                 buffer = []
             else:
-                buffer.append(line)
+                buffer.append(raw_line)
         return cls(PrepMacros(data, buffer))
 
     def get_raw_section_data(self) -> List[str]:
-- 
2.43.0


From f377075687c67575b5c83f89f48bd392d93f39d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:04 +0000
Subject: [PATCH 24/85] fix: allow removing a %patch macro that is the first
 macro in %prep

---
 specfile/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index e8f4112..a4a87bf 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -347,7 +347,7 @@ class Prep(collections.abc.Container):
             ),
             None,
         )
-        if index:
+        if index is not None:
             del self.macros[index]
 
     @classmethod
-- 
2.43.0


From 4006dec860e942e779ca79b5b179ffe7b65f1b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 25/85] fix: support negative indices when deleting %prep
 macros

Preceding lines were moved to a wrong place or IndexError was raised.
---
 specfile/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index a4a87bf..814ccfb 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -219,7 +219,7 @@ class PrepMacros(UserList[PrepMacro]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __getattr__(self, name: str) -> PrepMacro:
         if not valid_prep_macro(name):
-- 
2.43.0


From 5e93900be77c9d5e895b6468ae4c715b3efb80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:40 +0000
Subject: [PATCH 26/85] fix: remove the option rather than whitespace when
 deleting a flag

---
 specfile/options.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index acb41d0..bac6e59 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -400,19 +400,17 @@ class Options(collections.abc.MutableMapping):
         i, j = self._find_option(name)
         if i is None:
             return
+        if j is None:
+            j = i
         if i == 0:
             if (
-                j is not None
-                and j + 1 < len(self._tokens)
+                j + 1 < len(self._tokens)
                 and self._tokens[j + 1].type == TokenType.WHITESPACE
             ):
                 j += 1
         elif self._tokens[i - 1].type == TokenType.WHITESPACE:
             i -= 1
-        if j is not None and j > i:
-            del self._tokens[i : j + 1]
-        else:
-            del self._tokens[i]
+        del self._tokens[i : j + 1]
 
     def __len__(self) -> int:
         return len(
-- 
2.43.0


From bcae4f727b8616f115006189b32e30ed0459a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 27/85] fix: separate a positional argument inserted at the
 beginning

---
 specfile/options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index bac6e59..636e895 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -209,6 +209,8 @@ class Positionals(collections.abc.MutableSequence):
         )
         if index > 0:
             self._options._tokens.insert(index, Token(TokenType.WHITESPACE, " "))
+        elif len(self._options._tokens) > 1:
+            self._options._tokens.insert(1, Token(TokenType.WHITESPACE, " "))
 
 
 class Options(collections.abc.MutableMapping):
-- 
2.43.0


From d3055070ef6ee55a9de00d28d379e1892ffdfaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:51 +0000
Subject: [PATCH 28/85] fix: handle backslashes and non-decimal numeric
 characters in option arguments

---
 specfile/options.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index 636e895..a9b3ebb 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -43,6 +43,9 @@ class Token(collections.abc.Hashable):
             return self._raw[2]
         if self.type == TokenType.WHITESPACE:
             return self.value
+        elif "\\" in self.value:
+            # a backslash can't be escaped inside quotes
+            pass
         elif self.type == TokenType.QUOTED:
             # escape single quotes
             value = self.value.replace("'", r"\'")
@@ -104,11 +107,11 @@ class Positionals(collections.abc.MutableSequence):
             result = []
             for index in items[i]:
                 value = self._options._tokens[index].value
-                result.append(int(value) if value.isnumeric() else value)
+                result.append(int(value) if value.isdecimal() else value)
             return result
         else:
             value = self._options._tokens[items[i]].value
-            return int(value) if value.isnumeric() else value
+            return int(value) if value.isdecimal() else value
 
     @overload
     def __setitem__(self, i: int, item: Union[int, str]) -> None:
@@ -338,7 +341,7 @@ class Options(collections.abc.MutableMapping):
         )
         if not value:
             return True
-        if value.isnumeric():
+        if value.isdecimal():
             return int(value)
         return value
 
-- 
2.43.0


From 12cccbe6fe42e23c8b32081064d9838deb2c2c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:27 +0000
Subject: [PATCH 29/85] fix: don't break a flag that is being set again

---
 specfile/options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index a9b3ebb..d6e2d08 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -381,6 +381,9 @@ class Options(collections.abc.MutableMapping):
             return
         if value is None or value is False:
             return delattr(self, name)
+        if value is True:
+            # the flag is already set
+            return
         if j is not None and j > i:
             if self._needs_quoting(value):
                 if self._tokens[j].type not in (
-- 
2.43.0


From 65db853388477b6f17a779a7a6d4423ffee6a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:45 +0000
Subject: [PATCH 30/85] fix: split content of a spec file only on newlines and
 support an empty one

---
 specfile/specfile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 92b8d8f..c51a484 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -121,8 +121,12 @@ class Specfile:
 
     @staticmethod
     def _read_lines(path: Path) -> Tuple[List[str], bool]:
-        content = path.read_text(encoding="utf8", errors="surrogateescape")
-        return content.splitlines(), content[-1] == "\n"
+        # do not translate line endings, newline is the only line terminator in a spec file
+        with path.open(encoding="utf8", errors="surrogateescape", newline="") as f:
+            *lines, remainder = f.read().split("\n")
+        if remainder:
+            return lines + [remainder], False
+        return lines, bool(lines)
 
     @property
     def path(self) -> Path:
-- 
2.43.0


From 39c0ed68f89ba7b3f17f0ce5b278ef3f1a7d5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:51 +0000
Subject: [PATCH 31/85] fix: don't fail to parse a spec file that is not valid
 UTF-8

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 0dfb2fc..f83845b 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -225,7 +225,7 @@ class SpecParser:
                     Macros.define(name, value)
             Macros.define("_sourcedir", str(self.sourcedir))
             with tempfile.NamedTemporaryFile() as tmp:
-                tmp.write(content.encode())
+                tmp.write(content.encode(errors="surrogateescape"))
                 tmp.flush()
                 try:
                     with self._sanitize_environment():
-- 
2.43.0


From ed223518a92801fe81de8be73717fe9c7d1d32c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:57 +0000
Subject: [PATCH 32/85] fix: don't fail to dump macros that are not valid UTF-8

---
 specfile/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index f3bf952..166cda9 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -128,7 +128,7 @@ class Macros:
         """
         with capture_stderr() as stderr:
             rpm.expandMacro("%dump")
-        return cls._parse([line.decode() for line in stderr])
+        return cls._parse([line.decode(errors="surrogateescape") for line in stderr])
 
     @staticmethod
     def expand(expression: str) -> str:
-- 
2.43.0


From bc2a7e3cf5b306e8c082a95e40fd03d7764bf3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:25 +0000
Subject: [PATCH 33/85] fix: treat undecodable content that RPM can't expand as
 an expansion error

---
 specfile/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index 166cda9..2b977b3 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -147,7 +147,7 @@ class Macros:
         try:
             with capture_stderr() as stderr:
                 return rpm.expandMacro(expression)
-        except rpm.error as e:
+        except (rpm.error, UnicodeEncodeError) as e:
             raise RPMException(stderr=stderr) from e
 
     @classmethod
-- 
2.43.0


From 6e092a13adf5e20b654eb11d4949087d28d0abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:31 +0000
Subject: [PATCH 34/85] fix: don't fail to format an RPM error

---
 specfile/exceptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 4915e31..ebd91bb 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -17,10 +17,10 @@ class RPMException(SpecfileException):
 
     def __str__(self) -> str:
         for rline in self.stderr:
-            line = rline.decode().rstrip()
+            line = rline.decode(errors="surrogateescape").rstrip()
             if line.startswith("error:"):
-                return line.split("error: ")[1]
-        return "\n" + b"".join(self.stderr).decode()
+                return line[len("error:") :].lstrip()
+        return "\n" + b"".join(self.stderr).decode(errors="surrogateescape")
 
 
 class MacroRemovalException(SpecfileException):
-- 
2.43.0


From e9974004331e941573aa0a5e1e7cdb51fc2451a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:49 +0000
Subject: [PATCH 35/85] fix: look up sections with uppercase characters in
 options

---
 specfile/sections.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index cd6889e..44c36b2 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -27,6 +27,12 @@ if TYPE_CHECKING:
 PREAMBLE = "package"
 
 
+def normalize_id(id: str) -> str:
+    """Normalizes section ID. Only name is case-insensitive, options are not."""
+    name, *rest = re.split(r"(\s)", id, maxsplit=1)
+    return "".join([name.lower()] + rest)
+
+
 class Section(collections.UserList):
     """
     Class that represents a spec file section.
@@ -177,7 +183,9 @@ class Sections(UserList[Section]):
             data = super().__getattribute__("data")
         except AttributeError:
             return False
-        return any(s.normalized_id == cast(str, id).lower() for s in data)
+        return any(
+            s.normalized_id == normalize_id(cast(str, id)) for s in data
+        )
 
     def __getattr__(self, id: str) -> Section:
         if id not in self:
@@ -214,7 +222,7 @@ class Sections(UserList[Section]):
 
     def find(self, id: str) -> int:
         for i, section in enumerate(self.data):
-            if section.normalized_id == id.lower():
+            if section.normalized_id == normalize_id(id):
                 return i
         raise ValueError
 
-- 
2.43.0


From e31ce0596c3a59d4b06f3e4d35283ed219c6266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:55 +0000
Subject: [PATCH 36/85] fix: recognize %sourcelist and %patchlist regardless of
 case

---
 specfile/specfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index c51a484..01bf5f0 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -370,7 +370,7 @@ class Specfile:
             sourcelists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "sourcelist"
+                if s.normalized_id == "sourcelist"
             ]
             try:
                 yield Sources(
@@ -411,7 +411,7 @@ class Specfile:
             patchlists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "patchlist"
+                if s.normalized_id == "patchlist"
             ]
             try:
                 yield Patches(
-- 
2.43.0


From 6db98ba666d74c2c433f3c81c7be6df355e3c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:16 +0000
Subject: [PATCH 37/85] fix: don't make trailing whitespace part of section ID

---
 specfile/sections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/sections.py b/specfile/sections.py
index 44c36b2..6a099bc 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -266,6 +266,9 @@ class Sections(UserList[Section]):
                     if expanded.startswith("\n"):
                         content = [tokens.pop()]
                         separator = tokens.pop()
+            if len(tokens) == 3 and not tokens[2] and tokens[0].lower() != PREAMBLE:
+                # trailing whitespace is not part of section ID
+                return tokens[0], None, "", tokens[1] + separator, content
             if len(tokens) > 2:
                 name = tokens[0]
                 delimiter = tokens[1]
-- 
2.43.0


From 7f56e6e6decd36a27518d905452963c502401552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:41 +0000
Subject: [PATCH 38/85] fix: don't lose surrounding lines when modifying
 containers using list methods

---
 specfile/utils.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 4ab2368..618f551 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -323,11 +323,28 @@ def split_conditional_macro_expansion(value: str) -> Tuple[str, str, str]:
     return "".join(str(n) for n in node.body), f"%{{{node.prefix}{node.name}:", "}"
 
 
-# Python 3.6-3.8 do not allow creating a generic UserList at runtime.
 # This hack allows type checkers to determine the UserList dunder method return
 # types while still working at runtime.
-if TYPE_CHECKING or sys.version_info >= (3, 9):
+if TYPE_CHECKING:
     UserList = collections.UserList
 else:
-    # UserList[...] always returns a UserList
-    UserList = collections.defaultdict(lambda: collections.UserList)
+
+    class UserList(collections.UserList):
+        """
+        `collections.UserList` with all modifications going through `insert()`
+        and `__delitem__()`, so that subclasses can handle surrounding lines.
+        """
+
+        append = collections.abc.MutableSequence.append
+        extend = collections.abc.MutableSequence.extend
+        pop = collections.abc.MutableSequence.pop
+        remove = collections.abc.MutableSequence.remove
+        clear = collections.abc.MutableSequence.clear
+        __iadd__ = collections.abc.MutableSequence.__iadd__
+
+        # Python 3.6-3.8 do not allow creating a generic UserList at runtime
+        if sys.version_info < (3, 9):
+
+            def __class_getitem__(cls, item):
+                return cls
+
-- 
2.43.0


From bf289639f55499ffcacca866b36414d2fd19824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:47 +0000
Subject: [PATCH 39/85] fix: don't lose preceding lines when deleting entries
 from %sourcelist/%patchlist

---
 specfile/sourcelist.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 7eea32a..e7f628b 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -2,7 +2,7 @@
 # SPDX-License-Identifier: MIT
 
 import copy
-from typing import TYPE_CHECKING, Any, Dict, List, Optional, overload
+from typing import TYPE_CHECKING, Any, Dict, List, Optional, Union, overload
 
 from specfile.conditions import process_conditions
 from specfile.formatter import formatted
@@ -121,6 +121,21 @@ class Sourcelist(UserList[SourcelistEntry]):
         else:
             return self.data[i]
 
+    def __delitem__(self, i: Union[SupportsIndex, slice]) -> None:
+        def delete(index):
+            preceding_lines = self.data[index].comments._preceding_lines.copy()
+            del self.data[index]
+            if index < len(self.data):
+                self.data[index].comments._preceding_lines[0:0] = preceding_lines
+            else:
+                self._remainder[0:0] = preceding_lines
+
+        if isinstance(i, slice):
+            for index in reversed(range(len(self.data))[i]):
+                delete(index)
+        else:
+            delete(range(len(self.data))[i])
+
     def copy(self) -> "Sourcelist":
         return copy.copy(self)
 
-- 
2.43.0


From 5f1569b47719231a2dabb1cbd1afeaffd970835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:53 +0000
Subject: [PATCH 40/85] fix: don't make a new tag part of an outer condition
 block

---
 specfile/tags.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index 8904169..72fa680 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -472,9 +472,16 @@ class Tags(UserList[Tag]):
             lines = self._remainder
         self.data.insert(i, item)
         # do not make the new tag part of a condition block (in case there is one)
-        index = next(
-            (i for i, line in enumerate(lines) if line.startswith("%endif")), -1
-        )
+        index = -1
+        depth = lowest_depth = 0
+        for i, line in enumerate(lines):
+            if line.lstrip().startswith("%if"):
+                depth += 1
+            elif line.lstrip().startswith("%endif"):
+                depth -= 1
+                if depth < lowest_depth:
+                    index = i
+                    lowest_depth = depth
         if index >= 0:
             item.comments._preceding_lines[0:0] = lines[: index + 1]
             del lines[: index + 1]
-- 
2.43.0


From 14a4fd50d8170bd5dcb4e767d8c64d4f1848da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:43 +0000
Subject: [PATCH 41/85] fix: treat an empty string as a false condition

---
 specfile/conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 67e8e65..2390330 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -47,7 +47,8 @@ def resolve_expression(
         try:
             return int(result) != 0
         except ValueError:
-            return True
+            # the result is a string
+            return bool(result)
     elif keyword.endswith("arch"):
         target_cpu = expand("%{_target_cpu}")
         match = any(t for t in expand(expression).split() if t == target_cpu)
-- 
2.43.0


From c783c898ac41394d29f902e074b335e4293b6666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:37 +0000
Subject: [PATCH 42/85] fix: make hashes of equal EVRs, NEVRs and NEVRAs equal

---
 specfile/utils.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 618f551..a5d7fff 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -24,8 +24,21 @@ class EVR(collections.abc.Hashable):
         self.version = version
         self.release = release
 
+    @staticmethod
+    def _segments(string: str) -> Tuple[str, ...]:
+        # split the string the same way rpmvercmp() does, strings that are equal
+        # according to RPM have equal segments
+        return tuple(
+            s.lstrip("0") if s.isdigit() else s
+            for s in re.findall(r"[0-9]+|[A-Za-z]+|[~^]", string)
+        )
+
     def _key(self) -> tuple:
-        return self.epoch, self.version, self.release
+        return (
+            self.epoch,
+            self._segments(self.version or "0"),
+            self._segments(self.release),
+        )
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -96,7 +109,7 @@ class NEVR(EVR):
         super().__init__(epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release
+        return (self.name, *super()._key())
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -173,7 +186,7 @@ class NEVRA(NEVR):
         super().__init__(name=name, epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release, self.arch
+        return (*super()._key(), self.arch)
 
     def __hash__(self) -> int:
         return hash(self._key())
-- 
2.43.0


From f90d0808b781330b11dc0e13500115cfff3dd35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:42 +0000
Subject: [PATCH 43/85] fix: don't set release of NEVRA to None

---
 specfile/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index a5d7fff..31f0a18 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -252,7 +252,7 @@ class NEVRA(NEVR):
         if not m:
             raise SpecfileException("Invalid NEVRA string.")
         n, e, v, r, a = m.groups()
-        return cls(name=n, epoch=int(e) if e else 0, version=v, release=r, arch=a)
+        return cls(name=n, epoch=int(e) if e else 0, version=v, release=r or "", arch=a)
 
 
 def get_filename_from_location(location: str) -> str:
-- 
2.43.0


From 166a58b9fdee430888c41b05b79be4911c636f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:46 +0000
Subject: [PATCH 44/85] fix: don't bump release in a macro definition that has
 no effect

---
 specfile/specfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 01bf5f0..645357c 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -1035,6 +1035,9 @@ class Specfile:
 
         with self.macro_definitions() as macro_definitions:
             for md in macro_definitions:
+                if not md.valid or md.commented_out:
+                    # the definition has no effect
+                    continue
                 if md.name.lower() in ["release", "baserelease"]:
                     md.body = self._bump_release_string(md.body)
                     return
-- 
2.43.0


From c4feef3f49ddc166ac219626a4c7b9a5fa695af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:52 +0000
Subject: [PATCH 45/85] fix: recognize extended timestamps with zero-padded day
 of month

---
 specfile/changelog.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 6daf8b9..0dca2bc 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -110,21 +110,21 @@ class ChangelogEntry:
         months = "|".join(MONTHS)
         m = re.search(
             rf"""
-            ({weekdays})     # weekday
+            ({weekdays})      # weekday
             [ ]
-            ({months})       # month
+            ({months})        # month
             [ ]+
-            ([12]?\d|3[01])  # day of month
+            ([012]?\d|3[01])  # day of month
             [ ]
-            ([01]\d|2[0-3])  # hour
+            ([01]\d|2[0-3])   # hour
             :
-            ([0-5]\d)        # minute
+            ([0-5]\d)         # minute
             :
-            ([0-5]\d)        # second
+            ([0-5]\d)         # second
             [ ]
-            \S+              # timezone
+            \S+               # timezone
             [ ]
-            \d{{4}}          # year
+            \d{{4}}           # year
             """,
             self.header,
             re.VERBOSE,
-- 
2.43.0


From 9589d710cbdeceeb8d149f5eda771ed5b1dd46e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:20 +0000
Subject: [PATCH 46/85] fix: don't let the first %changelog section affect
 entries added to others

---
 specfile/specfile.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 645357c..464a09f 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -518,23 +518,25 @@ class Specfile:
                 with self.changelog(section) as changelog:
                     if changelog is None:
                         return
-                    evr = self.expand(evr, extra_macros=[("dist", "")])
+                    expanded_evr = self.expand(evr, extra_macros=[("dist", "")])
                     if isinstance(entry, str):
                         entry = [entry]
-                    if timestamp is None:
+                    entry_timestamp = timestamp
+                    if entry_timestamp is None:
                         # honor the timestamp format, but default to date-only
                         if changelog and changelog[-1].extended_timestamp:
-                            timestamp = datetime.datetime.now().astimezone()
+                            entry_timestamp = datetime.datetime.now().astimezone()
                         else:
-                            timestamp = datetime.datetime.now(
+                            entry_timestamp = datetime.datetime.now(
                                 datetime.timezone.utc
                             ).date()
-                    if author is None:
-                        author = guess_packager()
-                        if not author:
+                    entry_author = author
+                    if entry_author is None:
+                        entry_author = guess_packager()
+                        if not entry_author:
                             raise SpecfileException("Failed to auto-detect author")
                     elif email is not None:
-                        author += f" <{email}>"
+                        entry_author += f" <{email}>"
                     if changelog:
                         # try to preserve padding of day of month
                         padding = max(
@@ -545,10 +547,10 @@ class Specfile:
                         padding = "0"
                     changelog.append(
                         ChangelogEntry.assemble(
-                            timestamp,
-                            author,
+                            entry_timestamp,
+                            entry_author,
                             entry,
-                            evr,
+                            expanded_evr,
                             day_of_month_padding=padding,
                             append_newline=bool(changelog),
                         )
-- 
2.43.0


From bf03f1dfc433d711acb373c3f80b3fe5f2334815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:39 +0000
Subject: [PATCH 47/85] fix: always parse with a copied parser that has not
 been used yet

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index f83845b..226374d 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -376,7 +376,7 @@ class SpecParser:
         parse_hash = hashlib.sha256(
             pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
         ).digest()
-        if parse_hash == SpecParser._last_parse_hash:
+        if parse_hash == SpecParser._last_parse_hash and self.spec is not None:
             # none of the input parameters has changed, no need to parse again
             return
         if self.spec:
-- 
2.43.0


From 7890f1d429acf020ea80f46046d5f1fc0ff2c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:43 +0000
Subject: [PATCH 48/85] fix: keep parser consistent when parsing is interrupted
 by an unexpected exception

---
 specfile/spec_parser.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 226374d..7d874c0 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -379,18 +379,10 @@ class SpecParser:
         if parse_hash == SpecParser._last_parse_hash and self.spec is not None:
             # none of the input parameters has changed, no need to parse again
             return
-        if self.spec:
-            # workaround RPM lua tables feature/bug, see above for details
-            del self.spec
-        try:
-            try:
-                self.spec, self.tainted = self._do_parse(content, extra_macros)
-            except Exception:
-                SpecParser._last_parse_hash = None
-                raise
-            else:
-                SpecParser._last_parse_hash = parse_hash
-        except RPMException:
-            self.spec = None
-            self.tainted = False
-            raise
+        # workaround RPM lua tables feature/bug, see above for details
+        self.spec = None
+        self.tainted = False
+        # parsing can be interrupted by any exception
+        SpecParser._last_parse_hash = None
+        self.spec, self.tainted = self._do_parse(content, extra_macros)
+        SpecParser._last_parse_hash = parse_hash
-- 
2.43.0


From 1d9c4f0971b1f9f858cc1d5aa1b1c84b11743605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:49 +0000
Subject: [PATCH 49/85] fix: don't fail on %include that continues beyond the
 end of a spec file

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 7d874c0..71f9347 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -271,7 +271,7 @@ class SpecParser:
                 if not m:
                     continue
                 arg = m.group(1)
-                while line.endswith("\\"):
+                while line.endswith("\\") and lines:
                     line = lines.pop(0)
                     arg = arg[:-1] + line
                 # we can expand macros here because the first non-build parse,
-- 
2.43.0


From b915bc3992edfa3206cf0a2b3f3f09de6097ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:54 +0000
Subject: [PATCH 50/85] fix: don't fail to force parse because of files in
 nonexistent directories

---
 specfile/spec_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 71f9347..64c7187 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -234,6 +234,12 @@ class SpecParser:
                 except ValueError as e:
                     raise RPMException(stderr=stderr) from e
 
+        def is_in_sourcedir(path):
+            try:
+                return path.parent.samefile(self.sourcedir)
+            except (OSError, ValueError):
+                return False
+
         def collect_sources_referenced_from_tags(content):
             # collect sources referenced from shell expansions in tag values
             sources = set()
@@ -256,7 +262,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(ref))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
@@ -278,7 +284,7 @@ class SpecParser:
                 # even though it failed, populated the macro context
                 source = Path(Macros.expand(arg))
                 # ignore files outside of sourcedir
-                if source.parent.samefile(self.sourcedir):
+                if is_in_sourcedir(source):
                     sources.add(source.name)
             return sources
 
@@ -291,7 +297,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(node.body))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
-- 
2.43.0


From b8d560126288d573b6c1373eebe894bd3ea47617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:04 +0000
Subject: [PATCH 51/85] fix: report an RPM error when force parsing a spec file
 with an unterminated macro

---
 specfile/spec_parser.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 64c7187..e31af12 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -15,7 +15,7 @@ from typing import Any, Dict, Generator, List, Optional, Set, Tuple
 import rpm
 
 from specfile.context_management import capture_stderr
-from specfile.exceptions import RPMException
+from specfile.exceptions import RPMException, UnterminatedMacroException
 from specfile.formatter import formatted
 from specfile.macros import Macros
 from specfile.sections import Section
@@ -253,7 +253,12 @@ class SpecParser:
                     # break parsing, we can skip this tag
                     continue
                 refs = []
-                for node in ValueParser.flatten(ValueParser.parse(tag.value)):
+                try:
+                    nodes = ValueParser.flatten(ValueParser.parse(tag.value))
+                except UnterminatedMacroException:
+                    # ignore unparseable values
+                    continue
+                for node in nodes:
                     if isinstance(node, ShellExpansion):
                         for m in source_ref_regex.finditer(node.body):
                             refs.append(m.group(0))
@@ -291,7 +296,12 @@ class SpecParser:
         def collect_loaded_sources(content):
             # collect sources loaded using %{load:...}
             sources = set()
-            for node in ValueParser.flatten(ValueParser.parse(content)):
+            try:
+                nodes = ValueParser.flatten(ValueParser.parse(content))
+            except UnterminatedMacroException:
+                # ignore unparseable content
+                return sources
+            for node in nodes:
                 if isinstance(node, BuiltinMacro) and node.name == "load":
                     # we can expand macros here because the first non-build parse,
                     # even though it failed, populated the macro context
-- 
2.43.0


From 1ad6a266ed167585d62776e7a8fba47f212ff0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:09 +0000
Subject: [PATCH 52/85] fix: don't leave dummy sources behind when creating or
 removing one fails

---
 specfile/spec_parser.py | 84 +++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 36 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index e31af12..3ddd917 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -113,15 +113,34 @@ class SpecParser:
 
             # number of bytes that RPM reads to determine the file type
             MAGIC_LENGTH = 13
+            if magic:
+                write(path, magic.ljust(MAGIC_LENGTH, b"\x00"))
+            else:
+                write(path, MAGIC_LENGTH * b"\x00")
+
+        def write(path, content):
+            # register the file first, it has to be removed even if creating it is interrupted
+            dummy_sources.append(path)
             try:
-                if magic:
-                    path.write_bytes(magic.ljust(MAGIC_LENGTH, b"\x00"))
-                else:
-                    path.write_bytes(MAGIC_LENGTH * b"\x00")
-            except (FileNotFoundError, OSError, PermissionError):
+                path.write_bytes(content)
+            except (OSError, ValueError):
                 logger.warning(f"Failed to create a dummy source: {path}")
+                remove(path)
+                dummy_sources.remove(path)
+
+        def remove(path):
+            try:
+                path.unlink()
+            except FileNotFoundError:
+                pass
+            except (OSError, ValueError):
+                logger.warning(f"Failed to remove a dummy source: {path}")
+
+        def exists(path):
+            try:
+                return path.exists()
+            except OSError:
                 return False
-            return True
 
         # based on rpmFileIsCompressed() in rpmio/rpmfileutil.c in RPM source
         SIGNATURES = [
@@ -134,40 +153,33 @@ class SpecParser:
             (".gz", b"\x1f\x8b"),
             (".7z", b"7z\xbc\xaf\x27\x1c"),
         ]
-        dummy_sources = []
-        for source in sources:
-            filename = get_filename_from_location(source)
-            if not filename:
-                continue
-            path = self.sourcedir / filename
-            if path.exists():
-                continue
-            for ext, magic in SIGNATURES:
-                if filename.endswith(ext):
-                    if write_magic(path, magic):
-                        dummy_sources.append(path)
-                    break
-            else:
-                if write_magic(path, None):
-                    dummy_sources.append(path)
-        for source in non_empty_sources:
-            filename = get_filename_from_location(source)
-            if not filename:
-                continue
-            path = self.sourcedir / filename
-            if path.exists():
-                continue
-            try:
-                path.write_text("DUMMY")
-            except (FileNotFoundError, OSError, PermissionError):
-                logger.warning(f"Failed to create a dummy source: {path}")
-            else:
-                dummy_sources.append(path)
+        dummy_sources: List[Path] = []
         try:
+            for source in sources:
+                filename = get_filename_from_location(source)
+                if not filename:
+                    continue
+                path = self.sourcedir / filename
+                if exists(path):
+                    continue
+                for ext, magic in SIGNATURES:
+                    if filename.endswith(ext):
+                        write_magic(path, magic)
+                        break
+                else:
+                    write_magic(path, None)
+            for source in non_empty_sources:
+                filename = get_filename_from_location(source)
+                if not filename:
+                    continue
+                path = self.sourcedir / filename
+                if exists(path):
+                    continue
+                write(path, b"DUMMY")
             yield dummy_sources
         finally:
             for path in dummy_sources:
-                path.unlink()
+                remove(path)
 
     @contextlib.contextmanager
     def _sanitize_environment(self) -> Generator[os._Environ, None, None]:
-- 
2.43.0


From a062430b0c8a7cd621f397a0a80b3cc3f9679e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:15 +0000
Subject: [PATCH 53/85] fix: don't fail to restore environment that was
 modified in the meantime

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 3ddd917..99d2561 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -197,7 +197,7 @@ class SpecParser:
             try:
                 os.environ[key] = env[key]
             except KeyError:
-                del os.environ[key]
+                os.environ.pop(key, None)
 
         keys = ["LANG", "LC_ALL"]
         for key in keys:
-- 
2.43.0


From b7344312c6a31f661461c9ee5fda2a5b3b38bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:19 +0000
Subject: [PATCH 54/85] fix: don't remove dangling symlinks from source
 directory

---
 specfile/spec_parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 99d2561..5cbc19f 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -130,7 +130,8 @@ class SpecParser:
 
         def remove(path):
             try:
-                path.unlink()
+                if not path.is_symlink():
+                    path.unlink()
             except FileNotFoundError:
                 pass
             except (OSError, ValueError):
@@ -142,6 +143,14 @@ class SpecParser:
             except OSError:
                 return False
 
+        def resolve_symlink(path):
+            # create a dummy source in place of the missing target of a symlink,
+            # removing the symlink itself would be destructive
+            try:
+                return path.resolve() if path.is_symlink() else path
+            except (OSError, RuntimeError):
+                return path
+
         # based on rpmFileIsCompressed() in rpmio/rpmfileutil.c in RPM source
         SIGNATURES = [
             (".bz2", b"BZh"),
@@ -162,6 +171,7 @@ class SpecParser:
                 path = self.sourcedir / filename
                 if exists(path):
                     continue
+                path = resolve_symlink(path)
                 for ext, magic in SIGNATURES:
                     if filename.endswith(ext):
                         write_magic(path, magic)
@@ -175,6 +185,7 @@ class SpecParser:
                 path = self.sourcedir / filename
                 if exists(path):
                     continue
+                path = resolve_symlink(path)
                 write(path, b"DUMMY")
             yield dummy_sources
         finally:
-- 
2.43.0


From 4b749ca5c8cfe5e0293140ada4cbed8216df9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:13 +0000
Subject: [PATCH 55/85] fix: don't destroy a spec file when saving content that
 can't be encoded

---
 specfile/specfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 464a09f..c5c12c3 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -187,7 +187,9 @@ class Specfile:
 
     def save(self) -> None:
         """Saves the spec file content."""
-        self.path.write_text(str(self), encoding="utf8", errors="surrogateescape")
+        # encode the content first, the file must not be truncated if it can't be encoded
+        content = str(self).encode("utf8", errors="surrogateescape")
+        self.path.write_bytes(content)
 
     def expand(
         self,
-- 
2.43.0


From 096add3f88c250ba6d8fcb66d6560ac4ed64c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:21 +0000
Subject: [PATCH 56/85] fix: don't confuse contexts of distinct sections that
 are equal

---
 specfile/context_management.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/specfile/context_management.py b/specfile/context_management.py
index 0f8a3a4..274d88a 100644
--- a/specfile/context_management.py
+++ b/specfile/context_management.py
@@ -106,11 +106,16 @@ class ContextManager:
         return types.MethodType(self, obj)
 
     def __call__(self, *args: Any, **kwargs: Any) -> GeneratorContextManager:
+        def identify(arg):
+            if isinstance(arg, (str, int, type(None))):
+                return arg
+            # distinct objects have to be distinguished even if they are equal
+            return type(arg), id(arg)
+
         # serialize the passed arguments
-        payload = list(args) + sorted(kwargs.items())
-        if payload and self.is_bound:
-            # do not attempt to pickle self/cls
-            payload[0] = (type(payload[0]), id(payload[0]))
+        payload = [identify(arg) for arg in args] + [
+            (name, identify(arg)) for name, arg in sorted(kwargs.items())
+        ]
         key = pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
         if (
             key in self.generators
-- 
2.43.0


From b3e6d4751668b91e9c8346fb2244ea3f6d1d768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:34 +0000
Subject: [PATCH 57/85] fix: parse again after another spec file instance has
 been deleted

---
 specfile/spec_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 5cbc19f..9098b63 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -75,6 +75,12 @@ class SpecParser:
     def __repr__(self) -> str:
         return f"SpecParser({self.sourcedir!r}, {self.macros!r}, {self.force_parse!r})"
 
+    def __del__(self) -> None:
+        # deleting a `rpm.spec` instance destroys RPM lua tables, no matter which instance
+        # they belong to, see `_do_parse()` for details; make sure they get initialized again
+        if getattr(self, "spec", None) is not None:
+            SpecParser._last_parse_hash = None
+
     def id(self) -> int:
         return id(self)
 
-- 
2.43.0


From a9bd0a07a8e457cf9e02021b597eea81f4f29ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:45 +0000
Subject: [PATCH 58/85] fix: don't undefine macros while processing conditions

---
 specfile/conditions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 2390330..bf8179c 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -111,6 +111,7 @@ def process_conditions(
         """,
         re.VERBOSE,
     )
+    undefine_regex = re.compile(r"\s*%undefine\s")
     result = []
     branches = [True]
     # for each condition, whether any of its branches processed so far has been true
@@ -122,6 +123,10 @@ def process_conditions(
         if any(index in r for r in excluded_lines):
             result.append((line, branches[-1]))
             continue
+        if undefine_regex.match(line):
+            # expanding this would modify the macro context
+            result.append((line, branches[-1]))
+            continue
         try:
             expanded_line = expand(line)
         except RPMException:
-- 
2.43.0


From d89beef5b705c5fdbca92a6d262d3e31a203ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:03 +0000
Subject: [PATCH 59/85] fix: don't fail to insert a tag at a negative index
 that is out of range

---
 specfile/tags.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index 72fa680..18f4575 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -464,8 +464,8 @@ class Tags(UserList[Tag]):
         return first_match
 
     def insert(self, i: int, item: Tag) -> None:
-        if i > len(self.data):
-            i = len(self.data)
+        # negative and out of range indices are treated the same way as in a list
+        i = slice(i, None).indices(len(self.data))[0]
         if i < len(self.data):
             lines = self.data[i].comments._preceding_lines
         else:
-- 
2.43.0


From 02764ee6ae37992a7751942e6580320c193e79f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:24 +0000
Subject: [PATCH 60/85] fix: delete slices with a negative step

---
 specfile/changelog.py         | 2 +-
 specfile/macro_definitions.py | 2 +-
 specfile/prep.py              | 2 +-
 specfile/sourcelist.py        | 2 +-
 specfile/tags.py              | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 0dca2bc..9aa7ad1 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -254,7 +254,7 @@ class Changelog(UserList[ChangelogEntry]):
                 self._predecessor.extend(following_lines[1:])
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 09c2000..bdaa222 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -242,7 +242,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/prep.py b/specfile/prep.py
index 814ccfb..6e5190a 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -216,7 +216,7 @@ class PrepMacros(UserList[PrepMacro]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index e7f628b..f30c160 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -131,7 +131,7 @@ class Sourcelist(UserList[SourcelistEntry]):
                 self._remainder[0:0] = preceding_lines
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/tags.py b/specfile/tags.py
index 18f4575..3dd887d 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -386,7 +386,7 @@ class Tags(UserList[Tag]):
             )
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
-- 
2.43.0


From 00acf15affebc96da352e23fac991277e822d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:25 +0000
Subject: [PATCH 61/85] fix: do not consider different sections with the same
 content equal

---
 specfile/sections.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/specfile/sections.py b/specfile/sections.py
index 6a099bc..d943665 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -78,6 +78,14 @@ class Section(collections.UserList):
         if data is not None:
             self.data = data.copy()
 
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, Section) and (self.id, self._separator) != (
+            other.id,
+            other._separator,
+        ):
+            return False
+        return super().__eq__(other)
+
     def __str__(self) -> str:
         data = "".join(f"{i}\n" for i in self.data)
         if self.normalized_id == PREAMBLE:
-- 
2.43.0


From 8914b634153f002776b8499bf6d9cb7efbcb289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:42 +0000
Subject: [PATCH 62/85] fix: do not consider options with different positional
 arguments equal

---
 specfile/options.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index d6e2d08..3bf23ca 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -256,6 +256,11 @@ class Options(collections.abc.MutableMapping):
     def __str__(self) -> str:
         return "".join(str(t) for t in self._tokens)
 
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, Options) and Positionals(self) != list(Positionals(other)):
+            return False
+        return super().__eq__(other)
+
     def _valid_option(self, name: str) -> bool:
         """
         Determines if a name represents a recognized option.
-- 
2.43.0


From f5ea49940a4c196e6c1be2e0183d7899b94ccf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:43 +0000
Subject: [PATCH 63/85] fix: allow assigning to a slice of comments of a
 different length

---
 specfile/tags.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index 3dd887d..c158ca4 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -133,11 +133,12 @@ class Comments(UserList[Comment]):
 
     def __setitem__(self, i, item):
         if isinstance(i, slice):
-            for i0, i1 in enumerate(range(len(self.data))[i]):
-                if isinstance(item[i0], str):
-                    self.data[i1].text = item[i0]
-                else:
-                    self.data[i1] = item[i0]
+            prefixes = [c.prefix for c in self.data[i]]
+            # preserve prefixes of existing comments
+            self.data[i] = [
+                Comment(c, *prefixes[n : n + 1]) if isinstance(c, str) else c
+                for n, c in enumerate(item)
+            ]
         else:
             if isinstance(item, str):
                 self.data[i].text = item
-- 
2.43.0


From ab3aefeccc3aaeba172219dc88133fcdb54bc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:51 +0000
Subject: [PATCH 64/85] fix: return a list of sources even for an empty slice

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index a4c2bf0..f97a0fe 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -318,7 +318,7 @@ class Sources(collections.abc.MutableSequence):
     def __getitem__(self, i):
         items = self._get_items()
         if isinstance(i, slice):
-            return list(zip(*items[i]))[0]
+            return [source for source, _, _ in items[i]]
         else:
             return items[i][0]
 
-- 
2.43.0


From 6a89f4b4927ca6c4e4dd1c7baad3e5608825d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 65/85] fix: number sources consecutively across multiple
 %sourcelist sections

---
 specfile/sources.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index f97a0fe..e14e1ef 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -386,11 +386,10 @@ class Sources(collections.abc.MutableSequence):
             List[Tuple[Source, Union[Tags, Sourcelist], int]], self._get_tags()
         )
         last_number = result[-1][0].number if result else -1
-        result.extend(
-            (self.list_class(sl[i], last_number + 1 + i), sl, i)
-            for sl in self._sourcelists
-            for i in range(len(sl))
-        )
+        for sl in self._sourcelists:
+            for i in range(len(sl)):
+                last_number += 1
+                result.append((self.list_class(sl[i], last_number), sl, i))
         return result
 
     def _detect_implicit_numbering(self) -> bool:
-- 
2.43.0


From 33461162e8cfadfd8bf352a4309a6866940d0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:40 +0000
Subject: [PATCH 66/85] fix: handle negative indices when inserting sources

---
 specfile/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index e14e1ef..93e499b 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -514,8 +514,8 @@ class Sources(collections.abc.MutableSequence):
         if not self._allow_duplicates and location in self:
             raise DuplicateSourceException(f"{self.prefix} '{location}' already exists")
         items = self._get_items()
-        if i > len(items):
-            i = len(items)
+        # negative and out of range indices are treated the same way as in a list
+        i = slice(i, None).indices(len(items))[0]
         if items:
             if i == len(items):
                 source, container, index = items[-1]
-- 
2.43.0


From c8b3150b7ac6cc1da1ae911fd5746816a1b0be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:49 +0000
Subject: [PATCH 67/85] fix: set validity of new list source according to its
 neighbour

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 93e499b..163b41d 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -545,7 +545,7 @@ class Sources(collections.abc.MutableSequence):
                     SourcelistEntry(  # type: ignore[arg-type]
                         location,
                         Comments(),
-                        container[index - 1].valid,
+                        source.valid,
                         context=self._context,
                     ),
                 )
-- 
2.43.0


From c9ea9d65ab07233c0a5a66e8682f6d0ab921b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:59 +0000
Subject: [PATCH 68/85] fix: never lose colon when shortening separator of a
 new source tag

---
 specfile/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 163b41d..4ac4269 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -441,7 +441,8 @@ class Sources(collections.abc.MutableSequence):
         diff = len(reference._tag.name) - len(name)
         if diff >= 0:
             return name, reference._tag._separator + " " * diff
-        return name, reference._tag._separator[:diff] or ":"
+        separator = reference._tag._separator[:diff]
+        return name, separator if ":" in separator else ":"
 
     def _get_initial_tag_setup(self, number: int = 0) -> Tuple[int, str, str]:
         """
-- 
2.43.0


From cd5734342ebae317facb9a9b5427bb35c3aea135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:32 +0000
Subject: [PATCH 69/85] fix: use the requested number even if the nearest
 source is numbered implicitly

---
 specfile/sources.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 4ac4269..0e7c9b1 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -433,7 +433,9 @@ class Sources(collections.abc.MutableSequence):
             number_digits = number_digits_override
         else:
             number_digits = reference.number_digits
-        if self._detect_implicit_numbering() or number_digits == 0:
+        if number_digits == 0 or (
+            number_digits_override is None and self._detect_implicit_numbering()
+        ):
             suffix = ""
         else:
             suffix = f"{number:0{number_digits}}"
@@ -591,6 +593,12 @@ class Sources(collections.abc.MutableSequence):
                 i += 1
                 index += 1
             name, separator = self._get_tag_format(source, number)
+            previous_number = tags[i - 1][0].number if i > 0 else -1
+            if name == self.prefix and number != previous_number + 1:
+                # the requested number has to be explicit
+                name, separator = self._get_tag_format(
+                    source, number, self._default_source_number_digits or 1
+                )
             valid = self._get_tag_validity(source)
         else:
             i = 0
@@ -686,6 +694,12 @@ class Patches(Sources):
         except IndexError:
             return super()._get_initial_tag_setup(number)
         name, separator = self._get_tag_format(
-            source, number, self._default_source_number_digits
+            source,
+            number,
+            (
+                0
+                if self._default_to_implicit_numbering
+                else self._default_source_number_digits
+            ),
         )
         return index + 1, name, separator
-- 
2.43.0


From 4de5af5f02fe0ac9cd239a6593f1fdb5546e7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:13 +0000
Subject: [PATCH 70/85] fix: do not renumber patches in %patchlist when adding
 a patch

---
 specfile/specfile.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index c5c12c3..e47bcc6 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -28,7 +28,7 @@ from specfile.macros import Macro, Macros
 from specfile.prep import Prep
 from specfile.sections import Section, Sections
 from specfile.sourcelist import Sourcelist
-from specfile.sources import Patches, Sources
+from specfile.sources import ListPatch, Patches, Sources
 from specfile.spec_parser import SpecParser
 from specfile.tags import Tag, Tags
 from specfile.value_parser import (
@@ -720,7 +720,16 @@ class Specfile:
                     )
             else:
                 number = max(highest_number + 1, initial_number)
-            index = patches.insert_numbered(number, location)
+            if (
+                patches
+                and isinstance(patches[-1], ListPatch)
+                and number == patches[-1].number + 1
+            ):
+                # adding a tag would change numbers of patches in %patchlist
+                patches.append(location)
+                index = len(patches) - 1
+            else:
+                index = patches.insert_numbered(number, location)
             if comment:
                 patches[index].comments.extend(comment.splitlines())
 
-- 
2.43.0


From ac5b9509025d442809a4d3bd8b807c587c4ccbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:44 +0000
Subject: [PATCH 71/85] fix: delete slices of sources with a negative step

---
 specfile/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 0e7c9b1..edb3054 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -341,7 +341,8 @@ class Sources(collections.abc.MutableSequence):
     def __delitem__(self, i: Union[int, slice]) -> None:
         items = self._get_items()
         if isinstance(i, slice):
-            for _, container, index in reversed(items[i]):
+            for n in sorted(range(len(items))[i], reverse=True):
+                _, container, index = items[n]
                 del container[index]
         else:
             _, container, index = items[i]
-- 
2.43.0


From e4170bbf03b553b85ef8aa441aecef472fdfa594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:33 +0000
Subject: [PATCH 72/85] fix: do not treat conditional expansions of unknown
 macros as empty

---
 specfile/value_parser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index a3d26c7..4cb7bdf 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -384,8 +384,10 @@ class ValueParser:
                         result.append(f"%{{{node.prefix}{node.name}:")
                         result.extend(flatten(node.body))
                         result.append("}")
-                    else:
+                    elif node.name in entities_to_flip:
                         result.append(str(node))
+                    else:
+                        result.append(node)
                 else:
                     result.append(node)
             return result
@@ -399,7 +401,15 @@ class ValueParser:
                 tokens.append(("c", "", node))
             elif isinstance(node, StringLiteral):
                 tokens.append(("v", node.value, ""))
-            elif isinstance(node, (ShellExpansion, ExpressionExpansion, BuiltinMacro)):
+            elif isinstance(
+                node,
+                (
+                    ShellExpansion,
+                    ExpressionExpansion,
+                    ConditionalMacroExpansion,
+                    BuiltinMacro,
+                ),
+            ):
                 const = expand(str(node))
                 tokens.append(("c", const, str(node)))
             elif isinstance(node, MacroSubstitution):
-- 
2.43.0


From 6dcb41e435e9554f053421c4ed63a11463c93de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:38 +0000
Subject: [PATCH 73/85] fix: do not disable a macro definition that is needed
 by the updated value

---
 specfile/value_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 4cb7bdf..70fc992 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -350,6 +350,7 @@ class ValueParser:
 
         processed_entities = set()
         entities_to_flip = set()
+        entities_to_undefine = set()
 
         def flatten(nodes):
             # get rid of conditional macro expansions
@@ -370,6 +371,8 @@ class ValueParser:
                         # already processed without flipping
                         return False
                     entities_to_flip.add(node.name)
+                    if negative_check:
+                        entities_to_undefine.add(node.name)
                 elif node.name in entities_to_flip:
                     # this one was flipped earlier, so we can't continue
                     # without flipping
@@ -432,6 +435,12 @@ class ValueParser:
         def escape(s):
             return s.replace("$", "$$")
 
+        if any(
+            key == "g" and name in entities_to_undefine for key, name, _ in tokens
+        ):
+            # an entity can't be referenced and undefined at the same time
+            return re.compile("(?!)"), Template(escape(value)), set()
+
         # squash constants and variables
         _tokens = []
         for key, grp in itertools.groupby(tokens, lambda x: x[0]):
-- 
2.43.0


From 4a648c054700d9ca773b7e1be94c098f690c59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:33 +0000
Subject: [PATCH 74/85] fix: do not alter name of a macro that is not enclosed
 in braces when updating a value

---
 specfile/value_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 70fc992..236a07a 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -512,6 +512,9 @@ class ValueParser:
                 if value:
                     # make a substitution group
                     group = f"{SUBSTITUTION_GROUP_PREFIX}{sub}"
+                    if re.search(r"%[?!]*[a-zA-Z0-9_]+$", template):
+                        # do not let the value become part of a macro name
+                        regex += "(?![a-zA-Z0-9_])"
                     regex += f"(?P<{group}>.+?)"
                     template += f"${{{group}}}"
                     named_groups.append(group)
-- 
2.43.0


From 3a7ed49749ff98de813f294fc95d5212ee1149de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:38 +0000
Subject: [PATCH 75/85] fix: do not update an entity to two different values at
 once

---
 specfile/specfile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index e47bcc6..9bcc2af 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -771,6 +771,7 @@ class Specfile:
             disabled: bool = False
             locked: bool = False
             updated: bool = False
+            requested_value: Optional[str] = None
             flip_pending: bool = False
 
         protected_regex = re.compile(
@@ -882,10 +883,14 @@ class Specfile:
                     if entity.locked:
                         # avoid infinite recursion
                         return requested_value
+                    if entity.updated and entity.requested_value != val:
+                        # the entity can't have two different values
+                        return requested_value
                     if find_reference(entity, val):
                         # avoid updating entity value if the entity is referenced from the new value
                         return requested_value
                     entity.locked = True
+                    entity.requested_value = val
                     try:
                         entity.value = update(entity.value, val, entity.position)
                     finally:
-- 
2.43.0


From 67138b9e061f7bdeb9d057bb86eb14e2e9f7600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:28 +0000
Subject: [PATCH 76/85] fix: do not enable a macro definition if that makes
 other conditional expansions effective

---
 specfile/value_parser.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 236a07a..00ca9e6 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -350,7 +350,7 @@ class ValueParser:
 
         processed_entities = set()
         entities_to_flip = set()
-        entities_to_undefine = set()
+        undefined_entities = set()
 
         def flatten(nodes):
             # get rid of conditional macro expansions
@@ -361,18 +361,18 @@ class ValueParser:
                 negative_check = node.prefix.count("!") % 2 > 0
                 defined = expand(f"%{{?{node.name}:1}}")
                 if negative_check and defined or not (negative_check or defined):
-                    if node.name not in flippable_entities:
-                        return False
-                    if (
+                    if node.name not in flippable_entities or (
+                        # it's not possible to flip this one because it was
+                        # already processed without flipping
                         node.name in processed_entities
                         and node.name not in entities_to_flip
                     ):
-                        # it's not possible to flip this one because it was
-                        # already processed without flipping
+                        if not defined:
+                            undefined_entities.add(node.name)
                         return False
                     entities_to_flip.add(node.name)
                     if negative_check:
-                        entities_to_undefine.add(node.name)
+                        undefined_entities.add(node.name)
                 elif node.name in entities_to_flip:
                     # this one was flipped earlier, so we can't continue
                     # without flipping
@@ -435,9 +435,7 @@ class ValueParser:
         def escape(s):
             return s.replace("$", "$$")
 
-        if any(
-            key == "g" and name in entities_to_undefine for key, name, _ in tokens
-        ):
+        if any(key == "g" and name in undefined_entities for key, name, _ in tokens):
             # an entity can't be referenced and undefined at the same time
             return re.compile("(?!)"), Template(escape(value)), set()
 
-- 
2.43.0


From 0d31f85463cfe5bec671654b1dc076f9744c90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:48 +0000
Subject: [PATCH 77/85] fix: make sure that an updated value expands to the
 requested value

---
 specfile/specfile.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 9bcc2af..1c53127 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -14,6 +14,7 @@ import rpm
 from specfile.changelog import Changelog, ChangelogEntry, guess_packager
 from specfile.context_management import ContextManager
 from specfile.exceptions import (
+    RPMException,
     SourceNumberException,
     SpecfileException,
     UnterminatedMacroException,
@@ -904,6 +905,8 @@ class Specfile:
             return requested_value
 
         result = update(value, requested_value, position)
+        with self.lines() as lines:
+            original_lines = lines.copy()
         # synchronize back any changes
         with self.macro_definitions() as macro_definitions:
             for entity in entities:
@@ -922,6 +925,15 @@ class Specfile:
                 tag = tags.get(entity.name, entity.position)
                 if entity.updated:
                     tag.value = entity.value
+        try:
+            matches = self.expand(result) == self.expand(requested_value)
+        except RPMException:
+            matches = False
+        if not matches:
+            # updating entities doesn't lead to the requested value, leave them alone
+            with self.lines() as lines:
+                lines[:] = original_lines
+            return requested_value
         return result
 
     def update_tag(
-- 
2.43.0


From 27169f4d0c052bcfba411b05e984d87c5ad65b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:31 +0000
Subject: [PATCH 78/85] fix: do not share preceding lines between copies of
 comments

---
 specfile/tags.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index c158ca4..a3bcfbe 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -146,7 +146,10 @@ class Comments(UserList[Comment]):
                 self.data[i] = item
 
     def copy(self) -> "Comments":
-        return copy.copy(self)
+        result = copy.copy(self)
+        # preceding lines are handled independently
+        result._preceding_lines = self._preceding_lines.copy()
+        return result
 
     def append(self, item: Union[Comment, str]) -> None:
         if isinstance(item, str):
-- 
2.43.0


From 37712b5f78138f771434dc5446f19f2cbd51b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:49 +0000
Subject: [PATCH 79/85] fix: do not share tokens between options

---
 specfile/options.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/options.py b/specfile/options.py
index 3bf23ca..60aa111 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: MIT
 
 import collections
+import copy
 import re
 import string
 from enum import Enum, auto
@@ -245,7 +246,8 @@ class Options(collections.abc.MutableMapping):
                 requires an argument.
             defaults: Dict specifying default arguments to options.
         """
-        self._tokens = tokens.copy()
+        # tokens are being modified, do not share them
+        self._tokens = [copy.copy(t) for t in tokens]
         self.optstring = optstring or ""
         self.defaults = defaults.copy() if defaults is not None else {}
 
-- 
2.43.0


From 4b00143c3968bffec80df3c5ca3d66d276754ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:22 +0000
Subject: [PATCH 80/85] fix: do not consider shell and expression expansions
 equal

---
 specfile/value_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 00ca9e6..670b9ac 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -73,6 +73,11 @@ class ExpressionExpansion(ShellExpansion):
     def __str__(self) -> str:
         return f"%[{self.body}]"
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, self.__class__):
+            return False
+        return self.body == other.body
+
 
 class MacroSubstitution(Node):
     """Node representing macro substitution, e.g. _%version_."""
-- 
2.43.0


From 5462bde7142b776dc5ae8be2fbdcd20d26c5d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:26 +0000
Subject: [PATCH 81/85] fix: separate section name from positional arguments

---
 specfile/sections.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index d943665..4fb2c02 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -123,18 +123,20 @@ class Section(collections.UserList):
     @property
     def id(self) -> str:
         """ID of the section (name and options, without the leading '%')."""
+        options = str(self.options)
         # ensure delimiter is not empty when there are any options
-        if self.options and not self._delimiter:
+        if options and not self._delimiter:
             self._delimiter = " "
-        return self.name + self._delimiter + str(self.options)
+        return self.name + self._delimiter + options
 
     @property
     def normalized_id(self) -> str:
         """Normalized ID of the section. All characters of name are lowercased."""
+        options = str(self.options)
         # ensure delimiter is not empty when there are any options
-        if self.options and not self._delimiter:
+        if options and not self._delimiter:
             self._delimiter = " "
-        return self.normalized_name + self._delimiter + str(self.options)
+        return self.normalized_name + self._delimiter + options
 
     @property
     def is_script(self) -> bool:
-- 
2.43.0


From f217d8fb9bfee3507316a563b06f9e4db4419f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:32 +0000
Subject: [PATCH 82/85] fix: consider trailing newline when comparing spec
 files

---
 specfile/specfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 1c53127..422f108 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -88,6 +88,7 @@ class Specfile:
             self.autosave == other.autosave
             and self._path == other._path
             and self._lines == other._lines
+            and self._trailing_newline == other._trailing_newline
             and self._parser == other._parser
         )
 
-- 
2.43.0


From c968c43b86740cd925ec9e9776ae17a6ac04d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:39 +0000
Subject: [PATCH 83/85] fix: split a parsed spec file into lines only at
 newlines

---
 specfile/specfile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 422f108..eb6840a 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -278,7 +278,11 @@ class Specfile:
     @property
     def parsed_sections(self) -> Sections:
         """Parsed spec file sections."""
-        return Sections.parse(self.rpm_spec.parsed.splitlines())
+        # newline is the only line terminator in a spec file
+        lines = self.rpm_spec.parsed.split("\n")
+        if not lines[-1]:
+            lines.pop()
+        return Sections.parse(lines)
 
     @ContextManager
     def tags(
-- 
2.43.0


From 6e2af9c647a50e625f4a365fba3fa6af9ce046ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:46 +0000
Subject: [PATCH 84/85] fix: do not mistake SourceLicense for a source when
 adding the first patch

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index edb3054..dc58315 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -685,7 +685,7 @@ class Patches(Sources):
         Returns:
             Tuple in the form of (index, name, separator).
         """
-        source_pattern = re.compile(rf"{Sources.prefix}\d*")
+        source_pattern = re.compile(rf"{Sources.prefix}\d*$")
         try:
             index, source = [
                 (i, Sources.tag_class(t))
-- 
2.43.0


From 47346b73ee06331760264f9059199b141358ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:39 +0000
Subject: [PATCH 85/85] fix: do not share leftover lines between shallow copies

Deleting or inserting the last item of a shallow copy of Tags, Sourcelist
or Changelog changed the leftover lines in place, so they changed in the
original too.
---
 specfile/changelog.py  | 6 ++++++
 specfile/sourcelist.py | 6 ++++++
 specfile/tags.py       | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 9aa7ad1..52472bc 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -259,6 +259,12 @@ class Changelog(UserList[ChangelogEntry]):
         else:
             delete(range(len(self.data))[i])
 
+    def __copy__(self) -> "Changelog":
+        result = super().__copy__()  # type: ignore[misc]
+        # lines at the beginning are modified in place and must not be shared
+        result._predecessor = self._predecessor.copy()
+        return result
+
     def copy(self) -> "Changelog":
         return copy.copy(self)
 
diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index f30c160..9c30d4c 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -136,6 +136,12 @@ class Sourcelist(UserList[SourcelistEntry]):
         else:
             delete(range(len(self.data))[i])
 
+    def __copy__(self) -> "Sourcelist":
+        result = super().__copy__()  # type: ignore[misc]
+        # leftover lines are modified in place and must not be shared
+        result._remainder = self._remainder.copy()
+        return result
+
     def copy(self) -> "Sourcelist":
         return copy.copy(self)
 
diff --git a/specfile/tags.py b/specfile/tags.py
index a3bcfbe..700116b 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -430,6 +430,12 @@ class Tags(UserList[Tag]):
         except ValueError:
             raise AttributeError(name)
 
+    def __copy__(self) -> "Tags":
+        result = super().__copy__()  # type: ignore[misc]
+        # leftover lines are modified in place and must not be shared
+        result._remainder = self._remainder.copy()
+        return result
+
     def copy(self) -> "Tags":
         return copy.copy(self)
 
-- 
2.43.0

