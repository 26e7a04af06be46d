From ceae5ac17a4bf2e924cad80b19d771475f1d1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 01/53] fix: blank space before a segment no longer swallows
 the segment's dots

The skip rule matched runs of blank space and dots together, so the dots of
`$ ..a` and `$ .and` were dropped and the query changed meaning or failed.
---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4c4422d..c32aa35 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -177,7 +177,7 @@ class Lexer:
             (TOKEN_BARE_PROPERTY, self.key_pattern),
             (TOKEN_LPAREN, r"\("),
             (TOKEN_RPAREN, r"\)"),
-            (TOKEN_SKIP, r"[ \n\t\r\.]+"),
+            (TOKEN_SKIP, r"[ \n\t\r]+|\."),
             (TOKEN_ILLEGAL, r"."),
         ]
 
-- 
2.43.0


From aaf7d1046f9c31c8a06f80a7a170c7fcf37e9a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:46 +0000
Subject: [PATCH 02/53] fix: close quoted strings at the first unescaped quote

A string ending in an escaped backslash, like 'a\\', was not recognised as
closed, because any quote after a backslash was taken to be escaped.
---
 jsonpath/lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index c32aa35..8ac825f 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -99,8 +99,8 @@ class Lexer:
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
 
-        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:(?!(?<!\\)").)*)"'
-        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:(?!(?<!\\)').)*)'"
+        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:[^"\\]|\\.)*)"'
+        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:[^'\\]|\\.)*)'"
 
         # .thing
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
-- 
2.43.0


From 6a801fe803f0d86f4c8ecbba5d9c3bd635ce6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:52 +0000
Subject: [PATCH 03/53] fix: allow non-BMP characters in shorthand names

RFC 9535 name-first and name-char go up to U+10FFFF.
---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 8ac825f..f6eb1fb 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -85,7 +85,7 @@ class Lexer:
             logical _or_ tokens. By default, `or` and `||` are equivalent.
     """
 
-    key_pattern = r"[\u0080-\uFFFFa-zA-Z_][\u0080-\uFFFFa-zA-Z0-9_-]*"
+    key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
     # `not` or !
     logical_not_pattern = r"(?:not\b)|!"
-- 
2.43.0


From 2f687b6250c33d3a7174ddef1e40d3ba1cb56815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 04/53] fix: don't split property names that start with a
 reserved word or `_`

`$.._foo`, `$..in-stock` and `$[_foo]` were tokenized as an identifier or
operator followed by the rest of the name.
---
 jsonpath/lex.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index f6eb1fb..4e93730 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -87,14 +87,17 @@ class Lexer:
 
     key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
+    # The end of a word, where no longer property name continues.
+    word_end_pattern = r"(?![\u0080-\U0010FFFFa-zA-Z0-9_-])"
+
     # `not` or !
-    logical_not_pattern = r"(?:not\b)|!"
+    logical_not_pattern = rf"(?:not{word_end_pattern})|!"
 
     # && or `and`
-    logical_and_pattern = r"&&|(?:and\b)"
+    logical_and_pattern = rf"&&|(?:and{word_end_pattern})"
 
     # || or `or`
-    logical_or_pattern = r"\|\||(?:or\b)"
+    logical_or_pattern = rf"\|\||(?:or{word_end_pattern})"
 
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
@@ -145,7 +148,7 @@ class Lexer:
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
             *[
-                (token, re.escape(pattern))
+                (token, self._identifier_pattern(pattern))
                 for token, pattern in sorted(
                     env_tokens, key=lambda x: len(x[1]), reverse=True
                 )
@@ -153,15 +156,15 @@ class Lexer:
             ],
             (TOKEN_WILD, r"\*"),
             (TOKEN_FILTER, r"\?"),
-            (TOKEN_IN, r"in\b"),
-            (TOKEN_TRUE, r"[Tt]rue\b"),
-            (TOKEN_FALSE, r"[Ff]alse\b"),
-            (TOKEN_NIL, r"[Nn]il\b"),
-            (TOKEN_NULL, r"[Nn]ull\b"),
-            (TOKEN_NONE, r"[Nn]one\b"),
-            (TOKEN_CONTAINS, r"contains\b"),
-            (TOKEN_UNDEFINED, r"undefined\b"),
-            (TOKEN_MISSING, r"missing\b"),
+            (TOKEN_IN, rf"in{self.word_end_pattern}"),
+            (TOKEN_TRUE, rf"[Tt]rue{self.word_end_pattern}"),
+            (TOKEN_FALSE, rf"[Ff]alse{self.word_end_pattern}"),
+            (TOKEN_NIL, rf"[Nn]il{self.word_end_pattern}"),
+            (TOKEN_NULL, rf"[Nn]ull{self.word_end_pattern}"),
+            (TOKEN_NONE, rf"[Nn]one{self.word_end_pattern}"),
+            (TOKEN_CONTAINS, rf"contains{self.word_end_pattern}"),
+            (TOKEN_UNDEFINED, rf"undefined{self.word_end_pattern}"),
+            (TOKEN_MISSING, rf"missing{self.word_end_pattern}"),
             (TOKEN_LIST_START, r"\["),
             (TOKEN_RBRACKET, r"]"),
             (TOKEN_COMMA, r","),
@@ -186,6 +189,13 @@ class Lexer:
             re.DOTALL,
         )
 
+    def _identifier_pattern(self, identifier: str) -> str:
+        pattern = re.escape(identifier)
+        if re.fullmatch(self.key_pattern, identifier):
+            # Don't mistake a property name, or the start of one, for an identifier.
+            return rf"(?<!\.\.){pattern}{self.word_end_pattern}"
+        return pattern
+
     def tokenize(self, path: str) -> Iterator[Token]:  # noqa PLR0912
         """Generate a sequence of tokens from a JSONPath string."""
         _token = partial(Token, path=path)
-- 
2.43.0


From 37843c743bb06ba240968ebf1fcbdc795b97820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:34 +0000
Subject: [PATCH 05/53] fix: `and`, `or` and `not` followed by a parenthesis
 are operators

`not(@.a)` was tokenized as a call of a function named `not`.
---
 jsonpath/lex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4e93730..c05d7a2 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -118,7 +118,10 @@ class Lexer:
         self.re_pattern = r"/(?P<G_RE>.+?)/(?P<G_RE_FLAGS>[aims]*)"
 
         # func(
-        self.function_pattern = r"(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        self.function_pattern = (
+            rf"(?!{self.logical_and_pattern}|{self.logical_or_pattern}"
+            rf"|{self.logical_not_pattern})(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        )
 
         self.rules = self.compile_rules()
 
-- 
2.43.0


From ea9efd0f8c668216f2b83be8489f1ebb0daab68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 06/53] fix: a lone minus sign is not a slice bound

`$[-:]` raised a ValueError instead of a syntax error.
---
 jsonpath/lex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index c05d7a2..91bc8be 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -109,9 +109,9 @@ class Lexer:
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
 
         self.slice_list_pattern = (
-            r"(?P<G_LSLICE_START>\-?\d*)\s*"
-            r":\s*(?P<G_LSLICE_STOP>\-?\d*)\s*"
-            r"(?::\s*(?P<G_LSLICE_STEP>\-?\d*))?"
+            r"(?P<G_LSLICE_START>(?:\-?\d+)?)\s*"
+            r":\s*(?P<G_LSLICE_STOP>(?:\-?\d+)?)\s*"
+            r"(?::\s*(?P<G_LSLICE_STEP>(?:\-?\d+)?))?"
         )
 
         # /pattern/ or /pattern/flags
-- 
2.43.0


From 2eb2a0edebe310b798b5087f28a538de75ca20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 07/53] fix: slice selectors select nothing from strings

---
 jsonpath/selectors.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 44007e9..892104b 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -329,7 +329,11 @@ class SliceSelector(JSONPathSelector):
 
     def resolve(self, matches: Iterable[JSONPathMatch]) -> Iterable[JSONPathMatch]:
         for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
@@ -351,7 +355,11 @@ class SliceSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
-- 
2.43.0


From c2ca0fe79cfed5300b44b7c720e16057181b8b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 08/53] fix: async wildcard selector selects nothing from
 strings

---
 jsonpath/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 892104b..29e222e 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -431,6 +431,8 @@ class WildSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
+            if isinstance(match.obj, str):
+                continue
             if isinstance(match.obj, Mapping):
                 for key, val in match.obj.items():
                     _match = self.env.match_class(
-- 
2.43.0


From 541a98788c037b3fc1d0f7b887ff6781a1cd5138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:35 +0000
Subject: [PATCH 09/53] fix: only ASCII digits make numbers and slice bounds

---
 jsonpath/lex.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 91bc8be..58a8c2c 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -109,9 +109,9 @@ class Lexer:
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
 
         self.slice_list_pattern = (
-            r"(?P<G_LSLICE_START>(?:\-?\d+)?)\s*"
-            r":\s*(?P<G_LSLICE_STOP>(?:\-?\d+)?)\s*"
-            r"(?::\s*(?P<G_LSLICE_STEP>(?:\-?\d+)?))?"
+            r"(?P<G_LSLICE_START>(?:\-?[0-9]+)?)\s*"
+            r":\s*(?P<G_LSLICE_STOP>(?:\-?[0-9]+)?)\s*"
+            r"(?::\s*(?P<G_LSLICE_STEP>(?:\-?[0-9]+)?))?"
         )
 
         # /pattern/ or /pattern/flags
@@ -145,8 +145,8 @@ class Lexer:
             (TOKEN_LIST_SLICE, self.slice_list_pattern),
             (TOKEN_FUNCTION, self.function_pattern),
             (TOKEN_DOT_PROPERTY, self.dot_property_pattern),
-            (TOKEN_FLOAT, r"-?\d+\.\d*(?:[eE][+-]?\d+)?"),
-            (TOKEN_INT, r"-?\d+(?P<G_EXP>[eE][+\-]?\d+)?\b"),
+            (TOKEN_FLOAT, r"-?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?"),
+            (TOKEN_INT, r"-?[0-9]+(?P<G_EXP>[eE][+\-]?[0-9]+)?\b"),
             (TOKEN_DDOT, r"\.\."),
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
-- 
2.43.0


From be7fba8c332b4c557d6b293e750dadcc82a37b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 10/53] fix: don't order booleans as if they were numbers

---
 jsonpath/env.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 8980414..5de0c23 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -601,6 +601,10 @@ class JSONPathEnvironment:
         if isinstance(left, str) and isinstance(right, str):
             return left < right
 
+        # Booleans are not numbers, even if `bool` is a subclass of `int` in Python.
+        if isinstance(left, bool) or isinstance(right, bool):
+            return False
+
         if isinstance(left, (int, float, Decimal)) and isinstance(
             right, (int, float, Decimal)
         ):
-- 
2.43.0


From aea071e2b953e6cf0cf26f7b37f2588d18d9a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 11/53] fix: don't equate nested booleans and numbers

---
 jsonpath/_data.py | 26 ++++++++++++++++++++++++++
 jsonpath/env.py   | 10 ++--------
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/jsonpath/_data.py b/jsonpath/_data.py
index e923bf5..3e9cd54 100644
--- a/jsonpath/_data.py
+++ b/jsonpath/_data.py
@@ -2,6 +2,8 @@ import json
 import re
 from io import IOBase
 from typing import Any
+from typing import Mapping
+from typing import Sequence
 
 _RE_PROBABLY_MALFORMED = re.compile(r"[\{\}\[\]]")
 
@@ -19,3 +21,27 @@ def load_data(data: object) -> Any:
     if isinstance(data, IOBase):
         return json.loads(data.read())
     return data
+
+
+def equal_values(left: object, right: object) -> bool:
+    """Return `True` if _left_ and _right_ are equal JSON values.
+
+    Unlike Python's `==`, a boolean is never equal to a number, at any depth.
+    """
+    if isinstance(left, bool) or isinstance(right, bool):
+        return isinstance(left, bool) and isinstance(right, bool) and left == right
+
+    if isinstance(left, str) or isinstance(right, str):
+        return left == right
+
+    if isinstance(left, Mapping) and isinstance(right, Mapping):
+        return len(left) == len(right) and all(
+            key in right and equal_values(val, right[key]) for key, val in left.items()
+        )
+
+    if isinstance(left, Sequence) and isinstance(right, Sequence):
+        return len(left) == len(right) and all(
+            equal_values(a, b) for a, b in zip(left, right)
+        )
+
+    return left == right
diff --git a/jsonpath/env.py b/jsonpath/env.py
index 5de0c23..10e401d 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -19,6 +19,7 @@ from typing import Type
 from typing import Union
 
 from . import function_extensions
+from ._data import equal_values
 from .exceptions import JSONPathNameError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
@@ -588,14 +589,7 @@ class JSONPathEnvironment:
         if left is UNDEFINED and right is UNDEFINED:
             return True
 
-        # Remember 1 == True and 0 == False in Python
-        if isinstance(right, bool):
-            left, right = right, left
-
-        if isinstance(left, bool):
-            return isinstance(right, bool) and left == right
-
-        return left == right
+        return equal_values(left, right)
 
     def _lt(self, left: object, right: object) -> bool:
         if isinstance(left, str) and isinstance(right, str):
-- 
2.43.0


From 3c9247658e09ccd98f755ef573afa5ef9d0dadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 12/53] fix: evaluate filter queries from the current node,
 document and context

---
 jsonpath/filter.py | 67 +++++++++++++++++++++++++++++-----------------
 jsonpath/path.py   | 41 +++++++++++++++++++++++-----
 2 files changed, 77 insertions(+), 31 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 0f33cff..95517da 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -12,7 +12,6 @@ from typing import Callable
 from typing import Generic
 from typing import Iterable
 from typing import List
-from typing import Mapping
 from typing import Pattern
 from typing import Sequence
 from typing import TypeVar
@@ -535,29 +534,24 @@ class SelfPath(Path):
         return "@" + str(self.path)[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
-        return NodeList(self.path.finditer(context.current))
+        return NodeList(
+            self.path.finditer_from(
+                context.current,
+                root=context.root,
+                filter_context=context.extra_context,
+            )
+        )
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
         return NodeList(
-            [match async for match in await self.path.finditer_async(context.current)]
+            [
+                match
+                async for match in self.path.finditer_from_async(
+                    context.current,
+                    root=context.root,
+                    filter_context=context.extra_context,
+                )
+            ]
         )
 
 
@@ -576,11 +570,24 @@ class RootPath(Path):
         return str(self.path)
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.root))
+        return NodeList(
+            self.path.finditer_from(
+                context.root,
+                root=context.root,
+                filter_context=context.extra_context,
+            )
+        )
 
     async def evaluate_async(self, context: FilterContext) -> object:
         return NodeList(
-            [match async for match in await self.path.finditer_async(context.root)]
+            [
+                match
+                async for match in self.path.finditer_from_async(
+                    context.root,
+                    root=context.root,
+                    filter_context=context.extra_context,
+                )
+            ]
         )
 
 
@@ -600,13 +607,23 @@ class FilterContextPath(Path):
         return "_" + path_repr[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.extra_context))
+        return NodeList(
+            self.path.finditer_from(
+                context.extra_context,
+                root=context.root,
+                filter_context=context.extra_context,
+            )
+        )
 
     async def evaluate_async(self, context: FilterContext) -> object:
         return NodeList(
             [
                 match
-                async for match in await self.path.finditer_async(context.extra_context)
+                async for match in self.path.finditer_from_async(
+                    context.extra_context,
+                    root=context.root,
+                    filter_context=context.extra_context,
+                )
             ]
         )
 
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 9cf3d98..2dc5093 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -125,14 +125,31 @@ class JSONPath:
                 an incompatible way.
         """
         _data = load_data(data)
+        return self.finditer_from(
+            _data, root=_data, filter_context=filter_context or {}
+        )
+
+    def finditer_from(
+        self,
+        obj: object,
+        *,
+        root: Union[Sequence[Any], Mapping[str, Any]],
+        filter_context: FilterContextVars,
+    ) -> Iterable[JSONPathMatch]:
+        """Generate matches starting from _obj_, a value in the document _root_.
+
+        This is how queries nested in filter expressions are evaluated. _obj_ is
+        never loaded as if it were JSON formatted text, and the root identifier
+        refers to _root_ in filters at any nesting depth.
+        """
         matches: Iterable[JSONPathMatch] = [
             JSONPathMatch(
-                filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                filter_context=filter_context,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
         ]
 
@@ -163,15 +180,27 @@ class JSONPath:
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
         _data = load_data(data)
+        return self.finditer_from_async(
+            _data, root=_data, filter_context=filter_context or {}
+        )
+
+    def finditer_from_async(
+        self,
+        obj: object,
+        *,
+        root: Union[Sequence[Any], Mapping[str, Any]],
+        filter_context: FilterContextVars,
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `finditer_from()`."""
 
         async def root_iter() -> AsyncIterable[JSONPathMatch]:
             yield self.env.match_class(
-                filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                filter_context=filter_context,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
 
         matches: AsyncIterable[JSONPathMatch] = root_iter()
-- 
2.43.0


From df51e1098fbc2bfc294f1f87aa9a9fefaca668b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 13/53] fix: only canonical decimal pointer tokens are array
 indices

---
 jsonpath/pointer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 3628347..ff5d91d 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -37,6 +37,8 @@ class _Undefined:
 
 UNDEFINED = _Undefined()
 
+RE_INDEX = re.compile(r"0|-?[1-9][0-9]*")
+
 
 class JSONPointer:
     """Identify a single, specific value in JSON-like data, as per RFC 6901.
@@ -108,8 +110,9 @@ class JSONPointer:
         )[1:]
 
     def _index(self, s: str) -> Union[str, int]:
-        # Reject non-zero ints that start with a zero.
-        if len(s) > 1 and s.startswith("0"):
+        # Only the canonical decimal spelling of an integer is an index. Anything else
+        # that `int()` would accept must not lose its spelling.
+        if not RE_INDEX.fullmatch(s):
             return s
 
         try:
-- 
2.43.0


From b9504601de6a13b9469cb94f720f99edbd891d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 14/53] fix: pointers don't index into strings

---
 jsonpath/pointer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index ff5d91d..7250e75 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -124,6 +124,10 @@ class JSONPointer:
             return s
 
     def _getitem(self, obj: Any, key: Any) -> Any:  # noqa: PLR0912
+        if isinstance(obj, str):
+            # JSON strings don't have child values.
+            raise JSONPointerTypeError(f"{key}: can't resolve against a string")
+
         try:
             return getitem(obj, key)
         except KeyError as err:
-- 
2.43.0


From bfc3bb62a0593748c4182e05c0b77fbeccc7d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 15/53] fix: `#` followed by something other than an index
 can't be resolved against an array

---
 jsonpath/pointer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 7250e75..7640194 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -155,7 +155,9 @@ class JSONPointer:
                     raise JSONPointerIndexError("index out of range") from None
                 # Handle non-standard index pointer.
                 if isinstance(key, str) and key.startswith("#"):
-                    _index = int(key[1:])
+                    _index = self._index(key[1:])
+                    if not isinstance(_index, int):
+                        raise JSONPointerTypeError(f"{key}: {err}") from err
                     if _index >= len(obj):
                         raise JSONPointerIndexError(
                             f"index out of range: {_index}"
-- 
2.43.0


From 65d0c40a057fc870366dfbb9f4e4a6dd59d9b7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 16/53] fix: decode escape sequences in pointers without
 mangling non-ASCII characters

---
 jsonpath/pointer.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 7640194..a5a1938 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -37,6 +37,9 @@ class _Undefined:
 
 UNDEFINED = _Undefined()
 
+# Escape sequences are made of ASCII characters.
+RE_ASCII = re.compile(r"[\x00-\x7f]+")
+
 RE_INDEX = re.compile(r"0|-?[1-9][0-9]*")
 
 
@@ -251,15 +254,22 @@ class JSONPointer:
             )
         return ""
 
-    def _unicode_escape(self, s: str) -> str:
+    @staticmethod
+    def _unicode_escape(s: str) -> str:
         # UTF-16 escape sequences - possibly surrogate pairs - inside UTF-8
         # encoded strings. As per https://datatracker.ietf.org/doc/html/rfc4627
         # section 2.5.
-        return (
-            codecs.decode(s.replace("\\/", "/"), "unicode-escape")
-            .encode("utf-16", "surrogatepass")
-            .decode("utf-16")
-        )
+        try:
+            return (
+                RE_ASCII.sub(
+                    lambda match: codecs.decode(match.group(), "unicode-escape"),
+                    s.replace("\\/", "/"),
+                )
+                .encode("utf-16", "surrogatepass")
+                .decode("utf-16")
+            )
+        except UnicodeError as err:
+            raise JSONPointerError(f"invalid escape sequence: {err}") from err
 
     @classmethod
     def from_match(
@@ -305,12 +315,7 @@ class JSONPointer:
         if uri_decode:
             _parts = (unquote(p) for p in _parts)
         if unicode_escape:
-            _parts = (
-                codecs.decode(p.replace("\\/", "/"), "unicode-escape")
-                .encode("utf-16", "surrogatepass")
-                .decode("utf-16")
-                for p in _parts
-            )
+            _parts = (cls._unicode_escape(p) for p in _parts)
 
         __parts = tuple(_parts)
 
-- 
2.43.0


From f99ec4cf0dfff4de5451f0cc7ce212ba84fb6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 17/53] fix: compare pointers by their reference tokens

---
 jsonpath/pointer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index a5a1938..e3a9975 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -333,16 +333,15 @@ class JSONPointer:
 
     def is_relative_to(self, other: JSONPointer) -> bool:
         """Return _True_ if this pointer points to a child of _other_."""
-        return (
-            len(other.parts) < len(self.parts)
-            and self.parts[: len(other.parts)] == other.parts
+        return len(other.parts) < len(self.parts) and all(
+            str(a) == str(b) for a, b in zip(self.parts, other.parts)
         )
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, JSONPointer) and self.parts == other.parts
+        return isinstance(other, JSONPointer) and self._s == other._s
 
     def __hash__(self) -> int:
-        return hash(self.parts)
+        return hash(self._s)
 
     def __repr__(self) -> str:
         return f"JSONPointer({self._s!r})"
-- 
2.43.0


From 416994df2914b8b87309592395f57dcba5b51909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 18/53] fix: test membership by JSON value, for any type of
 operand

---
 jsonpath/env.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 10e401d..10e100d 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -10,6 +10,7 @@ from typing import Any
 from typing import AsyncIterable
 from typing import Callable
 from typing import Dict
+from typing import Hashable
 from typing import Iterable
 from typing import List
 from typing import Mapping
@@ -566,9 +567,9 @@ class JSONPathEnvironment:
         if operator == "<=":
             return self._lt(left, right) or self._eq(left, right)
         if operator == "in" and isinstance(right, (Mapping, Sequence)):
-            return left in right
+            return self._contains(right, left)
         if operator == "contains" and isinstance(left, (Mapping, Sequence)):
-            return right in left
+            return self._contains(left, right)
         if operator == "=~" and isinstance(right, re.Pattern) and isinstance(left, str):
             return bool(right.fullmatch(left))
         return False
@@ -591,6 +592,22 @@ class JSONPathEnvironment:
 
         return equal_values(left, right)
 
+    def _contains(
+        self, container: Union[Mapping[Any, Any], Sequence[Any]], item: object
+    ) -> bool:
+        if isinstance(item, NodeList) or item is UNDEFINED:
+            # Nothing is never a member of anything.
+            return False
+
+        if isinstance(container, str):
+            return isinstance(item, str) and item in container
+
+        if isinstance(container, Mapping):
+            # JSON arrays and objects are not hashable, and never a member's name.
+            return isinstance(item, Hashable) and item in container
+
+        return any(equal_values(item, obj) for obj in container)
+
     def _lt(self, left: object, right: object) -> bool:
         if isinstance(left, str) and isinstance(right, str):
             return left < right
-- 
2.43.0


From b525096723641b9fd241664d5d17415777cf3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 19/53] fix: `<>` is an alias for `!=`

---
 jsonpath/env.py   | 2 +-
 jsonpath/parse.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 10e100d..1697622 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -556,7 +556,7 @@ class JSONPathEnvironment:
             return self.is_truthy(left) or self.is_truthy(right)
         if operator == "==":
             return self._eq(left, right)
-        if operator == "!=":
+        if operator in ("!=", "<>"):
             return not self._eq(left, right)
         if operator == "<":
             return self._lt(left, right)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index eaef7fc..07b4b7c 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -193,6 +193,7 @@ class Parser:
             "<=",
             "<",
             "!=",
+            "<>",
             "=~",
         ]
     )
-- 
2.43.0


From 8642c73d8289460607a188faa8f52689a2dfb2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 20/53] fix: refuse uncompared values at any position of a
 logical expression

---
 jsonpath/parse.py | 59 +++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 07b4b7c..5a5eaf8 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -492,23 +492,7 @@ class Parser:
         tok = stream.next_token()
         expr = self.parse_filter_selector(stream)
 
-        if self.env.well_typed and isinstance(expr, FunctionExtension):
-            func = self.env.function_extensions.get(expr.name)
-            if (
-                func
-                and isinstance(func, FilterFunction)
-                and func.return_type == ExpressionType.VALUE
-            ):
-                raise JSONPathTypeError(
-                    f"result of {expr.name}() must be compared", token=tok
-                )
-
-        if isinstance(expr, (Literal, Nil)):
-            raise JSONPathSyntaxError(
-                "filter expression literals outside of "
-                "function expressions must be compared",
-                token=tok,
-            )
+        self._raise_for_uncompared(expr, tok)
 
         return Filter(env=self.env, token=tok, expression=BooleanExpression(expr))
 
@@ -536,10 +520,9 @@ class Parser:
     def parse_prefix_expression(self, stream: TokenStream) -> FilterExpression:
         tok = stream.next_token()
         assert tok.kind == TOKEN_NOT
-        return PrefixExpression(
-            operator="!",
-            right=self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX),
-        )
+        right = self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX)
+        self._raise_for_uncompared(right, tok)
+        return PrefixExpression(operator="!", right=right)
 
     def parse_infix_expression(
         self, stream: TokenStream, left: FilterExpression
@@ -554,18 +537,8 @@ class Parser:
             self._raise_for_non_comparable_function(right, tok)
 
         if operator not in self.INFIX_LITERAL_OPERATORS:
-            if isinstance(left, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
-            if isinstance(right, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
+            self._raise_for_uncompared(left, tok)
+            self._raise_for_uncompared(right, tok)
 
         return InfixExpression(left, operator, right)
 
@@ -726,6 +699,26 @@ class Parser:
 
         return token.value
 
+    def _raise_for_uncompared(self, expr: FilterExpression, token: Token) -> None:
+        """Raise an error if _expr_ needs to be compared to something."""
+        if self.env.well_typed and isinstance(expr, FunctionExtension):
+            func = self.env.function_extensions.get(expr.name)
+            if (
+                func
+                and isinstance(func, FilterFunction)
+                and func.return_type == ExpressionType.VALUE
+            ):
+                raise JSONPathTypeError(
+                    f"result of {expr.name}() must be compared", token=token
+                )
+
+        if isinstance(expr, (Literal, Nil)):
+            raise JSONPathSyntaxError(
+                "filter expression literals outside of "
+                "function expressions must be compared",
+                token=token,
+            )
+
     def _raise_for_non_comparable_function(
         self, expr: FilterExpression, token: Token
     ) -> None:
-- 
2.43.0


From f31de51b1c389220de4ebe9fedfa85b6be983b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 21/53] fix: relative pointer index offsets can have more than
 one digit

---
 jsonpath/pointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index e3a9975..89a9074 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -459,7 +459,7 @@ class JSONPointer:
 
 
 RE_RELATIVE_POINTER = re.compile(
-    r"(?P<ORIGIN>\d+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>\d))?(?P<POINTER>.*)",
+    r"(?P<ORIGIN>[0-9]+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>[0-9]+))?(?P<POINTER>.*)",
     re.DOTALL,
 )
 
-- 
2.43.0


From 2e73795b9ffb577495d49d6ec783c4f65ca53af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 22/53] fix: refuse the relative pointer key marker at the
 document root

---
 jsonpath/pointer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 89a9074..f9d4271 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -605,6 +605,10 @@ class RelativeJSONPointer:
             parts.extend(self.pointer.parts)
         else:
             assert self.pointer == "#"
+            if not parts:
+                raise RelativeJSONPointerIndexError(
+                    "the document root has no key or index"
+                )
             parts[-1] = f"#{parts[-1]}"
 
         return JSONPointer.from_parts(
-- 
2.43.0


From e0306d879e904e2dfd01e8296e2275c23597a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 23/53] fix: keep trailing blanks in relative pointers

---
 jsonpath/pointer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index f9d4271..0e7c04e 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -524,15 +524,15 @@ class RelativeJSONPointer:
             index = 0
 
         # Pointer or '#'. Empty string is OK.
-        _pointer = match.group("POINTER").strip()
+        _pointer = match.group("POINTER")
         pointer = (
             JSONPointer(
                 _pointer,
                 unicode_escape=unicode_escape,
                 uri_decode=uri_decode,
             )
-            if _pointer != "#"
-            else _pointer
+            if _pointer.strip() != "#"
+            else "#"
         )
 
         return (origin, index, pointer)
-- 
2.43.0


From 1e30d05d4a9e2993094e8e8e589ee8683f957d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 24/53] fix: offset canonical indices only when applying a
 relative pointer

---
 jsonpath/pointer.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 0e7c04e..ee016d1 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -549,13 +549,7 @@ class RelativeJSONPointer:
             ) from err
 
     def _int_like(self, obj: Any) -> bool:
-        if isinstance(obj, int):
-            return True
-        try:
-            int(obj)
-        except ValueError:
-            return False
-        return True
+        return isinstance(obj, int) or RE_INDEX.fullmatch(obj) is not None
 
     def to(
         self,
-- 
2.43.0


From dbc7cf069e658f6b5d9f61205fbb6db7f442b1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 25/53] fix: don't decode the tokens of a relative pointer's
 result twice

---
 jsonpath/pointer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index ee016d1..3f6e23e 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -605,9 +605,8 @@ class RelativeJSONPointer:
                 )
             parts[-1] = f"#{parts[-1]}"
 
-        return JSONPointer.from_parts(
-            parts, unicode_escape=unicode_escape, uri_decode=uri_decode
-        )
+        # All parts have been decoded already.
+        return JSONPointer.from_parts(parts, unicode_escape=False, uri_decode=False)
 
 
 def resolve(
-- 
2.43.0


From 11a615665f846d64e957d9b7fdc7cf2025441462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 26/53] fix: refuse relative pointer offsets with too many
 digits to handle

---
 jsonpath/pointer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 3f6e23e..3533097 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -587,12 +587,19 @@ class RelativeJSONPointer:
 
         # Array index offset
         if self.index and parts and self._int_like(parts[-1]):
-            new_index = int(parts[-1]) + self.index
+            try:
+                new_index = int(parts[-1]) + self.index
+                new_part = str(new_index)
+            except ValueError as err:  # too many digits
+                raise RelativeJSONPointerIndexError(
+                    "index offset out of range"
+                ) from err
+
             if new_index < 0:
                 raise RelativeJSONPointerIndexError(
                     f"index offset out of range {new_index}"
                 )
-            parts[-1] = int(parts[-1]) + self.index
+            parts[-1] = new_part
 
         # Pointer or index/property
         if isinstance(self.pointer, JSONPointer):
-- 
2.43.0


From 625fa4b10180c7258749940cc47cd1d1b0ccc3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 27/53] fix: patch operations target what RFC 6901 says their
 pointers identify

Inserting at an index equal to the length of an array, moving and copying to `-` and
targeting members whose names look like integers now work. Negative and non-canonical
array indices, and the pointer extensions for keys and properties, are refused.
---
 jsonpath/patch.py | 162 ++++++++++++++++++++++++++--------------------
 1 file changed, 92 insertions(+), 70 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index ce5c054..a8e36af 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -7,12 +7,15 @@ import json
 from abc import ABC
 from abc import abstractmethod
 from io import IOBase
+from typing import Any
 from typing import Dict
 from typing import Iterable
 from typing import List
 from typing import Mapping
 from typing import MutableMapping
 from typing import MutableSequence
+from typing import Sequence
+from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
@@ -23,10 +26,73 @@ from jsonpath.exceptions import JSONPointerError
 from jsonpath.exceptions import JSONPointerIndexError
 from jsonpath.exceptions import JSONPointerKeyError
 from jsonpath.exceptions import JSONPointerTypeError
+from jsonpath.pointer import RE_INDEX
 from jsonpath.pointer import UNDEFINED
 from jsonpath.pointer import JSONPointer
 
 
+def _key(parent: object, part: Union[int, str]) -> Any:
+    """Return the key or index that RFC 6901 token _part_ means for _parent_."""
+    if isinstance(parent, Mapping):
+        return str(part)
+    if isinstance(parent, Sequence) and not isinstance(parent, str):
+        if part == "-":
+            return len(parent)
+        if not RE_INDEX.fullmatch(str(part)):
+            raise JSONPointerTypeError(f"{part}: expected an array index")
+        try:
+            return int(part)
+        except ValueError as err:  # too many digits
+            raise JSONPointerIndexError("index out of range") from err
+    raise JSONPointerTypeError(
+        f"{part}: can't resolve against {parent.__class__.__name__!r}"
+    )
+
+
+def _resolve_target(pointer: JSONPointer, data: object) -> Tuple[Any, Any, Any]:
+    """Return the parent, the key or index and the object that _pointer_ points to.
+
+    JSON Patch operations target exactly what RFC 6901 says their pointer identifies.
+    Unlike `JSONPointer.resolve_parent()`, we don't support the non-standard negative
+    indices and key/property pointers.
+
+    The parent is `None` if _pointer_ points to the root of the document. The object is
+    `UNDEFINED` if it does not exist, but its parent does.
+    """
+    parent: Any = None
+    key: Any = None
+    obj: Any = data
+
+    for part in pointer.parts:
+        if obj is UNDEFINED:
+            if isinstance(parent, Mapping):
+                raise JSONPointerKeyError(key)
+            raise JSONPointerIndexError(f"index out of range: {key}")
+        parent = obj
+        key = _key(parent, part)
+        if isinstance(key, int) and not 0 <= key < len(parent):
+            obj = UNDEFINED
+            continue
+        try:
+            obj = parent[key]
+        except KeyError:
+            obj = UNDEFINED
+
+    return (parent, key, obj)
+
+
+def _insert(parent: Any, key: Any, value: object) -> None:
+    """Add _value_ to a target location, inserting if the target is an array."""
+    if isinstance(parent, MutableSequence):
+        if not 0 <= key <= len(parent):
+            raise JSONPatchError("index out of range")
+        parent.insert(key, value)
+    elif isinstance(parent, MutableMapping):
+        parent[key] = value
+    else:
+        raise JSONPatchError(f"unexpected operation on {parent.__class__.__name__!r}")
+
+
 class Op(ABC):
     """One of the JSON Patch operations."""
 
@@ -58,27 +124,13 @@ class OpAdd(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, _ = _resolve_target(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                if target == "-":
-                    parent.append(self.value)
-                else:
-                    raise JSONPatchError("index out of range")
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {parent.__class__.__name__!r}"
-            )
+        _insert(parent, target, self.value)
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -103,20 +155,16 @@ class OpAddNe(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_target(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                parent.append(self.value)
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = self.value
+        if isinstance(parent, MutableSequence) and obj is UNDEFINED:
+            parent.append(self.value)
+        elif isinstance(parent, MutableSequence) or obj is UNDEFINED:
+            _insert(parent, target, self.value)
         return data
 
 
@@ -137,24 +185,16 @@ class OpAddAp(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_target(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                parent.append(self.value)
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
+        if isinstance(parent, MutableSequence) and obj is UNDEFINED:
+            parent.append(self.value)
         else:
-            raise JSONPatchError(
-                f"unexpected operation on {parent.__class__.__name__!r}"
-            )
+            _insert(parent, target, self.value)
         return data
 
 
@@ -172,18 +212,18 @@ class OpRemove(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_target(self.path, data)
         if parent is None:
             raise JSONPatchError("can't remove root")
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent item")
-            del parent[int(self.path.parts[-1])]
+            del parent[target]
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent property")
-            del parent[self.path.parts[-1]]
+            del parent[target]
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -210,18 +250,18 @@ class OpReplace(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, target, obj = _resolve_target(self.path, data)
         if parent is None:
             return self.value  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(self.path.parts[-1])] = self.value
+            parent[target] = self.value
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[self.path.parts[-1]] = self.value
+            parent[target] = self.value
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -251,31 +291,21 @@ class OpMove(Op):
         if self.dest.is_relative_to(self.source):
             raise JSONPatchError("can't move object to one of its own children")
 
-        source_parent, source_obj = self.source.resolve_parent(data)
+        source_parent, source_key, source_obj = _resolve_target(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        if isinstance(source_parent, MutableSequence):
-            del source_parent[int(self.source.parts[-1])]
-        if isinstance(source_parent, MutableMapping):
-            del source_parent[self.source.parts[-1]]
+        if isinstance(source_parent, (MutableSequence, MutableMapping)):
+            del source_parent[source_key]
 
-        dest_parent, _ = self.dest.resolve_parent(data)
+        dest_parent, dest_key, _ = _resolve_target(self.dest, data)
 
         if dest_parent is None:
             # Move source to root
             return source_obj  # type: ignore
 
-        if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), source_obj)
-        elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = source_obj
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {dest_parent.__class__.__name__!r}"
-            )
-
+        _insert(dest_parent, dest_key, source_obj)
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -298,26 +328,18 @@ class OpCopy(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        source_parent, source_obj = self.source.resolve_parent(data)
+        _, _, source_obj = _resolve_target(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        dest_parent, dest_obj = self.dest.resolve_parent(data)
+        dest_parent, dest_key, _ = _resolve_target(self.dest, data)
 
         if dest_parent is None:
             # Copy source to root
             return copy.deepcopy(source_obj)  # type: ignore
 
-        if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), copy.deepcopy(source_obj))
-        elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = copy.deepcopy(source_obj)
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {dest_parent.__class__.__name__!r}"
-            )
-
+        _insert(dest_parent, dest_key, copy.deepcopy(source_obj))
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -340,7 +362,7 @@ class OpTest(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        _, obj = self.path.resolve_parent(data)
+        _, _, obj = _resolve_target(self.path, data)
         if not obj == self.value:
             raise JSONPatchTestFailure
         return data
-- 
2.43.0


From 7a77c563a461988c4b24cb2d01a10978a39118df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 28/53] fix: the patch `test` operation does not equate
 booleans and numbers

---
 jsonpath/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index a8e36af..e71c410 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -19,6 +19,7 @@ from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
+from jsonpath._data import equal_values
 from jsonpath._data import load_data
 from jsonpath.exceptions import JSONPatchError
 from jsonpath.exceptions import JSONPatchTestFailure
@@ -363,7 +364,7 @@ class OpTest(Op):
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
         _, _, obj = _resolve_target(self.path, data)
-        if not obj == self.value:
+        if not equal_values(obj, self.value):
             raise JSONPatchTestFailure
         return data
 
-- 
2.43.0


From af16356a17405e806c2ca174fcfcfa1c51a30979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 29/53] fix: don't share a patch's values with the documents it
 is applied to

---
 jsonpath/patch.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index e71c410..b289c18 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -129,9 +129,9 @@ class OpAdd(Op):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
-        _insert(parent, target, self.value)
+        _insert(parent, target, copy.deepcopy(self.value))
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -160,12 +160,12 @@ class OpAddNe(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence) and obj is UNDEFINED:
-            parent.append(self.value)
+            parent.append(copy.deepcopy(self.value))
         elif isinstance(parent, MutableSequence) or obj is UNDEFINED:
-            _insert(parent, target, self.value)
+            _insert(parent, target, copy.deepcopy(self.value))
         return data
 
 
@@ -190,12 +190,12 @@ class OpAddAp(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence) and obj is UNDEFINED:
-            parent.append(self.value)
+            parent.append(copy.deepcopy(self.value))
         else:
-            _insert(parent, target, self.value)
+            _insert(parent, target, copy.deepcopy(self.value))
         return data
 
 
@@ -253,16 +253,16 @@ class OpReplace(Op):
         """Apply this patch operation to _data_."""
         parent, target, obj = _resolve_target(self.path, data)
         if parent is None:
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[target] = self.value
+            parent[target] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
-- 
2.43.0


From b87f995bb16c7d90c0cca2dd5103005dc29c8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 30/53] fix: load `addap` operations as `addap`, not `addne`

---
 jsonpath/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index b289c18..a1a89d5 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -442,7 +442,7 @@ class JSONPatch:
                     value=self._op_value(operation, "value", "addne", i),
                 )
             elif op == "addap":
-                self.addne(
+                self.addap(
                     path=self._op_pointer(operation, "path", "addap", i),
                     value=self._op_value(operation, "value", "addap", i),
                 )
-- 
2.43.0


From 67055bd43a9d045871be591a945a3614870d02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 31/53] fix: `addne` is like `add`, except for existing object
 members

---
 jsonpath/patch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index a1a89d5..80704f5 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -162,9 +162,7 @@ class OpAddNe(OpAdd):
             # The following op, if any, will raise a JSONPatchError if needed.
             return copy.deepcopy(self.value)  # type: ignore
 
-        if isinstance(parent, MutableSequence) and obj is UNDEFINED:
-            parent.append(copy.deepcopy(self.value))
-        elif isinstance(parent, MutableSequence) or obj is UNDEFINED:
+        if not isinstance(parent, MutableMapping) or obj is UNDEFINED:
             _insert(parent, target, copy.deepcopy(self.value))
         return data
 
-- 
2.43.0


From b931bf968aa364674b4867f5d5521479abc5c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 32/53] fix: compound queries agree through every entry point
 and document form

Several intersections filtered by the last one's values when iterated lazily,
and documents given as files were read once per operand.
---
 jsonpath/path.py | 96 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 32 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 2dc5093..92fd4cf 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -342,17 +342,9 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        objs = self.path.findall(data, filter_context=filter_context)
-
-        for op, path in self.paths:
-            _objs = path.findall(data, filter_context=filter_context)
-            if op == self.env.union_token:
-                objs.extend(_objs)
-            else:
-                assert op == self.env.intersection_token, op
-                objs = [obj for obj in objs if obj in _objs]
-
-        return objs
+        return [
+            match.obj for match in self.finditer(data, filter_context=filter_context)
+        ]
 
     def finditer(
         self,
@@ -379,16 +371,28 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        matches = self.path.finditer(data, filter_context=filter_context)
+        _data = load_data(data)
+        return self.finditer_from(
+            _data, root=_data, filter_context=filter_context or {}
+        )
+
+    def finditer_from(
+        self,
+        obj: object,
+        *,
+        root: Union[Sequence[Any], Mapping[str, Any]],
+        filter_context: FilterContextVars,
+    ) -> Iterable[JSONPathMatch]:
+        """Generate matches starting from _obj_, a value in the document _root_."""
+        matches = self.path.finditer_from(obj, root=root, filter_context=filter_context)
 
         for op, path in self.paths:
-            _matches = path.finditer(data, filter_context=filter_context)
+            _matches = path.finditer_from(obj, root=root, filter_context=filter_context)
             if op == self.env.union_token:
                 matches = itertools.chain(matches, _matches)
             else:
-                assert op == self.env.intersection_token
-                _objs = [match.obj for match in _matches]
-                matches = (match for match in matches if match.obj in _objs)
+                assert op == self.env.intersection_token, op
+                matches = _intersection(matches, [match.obj for match in _matches])
 
         return matches
 
@@ -429,17 +433,12 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> List[object]:
         """An async version of `findall()`."""
-        objs = await self.path.findall_async(data, filter_context=filter_context)
-
-        for op, path in self.paths:
-            _objs = await path.findall_async(data, filter_context=filter_context)
-            if op == self.env.union_token:
-                objs.extend(_objs)
-            else:
-                assert op == self.env.intersection_token
-                objs = [obj for obj in objs if obj in _objs]
-
-        return objs
+        return [
+            match.obj
+            async for match in await self.finditer_async(
+                data, filter_context=filter_context
+            )
+        ]
 
     async def finditer_async(
         self,
@@ -448,16 +447,32 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
-        matches = await self.path.finditer_async(data, filter_context=filter_context)
+        _data = load_data(data)
+        return self.finditer_from_async(
+            _data, root=_data, filter_context=filter_context or {}
+        )
+
+    def finditer_from_async(
+        self,
+        obj: object,
+        *,
+        root: Union[Sequence[Any], Mapping[str, Any]],
+        filter_context: FilterContextVars,
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `finditer_from()`."""
+        matches = self.path.finditer_from_async(
+            obj, root=root, filter_context=filter_context
+        )
 
         for op, path in self.paths:
-            _matches = await path.finditer_async(data, filter_context=filter_context)
+            _matches = path.finditer_from_async(
+                obj, root=root, filter_context=filter_context
+            )
             if op == self.env.union_token:
                 matches = _achain(matches, _matches)
             else:
-                assert op == self.env.intersection_token
-                _objs = [match.obj async for match in _matches]
-                matches = (match async for match in matches if match.obj in _objs)
+                assert op == self.env.intersection_token, op
+                matches = _aintersection(matches, _matches)
 
         return matches
 
@@ -502,6 +517,23 @@ class CompoundJSONPath:
         )
 
 
+def _intersection(
+    matches: Iterable[JSONPathMatch], objs: List[object]
+) -> Iterable[JSONPathMatch]:
+    for match in matches:
+        if match.obj in objs:
+            yield match
+
+
+async def _aintersection(
+    matches: AsyncIterable[JSONPathMatch], others: AsyncIterable[JSONPathMatch]
+) -> AsyncIterable[JSONPathMatch]:
+    objs = [match.obj async for match in others]
+    async for match in matches:
+        if match.obj in objs:
+            yield match
+
+
 T = TypeVar("T")
 
 
-- 
2.43.0


From a8be654b963785f8c1434f3f3abcfebb7a350374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 33/53] fix: intersections compare values as JSON values, not
 equating booleans and numbers

---
 jsonpath/path.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 92fd4cf..36febc6 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -14,6 +14,7 @@ from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
+from jsonpath._data import equal_values
 from jsonpath._data import load_data
 from jsonpath.fluent_api import Query
 from jsonpath.match import FilterContextVars
@@ -521,7 +522,7 @@ def _intersection(
     matches: Iterable[JSONPathMatch], objs: List[object]
 ) -> Iterable[JSONPathMatch]:
     for match in matches:
-        if match.obj in objs:
+        if any(equal_values(match.obj, obj) for obj in objs):
             yield match
 
 
@@ -530,7 +531,7 @@ async def _aintersection(
 ) -> AsyncIterable[JSONPathMatch]:
     objs = [match.obj async for match in others]
     async for match in matches:
-        if match.obj in objs:
+        if any(equal_values(match.obj, obj) for obj in objs):
             yield match
 
 
-- 
2.43.0


From d35dcd1be9b644a924af81659ea9491cf9e840f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 34/53] fix: names that follow `..` are never reserved words

---
 jsonpath/lex.py   | 10 ++++++++--
 jsonpath/token.py |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 58a8c2c..8db1bd9 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -14,6 +14,7 @@ from .token import TOKEN_BARE_PROPERTY
 from .token import TOKEN_COMMA
 from .token import TOKEN_CONTAINS
 from .token import TOKEN_DDOT
+from .token import TOKEN_DDOT_PROPERTY
 from .token import TOKEN_DOT_PROPERTY
 from .token import TOKEN_DOUBLE_QUOTE_STRING
 from .token import TOKEN_EQ
@@ -108,6 +109,9 @@ class Lexer:
         # .thing
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
 
+        # thing, when it follows `..`
+        self.descendant_property_pattern = rf"(?<=\.\.){self.key_pattern}"
+
         self.slice_list_pattern = (
             r"(?P<G_LSLICE_START>(?:\-?[0-9]+)?)\s*"
             r":\s*(?P<G_LSLICE_STOP>(?:\-?[0-9]+)?)\s*"
@@ -145,6 +149,7 @@ class Lexer:
             (TOKEN_LIST_SLICE, self.slice_list_pattern),
             (TOKEN_FUNCTION, self.function_pattern),
             (TOKEN_DOT_PROPERTY, self.dot_property_pattern),
+            (TOKEN_DDOT_PROPERTY, self.descendant_property_pattern),
             (TOKEN_FLOAT, r"-?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?"),
             (TOKEN_INT, r"-?[0-9]+(?P<G_EXP>[eE][+\-]?[0-9]+)?\b"),
             (TOKEN_DDOT, r"\.\."),
@@ -196,7 +201,7 @@ class Lexer:
         pattern = re.escape(identifier)
         if re.fullmatch(self.key_pattern, identifier):
             # Don't mistake a property name, or the start of one, for an identifier.
-            return rf"(?<!\.\.){pattern}{self.word_end_pattern}"
+            return rf"{pattern}{self.word_end_pattern}"
         return pattern
 
     def tokenize(self, path: str) -> Iterator[Token]:  # noqa PLR0912
@@ -213,7 +218,8 @@ class Lexer:
                     value=match.group("G_PROP"),
                     index=match.start("G_PROP"),
                 )
-            elif kind == TOKEN_BARE_PROPERTY:
+            elif kind in (TOKEN_BARE_PROPERTY, TOKEN_DDOT_PROPERTY):
+                # Property names following `..` are never reserved words.
                 yield _token(
                     kind=TOKEN_BARE_PROPERTY,
                     value=match.group(),
diff --git a/jsonpath/token.py b/jsonpath/token.py
index a2392e3..9d038a4 100644
--- a/jsonpath/token.py
+++ b/jsonpath/token.py
@@ -11,6 +11,7 @@ TOKEN_SKIP = sys.intern("SKIP")
 TOKEN_COLON = sys.intern("COLON")
 TOKEN_COMMA = sys.intern("COMMA")
 TOKEN_DDOT = sys.intern("DDOT")
+TOKEN_DDOT_PROPERTY = sys.intern("DDOT_PROPERTY")
 TOKEN_DOT = sys.intern("DOT")
 TOKEN_DOT_INDEX = sys.intern("DINDEX")
 TOKEN_DOT_PROPERTY = sys.intern("DOT_PROPERTY")
-- 
2.43.0


From eb91d59d40690204cbc429fa9ea793578518a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 35/53] fix: keep the value of big integer literals, and accept
 literals too big for a float

---
 jsonpath/filter.py | 11 +++++++++++
 jsonpath/parse.py  | 11 +++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 95517da..7f79771 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import math
 import re
 from abc import ABC
 from abc import abstractmethod
@@ -221,6 +222,16 @@ class FloatLiteral(Literal[float]):
 
     __slots__ = ()
 
+    def __str__(self) -> str:
+        if math.isinf(self.value):
+            # The result of parsing a number that's too big for a float.
+            return "1e999" if self.value > 0 else "-1e999"
+        value = repr(self.value)
+        if "e+" in value and "." not in value:
+            # Without a decimal point, it would be an integer literal.
+            return value.replace("e", ".0e")
+        return value
+
 
 class RegexLiteral(Literal[Pattern[str]]):
     """A regex literal."""
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 5a5eaf8..07c1ec8 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import json
+import math
 import re
 from typing import TYPE_CHECKING
 from typing import Callable
@@ -511,8 +512,14 @@ class Parser:
         return StringLiteral(value=self._decode_string_literal(stream.current))
 
     def parse_integer_literal(self, stream: TokenStream) -> FilterExpression:
-        # Convert to float first to handle scientific notation.
-        return IntegerLiteral(value=int(float(stream.current.value)))
+        try:
+            return IntegerLiteral(value=int(stream.current.value))
+        except ValueError:
+            # Scientific notation, or too many digits for `int`.
+            value = float(stream.current.value)
+        if math.isinf(value):
+            return FloatLiteral(value=value)
+        return IntegerLiteral(value=int(value))
 
     def parse_float_literal(self, stream: TokenStream) -> FilterExpression:
         return FloatLiteral(value=float(stream.current.value))
-- 
2.43.0


From ec85eb3fe4f2e377ac6ecca39d61e9c132ff28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 36/53] fix: reject indices that have an exponent or too many
 digits with a JSONPath error

---
 jsonpath/parse.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 07c1ec8..25bef42 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -16,6 +16,7 @@ from typing import Union
 from jsonpath.function_extensions.filter_function import ExpressionType
 from jsonpath.function_extensions.filter_function import FilterFunction
 
+from .exceptions import JSONPathIndexError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
 from .filter import CURRENT_KEY
@@ -358,17 +359,17 @@ class Parser:
         if not start_token.value:
             start: Optional[int] = None
         else:
-            start = int(start_token.value)
+            start = self._parse_index(start_token)
 
         if not stop_token.value:
             stop: Optional[int] = None
         else:
-            stop = int(stop_token.value)
+            stop = self._parse_index(stop_token)
 
         if not step_token.value:
             step: Optional[int] = None
         else:
-            step = int(step_token.value)
+            step = self._parse_index(step_token)
 
         return SliceSelector(
             env=self.env,
@@ -405,7 +406,7 @@ class Parser:
                     IndexSelector(
                         env=self.env,
                         token=stream.current,
-                        index=int(stream.current.value),
+                        index=self._parse_index(stream.current),
                     )
                 )
             elif stream.current.kind == TOKEN_BARE_PROPERTY:
@@ -691,6 +692,18 @@ class Parser:
 
         return left
 
+    def _parse_index(self, token: Token) -> int:
+        if "e" in token.value.lower():
+            raise JSONPathSyntaxError(
+                "unexpected exponent in index selector", token=token
+            )
+
+        try:
+            return int(token.value)
+        except ValueError as err:
+            # Too many digits for `int`.
+            raise JSONPathIndexError("index out of range", token=token) from err
+
     def _decode_string_literal(self, token: Token) -> str:
         if self.env.unicode_escape:
             if token.kind == TOKEN_SINGLE_QUOTE_STRING:
-- 
2.43.0


From 31c8f50c3d0e954b63b55b92fa429a4d2588e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 37/53] fix: reject invalid regular expression literals with a
 syntax error

---
 jsonpath/parse.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 25bef42..0e0076d 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -598,13 +598,19 @@ class Parser:
         )
 
     def parse_regex(self, stream: TokenStream) -> FilterExpression:
-        pattern = stream.current.value
+        tok = stream.current
+        pattern = tok.value
         flags = 0
         if stream.peek.kind == TOKEN_RE_FLAGS:
             stream.next_token()
             for flag in set(stream.current.value):
                 flags |= self.RE_FLAG_MAP[flag]
-        return RegexLiteral(value=re.compile(pattern, flags))
+        try:
+            return RegexLiteral(value=re.compile(pattern, flags))
+        except (re.error, OverflowError, RecursionError, ValueError) as err:
+            raise JSONPathSyntaxError(
+                f"invalid regular expression: {err}", token=tok
+            ) from err
 
     def parse_list_literal(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
-- 
2.43.0


From 37fccd0bebe3247add486e59cef886a7905031ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:17 +0000
Subject: [PATCH 38/53] fix: `match` and `search` are false for every kind of
 invalid pattern

---
 jsonpath/function_extensions/match.py  | 2 +-
 jsonpath/function_extensions/search.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/function_extensions/match.py b/jsonpath/function_extensions/match.py
index 7bc8749..242000a 100644
--- a/jsonpath/function_extensions/match.py
+++ b/jsonpath/function_extensions/match.py
@@ -17,5 +17,5 @@ class Match(FilterFunction):
         try:
             # re.fullmatch caches compiled patterns internally
             return bool(re.fullmatch(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, ValueError, OverflowError, RecursionError, re.error):
             return False
diff --git a/jsonpath/function_extensions/search.py b/jsonpath/function_extensions/search.py
index ed88635..52cf45b 100644
--- a/jsonpath/function_extensions/search.py
+++ b/jsonpath/function_extensions/search.py
@@ -17,5 +17,5 @@ class Search(FilterFunction):
         try:
             # re.search caches compiled patterns internally
             return bool(re.search(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, ValueError, OverflowError, RecursionError, re.error):
             return False
-- 
2.43.0


From 43b8a56e29fd568d54da8472492e3a11184850f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 39/53] fix: functions that need nodes raise a JSONPath type
 error when given anything else

---
 jsonpath/filter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 7f79771..cd5b3f7 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -682,6 +682,13 @@ class FunctionExtension(FilterExpression):
         if isinstance(func, FilterFunction):
             _args: List[object] = []
             for idx, arg in enumerate(args):
+                if func.arg_types[idx] == ExpressionType.NODES and not isinstance(
+                    arg, NodeList
+                ):
+                    # This is only possible if well-typedness checks are disabled.
+                    raise JSONPathTypeError(
+                        f"{self.name}() argument {idx} must be of NodesType"
+                    )
                 if func.arg_types[idx] != ExpressionType.NODES and isinstance(
                     arg, NodeList
                 ):
-- 
2.43.0


From 25ab2e0469186b94d52c601237a939c6b40cdfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:12 +0000
Subject: [PATCH 40/53] fix: parenthesise nested comparison and membership
 expressions in string forms

---
 jsonpath/filter.py | 58 +++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index cd5b3f7..364604d 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -388,8 +388,35 @@ class InfixExpression(FilterExpression):
 PRECEDENCE_LOWEST = 1
 PRECEDENCE_LOGICAL_OR = 3
 PRECEDENCE_LOGICAL_AND = 4
+PRECEDENCE_RELATIONAL = 5
+PRECEDENCE_MEMBERSHIP = 6
 PRECEDENCE_PREFIX = 7
 
+# Any other infix operator is relational.
+INFIX_PRECEDENCES = {
+    "||": PRECEDENCE_LOGICAL_OR,
+    "&&": PRECEDENCE_LOGICAL_AND,
+    "in": PRECEDENCE_MEMBERSHIP,
+    "contains": PRECEDENCE_MEMBERSHIP,
+}
+
+
+def _canonical_string(expression: FilterExpression, parent_precedence: int) -> str:
+    """Return _expression_ as a string, with parentheses where they are needed."""
+    if isinstance(expression, InfixExpression):
+        precedence = INFIX_PRECEDENCES.get(expression.operator, PRECEDENCE_RELATIONAL)
+        left = _canonical_string(expression.left, precedence)
+        right = _canonical_string(expression.right, precedence)
+        expr = f"{left} {expression.operator} {right}"
+        return f"({expr})" if parent_precedence >= precedence else expr
+
+    if isinstance(expression, PrefixExpression):
+        operand = _canonical_string(expression.right, PRECEDENCE_PREFIX)
+        expr = f"{expression.operator}{operand}"
+        return f"({expr})" if parent_precedence > PRECEDENCE_PREFIX else expr
+
+    return str(expression)
+
 
 class BooleanExpression(FilterExpression):
     """An expression that always evaluates to `True` or `False`."""
@@ -424,40 +451,13 @@ class BooleanExpression(FilterExpression):
         )
 
     def __str__(self) -> str:
-        return self._canonical_string(self.expression, PRECEDENCE_LOWEST)
+        return _canonical_string(self.expression, PRECEDENCE_LOWEST)
 
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, BooleanExpression) and self.expression == other.expression
         )
 
-    def _canonical_string(
-        self, expression: FilterExpression, parent_precedence: int
-    ) -> str:
-        if isinstance(expression, InfixExpression):
-            if expression.operator == "&&":
-                left = self._canonical_string(expression.left, PRECEDENCE_LOGICAL_AND)
-                right = self._canonical_string(expression.right, PRECEDENCE_LOGICAL_AND)
-                expr = f"{left} && {right}"
-                return (
-                    f"({expr})" if parent_precedence >= PRECEDENCE_LOGICAL_AND else expr
-                )
-
-            if expression.operator == "||":
-                left = self._canonical_string(expression.left, PRECEDENCE_LOGICAL_OR)
-                right = self._canonical_string(expression.right, PRECEDENCE_LOGICAL_OR)
-                expr = f"{left} || {right}"
-                return (
-                    f"({expr})" if parent_precedence >= PRECEDENCE_LOGICAL_OR else expr
-                )
-
-        if isinstance(expression, PrefixExpression):
-            operand = self._canonical_string(expression.right, PRECEDENCE_PREFIX)
-            expr = f"!{operand}"
-            return f"({expr})" if parent_precedence > PRECEDENCE_PREFIX else expr
-
-        return str(expression)
-
     def evaluate(self, context: FilterContext) -> bool:
         return context.env.is_truthy(self.expression.evaluate(context))
 
@@ -650,7 +650,7 @@ class FunctionExtension(FilterExpression):
         super().__init__()
 
     def __str__(self) -> str:
-        args = [str(arg) for arg in self.args]
+        args = [_canonical_string(arg, PRECEDENCE_LOWEST) for arg in self.args]
         return f"{self.name}({', '.join(args)})"
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 001a1808cb9a4bbc02dc383dcbcf9ea18d91f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 41/53] fix: keep the fake root identifier in string forms

---
 jsonpath/path.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 36febc6..51b4165 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -60,9 +60,8 @@ class JSONPath:
         self.fake_root = fake_root
 
     def __str__(self) -> str:
-        return self.env.root_token + "".join(
-            str(selector) for selector in self.selectors
-        )
+        root = self.env.fake_root_token if self.fake_root else self.env.root_token
+        return root + "".join(str(selector) for selector in self.selectors)
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From e6ae91c95b128029c17f0431a0fdd6fdc1b04b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:45 +0000
Subject: [PATCH 42/53] fix: use the environment's tokens in the string forms
 of filter expressions

---
 jsonpath/filter.py | 14 ++++++++------
 jsonpath/parse.py  |  4 ++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 364604d..c38d5ce 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -542,7 +542,8 @@ class SelfPath(Path):
         self.volatile = True
 
     def __str__(self) -> str:
-        return "@" + str(self.path)[1:]
+        env = self.path.env
+        return env.self_token + str(self.path)[len(env.root_token) :]
 
     def evaluate(self, context: FilterContext) -> object:
         return NodeList(
@@ -614,8 +615,8 @@ class FilterContextPath(Path):
         self.volatile = False
 
     def __str__(self) -> str:
-        path_repr = str(self.path)
-        return "_" + path_repr[1:]
+        env = self.path.env
+        return env.filter_context_token + str(self.path)[len(env.root_token) :]
 
     def evaluate(self, context: FilterContext) -> object:
         return NodeList(
@@ -729,14 +730,15 @@ class FunctionExtension(FilterExpression):
 class CurrentKey(FilterExpression):
     """The key/property or index associated with the current object."""
 
-    __slots__ = ()
+    __slots__ = ("token",)
 
-    def __init__(self) -> None:
+    def __init__(self, token: str = "#") -> None:
         super().__init__()
+        self.token = token
         self.volatile = True
 
     def __str__(self) -> str:
-        return "#"
+        return self.token
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, CurrentKey)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 0e0076d..539554c 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -19,12 +19,12 @@ from jsonpath.function_extensions.filter_function import FilterFunction
 from .exceptions import JSONPathIndexError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
-from .filter import CURRENT_KEY
 from .filter import FALSE
 from .filter import NIL
 from .filter import TRUE
 from .filter import UNDEFINED_LITERAL
 from .filter import BooleanExpression
+from .filter import CurrentKey
 from .filter import FilterContextPath
 from .filter import FilterExpression
 from .filter import FloatLiteral
@@ -589,7 +589,7 @@ class Parser:
         )
 
     def parse_current_key(self, _: TokenStream) -> FilterExpression:
-        return CURRENT_KEY
+        return CurrentKey(self.env.key_token)
 
     def parse_filter_context_path(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
-- 
2.43.0


From a1dc29716020b610cb5f1b989d21cbdfd6dbd094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 43/53] fix: write slices without brackets with brackets in
 string forms

---
 jsonpath/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 539554c..bc19a1e 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -321,7 +321,10 @@ class Parser:
                     shorthand=True,
                 )
             elif stream.current.kind == TOKEN_SLICE_START:
-                yield self.parse_slice(stream)
+                tok = stream.current
+                yield ListSelector(
+                    env=self.env, token=tok, items=[self.parse_slice(stream)]
+                )
             elif stream.current.kind == TOKEN_WILD:
                 yield WildSelector(
                     env=self.env,
-- 
2.43.0


From f772e99ed49aae0575be37f7b19bfce30122a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 44/53] fix: keep the lexer's word boundary pattern cheap to
 compile

---
 jsonpath/lex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 8db1bd9..4932ce9 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -88,8 +88,10 @@ class Lexer:
 
     key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
-    # The end of a word, where no longer property name continues.
-    word_end_pattern = r"(?![\u0080-\U0010FFFFa-zA-Z0-9_-])"
+    # The end of a word, where no longer property name continues. The negated set is
+    # all characters that are not in names. It is much faster to compile than its
+    # complement.
+    word_end_pattern = r"(?![^\x00-,./:-@\[-^`{-\x7F])"
 
     # `not` or !
     logical_not_pattern = rf"(?:not{word_end_pattern})|!"
-- 
2.43.0


From 0ab25ebf6ac4527b3b39187d00af4437b0c4ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:51 +0000
Subject: [PATCH 45/53] fix: read the query from the file given to the path
 sub-command

---
 jsonpath/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index e79d2fd..872332e 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -242,7 +242,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     if args.query is not None:
         query = args.query
     else:
-        query = args.query_file.read().strip()
+        query = args.path_file.read().strip()
 
     try:
         path = jsonpath.JSONPathEnvironment(
-- 
2.43.0


From 6aab6a25ec5b52b14c2cff1bff4f31876b776793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:55 +0000
Subject: [PATCH 46/53] fix: report every kind of query error without a
 traceback from the command line

---
 jsonpath/cli.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 872332e..d07ed5a 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -6,7 +6,9 @@ import sys
 import jsonpath
 from jsonpath.__about__ import __version__
 from jsonpath.exceptions import JSONPatchError
+from jsonpath.exceptions import JSONPathError
 from jsonpath.exceptions import JSONPathIndexError
+from jsonpath.exceptions import JSONPathNameError
 from jsonpath.exceptions import JSONPathSyntaxError
 from jsonpath.exceptions import JSONPathTypeError
 from jsonpath.exceptions import JSONPointerError
@@ -264,6 +266,16 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path index error: {err}\n")
         sys.exit(1)
+    except JSONPathNameError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path name error: {err}\n")
+        sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     try:
         matches = path.findall(args.file)
@@ -278,6 +290,11 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path type error: {err}\n")
         sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
-- 
2.43.0


From b90751de8595bc68e0b9b9cb015682dc5142ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 47/53] fix: report documents that can't be decoded without a
 traceback from the command line

---
 jsonpath/cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index d07ed5a..03eee21 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -15,6 +15,10 @@ from jsonpath.exceptions import JSONPointerError
 
 INDENT = 2
 
+# What reading a JSON document can raise. ValueError covers JSONDecodeError, input
+# that isn't valid UTF-8, UTF-16 or UTF-32 and integers with too many digits.
+DECODE_ERRORS = (ValueError, RecursionError)
+
 
 def path_sub_command(parser: argparse.ArgumentParser) -> None:  # noqa: D103
     parser.set_defaults(func=handle_path_command)
@@ -279,7 +283,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
 
     try:
         matches = path.findall(args.file)
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -316,7 +320,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -335,7 +339,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     """Handle the `patch` sub command."""
     try:
         patch = json.load(args.patch)
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"patch document json decode error: {err}\n")
@@ -354,7 +358,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
-- 
2.43.0


From 7c0e096c876e2c6daaf96a29f88fed73086b86b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:03 +0000
Subject: [PATCH 48/53] fix: pass the token by name to the error about a
 function result that is not comparable

---
 jsonpath/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index bc19a1e..7ee5e1f 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -761,5 +761,5 @@ class Parser:
                 and func.return_type != ExpressionType.VALUE
             ):
                 raise JSONPathTypeError(
-                    f"result of {expr.name}() is not comparable", token
+                    f"result of {expr.name}() is not comparable", token=token
                 )
-- 
2.43.0


From c91ae91c1dd588511addfedb1c086c0887db5c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 49/53] fix: keep error messages from the command line on one
 line

---
 jsonpath/cli.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 03eee21..a81991c 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -242,6 +242,12 @@ def setup_parser() -> argparse.ArgumentParser:  # noqa: D103
     return parser
 
 
+def _one_line(err: Exception) -> str:
+    """Return the message of _err_ on a single line."""
+    # Error messages can quote queries and pointers that contain line breaks.
+    return " ".join(str(err).splitlines())
+
+
 def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     """Handle the `path` sub command."""
     # Empty string is OK.
@@ -258,27 +264,27 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     except JSONPathSyntaxError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path syntax error: {err}\n")
+        sys.stderr.write(f"json path syntax error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathTypeError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path type error: {err}\n")
+        sys.stderr.write(f"json path type error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathIndexError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path index error: {err}\n")
+        sys.stderr.write(f"json path index error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathNameError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path name error: {err}\n")
+        sys.stderr.write(f"json path name error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path error: {err}\n")
+        sys.stderr.write(f"json path error: {_one_line(err)}\n")
         sys.exit(1)
 
     try:
@@ -286,18 +292,18 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     except DECODE_ERRORS as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
+        sys.stderr.write(f"target document json decode error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathTypeError as err:
         # Type errors are currently only occurring are compile-time.
         if args.debug:
             raise
-        sys.stderr.write(f"json path type error: {err}\n")
+        sys.stderr.write(f"json path type error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPathError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path error: {err}\n")
+        sys.stderr.write(f"json path error: {_one_line(err)}\n")
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
@@ -323,12 +329,12 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
     except DECODE_ERRORS as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
+        sys.stderr.write(f"target document json decode error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPointerError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
+        sys.stderr.write(_one_line(err) + "\n")
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
@@ -342,7 +348,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     except DECODE_ERRORS as err:
         if args.debug:
             raise
-        sys.stderr.write(f"patch document json decode error: {err}\n")
+        sys.stderr.write(f"patch document json decode error: {_one_line(err)}\n")
         sys.exit(1)
 
     if not isinstance(patch, list):
@@ -361,12 +367,12 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     except DECODE_ERRORS as err:
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
+        sys.stderr.write(f"target document json decode error: {_one_line(err)}\n")
         sys.exit(1)
     except JSONPatchError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
+        sys.stderr.write(_one_line(err) + "\n")
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-- 
2.43.0


From b01c6e635037f11d50ba5df782ef167adedbd534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:09 +0000
Subject: [PATCH 50/53] fix: don't write to the document when a value and one
 of its descendants are selected

---
 jsonpath/fluent_api.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index 4329e08..33e6aa9 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -223,7 +223,7 @@ class Query:
             return None
 
         if projection == Projection.RELATIVE:
-            obj: Dict[Union[int, str], Any] = {}
+            obj = _ProjectedNode()
             for expr in expressions:
                 path = self._env.compile(expr) if isinstance(expr, str) else expr
                 for rel_match in path.finditer(match.obj):  # type: ignore
@@ -240,7 +240,7 @@ class Query:
             return arr
 
         # Project from the root document
-        obj = {}
+        obj = _ProjectedNode()
         for expr in expressions:
             path = self._env.compile(expr) if isinstance(expr, str) else expr
             for rel_match in path.finditer(match.obj):  # type: ignore
@@ -249,9 +249,16 @@ class Query:
         return _fix_sparse_arrays(obj)
 
 
+class _ProjectedNode(Dict[Union[int, str], Any]):
+    """An array or object on the way to a selected value.
+
+    Not to be confused with selected values, which belong to the document.
+    """
+
+
 def _patch_obj(
     parts: Tuple[Union[int, str], ...],
-    obj: Mapping[Union[str, int], Any],
+    obj: _ProjectedNode,
     value: object,
 ) -> None:
     _obj = obj
@@ -264,10 +271,13 @@ def _patch_obj(
     # We'll fix these "sparse arrays" after the patch has been applied.
     for part in parts[:-1]:
         if part not in _obj:
-            _obj[part] = {}  # type: ignore
+            _obj[part] = _ProjectedNode()
         _obj = _obj[part]
+        if not isinstance(_obj, _ProjectedNode):
+            # An ancestor of this value has been selected already.
+            return
 
-    _obj[parts[-1]] = value  # type: ignore
+    _obj[parts[-1]] = value
 
 
 def _fix_sparse_arrays(obj: Any) -> object:
-- 
2.43.0


From 75cf58f45f7763ffcb63b591304ca60b5949c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 51/53] fix: recognise calls of functions with a one-letter
 name

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4932ce9..712f1a2 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -126,7 +126,7 @@ class Lexer:
         # func(
         self.function_pattern = (
             rf"(?!{self.logical_and_pattern}|{self.logical_or_pattern}"
-            rf"|{self.logical_not_pattern})(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+            rf"|{self.logical_not_pattern})(?P<G_FUNC>[a-z][a-z_0-9]*)\(\s*"
         )
 
         self.rules = self.compile_rules()
-- 
2.43.0


From 2fc2d56f4cdbb663dc27dd556a8aeef0066a8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 52/53] fix: accept every logical expression as an argument of
 LogicalType

---
 jsonpath/env.py    |  8 ++++++--
 jsonpath/filter.py |  6 ++++++
 jsonpath/parse.py  | 13 +++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 1697622..c3147ba 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -24,11 +24,11 @@ from ._data import equal_values
 from .exceptions import JSONPathNameError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
+from .filter import LOGICAL_TYPE_EXPRESSIONS
 from .filter import UNDEFINED
 from .filter import VALUE_TYPE_EXPRESSIONS
 from .filter import FilterExpression
 from .filter import FunctionExtension
-from .filter import InfixExpression
 from .filter import Path
 from .fluent_api import Query
 from .function_extensions import ExpressionType
@@ -466,7 +466,11 @@ class JSONPathEnvironment:
                         token=token,
                     )
             elif typ == ExpressionType.LOGICAL:
-                if not isinstance(arg, (Path, InfixExpression)):
+                if not (
+                    isinstance(arg, (Path, *LOGICAL_TYPE_EXPRESSIONS))
+                    or self._function_return_type(arg)
+                    in (ExpressionType.LOGICAL, ExpressionType.NODES)
+                ):
                     raise JSONPathTypeError(
                         f"{token.value}() argument {idx} must be of LogicalType",
                         token=token,
diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index c38d5ce..f19ca22 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -775,3 +775,9 @@ VALUE_TYPE_EXPRESSIONS = (
     ListLiteral,
     CurrentKey,
 )
+
+LOGICAL_TYPE_EXPRESSIONS = (
+    BooleanExpression,
+    InfixExpression,
+    PrefixExpression,
+)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 7ee5e1f..33f42a9 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -284,8 +284,10 @@ class Parser:
             TOKEN_FUNCTION: self.parse_function_extension,
             TOKEN_INT: self.parse_integer_literal,
             TOKEN_KEY: self.parse_current_key,
+            TOKEN_LPAREN: self.parse_grouped_argument,
             TOKEN_NIL: self.parse_nil,
             TOKEN_NONE: self.parse_nil,
+            TOKEN_NOT: self.parse_prefix_expression,
             TOKEN_NULL: self.parse_nil,
             TOKEN_ROOT: self.parse_root_path,
             TOKEN_SELF: self.parse_self_path,
@@ -575,6 +577,17 @@ class Parser:
         stream.expect(TOKEN_RPAREN)
         return expr
 
+    def parse_grouped_argument(self, stream: TokenStream) -> FilterExpression:
+        tok = stream.current
+        expr = self.parse_grouped_expression(stream)
+        if stream.peek.kind in self.BINARY_OPERATORS:
+            return expr
+        # An argument in parentheses is a logical expression, never a value or nodes.
+        self._raise_for_uncompared(expr, tok)
+        if isinstance(expr, (InfixExpression, PrefixExpression)):
+            return expr
+        return BooleanExpression(expr)
+
     def parse_root_path(self, stream: TokenStream) -> FilterExpression:
         root = stream.next_token()
         return RootPath(
-- 
2.43.0


From c0cb82ff4d78f1c559e4dc3ee39a94d3944474e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 53/53] fix: keep array order in projections whatever order
 elements are selected in

---
 jsonpath/fluent_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index 33e6aa9..87bcf6f 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -289,8 +289,9 @@ def _fix_sparse_arrays(obj: Any) -> object:
         return [_fix_sparse_arrays(e) for e in obj]
 
     if isinstance(obj, Mapping):
-        if isinstance(next(iter(obj)), int):
-            return [_fix_sparse_arrays(v) for v in obj.values()]
+        if all(isinstance(k, int) for k in obj):
+            # Elements might not have been selected in array order.
+            return [_fix_sparse_arrays(obj[i]) for i in sorted(obj)]
         return {k: _fix_sparse_arrays(v) for k, v in obj.items()}
 
     return obj
-- 
2.43.0

