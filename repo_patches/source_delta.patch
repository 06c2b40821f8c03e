From d04e532fe83319f35391d67d5f7ae9fa6c4edf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 01/58] fix: unparse dictionary unpacking inside a dict display

`{**d}` is represented by a `None` key; unparsing it raised UnparserError.
---
 mcpyrate/unparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 07ccdad..6c11de1 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -733,8 +733,11 @@ class Unparser:
         self.write("{")
         def write_pair(pair):
             (k, v) = pair
-            self.dispatch(k)
-            self.write(": ")
+            if k is None:  # dictionary unpacking, e.g. `{**d}`
+                self.write("**")
+            else:
+                self.dispatch(k)
+                self.write(": ")
             self.dispatch(v)
         interleave(lambda: self.write(", "), write_pair, zip(t.keys, t.values))
         self.write("}")
-- 
2.43.0


From 5187a2762deefddedfdf50df591448c8564dd82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 02/58] fix: unparse type parameters of functions and classes
 (Python 3.12+)

The type parameter list of a generic `def` or `class` was silently dropped.
---
 mcpyrate/unparser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 6c11de1..911167a 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -489,6 +489,7 @@ class Unparser:
         class_str = (self.maybe_colorize_python_keyword("class ") +
                      self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(class_str, lineno_node=t)
+        self.__type_params_helper(t)
         if t.bases or t.keywords:
             self.write("(")
         comma = False
@@ -533,8 +534,10 @@ class Unparser:
                     self.write(setcolor())
 
         def_str = (self.maybe_colorize_python_keyword(fill_suffix) +
-                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME) + "(")
+                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(def_str, lineno_node=t)
+        self.__type_params_helper(t)
+        self.write("(")
         self.dispatch(t.args)
         self.write(")")
         if t.returns:
@@ -1147,12 +1150,16 @@ class Unparser:
         self.fill(lineno_node=t)
         self.write(self.maybe_colorize_python_keyword("type "))  # `type` is a soft keyword; only acts like a keyword in the `type` statement
         self.dispatch(t.name)
-        if t.type_params:
+        self.__type_params_helper(t)
+        self.write(" = ")
+        self.dispatch(t.value)
+
+    def __type_params_helper(self, t):
+        # Python 3.12+: PEP 695. Earlier Python versions, and macro-generated nodes, might not have the field.
+        if getattr(t, "type_params", None):
             self.write("[")
             interleave(lambda: self.write(", "), self.dispatch, t.type_params)
             self.write("]")
-        self.write(" = ")
-        self.dispatch(t.value)
 
     def _TypeVar(self, t):
         # https://docs.python.org/3/library/typing.html#typing.TypeVar
-- 
2.43.0


From 3866c794e750658c36b1cf0266a026fe3f360baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 03/58] fix: escape the literal parts of f-strings when
 unparsing

Literal braces, backslashes and control characters were emitted as-is, which
produced a different f-string, or invalid source code.
---
 mcpyrate/unparser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 911167a..7baf592 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -862,7 +862,7 @@ class Unparser:
             raise ValueError(f"Don't know how to unparse conversion code {t.conversion}")
         if t.format_spec:
             self.write(c(":"))
-            self._JoinedStr_helper(t.format_spec)
+            self._JoinedStr_helper(t.format_spec, is_format_spec=True)
         self.write(c("}"))
 
     def _JoinedStr(self, t):
@@ -870,9 +870,14 @@ class Unparser:
         self._JoinedStr_helper(t)
         self.write(self.maybe_colorize("'", ColorScheme.STRING))
 
-    def _JoinedStr_helper(self, t):
+    def _JoinedStr_helper(self, t, is_format_spec=False):
         def escape(s):
-            return s.replace("'", r"\'").replace("\n", r"\n")
+            # Escape like in a single-quoted string literal (`repr` prefers single quotes if the text contains
+            # a double quote; hence the prefix). Then escape also the braces, which are special in an f-string.
+            s = repr('"' + s)[2:-1]
+            if is_format_spec:  # the `{{` notation is not available inside a format spec
+                return s.replace("{", r"\x7b").replace("}", r"\x7d")
+            return s.replace("{", "{{").replace("}", "}}")
         for v in t.values:
             # Omit the surrounding quotes in string snippets
             if type(v) is ast.Constant:
-- 
2.43.0


From cd7b2203a8822170b6ae54140bebd70e6cffecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 04/58] fix: unparse an f-string field whose expression begins
 with a brace

E.g. `f'{ {1: 2}[1]}'` was emitted as `f'{{1: 2}[1]}'`, which is not the same f-string.
---
 mcpyrate/unparser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 7baf592..484c202 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -849,7 +849,17 @@ class Unparser:
         def c(text):
             return self.maybe_colorize(text, ColorScheme.STRING)
         self.write(c("{"))
-        self.dispatch(t.value)
+        # A value that begins with a brace needs a space to tell it apart from an escaped brace, `{{`.
+        with io.StringIO() as output:
+            saved_f, self.f = self.f, output
+            try:
+                self.dispatch(t.value)
+            finally:
+                self.f = saved_f
+            value = output.getvalue()
+        if value.startswith("{"):
+            self.write(" ")
+        self.write(value)
         if t.conversion == 115:
             self.write(c("!s"))
         elif t.conversion == 114:
-- 
2.43.0


From 9a48d4982670f2383e03e7647a1c6421982bc07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 05/58] fix: unparse an empty tuple as a subscript

`a[()]` was emitted as `a[]`, which is a syntax error.
---
 mcpyrate/unparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 484c202..3aa43c9 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -904,7 +904,8 @@ class Unparser:
         self.write("[")
         # Python 3.9+: Omit parentheses for a tuple directly inside a Subscript slice.
         # See https://bugs.python.org/issue34822
-        if type(t.slice) is ast.Tuple:
+        # But an empty tuple must keep its parentheses.
+        if type(t.slice) is ast.Tuple and t.slice.elts:
             self.__Tuple_helper(t.slice)
         else:
             self.dispatch(t.slice)
-- 
2.43.0


From d57b8b36fcc23c555b72db2dcbf1e8cda24fef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 06/58] fix: unparse a tuple as a context manager expression

`with ((a, b)):` was emitted as `with (a, b):`, which means two context managers.
---
 mcpyrate/unparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 3aa43c9..1b7240e 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1048,7 +1048,13 @@ class Unparser:
             self.write(self.maybe_colorize_python_keyword(" as ") + t.asname)
 
     def _withitem(self, t):
+        # `with (a, b):` means two context managers; to have a tuple there, it needs another set of parentheses.
+        extra_parens = type(t.context_expr) is ast.Tuple and not t.optional_vars
+        if extra_parens:
+            self.write("(")
         self.dispatch(t.context_expr)
+        if extra_parens:
+            self.write(")")
         if t.optional_vars:
             self.write(self.maybe_colorize_python_keyword(" as "))
             self.dispatch(t.optional_vars)
-- 
2.43.0


From 8bb09b5d710afc1741e0e5b14d94e4a672f1a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 07/58] fix: unparse `ast.Expression`

Its body is a single expression node, not a list; unparsing it raised TypeError.
---
 mcpyrate/unparser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 1b7240e..64b3705 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -297,12 +297,10 @@ class Unparser:
             self.fill(self.maybe_colorize(label, ColorScheme.INVISIBLENODE),
                       lineno_node=t)
             self.enter()
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)  # a statement suite, or in an `Expression`, a single expression
             self.leave()
         else:
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)
 
     # stmt
     def _Expr(self, t):
-- 
2.43.0


From 2a56dff2a1650fbcc904ad6e7232c247403b85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 08/58] fix: unparse negative and complex number literals in
 match patterns

They were parenthesized as in an expression, which is a syntax error in a pattern.
---
 mcpyrate/unparser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 64b3705..93bbea2 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1091,7 +1091,19 @@ class Unparser:
         self.leave()
 
     def _MatchValue(self, t):
-        self.dispatch(t.value)
+        self.__pattern_literal_helper(t.value)
+
+    # In a pattern, negative numbers and complex numbers are part of the pattern syntax; no parentheses allowed.
+    def __pattern_literal_helper(self, t):
+        if type(t) is ast.UnaryOp:
+            self.write(self.unop[t.op.__class__.__name__])
+            self.__pattern_literal_helper(t.operand)
+        elif type(t) is ast.BinOp:
+            self.__pattern_literal_helper(t.left)
+            self.write(" " + self.binop[t.op.__class__.__name__] + " ")
+            self.__pattern_literal_helper(t.right)
+        else:
+            self.dispatch(t)
 
     def _MatchSingleton(self, t):
         self.write(self.maybe_colorize(repr(t.value), ColorScheme.NAMECONSTANT))  # None, True or False.
@@ -1112,7 +1124,7 @@ class Unparser:
         self.write("{")
         def write_kp(item):
             k, p = item
-            self.dispatch(k)
+            self.__pattern_literal_helper(k)
             self.write(": ")
             self.dispatch(p)
         interleave(lambda: self.write(", "), write_kp, zip(t.keys, t.patterns))
-- 
2.43.0


From f647a0266acdd15cad328b649dcb6593f22f941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 09/58] fix: parenthesize nested `or` and `as` patterns when
 unparsing

E.g. `case (1 as x) | 2:` was emitted as `case 1 as x | 2:`, which is a syntax error.
---
 mcpyrate/unparser.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 93bbea2..9818c5f 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1161,16 +1161,21 @@ class Unparser:
                 self.write(t.name)
             else:
                 # The or-pattern usually doesn't use parentheses, but when named, they are useful.
-                if type(t.pattern) is ast.MatchOr:
-                    self.write("(")
-                self.dispatch(t.pattern)
-                if type(t.pattern) is ast.MatchOr:
-                    self.write(")")
+                self.__closed_pattern_helper(t.pattern)
                 self.write(" as ")
                 self.write(t.name)
 
     def _MatchOr(self, t):
-        interleave(lambda: self.write(" | "), self.dispatch, t.patterns)
+        interleave(lambda: self.write(" | "), self.__closed_pattern_helper, t.patterns)
+
+    # Or-patterns and `as` patterns need parentheses when they appear inside another one.
+    def __closed_pattern_helper(self, t):
+        needs_parens = type(t) is ast.MatchOr or (type(t) is ast.MatchAs and t.pattern is not None)
+        if needs_parens:
+            self.write("(")
+        self.dispatch(t)
+        if needs_parens:
+            self.write(")")
 
     # Python 3.12+: `type` statement (type aliases)
     #     https://docs.python.org/3/library/ast.html#type-parameters
-- 
2.43.0


From 5f447214d167f0acaa819751d5b64a4d59818e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 10/58] fix: expand decorator macros on async functions

Decorator macros are documented to accept a function (def, async def) or class definition,
but on an `async def` they were left unexpanded.
---
 mcpyrate/expander.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 31b1727..a51510b 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -273,6 +273,9 @@ class MacroExpander(BaseMacroExpander):
     def visit_FunctionDef(self, functiondef):
         return self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, asyncfunctiondef):
+        return self._visit_Decorated(asyncfunctiondef)
+
     def _visit_Decorated(self, decorated):
         """Detect a decorator macro invocation.
 
@@ -479,6 +482,9 @@ class MacroCollector(NodeVisitor):
     def visit_FunctionDef(self, functiondef):
         self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, asyncfunctiondef):
+        self._visit_Decorated(asyncfunctiondef)
+
     def _visit_Decorated(self, decorated):
         macros, others = self.expander._detect_macro_items(decorated.decorator_list, "decorator")
         if macros:
-- 
2.43.0


From a8a3ba624ba786cea1a92d3bedd34b010aff3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 11/58] fix: accept subscripted calls of run-time functions in
 MacroCollector

Scanning e.g. `f()[x]` or `f(*args)[x]` raised a SyntaxError meant for macro invocations,
although the expander itself accepts the code.
---
 mcpyrate/expander.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index a51510b..f6babca 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -443,7 +443,9 @@ class MacroCollector(NodeVisitor):
 
     def visit_Subscript(self, subscript):
         candidate = subscript.value
-        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
+        # Like in `MacroExpander`, the call syntax is validated only once we know it's a macro invocation.
+        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename,
+                                                     _validate_call_syntax=False)
         if self.expander.ismacrocall(macroname, macroargs, "expr"):
             key = (macroname, "expr")
             if key not in self._seen:
-- 
2.43.0


From 01da1f2a8554cf2aaccc592f7bb986161d8402fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 12/58] fix: don't return a stale value for a hygienic capture

The lookup cache is keyed by the id of the frozen value, but did not keep the frozen value
alive. After the code holding it had been garbage collected, another capture with the same
name could get the same id, and then evaluated to the wrong value.
---
 mcpyrate/quotes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 893e7b5..b35843d 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -335,8 +335,9 @@ def lookup_value(key):
 
     cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently
     if cachekey not in _lookup_cache:
-        _lookup_cache[cachekey] = pickle.loads(frozen_value)
-    return _lookup_cache[cachekey]
+        # Keep `frozen_value` alive, so that its id can't be reused by another capture.
+        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))
+    return _lookup_cache[cachekey][1]
 
 
 def capture_macro(macro, name):
-- 
2.43.0


From 1ecf5705400d00d5c1629144a25a3f5d3df0f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 13/58] fix: give each use of a hygienic capture its own copy
 of the value

The use sites of a macro are documented to get a fresh copy each, but the compiler merged the
equal constants of two use sites in the same module, so that they shared one mutable object.
---
 mcpyrate/quotes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index b35843d..57d87b5 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -297,7 +297,9 @@ def capture_value(value, name):
     # Putting these considerations together, we pickle the value, causing a copy
     # and serialization.
     #
-    frozen_value = pickle.dumps(value)
+    # The compiler merges equal constants, so to keep equal captures separate, tack on
+    # something unique. When unpickling, any data past the end of the pickle is ignored.
+    frozen_value = pickle.dumps(value) + gensym("").encode("ascii")
     return ast.Call(_mcpyrate_quotes_attr("lookup_value", force_import=True),
                     [ast.Tuple(elts=[ast.Constant(value=name),
                                      ast.Constant(value=frozen_value)])],
-- 
2.43.0


From 9eab7d9838dfbd54eed229fc2e41200553778169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 14/58] fix: support complex numbers in quasiquotes

`q[1j]` and `u[1j]` raised TypeError.
---
 mcpyrate/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 57d87b5..4f4aa3e 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -717,7 +717,7 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
 
         # Builtin types. Mainly support for `u[]`, but also used by the
         # general case for AST node fields that contain bare values.
-        elif T in (int, float, str, bytes, bool, type(None), type(...)):
+        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):
             return ast.Constant(value=x)
 
         elif T is list:
-- 
2.43.0


From ee68aa07d95e6048d8216bb3205ce306986bf8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 15/58] fix: splice AST literals anywhere in the quoted AST

The splicer recursed only into list fields, so `q[1 + f(a[lst])]` was reported as a misplaced
unquote; and it stopped with a TypeError at lists that hold bare values, as in `q[{**d}]`.
---
 mcpyrate/quotes.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 4f4aa3e..6ca954a 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -223,16 +223,12 @@ def splice_ast_literals(tree, filename):
                     doit(item)
                     newthing.append(item)
             thing[:] = newthing
-        # As of Python 3.9, `Global` and `Nonlocal` are the only AST node types
-        # where a field contains a `list` of bare strings.
-        elif isinstance(thing, (ast.Global, ast.Nonlocal)):
-            pass
         elif isinstance(thing, ast.AST):
             for fieldname, value in ast.iter_fields(thing):
-                if isinstance(value, list):
-                    doit(value)
-        else:
-            raise TypeError(f"Expected `list` or AST node, got {type(thing)} with value {repr(thing)}")
+                doit(value)
+        # else a bare value: e.g. the names in a `Global`, or a `None` in the keys of a `Dict` (dictionary unpacking)
+    if not isinstance(tree, (list, ast.AST)):
+        raise TypeError(f"Expected `list` or AST node, got {type(tree)} with value {repr(tree)}")
     doit(tree)
 
     try:
-- 
2.43.0


From 8eb8c02da9e2af31f5a17862d60edfa6644fd5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 16/58] fix: fix the ctx of a node that appears twice in the
 same parent

When the same node instance was both the target and the value (or the target and the iterable,
etc.), both got the ctx of the latter; and the shallow copy of a shared tuple or list shared its
elements with the original, so that those got the wrong ctx in one of the positions.
---
 mcpyrate/astfixers.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index 78545f8..f880dc3 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -3,9 +3,9 @@
 
 __all__ = ["fix_ctx", "fix_locations"]
 
-from ast import (AnnAssign, Assign, AsyncFor, Attribute, AugAssign, Del,
+from ast import (AST, AnnAssign, Assign, AsyncFor, Attribute, AugAssign, Del,
                  Delete, For, Load, Store, Subscript, comprehension,
-                 iter_child_nodes, withitem)
+                 iter_child_nodes, iter_fields, withitem)
 from copy import copy
 
 from .astcompat import NamedExpr, TypeAlias
@@ -21,22 +21,40 @@ class _CtxFixer(walkers.ASTTransformer):
         self._seen = set()
 
     def transform(self, tree):
-        tree = self._fix_one(tree)
+        self._fix_one(tree)
+        if self.copy_seen_nodes:
+            self._copy_seen_children(tree)
         self._setup_subtree_contexts(tree)
         return self.generic_visit(tree)
 
     def _fix_one(self, tree):
         """Fix one `ctx` attribute, using the currently active ctx class."""
         if "ctx" in type(tree)._fields:
-            if self.copy_seen_nodes:
-                # Shallow-copy `tree` if already seen. This mode is used in the
-                # global postprocess pass. Note only nodes whose `ctx` we have
-                # already updated are considered seen.
-                if id(tree) in self._seen:
-                    tree = copy(tree)
             tree.ctx = self.state.ctxclass()
-            self._seen.add(id(tree))
-        return tree
+
+    def _copy_seen_children(self, tree):
+        """Shallow-copy those children of `tree` that have a `ctx`, and that have been already seen.
+
+        This mode is used in the global postprocess pass. This must be done before setting up
+        the contexts for the children, because the children are identified by their `id`;
+        the same node might be both e.g. the target and the value of the same assignment.
+        """
+        def unique(child):
+            if "ctx" in getattr(type(child), "_fields", ()):
+                if id(child) in self._seen:
+                    child = copy(child)
+                self._seen.add(id(child))
+            return child
+        for fieldname, old in iter_fields(tree):
+            if isinstance(old, list):
+                # A shallow copy of a `Tuple` or `List` shares its `elts`, so we must not edit the `list` in-place.
+                new = [unique(child) for child in old]
+                if any(a is not b for a, b in zip(old, new)):
+                    setattr(tree, fieldname, new)
+            elif isinstance(old, AST):
+                new = unique(old)
+                if new is not old:
+                    setattr(tree, fieldname, new)
 
     def _setup_subtree_contexts(self, tree):
         """Autoselect correct `ctx` class for subtrees of `tree`."""
-- 
2.43.0


From 138cf7a3a56af18cacc04f35b99b4b0d680975e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 17/58] fix: delete a marker that has no body

---
 mcpyrate/markers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/markers.py b/mcpyrate/markers.py
index 6f073d8..640b710 100644
--- a/mcpyrate/markers.py
+++ b/mcpyrate/markers.py
@@ -63,6 +63,8 @@ def delete_markers(tree, cls=ASTMarker):
     class ASTMarkerDeleter(walkers.ASTTransformer):
         def transform(self, tree):
             if isinstance(tree, cls):
+                if tree.body is None:  # e.g. the result of `visit_once`, when a macro deleted everything
+                    return None
                 return self.visit(tree.body)
             return self.generic_visit(tree)
     return ASTMarkerDeleter().visit(tree)
-- 
2.43.0


From 9a2507a62b7ac5a6d56cf07647995822eb3fead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:17 +0000
Subject: [PATCH 18/58] fix: raise AttributeError for a missing attribute of a
 Bunch, support copying

---
 mcpyrate/bunch.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/bunch.py b/mcpyrate/bunch.py
index 9277e4a..5028eb7 100644
--- a/mcpyrate/bunch.py
+++ b/mcpyrate/bunch.py
@@ -25,6 +25,7 @@ class Bunch:
     def copy(self):
         """Return a copy of this `Bunch`."""
         return Bunch(**{k: v for k, v in self._data.items()})
+    __copy__ = copy  # support `copy.copy`
     def replace(self, other):
         """Replace all data in this `Bunch` with data from the `other` one (shallow-copying it)."""
         if not isinstance(other, Bunch):
@@ -32,7 +33,12 @@ class Bunch:
         self._data = other.copy()._data
 
     def __getattr__(self, name):
-        return self._data[name]
+        if name in ("_data", "_reserved_names"):  # not initialized yet (when copying or unpickling)
+            raise AttributeError(name)
+        try:
+            return self._data[name]
+        except KeyError:
+            raise AttributeError(f"{type(self).__name__!r} object has no attribute {name!r}") from None
     def __setattr__(self, name, value):
         if name in ("_data", "_reserved_names"):
             return super().__setattr__(name, value)
@@ -40,7 +46,10 @@ class Bunch:
             raise AttributeError(f"Cannot write to reserved attribute '{name}'")
         self._data[name] = value
     def __delattr__(self, name):
-        del self._data[name]
+        try:
+            del self._data[name]
+        except KeyError:
+            raise AttributeError(f"{type(self).__name__!r} object has no attribute {name!r}") from None
 
     # Container, Iterable, Sized
     def __contains__(self, name):
-- 
2.43.0


From e7e5e95e3e8cec9cc6470715630ec5883dda7edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:23 +0000
Subject: [PATCH 19/58] fix: getdocstring returns only strings

---
 mcpyrate/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index b734f7e..f71749c 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -189,7 +189,7 @@ def getdocstring(body):
     if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):
         docstring_node = body[0].value  # Expr -> Expr.value
         if type(docstring_node) is ast.Constant:
-            return docstring_node.value
+            return docstring_node.value if isinstance(docstring_node.value, str) else None
         # TODO: remove ast.Str once we bump minimum language version to Python 3.8
         else:  # ast.Str
             return docstring_node.s
-- 
2.43.0


From 6adc3249f17f6c1d5665e02d78c81198991e4a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 20/58] fix: rename also in mapping and class patterns and type
 parameters

---
 mcpyrate/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index f71749c..27b20f7 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -9,7 +9,7 @@ import ast
 from contextlib import contextmanager
 import uuid
 
-from .astcompat import MatchAs, MatchStar
+from .astcompat import MatchAs, MatchClass, MatchMapping, MatchStar, ParamSpec, TypeVar, TypeVarTuple
 from .colorizer import colorize, ColorScheme
 from . import markers
 from . import unparser
@@ -142,6 +142,14 @@ def rename(oldname, newname, tree):
             elif T in (MatchAs, MatchStar):  # Python 3.10+: `match`/`case` (pattern matching)
                 if tree.name == oldname:
                     tree.name = newname
+            elif T is MatchMapping:
+                if tree.rest == oldname:
+                    tree.rest = newname
+            elif T is MatchClass:
+                tree.kwd_attrs = [newname if name == oldname else name for name in tree.kwd_attrs]
+            elif T in (TypeVar, ParamSpec, TypeVarTuple):  # Python 3.12+: type parameters
+                if tree.name == oldname:
+                    tree.name = newname
             # Python 3.12+: `type` statement needs no special-casing here, as it uses a `Name` node for its LHS.
             return self.generic_visit(tree)
     return Renamer().visit(tree)
-- 
2.43.0


From c08ecdedffdf241686d089ec85bedcb6a8395450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:35 +0000
Subject: [PATCH 21/58] fix: don't follow symbolic links when deleting bytecode
 caches

---
 mcpyrate/pycachecleaner.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index 15cf21b..86fa833 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -38,6 +38,10 @@ def _delete_directory_recursively(path):
     Ignores `FileNotFoundError`, but other errors raise. If an error occurs,
     some files and directories may already have been deleted.
     """
+    if os.path.islink(path):  # `os.walk` would follow it
+        os.unlink(path)
+        return
+
     for root, dirs, files in os.walk(path, topdown=False, followlinks=False):
         for x in files:
             try:
@@ -47,7 +51,11 @@ def _delete_directory_recursively(path):
 
         for x in dirs:
             try:
-                os.rmdir(os.path.join(root, x))
+                fullpath = os.path.join(root, x)
+                if os.path.islink(fullpath):  # symbolic link to a directory
+                    os.unlink(fullpath)
+                else:
+                    os.rmdir(fullpath)
             except FileNotFoundError:
                 pass
 
-- 
2.43.0


From b686ca6b730947f264839d1fb57ba712096070f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 22/58] fix: report the original exception when a macro's
 generator raises

---
 mcpyrate/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/core.py b/mcpyrate/core.py
index ceaf117..25c8828 100644
--- a/mcpyrate/core.py
+++ b/mcpyrate/core.py
@@ -9,7 +9,7 @@ from ast import AST, NodeTransformer
 from collections import ChainMap
 from contextlib import contextmanager
 from copy import deepcopy
-from typing import Any, Callable, Dict, List
+from typing import Any, Callable, Dict, Iterator, List
 
 from .astfixers import fix_ctx, fix_locations
 from .markers import ASTMarker, delete_markers
@@ -252,6 +252,11 @@ class BaseMacroExpander(NodeTransformer):
             expansion = self._apply_macro(macro, tree, kw, macroname, target)
 
             # Convert possible iterable result to `list`, then typecheck macro output.
+            #
+            # A generator runs code of the macro, so any exceptions from that are
+            # exceptions raised by the macro, not due to an incorrect return type.
+            if isinstance(expansion, Iterator):
+                expansion = list(expansion)
             try:
                 if expansion is not None and not isinstance(expansion, AST):
                     expansion = list(expansion)
-- 
2.43.0


From 344b49e120c1f3769eb39b5844198e1f9e087183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 23/58] fix: make the block modes of expand1sq and expandsq
 work

---
 mcpyrate/metatools.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 1eddfce..3bf3aa5 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -184,10 +184,14 @@ def expand1sq(tree, *, syntax, **kw):
     if syntax not in ("expr", "block"):
         raise SyntaxError("`expand1sq` is an expr and block macro only")
     tree = q(tree, syntax=syntax, **kw)
-    kw = dict(kw)
-    if "optional_vars" in kw:  # the asname was meant for `q`, `expand1s` doesn't take it.
-        kw["optional_vars"] = None
-    return expand1s(tree, syntax=syntax, **kw)
+    if syntax == "expr":
+        return expand1s(tree, syntax=syntax, **kw)
+    else:
+        assert syntax == "block"
+        assert type(tree) is ast.Assign
+        # The value being assigned is an expression, which is what is to be expanded.
+        tree.value = expand1s(tree.value, syntax="expr", **kw)
+        return tree
 
 
 def expandsq(tree, *, syntax, **kw):
@@ -212,10 +216,14 @@ def expandsq(tree, *, syntax, **kw):
     if syntax not in ("expr", "block"):
         raise SyntaxError("`expandsq` is an expr and block macro only")
     tree = q(tree, syntax=syntax, **kw)
-    kw = dict(kw)
-    if "optional_vars" in kw:
-        kw["optional_vars"] = None
-    return expands(tree, syntax=syntax, **kw)
+    if syntax == "expr":
+        return expands(tree, syntax=syntax, **kw)
+    else:
+        assert syntax == "block"
+        assert type(tree) is ast.Assign
+        # The value being assigned is an expression, which is what is to be expanded.
+        tree.value = expands(tree.value, syntax="expr", **kw)
+        return tree
 
 
 def expand1s(tree, *, syntax, expander, **kw):
-- 
2.43.0


From f5dc19b72fa852b079c77a46c8b80b75374c1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 24/58] fix: accept name macros and q[h[macro]] in expand_first

---
 mcpyrate/metatools.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 3bf3aa5..5754306 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -48,7 +48,7 @@ from .astfixers import fix_locations  # noqa: F401, used in macro output.
 from .coreutils import _mcpyrate_attr
 from .debug import step_expansion  # noqa: F401, used in macro output.
 from .expander import MacroExpander, namemacro, parametricmacro
-from .quotes import astify, capture_value, q, unastify
+from .quotes import Capture, astify, capture_value, q, unastify
 from .unparser import unparse_with_fallbacks
 from .utils import extract_bindings
 
@@ -511,7 +511,21 @@ def expand_first(tree, *, args, syntax, expander, **kw):
     # We must use the full `bindings`, not only those of the quasiquote operators
     # (see `mcpyrate.quotes._expand_quasiquotes`), so that the expander recognizes
     # which hygienic captures are macros.
-    args = MacroExpander(expander.bindings, filename=expander.filename).visit(args)
+    #
+    # A bare name is already what we want; visiting it would expand it, if it is the name
+    # of a name macro.
+    def resolve(arg):
+        if type(arg) is ast.Name:
+            return arg
+        expanded = MacroExpander(expander.bindings, filename=expander.filename).visit(arg)
+        try:
+            capture = unastify(expanded)
+        except (TypeError, NotImplementedError):  # not quasiquoted
+            return expanded
+        if type(capture) is Capture and type(capture.body) is ast.Name:
+            return capture.body
+        return expanded
+    args = [resolve(arg) for arg in args]
 
     # In the arguments, we should now have `Name` nodes only.
     invalid_args = [node for node in args if type(node) is not ast.Name]
-- 
2.43.0


From 669a28d5cb9381ad393576b78ca675c5b5b270a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 25/58] fix: don't fail in the dump mode of step_expansion when
 a macro returns None

---
 mcpyrate/debug.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/debug.py b/mcpyrate/debug.py
index 1c55fed..b25d444 100644
--- a/mcpyrate/debug.py
+++ b/mcpyrate/debug.py
@@ -91,7 +91,10 @@ def step_expansion(tree, *, args, syntax, expander, **kw):
             raise ValueError(f"unknown argument {repr(v)}")
 
         if v == "dump":
-            formatter = functools.partial(dump, include_attributes=True, color=True)
+            def formatter(tree):
+                if not isinstance(tree, (ast.AST, list)):  # e.g. `None`, if a macro deleted the tree
+                    return repr(tree)
+                return dump(tree, include_attributes=True, color=True)
         elif v == "detailed":
             print_details = True
 
-- 
2.43.0


From 5ccb1de84c0a81cbed55cb0f22e35c3efc6c352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 26/58] fix: end a dialect-import at the end of its line in
 source transformation

---
 mcpyrate/dialects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index 0f53c46..6112903 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -164,7 +164,7 @@ class StepExpansion(Dialect):  # actually part of public API of mcpyrate.debug,
 
 # --------------------------------------------------------------------------------
 
-_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\]+)\s*$",
+_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,[^\S\n]+([^(\\\n]+)[^\S\n]*$",
                             flags=re.MULTILINE)
 class DialectExpander:
     """The dialect expander.
-- 
2.43.0


From a6c48ccdb5249f9ffad97b63aa00b2bf15050583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 27/58] fix: split_futureimports with an empty docstring or
 nothing but future-imports

---
 mcpyrate/coreutils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 248abf8..540bf47 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -266,19 +266,16 @@ def split_futureimports(body):
     Return value is `[docstring, future_imports, the_rest]`, where each item
     is a list of `ast.stmt` (possibly empty).
     """
-    if getdocstring(body):
+    if getdocstring(body) is not None:  # the docstring may be empty
         docstring, *body = body
         docstring = [docstring]
     else:
         docstring = []
 
-    k = -1  # ensure `k` gets defined even if `body` is empty
-    for k, bstmt in enumerate(body):
-        if not isfutureimport(bstmt):
-            break
-    if k >= 0:
-        return docstring, body[:k], body[k:]
-    return docstring, [], body
+    k = 0
+    while k < len(body) and isfutureimport(body[k]):
+        k += 1
+    return docstring, body[:k], body[k:]
 
 def inject_after_futureimports(stmts, body):
     """Inject one or more statements into `body` after its `__future__` imports.
-- 
2.43.0


From 181c085979d858aa5e19492e77ab8bf30a0a685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 28/58] fix: make the combined docstring of splice_dialect a
 statement

---
 mcpyrate/splicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 7ff3e19..390823b 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -266,7 +266,8 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
         template_doc = getdocstring(template_docstring)
         sep = "\n" + ("-" * 79) + "\n"
         new_doc = user_doc + sep + template_doc
-        new_docstring = ast.copy_location(ast.Constant(value=new_doc),
+        new_docstring = ast.copy_location(ast.Expr(value=ast.copy_location(ast.Constant(value=new_doc),
+                                                                           user_docstring[0])),
                                           user_docstring[0])
         docstring = [new_docstring]
     else:
-- 
2.43.0


From b844fe1b6dc5f52d2521aebde6f50eb6d8b1fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 29/58] fix: remove also an automatically named temporary
 module

---
 mcpyrate/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 47b027e..3f8b444 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -569,8 +569,9 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     temporary modules will not pollute `sys.modules` beyond their
     useful lifetime.
     """
+    module = create_module(dotted_name, filename, update_parent=update_parent)
+    dotted_name = module.__name__  # may be auto-generated
     try:
-        module = create_module(dotted_name, filename, update_parent=update_parent)
         yield module
     finally:
         try:
-- 
2.43.0


From b6ce5edfe0f153b6d9efc19ec5ac64a2729c5da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 30/58] fix: accept a single AST node as a template for
 splicing

---
 mcpyrate/splicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 390823b..9ba80a8 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -132,7 +132,7 @@ def splice_statements(body, template, tag="__paste_here__"):
     if isinstance(body, ast.AST):
         body = [body]
     if isinstance(template, ast.AST):
-        body = [template]
+        template = [template]
     if not body:
         raise ValueError("expected at least one statement in `body`")
     if not template:
-- 
2.43.0


From c1a02f17ba662dbf5b451187911b6bde87edc787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 31/58] fix: fill in the end location also from a reference
 node that has only a start location

---
 mcpyrate/astfixers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index f880dc3..609b031 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -172,6 +172,11 @@ def fix_locations(tree, reference_node, *, mode):
         if "end_col_offset" in tree._attributes:
             tree.end_col_offset = end_col_offset
 
+    # The end position is optional (and by default, equal to the start position) for some AST node types, but mandatory for e.g. `match` patterns.
+    def _get_end(tree, attr):
+        end = getattr(tree, f"end_{attr}", None)
+        return end if end is not None else getattr(tree, attr)
+
     def _fix(tree, lineno, col_offset, end_lineno, end_col_offset):
         if tree is None:
             return
@@ -187,7 +192,7 @@ def fix_locations(tree, reference_node, *, mode):
                     update_lineno(tree, lineno, end_lineno)
                 elif mode == "update":
                     lineno = tree.lineno
-                    end_lineno = tree.end_lineno if hasattr(tree, "end_lineno") else None
+                    end_lineno = _get_end(tree, "lineno")
         if "col_offset" in tree._attributes:
             if mode == "overwrite":
                 update_col_offset(tree, col_offset, end_col_offset)
@@ -196,12 +201,12 @@ def fix_locations(tree, reference_node, *, mode):
                     update_col_offset(tree, col_offset, end_col_offset)
                 elif mode == "update":
                     col_offset = tree.col_offset
-                    end_col_offset = tree.end_col_offset if hasattr(tree, "end_col_offset") else None
+                    end_col_offset = _get_end(tree, "col_offset")
         for child in iter_child_nodes(tree):
             _fix(child, lineno, col_offset, end_lineno, end_col_offset)
     _fix(tree,
          reference_node.lineno,
          reference_node.col_offset,
-         reference_node.end_lineno if hasattr(reference_node, "end_lineno") else None,
-         reference_node.end_col_offset if hasattr(reference_node, "end_col_offset") else None)
+         _get_end(reference_node, "lineno"),
+         _get_end(reference_node, "col_offset"))
     return tree
-- 
2.43.0


From f1b37bf54af1183633952eb358b139d04c746b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 32/58] fix: make splice_dialect output with two sets of
 future-imports compilable

---
 mcpyrate/splicing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 9ba80a8..8bd3073 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -273,6 +273,10 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     else:
         docstring = user_docstring or template_docstring
 
+    # Python requires that no future-import is on a later line than the last one.
+    if user_futureimports:
+        for stmt in template_futureimports:
+            fix_locations(stmt, user_futureimports[0], mode="overwrite")
     futureimports = template_futureimports + user_futureimports
 
     def extract_magic_all(tree):
-- 
2.43.0


From eea496924ada374081d4ef86b1fe6c19dc81b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 33/58] fix: match whole path components against sys.path

---
 mcpyrate/coreutils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 540bf47..f0ee6ca 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -57,15 +57,16 @@ def match_syspath(filename):
 
     If `filename` is not under any directory in `sys.path`, raises `ValueError`.
     """
-    absolute_filename = str(pathlib.Path(filename).expanduser().resolve())
+    absolute_path = pathlib.Path(filename).expanduser().resolve()
+    absolute_filename = str(absolute_path)
     # Match deeper paths first; for readability, break ties lexicographically.
     # This allows the matching to work also if e.g. both `/home/user/.local/`
     # and `/home/user/.local/lib/python3.8/site-packages/` end up on `sys.path`.
-    def sortkey(s):
-        return -s.count(os.path.sep), s
-    for root_path in sorted(sys.path, key=sortkey):
-        root_path = pathlib.Path(root_path).expanduser().resolve()
-        if absolute_filename.startswith(str(root_path)):
+    def sortkey(path):
+        return -len(path.parts), str(path)
+    # Compare whole path components, so that `/home/user/lib` does not match `/home/user/library/x.py`.
+    for root_path in sorted((pathlib.Path(s).expanduser().resolve() for s in sys.path), key=sortkey):
+        if root_path == absolute_path or root_path in absolute_path.parents:
             return root_path
     resolved = f" (resolved to {absolute_filename})" if absolute_filename != str(filename) else ""
     raise ValueError(f"{filename}{resolved} not under any directory in `sys.path`")
-- 
2.43.0


From 18bdd5cbe881684f3ddc50fbb3c46d92820ec0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 34/58] fix: use the optimization level for higher-phase
 modules

---
 mcpyrate/multiphase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index a68ab5e..7535ae7 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -400,7 +400,7 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
             # Compile the current tree, and run it in the namespace of the temporary module. This
             # gives us the temporary higher-phase module, which allows us to compile the next phase.
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
-            compiler.run(phase_k_tree, module)
+            compiler.run(phase_k_tree, module, optimize=_optimize)
 
     # restore `sys.modules` to how it was before we began the multi-phase compile for this module
     if original_module:
-- 
2.43.0


From 1153104b2fca956df4372ea2272ce5b02fd53f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 35/58] fix: show the output of generator macros in detailed
 `step_expansion`

---
 mcpyrate/core.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/core.py b/mcpyrate/core.py
index 25c8828..cfd357e 100644
--- a/mcpyrate/core.py
+++ b/mcpyrate/core.py
@@ -252,11 +252,6 @@ class BaseMacroExpander(NodeTransformer):
             expansion = self._apply_macro(macro, tree, kw, macroname, target)
 
             # Convert possible iterable result to `list`, then typecheck macro output.
-            #
-            # A generator runs code of the macro, so any exceptions from that are
-            # exceptions raised by the macro, not due to an incorrect return type.
-            if isinstance(expansion, Iterator):
-                expansion = list(expansion)
             try:
                 if expansion is not None and not isinstance(expansion, AST):
                     expansion = list(expansion)
@@ -330,6 +325,12 @@ class BaseMacroExpander(NodeTransformer):
 
         newtree = macro(tree, **kw)
 
+        # A generator runs code of the macro, so any exceptions from that are
+        # exceptions raised by the macro, not due to an incorrect return type.
+        # Also, the debug hook needs to see the actual output.
+        if isinstance(newtree, Iterator):
+            newtree = list(newtree)
+
         if self._debughook:
             self._debughook(oldid, oldtree, newtree, macroname, macro)
         return newtree
-- 
2.43.0


From 9ed5e1711dd601d20fcccc1b40126c7099d2b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 36/58] fix: unparse an empty set

---
 mcpyrate/unparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 9818c5f..97544c3 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -725,7 +725,9 @@ class Unparser:
         self.write(")")
 
     def _Set(self, t):
-        assert t.elts  # should be at least one element
+        if not t.elts:  # Macros may produce this, but the surface syntax has no literal for it (`{}` is a dict).
+            self.write("{*()}")
+            return
         self.write("{")
         interleave(lambda: self.write(", "), self.dispatch, t.elts)
         self.write("}")
-- 
2.43.0


From d5834bffa639b44d6b90632fb3eac0f457df01ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 37/58] fix: don't crash on hand-written calls in
 `is_captured_value` and `is_captured_macro`

---
 mcpyrate/quotes.py | 55 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 6ca954a..b0aa34d 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -499,19 +499,24 @@ def is_captured_value(tree):
     # This AST destructuring and constant extraction must match the format
     # of the argument lists produced by the quasiquote system for calls to
     # `capture_value` and `lookup_value`.
+    #
+    # Any other call to these functions was written by hand; that's not a capture.
+    if tree.keywords:
+        return False
     if callee.attr == "capture_value":  # the call is `capture_value(..., name)`
+        if len(tree.args) != 2 or type(tree.args[0]) is ast.Starred:
+            return False
         name_node = tree.args[1]
-        assert type(name_node) is ast.Constant and type(name_node.value) is str
+        if not _is_constant_of_type(name_node, str):
+            return False
         return (name_node.value, None)  # the value hasn't been captured yet
-    elif callee.attr == "lookup_value":  # the call is `lookup_value(key)`
-        key_node = tree.args[0]
-        name_node, frozen_value_node = key_node.elts
-        assert type(name_node) is ast.Constant and type(name_node.value) is str
-        assert type(frozen_value_node) is ast.Constant and type(frozen_value_node.value) is bytes
+    else:  # callee.attr == "lookup_value"; the call is `lookup_value(key)`
+        elts = _extract_key_elts(tree.args, (str, bytes))
+        if not elts:
+            return False
+        name_node, frozen_value_node = elts
         return (name_node.value, frozen_value_node.value)
 
-    assert False  # cannot happen
-
 
 def is_captured_macro(tree):
     """Just like `is_captured_value`, but detect a hygienically captured macro instead.
@@ -595,14 +600,36 @@ def is_captured_macro(tree):
     # This AST destructuring and constant extraction must match the format
     # of the argument lists produced by the quasiquote system for calls to
     # `lookup_macro`.
-    key_node = tree.args[0]  # the call is `lookup_macro(key)`
-    name_node, unique_name_node, frozen_macro_node = key_node.elts
-    assert type(name_node) is ast.Constant and type(name_node.value) is str
-    assert type(unique_name_node) is ast.Constant and type(unique_name_node.value) is str
-    assert type(frozen_macro_node) is ast.Constant and type(frozen_macro_node.value) is bytes
+    #
+    # Any other call to the function was written by hand; that's not a capture.
+    if tree.keywords:
+        return False
+    elts = _extract_key_elts(tree.args, (str, str, bytes))  # the call is `lookup_macro(key)`
+    if not elts:
+        return False
+    name_node, unique_name_node, frozen_macro_node = elts
     return (name_node.value, unique_name_node.value, frozen_macro_node.value)
 
 
+def _is_constant_of_type(tree, cls):
+    """Detect whether `tree` is a `Constant` node whose value is of the exact type `cls`."""
+    return type(tree) is ast.Constant and type(tree.value) is cls
+
+
+def _extract_key_elts(args, types):
+    """Destructure the argument list of a lookup call in the format used by the quasiquote system.
+
+    `args` should consist of one `Tuple` of constants, of the given `types`.
+    If it does, return the list of `Constant` nodes. Otherwise return `None`.
+    """
+    if not (len(args) == 1 and type(args[0]) is ast.Tuple and len(args[0].elts) == len(types)):
+        return None
+    elts = args[0].elts
+    if not all(_is_constant_of_type(elt, cls) for elt, cls in zip(elts, types)):
+        return None
+    return elts
+
+
 def _is_mcpyrate_quotes_reference(tree):
     """Detect whether `tree` is a reference to `mcpyrate.quotes`.
 
@@ -621,7 +648,7 @@ def _is_mcpyrate_quotes_reference(tree):
     if type(moduleref) is ast.Name and moduleref.id == "mcpyrate":
         return "direct"  # ok, direct reference
     elif (type(moduleref) is ast.Call and type(moduleref.func) is ast.Name and
-          moduleref.func.id == "__import__" and type(moduleref.args[0]) is ast.Constant and
+          moduleref.func.id == "__import__" and moduleref.args and type(moduleref.args[0]) is ast.Constant and
           moduleref.args[0].value == "mcpyrate.quotes"):
         return "import"  # ok, reference by import
     else:
-- 
2.43.0


From a735eff62783095db0fafd0e377eacc68db80b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 38/58] fix: allow importing a file that macro-imports from a
 module that has no source file

---
 mcpyrate/importer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b0db38c..7860dca 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -203,11 +203,16 @@ def path_stats(path, _stats_cache=None):
             raise SyntaxError(f"{loc}\nmissing module name in macro-import")
         module_absname = importlib.util.resolve_name('.' * macroimport.level + macroimport.module, package_absname)
 
-        spec = importlib.util.find_spec(module_absname)
-        if spec:  # self-macro-imports have no `spec`, and that's fine.
+        try:
+            spec = importlib.util.find_spec(module_absname)
+        except ValueError:  # already imported, and has no `__spec__` (e.g. created at run time by `create_module`)
+            spec = None
+        if spec and spec.has_location:  # self-macro-imports have no `spec`, and that's fine.
             origin = spec.origin
-            stats = path_stats(origin, _stats_cache)
-            mtimes.append(stats["mtime"])
+            if origin.endswith(".py"):
+                mtimes.append(path_stats(origin, _stats_cache)["mtime"])
+            else:  # no source code to scan, e.g. an extension module
+                mtimes.append(os.stat(origin).st_mtime_ns * 1e-9)
 
     mtime = stat_result.st_mtime_ns * 1e-9
     # size = stat_result.st_size
-- 
2.43.0


From 384b6225341485a83bb34bfd2a37618afed6957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:21 +0000
Subject: [PATCH 39/58] fix: allow importing a file whose dialect source
 transformer accepts text that is not Python

---
 mcpyrate/importer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 7860dca..56dba5d 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -8,6 +8,7 @@ from importlib.machinery import SourceFileLoader
 import importlib.util
 import os
 import pickle
+import re
 import sys
 import tokenize
 
@@ -94,6 +95,7 @@ def _detect_stdlib_sourcefile_paths():
 _stdlib_sourcefile_paths = _detect_stdlib_sourcefile_paths()
 
 
+_macroimport_line = re.compile(r"^(from\s+[.\w]+\s+import\s+(macros|dialects)\s*,.*)$", flags=re.MULTILINE)
 def path_stats(path, _stats_cache=None):
     """[mcpyrate] Compute a `.py` source file's mtime, accounting for macro-imports.
 
@@ -155,7 +157,21 @@ def path_stats(path, _stats_cache=None):
         # TODO: Or just document it, that the dialect definition module *must* macro-import those macros
         # TODO: even if it just injects them in the template?
         with tokenize.open(path) as sourcefile:
-            tree = ast.parse(sourcefile.read(), filename=path)
+            text = sourcefile.read()
+        try:
+            tree = ast.parse(text, filename=path)
+        except SyntaxError:
+            # With a dialect source transformer, the file does not need to be valid Python;
+            # then look at the lines that look like macro-imports or dialect-imports.
+            lines = _macroimport_line.findall(text)
+            if not any(magicname == "dialects" for _, magicname in lines):
+                raise
+            tree = ast.Module(body=[], type_ignores=[])
+            for line, _ in lines:
+                try:
+                    tree.body.extend(ast.parse(line).body)
+                except SyntaxError:
+                    pass
 
         macroimports = []
         dialectimports = []
-- 
2.43.0


From ef0fd08055616da582b2a387bf2de578acb87ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:27 +0000
Subject: [PATCH 40/58] fix: restore `sys.modules` also when multi-phase
 compilation fails

---
 mcpyrate/multiphase.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 7535ae7..42c9e48 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -362,6 +362,20 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     if debug:
         print(f"{c(CS.HEADING1)}**Multi-phase compiling module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
 
+    try:
+        return _multiphase_expand(tree, filename=filename, self_module=self_module, dexpander=dexpander,
+                                  _optimize=_optimize, highest_phase=n, debug=debug)
+    finally:
+        # restore `sys.modules` to how it was before we began the multi-phase compile for this module
+        if original_module:
+            sys.modules[self_module] = original_module
+        else:
+            sys.modules.pop(self_module, None)
+
+def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize, highest_phase, debug):
+    """The main loop of `multiphase_expand`. Leaves the temporary module in `sys.modules`."""
+    c, CS = setcolor, ColorScheme
+
     # Inject temporary module into `sys.modules`.
     #
     # Note that if the module already exists in `sys.modules`, its entry will be overwritten.
@@ -374,7 +388,7 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
     module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
 
-    for k in range(n, -1, -1):  # phase 0 is what a regular compile would do
+    for k in range(highest_phase, -1, -1):  # phase 0 is what a regular compile would do
         if debug:
             print(f"{c(CS.HEADING1)}**AST for {c(CS.ATTENTION)}PHASE {k}{c(CS.HEADING1)} of module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
 
@@ -394,21 +408,9 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
 
             # Once we hit the final phase, no more temporary modules - let the import system take over.
             if k == 0:
-                expansion = compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)
-                break
+                return compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)
 
             # Compile the current tree, and run it in the namespace of the temporary module. This
             # gives us the temporary higher-phase module, which allows us to compile the next phase.
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
             compiler.run(phase_k_tree, module, optimize=_optimize)
-
-    # restore `sys.modules` to how it was before we began the multi-phase compile for this module
-    if original_module:
-        sys.modules[self_module] = original_module
-    else:
-        try:
-            del sys.modules[self_module]
-        except KeyError:
-            pass
-
-    return expansion
-- 
2.43.0


From ca3be7aa867e5de60d52a6809c390029aa6e68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 41/58] fix: start each phase as a new module instance, as
 documented

---
 mcpyrate/multiphase.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 42c9e48..d0d19f0 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -383,10 +383,10 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize, hig
     # phase-0, fully compiled) version of this one, the reference won't be clobbered with one
     # pointing to the temporary module.
     #
-    # We must inject the temporary module only once, to keep the already compiled higher-phase
-    # stuff available in the module's namespace while the next phase is being compiled.
+    # The temporary module of the previous phase must stay there while the next phase is being compiled,
+    # to keep the already compiled higher-phase stuff available in the module's namespace.
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
-    module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+    compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
 
     for k in range(highest_phase, -1, -1):  # phase 0 is what a regular compile would do
         if debug:
@@ -410,7 +410,10 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize, hig
             if k == 0:
                 return compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)
 
-            # Compile the current tree, and run it in the namespace of the temporary module. This
+            # Compile the current tree, and run it in the namespace of a new temporary module. This
             # gives us the temporary higher-phase module, which allows us to compile the next phase.
-            # At intermediate phases, some definitions overwrite previous ones - this is ok.
-            compiler.run(phase_k_tree, module, optimize=_optimize)
+            # Each phase starts as a new module instance, so that no mutable state is carried over.
+            code, docstring = compiler._compile(phase_k_tree, filename=filename, optimize=_optimize, self_module=self_module)
+            module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+            module.__doc__ = docstring
+            exec(code, module.__dict__)
-- 
2.43.0


From 1bd22666a7cfd3952098fb0219b120990ea4ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 42/58] fix: support relative imports and macro-imports in the
 phases of a package's `__init__.py`

---
 mcpyrate/multiphase.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index d0d19f0..4f3e4b7 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -367,15 +367,33 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
                                   _optimize=_optimize, highest_phase=n, debug=debug)
     finally:
         # restore `sys.modules` to how it was before we began the multi-phase compile for this module
+        temporary_module = sys.modules.pop(self_module, None)
         if original_module:
             sys.modules[self_module] = original_module
-        else:
-            sys.modules.pop(self_module, None)
+            if temporary_module:
+                _copy_package_attributes(temporary_module, original_module)
+
+def _copy_package_attributes(source, target):
+    """If module `source` is a package, make `target` that package, with the submodules imported so far."""
+    if not hasattr(source, "__path__"):
+        return
+    target.__package__ = source.__package__
+    target.__path__ = source.__path__
+    for name, value in list(vars(source).items()):
+        if value is not None and value is sys.modules.get(f"{source.__name__}.{name}"):
+            setattr(target, name, value)
 
 def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize, highest_phase, debug):
     """The main loop of `multiphase_expand`. Leaves the temporary module in `sys.modules`."""
     c, CS = setcolor, ColorScheme
 
+    def create_temporary_module():
+        previous_module = sys.modules.get(self_module)
+        module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+        if previous_module:
+            _copy_package_attributes(previous_module, module)
+        return module
+
     # Inject temporary module into `sys.modules`.
     #
     # Note that if the module already exists in `sys.modules`, its entry will be overwritten.
@@ -386,7 +404,7 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize, hig
     # The temporary module of the previous phase must stay there while the next phase is being compiled,
     # to keep the already compiled higher-phase stuff available in the module's namespace.
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
-    compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+    create_temporary_module()
 
     for k in range(highest_phase, -1, -1):  # phase 0 is what a regular compile would do
         if debug:
@@ -414,6 +432,6 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize, hig
             # gives us the temporary higher-phase module, which allows us to compile the next phase.
             # Each phase starts as a new module instance, so that no mutable state is carried over.
             code, docstring = compiler._compile(phase_k_tree, filename=filename, optimize=_optimize, self_module=self_module)
-            module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+            module = create_temporary_module()
             module.__doc__ = docstring
             exec(code, module.__dict__)
-- 
2.43.0


From a319fa64bbb2e9f6b7eacea082d55cf950bfe72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 43/58] fix: `temporary_module` leaves the parent package clean
 also if the module was removed from `sys.modules` meanwhile

---
 mcpyrate/compiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 3f8b444..7120505 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -574,9 +574,8 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     try:
         yield module
     finally:
+        sys.modules.pop(dotted_name, None)
         try:
-            del sys.modules[dotted_name]
-
             # The standard importer doesn't do this, but it seems nice for symmetry,
             # considering the use case.
             if update_parent and dotted_name.find(".") != -1:
-- 
2.43.0


From 0b9ef4fd37be177adc93b9c48cbd0aad0c3ee4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 44/58] fix: honor the optimization level in `source_to_code`

---
 mcpyrate/importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 56dba5d..f3f94b6 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -25,7 +25,7 @@ def source_to_xcode(self, data, path, *, _optimize=-1):
     This function is monkey-patched into `importlib.machinery.SourceFileLoader`.
     """
     # `self.name` is absolute dotted module name, see `importlib.machinery.FileLoader`.
-    return compiler.compile(data, filename=path, self_module=self.name)
+    return compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)
 
 
 # TODO: Support PEP552 (Deterministic pycs). Need to intercept source file hashing, too.
-- 
2.43.0


From 1d9717a8d5bfcf0e2e5e3c563e11fb2172e9cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 45/58] fix: report errors in the source encoding like Python
 itself does

---
 mcpyrate/importer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index f3f94b6..ea64216 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -10,7 +10,6 @@ import os
 import pickle
 import re
 import sys
-import tokenize
 
 from . import compiler
 from .coreutils import resolve_package, ismacroimport
@@ -156,13 +155,17 @@ def path_stats(path, _stats_cache=None):
         # TODO: doesn't need. How to detect those? Regex-search the source text?
         # TODO: Or just document it, that the dialect definition module *must* macro-import those macros
         # TODO: even if it just injects them in the template?
-        with tokenize.open(path) as sourcefile:
-            text = sourcefile.read()
+        with open(path, "rb") as sourcefile:
+            source = sourcefile.read()
         try:
-            tree = ast.parse(text, filename=path)
-        except SyntaxError:
+            tree = ast.parse(source, filename=path)  # parse the `bytes`, to report any errors like Python itself does
+        except SyntaxError as err:
             # With a dialect source transformer, the file does not need to be valid Python;
             # then look at the lines that look like macro-imports or dialect-imports.
+            try:
+                text = importlib.util.decode_source(source)
+            except Exception:
+                raise err
             lines = _macroimport_line.findall(text)
             if not any(magicname == "dialects" for _, magicname in lines):
                 raise
-- 
2.43.0


From 8a9410e36bbffbff31d821c516b757bc6566f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 46/58] fix: detect a change in source file size, like Python
 itself does

---
 mcpyrate/importer.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index ea64216..282cecc 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -234,15 +234,11 @@ def path_stats(path, _stats_cache=None):
                 mtimes.append(os.stat(origin).st_mtime_ns * 1e-9)
 
     mtime = stat_result.st_mtime_ns * 1e-9
-    # size = stat_result.st_size
     mtimes.append(mtime)
 
-    # Docs say `size` is optional, and this is correct in CPython 3.6 (and in PyPy3 7.3.0, language version 3.6):
-    #     https://docs.python.org/3/library/importlib.html#importlib.abc.SourceLoader.path_stats
-    # but in CPython 3.7 and later, the implementation is expecting at least a `None` there,
-    # if the `size` is not used. See `get_code` in:
+    # The `size` is that of the source file itself, because that is what Python stores in the `.pyc`. See `get_code` in:
     #     https://github.com/python/cpython/blob/master/Lib/importlib/_bootstrap_external.py
-    # Since our minimum is Python 3.8, let's put `size` there.
-    result = {"mtime": max(mtimes), "size": None}  # and sum(sizes)? OTOH, as of Python 3.8, only 'mtime' is mandatory.
+    # It detects most edits made during the same second, which is the resolution of the timestamp in the `.pyc`.
+    result = {"mtime": max(mtimes), "size": stat_result.st_size}
     _stats_cache[path] = result
     return result
-- 
2.43.0


From fd9ecfb2740e8e93576c5214d9dc7123e71180ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 47/58] fix: decode source files with old Mac newlines like
 Python itself does

---
 mcpyrate/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 7120505..2127c04 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -146,7 +146,8 @@ def expand(source, filename, optimize=-1, self_module=None):
 
     if isinstance(source, (str, bytes)):
         if isinstance(source, bytes):
-            text = importlib.util.decode_source(source)  # uses the "coding" prop line like Python itself does
+            # This uses the "coding" prop line like Python itself does. It only recognizes lines that end in `\n`, so convert first.
+            text = importlib.util.decode_source(source.replace(b"\r\n", b"\n").replace(b"\r", b"\n"))
         else:
             text = source
 
-- 
2.43.0


From 655b7ac6f00d76c952098c0b8782d5ba81c14863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 48/58] fix: track also indented and parenthesized
 macro-imports when the surface syntax is not Python

---
 mcpyrate/importer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 282cecc..a33f5c3 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -94,7 +94,7 @@ def _detect_stdlib_sourcefile_paths():
 _stdlib_sourcefile_paths = _detect_stdlib_sourcefile_paths()
 
 
-_macroimport_line = re.compile(r"^(from\s+[.\w]+\s+import\s+(macros|dialects)\s*,.*)$", flags=re.MULTILINE)
+_macroimport_line = re.compile(r"^[ \t]*from[ \t]+([.\w]+)[ \t]+import[ \t]*(?:\(\s*|[ \t])(macros|dialects)[ \t]*,", flags=re.MULTILINE)
 def path_stats(path, _stats_cache=None):
     """[mcpyrate] Compute a `.py` source file's mtime, accounting for macro-imports.
 
@@ -169,10 +169,11 @@ def path_stats(path, _stats_cache=None):
             lines = _macroimport_line.findall(text)
             if not any(magicname == "dialects" for _, magicname in lines):
                 raise
+            # Only the name of the module matters here. Allow for any indentation (`with phase`) and for parentheses.
             tree = ast.Module(body=[], type_ignores=[])
-            for line, _ in lines:
+            for modulename, magicname in lines:
                 try:
-                    tree.body.extend(ast.parse(line).body)
+                    tree.body.extend(ast.parse(f"from {modulename} import {magicname}").body)
                 except SyntaxError:
                     pass
 
-- 
2.43.0


From 30de7d55c96a32afede4c9c103652220be6ec34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 49/58] fix: fix_ctx: handle an expression without ctx that is
 shared inside a subscript target

---
 mcpyrate/astfixers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index 609b031..21f9b6d 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -4,7 +4,7 @@
 __all__ = ["fix_ctx", "fix_locations"]
 
 from ast import (AST, AnnAssign, Assign, AsyncFor, Attribute, AugAssign, Del,
-                 Delete, For, Load, Store, Subscript, comprehension,
+                 Delete, For, Load, Store, Subscript, comprehension, expr,
                  iter_child_nodes, iter_fields, withitem)
 from copy import copy
 
@@ -33,14 +33,16 @@ class _CtxFixer(walkers.ASTTransformer):
             tree.ctx = self.state.ctxclass()
 
     def _copy_seen_children(self, tree):
-        """Shallow-copy those children of `tree` that have a `ctx`, and that have been already seen.
+        """Shallow-copy those children of `tree` that are expressions, and that have been already seen.
 
         This mode is used in the global postprocess pass. This must be done before setting up
         the contexts for the children, because the children are identified by their `id`;
         the same node might be both e.g. the target and the value of the same assignment.
+
+        This concerns also expressions that have no `ctx` of their own, because their subexpressions do.
         """
         def unique(child):
-            if "ctx" in getattr(type(child), "_fields", ()):
+            if isinstance(child, expr):
                 if id(child) in self._seen:
                     child = copy(child)
                 self._seen.add(id(child))
@@ -112,7 +114,7 @@ def fix_ctx(tree, *, copy_seen_nodes):
     """Fix `ctx` attributes in `tree`.
 
     If `copy_seen_nodes=True`, then, if the same AST node instance appears
-    multiple times, and the node requires a `ctx`, shallow-copy it the second
+    multiple times, and the node is an expression, shallow-copy it the second
     and further times it is encountered. This prevents problems if the same
     node instance has been spliced into two or more positions that require
     different `ctx`.
-- 
2.43.0


From 56bf8bed63b1e85ec42135303e1173dd1edf341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 50/58] fix: MacroConsole: input whose last line ends in a
 question mark, but is not an inspection command

---
 mcpyrate/repl/console.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index e3c5cc7..9218767 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -115,6 +115,15 @@ class MacroConsole(code.InteractiveConsole):
         code = compile(tree, "<console internal>", "single", self.compile.compiler.flags, 1)
         self.runcode(code)
 
+    def _inspect(self, command, source):
+        """Run the special REPL command `command` (a function in `mcpyrate.repl.utils`) on the expression `source`."""
+        try:
+            # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
+            self._internal_execute(f"mcpyrate.repl.utils.{command}({source})")
+        except (OverflowError, SyntaxError, ValueError):
+            self.showsyntaxerror(self.filename)
+        return False  # complete input
+
     def interact(self, banner=None, exitmsg=None):
         """See `code.InteractiveConsole.interact`.
 
@@ -135,16 +144,20 @@ class MacroConsole(code.InteractiveConsole):
         if source == "macros?":
             self.write(format_bindings(self.expander, color=True))
             return False  # complete input
-        elif source.endswith("??"):
-            # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
-            return self._internal_execute(f"mcpyrate.repl.utils.sourcecode({source[:-2]})")
-        elif source.endswith("?"):
-            return self._internal_execute(f"mcpyrate.repl.utils.doc({source[:-1]})")
 
         try:
             code = self.compile(source, filename, symbol)
         except (OverflowError, SyntaxError, ValueError):
             code = ""
+
+        # These commands are not valid Python, so the above fails for them. On the other hand,
+        # a comment, or a line inside a multiline string, may end in a question mark.
+        if code == "":
+            if source.endswith("??"):
+                return self._inspect("sourcecode", source[:-2])
+            elif source.endswith("?"):
+                return self._inspect("doc", source[:-1])
+
         if code is None:  # incomplete input
             return True
 
-- 
2.43.0


From b63a1ae061b532bfc5518210aa7f3e470cfedad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 51/58] fix: MacroConsole: import macro functions as they are
 bound, whatever their names

---
 mcpyrate/repl/console.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 9218767..68a1346 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -40,7 +40,7 @@ class MacroConsole(code.InteractiveConsole):
     def __init__(self, locals=None, filename="<interactive input>"):
         """Parameters like in `code.InteractiveConsole`."""
         self.expander = MacroExpander(bindings={}, filename=filename)
-        self._macro_bindings_changed = False
+        self._new_macro_bindings = {}
 
         if locals is None:
             locals = {}
@@ -176,7 +176,7 @@ class MacroConsole(code.InteractiveConsole):
             bindings = find_macros(tree, filename=self.expander.filename,
                                    reload=True, self_module=_magic_module_name)
             if bindings:
-                self._macro_bindings_changed = True
+                self._new_macro_bindings.update(bindings)
                 self.expander.bindings.update(bindings)
             tree = self.expander.visit(tree)
             tree = global_postprocess(tree)
@@ -206,20 +206,8 @@ class MacroConsole(code.InteractiveConsole):
 
         Called after successfully compiling and running an input, so that
         `some_macro.__doc__` points to the right docstring.
+
+        Only the macros imported by that input are refreshed.
         """
-        if not self._macro_bindings_changed:
-            return
-        self._macro_bindings_changed = False
-
-        for asname, function in self.expander.bindings.items():
-            # Catch broken bindings due to erroneous imports in user code
-            # (e.g. accidentally to a module object instead of to a function object)
-            if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):
-                continue
-            if not function.__module__:    # Macros defined in the REPL have `__module__=None`.
-                continue
-            try:
-                source = f"from {function.__module__} import {function.__qualname__} as {asname}"
-                self._internal_execute(source)
-            except (ModuleNotFoundError, ImportError):
-                pass
+        self.locals.update(self._new_macro_bindings)
+        self._new_macro_bindings = {}
-- 
2.43.0


From a6780eacda6fe896640a764dfac73ac8adb802a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 52/58] fix: MacroConsole: report any error in macro-imports
 and macro expansion, and then change nothing

---
 mcpyrate/repl/console.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 68a1346..be992f4 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -22,6 +22,7 @@ import code
 import copy
 import sys
 import textwrap
+import traceback
 
 from .. import __version__ as mcpyrate_version
 from ..compiler import create_module
@@ -161,6 +162,8 @@ class MacroConsole(code.InteractiveConsole):
         if code is None:  # incomplete input
             return True
 
+        old_bindings = copy.copy(self.expander.bindings)
+        success = False
         try:
             # TODO: If we want to support dialects in the REPL, this is where to do it.
             #       Look at `mcpyrate.compiler.compile`.
@@ -175,16 +178,27 @@ class MacroConsole(code.InteractiveConsole):
             sys.modules[_magic_module_name].__dict__.update(self.magic_module_metadata)
             bindings = find_macros(tree, filename=self.expander.filename,
                                    reload=True, self_module=_magic_module_name)
-            if bindings:
-                self._new_macro_bindings.update(bindings)
-                self.expander.bindings.update(bindings)
+            self.expander.bindings.update(bindings)
             tree = self.expander.visit(tree)
             tree = global_postprocess(tree)
 
             tree = ast.Interactive(tree.body)
             code = compile(tree, filename, symbol, self.compile.compiler.flags, 1)
-        except (OverflowError, SyntaxError, ValueError, MacroExpansionError):
-            self.showsyntaxerror(filename)
+            success = True
+        except MacroExpansionError as err:
+            # The linked (`__cause__`) exceptions tell what actually went wrong, so show them, too.
+            # To avoid noise, discard the traceback of the macro-expansion error itself.
+            sys.last_type, sys.last_value, sys.last_traceback = type(err), err, err.__traceback__
+            if sys.excepthook is sys.__excepthook__:
+                self.write("".join(traceback.format_exception(type(err), err, None)))
+            else:
+                sys.excepthook(type(err), err, err.__traceback__)
+            return False  # erroneous input
+        except (OverflowError, SyntaxError, ValueError) as err:
+            if getattr(err, "filename", None) in (None, filename, self.filename):
+                self.showsyntaxerror(filename)
+            else:  # in a module imported by the input
+                self.showtraceback()
             return False  # erroneous input
         except ModuleNotFoundError as err:  # during macro module lookup
             # In this case, the standard stack trace is long and points only to our code and the stdlib,
@@ -196,7 +210,15 @@ class MacroConsole(code.InteractiveConsole):
         except ImportError as err:  # during macro lookup in a successfully imported module
             self.write(f"{err.__class__.__name__}: {str(err)}\n")
             return False  # erroneous input
+        except Exception:  # e.g. code at the top level of a macro module failed; or a macro returned an invalid AST
+            self.showtraceback()
+            return False  # erroneous input
+        finally:
+            if not success:  # an erroneous input must not leave behind any macro bindings
+                self.expander.bindings.clear()
+                self.expander.bindings.update(old_bindings)
 
+        self._new_macro_bindings.update(bindings)
         self.runcode(code)
         self._refresh_macro_functions()
         return False  # Successfully compiled. `runcode` takes care of any runtime failures.
-- 
2.43.0


From 55245f43132de383f4a6f926c28719a35c956a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 53/58] fix: MacroConsole: do not reload a macro module that
 was only just imported, nor mcpyrate's own

---
 mcpyrate/coreutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index f0ee6ca..518b300 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -166,6 +166,10 @@ def get_macros(macroimport, *, filename, reload=False, allow_asname=True, self_m
     else:
         module_absname = importlib.util.resolve_name("." * macroimport.level + macroimport.module, package_absname)
 
+        # No need to refresh a module that is only just being imported. The macros that come with `mcpyrate`
+        # must all stay in the same instance of their module; e.g. the quasiquote operators work together.
+        reload = reload and module_absname in sys.modules and not module_absname.startswith("mcpyrate.")
+
         try:
             module = importlib.import_module(module_absname)
         except ModuleNotFoundError as err:
-- 
2.43.0


From 41611d3574b23ae89f48bf312c6471e3f9b7b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 54/58] fix: macropython: run exactly the script file that was
 asked for

---
 mcpyrate/repl/macropython.py | 56 ++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 169def1..60c76da 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -9,16 +9,15 @@
 
 import argparse
 import atexit
-import os
 import pathlib
 import sys
 from importlib import import_module
-from importlib.util import module_from_spec, resolve_name
+from importlib.machinery import SourceFileLoader
+from importlib.util import module_from_spec, resolve_name, spec_from_file_location
 
 from .. import __version__ as __mcpyrate_version__
 from .. import activate  # noqa: F401
 from ..core import MacroApplicationError
-from ..coreutils import relativize
 from ..pycachecleaner import deletepycachedirs, getpycachedirs
 
 __version__ = "3.1.0"
@@ -28,9 +27,12 @@ _macropython_module = None  # sys.modules doesn't always seem to keep it, so sta
 
 # --------------------------------------------------------------------------------
 
-def import_module_as_main(name, script_mode):
+def import_module_as_main(name, script_mode, filename=None):
     """Import a module, pretending it's __main__.
 
+    If `filename` is given, the module is loaded from exactly that source file,
+    whatever it is called; otherwise the module is searched for by its `name`.
+
     We support only new-style loaders that provide `exec_module`; old-style
     loaders that provide `load_module` and `create_module` are not supported.
 
@@ -68,16 +70,21 @@ def import_module_as_main(name, script_mode):
         parent_module = import_module(parent_name)
         path = parent_module.__spec__.submodule_search_locations
 
-    for finder in sys.meta_path:
-        if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
-            continue
-        # https://docs.python.org/3/library/importlib.html#importlib.abc.MetaPathFinder.find_spec
-        spec = finder.find_spec(absolute_name, path)
-        if spec is not None:
-            break
+    if filename:
+        spec = spec_from_file_location(absolute_name, filename,
+                                       loader=SourceFileLoader(absolute_name, filename),
+                                       submodule_search_locations=None)
     else:
-        msg = f"No module named {absolute_name}"
-        raise ModuleNotFoundError(msg, name=absolute_name)
+        for finder in sys.meta_path:
+            if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
+                continue
+            # https://docs.python.org/3/library/importlib.html#importlib.abc.MetaPathFinder.find_spec
+            spec = finder.find_spec(absolute_name, path)
+            if spec is not None:
+                break
+        else:
+            msg = f"No module named {absolute_name}"
+            raise ModuleNotFoundError(msg, name=absolute_name)
 
     spec.name = "__main__"
     if spec.loader:
@@ -262,25 +269,10 @@ def main():
             # TODO: figure out correct insert index (spec: "after cwd, just before site packages")
             sys.path.insert(1, str(local_pypackages_dir))
 
-        # This approach finds the standard loader even for macro-enabled scripts.
-        # TODO: For mcpyrate, that could be ok, since we monkey-patch just that.
-        # TODO: But maybe better to leave the option to replace the whole loader later.
-        # spec = spec_from_file_location("__main__", str(fullpath))
-        # if not spec:
-        #     raise ImportError(f"Not a Python module: '{opts.filename}'"
-        # module = module_from_spec(spec)
-        # TODO: if we use this approach, we should first initialize parent packages.
-        # sys.modules[module.__name__] = module
-        # spec.loader.exec_module(module)
-
-        root_path, relative_path = relativize(opts.filename)
-        module_name = relative_path.replace(os.path.sep, '.')
-        if module_name.endswith(".__init__.py"):
-            module_name = module_name[:-12]
-        elif module_name.endswith(".py"):
-            module_name = module_name[:-3]
-
-        import_module_as_main(module_name, script_mode=True)
+        # Run exactly the file that was asked for. Searching for it by the name of the module
+        # could find something else (a built-in module, or a package of the same name), or
+        # nothing at all (a script without a `.py` suffix, or with dots in its name).
+        import_module_as_main("__main__", script_mode=True, filename=str(fullpath))
 
 if __name__ == "__main__":
     _macropython_module = sys.modules["__macropython__"] = sys.modules["__main__"]
-- 
2.43.0


From 05487428b87fa3b1bc7448b31fa5676c0cfd9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 55/58] fix: macropython -m: run a package's __main__.py as
 __main__, also in namespace packages

---
 mcpyrate/repl/macropython.py | 42 ++++++++++--------------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 60c76da..5fd5d73 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -13,7 +13,7 @@ import pathlib
 import sys
 from importlib import import_module
 from importlib.machinery import SourceFileLoader
-from importlib.util import module_from_spec, resolve_name, spec_from_file_location
+from importlib.util import find_spec, module_from_spec, resolve_name, spec_from_file_location
 
 from .. import __version__ as __mcpyrate_version__
 from .. import activate  # noqa: F401
@@ -86,29 +86,25 @@ def import_module_as_main(name, script_mode, filename=None):
             msg = f"No module named {absolute_name}"
             raise ModuleNotFoundError(msg, name=absolute_name)
 
+    # "macropython -m somepackage": initialize the package (it's not __main__, so import it
+    # normally), and then run its __main__.py, like `python -m somepackage` does.
+    if spec.submodule_search_locations is not None and not script_mode:
+        import_module(absolute_name)
+        if not find_spec(f"{absolute_name}.__main__"):
+            raise ImportError(f"No module named {absolute_name}.__main__; '{absolute_name}' is a package and cannot be directly executed")
+        return import_module_as_main(f"{absolute_name}.__main__", script_mode=False)
+
     spec.name = "__main__"
     if spec.loader:
         spec.loader.name = "__main__"
 
     module = module_from_spec(spec)
-    try_mainpy = False
     if script_mode:  # e.g. "macropython somepackage/__init__.py"
         module.__package__ = ""
     elif path:  # e.g. "macropython -m somepackage.module"
         module.__package__ = parent_name
-    elif spec.origin.endswith("__init__.py"):  # e.g. "macropython -m somepackage"
-        module.__package__ = absolute_name
-        try_mainpy = True
-
-    if spec.origin == "namespace":
-        # https://docs.python.org/3/reference/import.html#__path__
-        module.__path__ = spec.submodule_search_locations
-
-    if try_mainpy:
-        # e.g. "import somepackage" in the above case; it's not __main__, so import it normally.
-        assert not script_mode
-        parent_module = import_module(absolute_name)
-    elif spec.loader:
+
+    if spec.loader:
         sys.modules["__main__"] = module  # replace this bootstrapper with the new __main__
         try:
             spec.loader.exec_module(module)
@@ -129,22 +125,6 @@ def import_module_as_main(name, script_mode, filename=None):
         # # __main__ has no parent module so we don't need to do this.
         # if path is not None:
         #     setattr(parent_module, child_name, module)
-    else:  # namespace packages have loader=None
-        try_mainpy = True
-
-    # __init__.py (if any) has run; run __main__.py, like `python -m somepackage` does.
-    if try_mainpy:
-        has_mainpy = True
-        try:
-            # __main__.py doesn't need to have its name set to "__main__", so import it normally.
-            import_module(f"{absolute_name}.__main__")
-        except ImportError as e:
-            if "No module named" in e.msg:
-                has_mainpy = False
-            else:
-                raise
-        if not has_mainpy:
-            raise ImportError(f"No module named {absolute_name}.__main__; '{absolute_name}' is a package and cannot be directly executed")
 
     return module
 
-- 
2.43.0


From 9b70d0630ebd6aaf5bdf21cbbd140a45a70b6ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 56/58] fix: macropython: restore the bootstrapper as __main__
 also when run as the installed command

---
 mcpyrate/repl/macropython.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 5fd5d73..4fa484d 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -105,11 +105,12 @@ def import_module_as_main(name, script_mode, filename=None):
         module.__package__ = parent_name
 
     if spec.loader:
+        bootstrapper = sys.modules["__main__"]
         sys.modules["__main__"] = module  # replace this bootstrapper with the new __main__
         try:
             spec.loader.exec_module(module)
         except Exception as err:
-            sys.modules["__main__"] = _macropython_module
+            sys.modules["__main__"] = bootstrapper
             if isinstance(err, MacroApplicationError):
                 # To avoid noise, discard most of the traceback of the chained
                 # macro-expansion errors emitted by the expander core. The
-- 
2.43.0


From 69037b9cf6287aa468aa6f16f9f4a8e5b9ff41bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 57/58] fix: macropython -m: keep the real name in the module's
 __spec__

---
 mcpyrate/repl/macropython.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 4fa484d..8bb7fcb 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -94,11 +94,13 @@ def import_module_as_main(name, script_mode, filename=None):
             raise ImportError(f"No module named {absolute_name}.__main__; '{absolute_name}' is a package and cannot be directly executed")
         return import_module_as_main(f"{absolute_name}.__main__", script_mode=False)
 
-    spec.name = "__main__"
+    # Only the module and its loader should think this is `__main__`. Like in `python -m`, the name in the
+    # module's `__spec__` should remain the real one; Python needs it e.g. to resolve relative imports.
+    module = module_from_spec(spec)
+    module.__name__ = "__main__"
     if spec.loader:
         spec.loader.name = "__main__"
 
-    module = module_from_spec(spec)
     if script_mode:  # e.g. "macropython somepackage/__init__.py"
         module.__package__ = ""
     elif path:  # e.g. "macropython -m somepackage.module"
-- 
2.43.0


From c4ba54c256c75f9cd055226bb8c69b9de647a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 58/58] fix: expand1s, expands: raise TypeError also for a
 literal operand

---
 mcpyrate/metatools.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 5754306..deb94e3 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -255,7 +255,7 @@ def expand1s(tree, *, syntax, expander, **kw):
     # are then in a quoted form, which don't look like macro invocations to the expander.
     # If the input `tree` is a `Done`, it will likewise do nothing.
     tree = expander.visit_once(tree)  # -> Done(body=...)
-    tree = expander.visit_once(unastify(tree.body))  # On wrong kind of input, `unastify` will `TypeError` for us.
+    tree = expander.visit_once(_unastify_ast(tree.body))  # On wrong kind of input, raises `TypeError` for us.
     # The final piece of the magic, why this works in the expander's recursive mode,
     # without wrapping the result with `Done`, is that after `q` has finished, the output
     # will be a **quoted** AST, so macro invocations in it don't look like macro invocations.
@@ -288,9 +288,17 @@ def expands(tree, *, syntax, expander, **kw):
     # Always use recursive mode, because `expand[...]` may appear inside
     # another macro invocation that uses `visit_once` (which sets the expander
     # mode to non-recursive for the dynamic extent of the `visit_once`).
-    tree = expander.visit_recursively(unastify(tree.body))  # On wrong kind of input, `unastify` will `TypeError` for us.
+    tree = expander.visit_recursively(_unastify_ast(tree.body))  # On wrong kind of input, raises `TypeError` for us.
     return q(tree, syntax=syntax, expander=expander, **kw)
 
+
+def _unastify_ast(tree):
+    """Like `unastify`, but accept only a `tree` that represents an AST (not e.g. a bare constant)."""
+    result = unastify(tree)
+    if not (isinstance(result, ast.AST) or (type(result) is list and all(isinstance(x, ast.AST) for x in result))):
+        raise TypeError(f"expected a quasiquoted AST, got {unparse_with_fallbacks(tree)}")
+    return result
+
 # --------------------------------------------------------------------------------
 
 def expand1rq(tree, *, syntax, **kw):
-- 
2.43.0

