From 3f98ef15a660d800d5b2c8cbdd9a989d829994fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 01/17] fix: restore the current environment when resolving a
 term reference raises

---
 fluent.runtime/fluent/runtime/resolver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 1961a96..d6f94bf 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -68,8 +68,10 @@ class ResolverEnvironment:
         # copy returned by attr.evolve is fine (at least for now).
         old_current = self.current
         self.current = attr.evolve(old_current, **replacements)
-        yield self
-        self.current = old_current
+        try:
+            yield self
+        finally:
+            self.current = old_current
 
     def modified_for_term_reference(
         self, args: Union[Dict[str, Any], None] = None
-- 
2.43.0


From 2c8cf57c9633db78f3e9e588b37b95bdd182c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 02/17] fix: a pattern stays active only while it is being
 resolved

---
 fluent.runtime/fluent/runtime/resolver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index d6f94bf..bc24a78 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -162,9 +162,11 @@ class Pattern(FTL.Pattern, BaseResolver):
             raise ValueError(
                 "Too many parts in message (> {}), " "aborting.".format(self.MAX_PARTS)
             )
-        retval = "".join(resolve(element(env), env) for element in elements)
+        try:
+            retval = "".join(resolve(element(env), env) for element in elements)
+        finally:
+            env.active_patterns.remove(self)
         env.part_count += len(elements)
-        env.active_patterns.remove(self)
         return retval
 
 
-- 
2.43.0


From ac849ed34eabfa1ab430f61281614a0c2b50876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 03/17] fix: detect cycles through patterns that are a single
 placeable

---
 fluent.runtime/fluent/runtime/resolver.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index bc24a78..94dd6d5 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -203,8 +203,14 @@ class NeverIsolatingPlaceable(FTL.Placeable, BaseResolver):
     expression: Union["InlineExpression", Placeable, "SelectExpression"]
 
     def __call__(self, env: ResolverEnvironment) -> Any:
-        inner = resolve(self.expression(env), env)
-        return inner
+        if self in env.active_patterns:
+            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
+            return FluentNone()
+        env.active_patterns.add(self)
+        try:
+            return resolve(self.expression(env), env)
+        finally:
+            env.active_patterns.remove(self)
 
 
 class StringLiteral(FTL.StringLiteral, Literal):
-- 
2.43.0


From e531986e9ce00007c3a2813b9a6305891c59705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 04/17] fix: report errors inside a referenced pattern as what
 they are

LookupError and TypeError raised while resolving the referenced pattern were
reported as an unknown reference or as a message without a value.
---
 fluent.runtime/fluent/runtime/resolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 94dd6d5..509aef1 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -246,15 +246,15 @@ def resolveEntryReference(
             pattern = entry.attributes[ref.attribute.name]
         else:
             pattern = entry.value  # type: ignore
-        return pattern(env)
     except LookupError:
         ref_id = reference_to_id(ref)
         env.errors.append(unknown_reference_error_obj(ref_id))
         return FluentNone(f"{{{ref_id}}}")
-    except TypeError:
+    if pattern is None:
         ref_id = reference_to_id(ref)
         env.errors.append(FluentReferenceError(f"No pattern: {ref_id}"))
         return FluentNone(ref_id)
+    return pattern(env)
 
 
 class MessageReference(FTL.MessageReference, BaseResolver):
-- 
2.43.0


From 96878931b2720d58f67e6a833afd590b9c53285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 05/17] fix: format_pattern reports every error and always
 returns a string

Only ValueError was caught, so LookupError, TypeError and OverflowError raised
by babel, pytz or the result of a function escaped, and a function result that
is neither a string nor a FluentType was returned as it is.
---
 fluent.runtime/fluent/runtime/bundle.py   | 2 +-
 fluent.runtime/fluent/runtime/resolver.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 6a0f254..f95776c 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -106,7 +106,7 @@ class FluentBundle:
         )
         try:
             result = pattern(env)
-        except ValueError as e:
+        except Exception as e:
             errors.append(e)
             result = "{???}"
         return (result, errors)
diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 509aef1..7b5d7f4 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -179,7 +179,8 @@ def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
                 "Too many characters in placeable "
                 "({}, max allowed is {})".format(len(fluentish), Pattern.MAX_PARTS)
             )
-    return fluentish
+        return fluentish
+    raise TypeError("Unsupported placeable type: {}".format(type(fluentish)))
 
 
 class TextElement(FTL.TextElement, Literal):
-- 
2.43.0


From fa6e1893a256b4431500c171f56adb220de0f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 06/17] fix: quote the limit that applies in the error for too
 long placeables

---
 fluent.runtime/fluent/runtime/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 7b5d7f4..0a1284c 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -177,7 +177,7 @@ def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
         if len(fluentish) > MAX_PART_LENGTH:
             raise ValueError(
                 "Too many characters in placeable "
-                "({}, max allowed is {})".format(len(fluentish), Pattern.MAX_PARTS)
+                "({}, max allowed is {})".format(len(fluentish), MAX_PART_LENGTH)
             )
         return fluentish
     raise TypeError("Unsupported placeable type: {}".format(type(fluentish)))
-- 
2.43.0


From 71a164965b14dcb535af655ec611536de7f9d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 07/17] fix: select on Decimal values as on other numbers

---
 fluent.runtime/fluent/runtime/resolver.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 0a1284c..6e0c472 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -1,11 +1,12 @@
 import contextlib
+from decimal import Decimal
 from typing import TYPE_CHECKING, Any, Dict, Generator, List, Set, Union, cast
 
 import attr
 from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
-from .types import FluentFloat, FluentInt, FluentNone, FluentType
+from .types import FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType
 from .utils import reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
@@ -340,7 +341,7 @@ class SelectExpression(FTL.SelectExpression, BaseResolver):
 
 
 def is_number(val: Any) -> bool:
-    return isinstance(val, (int, float))
+    return isinstance(val, (int, float, Decimal))
 
 
 def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
@@ -351,10 +352,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     if is_number(val1):
         if not is_number(val2):
             # Could be plural rule match
-            if (
-                isinstance(val1, (FluentInt, FluentFloat))
-                and val1.options.type == "ordinal"
-            ):
+            if isinstance(val1, FluentNumber) and val1.options.type == "ordinal":
                 val1_form = env.context._ordinal_form(val1)
             else:
                 val1_form = env.context._plural_form(val1)
-- 
2.43.0


From 7775db88e80f765d18e4c5e8a9a4b7ed9ed4a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 08/17] fix: an overridden message or term is compiled anew

---
 fluent.runtime/fluent/runtime/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index f95776c..2fac5ca 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -69,6 +69,8 @@ class FluentBundle:
             full_id = item.id.name
             if full_id not in map_ or allow_overrides:
                 map_[full_id] = item
+                compiled_id = "-" + full_id if map_ is self._terms else full_id
+                self._compiled.pop(compiled_id, None)
 
     def has_message(self, message_id: str) -> bool:
         return message_id in self._messages
-- 
2.43.0


From b48d16f5c400a883d8a4bb02b220550e47662dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 09/17] fix: get_message does not return compiled terms

---
 fluent.runtime/fluent/runtime/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 2fac5ca..70f9d98 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -76,6 +76,8 @@ class FluentBundle:
         return message_id in self._messages
 
     def get_message(self, message_id: str) -> Message:
+        if message_id not in self._messages:
+            raise KeyError(message_id)
         return self._lookup(message_id)
 
     def _lookup(self, entry_id: str, term: bool = False) -> Message:
-- 
2.43.0


From 6188739d28869e554c5ba08f9e50d55f3ccd774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 10/17] fix: nodes of different classes are not equal

---
 fluent.syntax/fluent/syntax/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index c47244e..d7a8db2 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -75,6 +75,9 @@ class BaseNode:
         taken into account.
         """
 
+        if type(self) is not type(other):
+            return False
+
         self_keys = set(vars(self).keys())
         other_keys = set(vars(other).keys())
 
-- 
2.43.0


From e8eede0accea95f16040d5e2b9867e558d19e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 11/17] fix: Transformer can remove a child that is not in a
 list

---
 fluent.syntax/fluent/syntax/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 2f637af..f7d15c0 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -48,7 +48,7 @@ class Transformer(Visitor):
         return visit(node)
 
     def generic_visit(self, node: Node) -> Node:  # type: ignore
-        for propname, propvalue in vars(node).items():
+        for propname, propvalue in list(vars(node).items()):
             if isinstance(propvalue, list):
                 new_vals: List[Any] = []
                 for child in propvalue:
-- 
2.43.0


From a02304b2ee75237d7b08ed955a08f849420e4f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 12/17] fix: indent only after line feeds when serializing

str.splitlines splits at characters that are plain text in Fluent, such as
U+2028 and U+000B.
---
 fluent.syntax/fluent/syntax/serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/serializer.py b/fluent.syntax/fluent/syntax/serializer.py
index 3659154..257f0ff 100644
--- a/fluent.syntax/fluent/syntax/serializer.py
+++ b/fluent.syntax/fluent/syntax/serializer.py
@@ -1,10 +1,11 @@
+import re
 from typing import List, Union
 
 from . import ast
 
 
 def indent_except_first_line(content: str) -> str:
-    return "    ".join(content.splitlines(True))
+    return re.sub(r"\n(?=[\s\S])", "\n    ", content)
 
 
 def includes_new_line(elem: Union[ast.TextElement, ast.Placeable]) -> bool:
-- 
2.43.0


From d23734ad8030d636c3ab7c20c349844b6195ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 13/17] fix: keep the fold of a datetime

---
 fluent.runtime/fluent/runtime/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 697a18b..11e243f 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -420,6 +420,7 @@ class FluentDateTime(FluentDateType, datetime):
             dt_obj.second,
             dt_obj.microsecond,
             tzinfo=dt_obj.tzinfo,
+            fold=dt_obj.fold,
         )
         obj._init_options(dt_obj, kwargs)
         return obj
-- 
2.43.0


From ac1b0ca852270300ec9458d53895067f2b7bda5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 14/17] fix: close resource files after reading them

---
 fluent.runtime/fluent/runtime/fallback.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/fallback.py b/fluent.runtime/fluent/runtime/fallback.py
index f39bbf8..9a73ba8 100644
--- a/fluent.runtime/fluent/runtime/fallback.py
+++ b/fluent.runtime/fluent/runtime/fallback.py
@@ -134,7 +134,8 @@ class FluentResourceLoader(AbstractResourceLoader):
                 path = self.localize_path(os.path.join(root, resource_id), locale)
                 if not os.path.isfile(path):
                     continue
-                content = codecs.open(path, "r", "utf-8").read()
+                with codecs.open(path, "r", "utf-8") as fh:
+                    content = fh.read()
                 resources.append(FluentParser().parse(content))
             if resources:
                 yield resources
-- 
2.43.0


From a1fdb3ada67273348fe4d222564045617030d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 15/17] fix: stop building documentation when a tag cannot be
 checked out

---
 fluent.docs/fluent/docs/build.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fluent.docs/fluent/docs/build.py b/fluent.docs/fluent/docs/build.py
index fbdfe52..1902c56 100644
--- a/fluent.docs/fluent/docs/build.py
+++ b/fluent.docs/fluent/docs/build.py
@@ -49,9 +49,13 @@ def build(repo_name, projects, releases_after=None):
     for tag in tagged_versions:
         if worktree is None:
             worktree = tempfile.mkdtemp()
-            subprocess.run(["git", "worktree", "add", "--detach", worktree])
+            subprocess.run(
+                ["git", "worktree", "add", "--detach", worktree], check=True
+            )
         subprocess.run(
-            ["git", "checkout", f"{tag.project}@{tag.version}"], cwd=worktree
+            ["git", "checkout", f"{tag.project}@{tag.version}"],
+            cwd=worktree,
+            check=True,
         )
         with ProjectBuilder(
             repo_name,
-- 
2.43.0


From 31b79d2ea84f5e213b67d83c9e2592be4b65dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 16/17] fix: remove the temporary worktree also when a
 documentation build fails

---
 fluent.docs/fluent/docs/build.py | 40 +++++++++++++++++---------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/fluent.docs/fluent/docs/build.py b/fluent.docs/fluent/docs/build.py
index 1902c56..9fda2b7 100644
--- a/fluent.docs/fluent/docs/build.py
+++ b/fluent.docs/fluent/docs/build.py
@@ -46,27 +46,29 @@ def build(repo_name, projects, releases_after=None):
         target = "stable" if last_vers[project] != "dev" else "dev"
         index.write_text(f'<meta http-equiv="refresh" content="0; URL={target}/">\n')
     worktree = None
-    for tag in tagged_versions:
-        if worktree is None:
-            worktree = tempfile.mkdtemp()
+    try:
+        for tag in tagged_versions:
+            if worktree is None:
+                worktree = tempfile.mkdtemp()
+                subprocess.run(
+                    ["git", "worktree", "add", "--detach", worktree], check=True
+                )
             subprocess.run(
-                ["git", "worktree", "add", "--detach", worktree], check=True
+                ["git", "checkout", f"{tag.project}@{tag.version}"],
+                cwd=worktree,
+                check=True,
             )
-        subprocess.run(
-            ["git", "checkout", f"{tag.project}@{tag.version}"],
-            cwd=worktree,
-            check=True,
-        )
-        with ProjectBuilder(
-            repo_name,
-            os.path.join(worktree, tag.project),
-            tag.project,
-            versions_4_project[tag.project],
-            tag.version,
-        ) as builder:
-            builder.build()
-    if worktree is not None:
-        shutil.rmtree(worktree)
+            with ProjectBuilder(
+                repo_name,
+                os.path.join(worktree, tag.project),
+                tag.project,
+                versions_4_project[tag.project],
+                tag.version,
+            ) as builder:
+                builder.build()
+    finally:
+        if worktree is not None:
+            shutil.rmtree(worktree)
     for project in projects:
         if last_vers[project] == "dev":
             continue
-- 
2.43.0


From 5560a8f0c93add8e6f59c6dba20515ee8fddecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 17/17] fix: count patterns consisting of a single placeable
 towards the part limit

---
 fluent.runtime/fluent/runtime/resolver.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 6e0c472..e26d7b4 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -208,11 +208,18 @@ class NeverIsolatingPlaceable(FTL.Placeable, BaseResolver):
         if self in env.active_patterns:
             env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
             return FluentNone()
+        if env.part_count >= Pattern.MAX_PARTS:
+            raise ValueError(
+                "Too many parts in message (> {}), "
+                "aborting.".format(Pattern.MAX_PARTS)
+            )
         env.active_patterns.add(self)
         try:
-            return resolve(self.expression(env), env)
+            retval = resolve(self.expression(env), env)
         finally:
             env.active_patterns.remove(self)
+        env.part_count += 1
+        return retval
 
 
 class StringLiteral(FTL.StringLiteral, Literal):
-- 
2.43.0

