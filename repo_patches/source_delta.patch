From e85250547e9b907b937658584db47c9b0df63a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 1/4] fix: read source files as UTF-8 whatever the locale is

---
 pycep/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/main.py b/pycep/main.py
index ee35d08..9194bd1 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -39,7 +39,7 @@ class BicepParser:
         if text:
             bicep_text = text
         elif file_path:
-            bicep_text = file_path.read_text()
+            bicep_text = file_path.read_text(encoding="utf-8")
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-- 
2.43.0


From 119171666b4317705876f1204ac0dbab3dd57f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 2/4] fix: accept empty text like an empty file

---
 pycep/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index 9194bd1..b6d52f7 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -33,12 +33,12 @@ class BicepParser:
         return tree.pretty()
 
     def _create_tree(self, text: str | None, file_path: Path | None) -> Tree[Token]:
-        if text and file_path:
+        if text is not None and file_path is not None:
             raise TypeError("Either 'text' or 'file_path' can be set")
 
-        if text:
+        if text is not None:
             bicep_text = text
-        elif file_path:
+        elif file_path is not None:
             bicep_text = file_path.read_text(encoding="utf-8")
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
-- 
2.43.0


From 395c1c624f7c95fdd93e144e872d4720ca66b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 3/4] fix: build the parser without cache if there is no usable
 temporary directory

---
 pycep/main.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycep/main.py b/pycep/main.py
index b6d52f7..4fe7f49 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import tempfile
 from importlib.resources import files
 from typing import TYPE_CHECKING
 
@@ -22,6 +23,14 @@ class BicepParser:
 
     def __init__(self, *, add_line_numbers: bool = False, cache: bool = True) -> None:
         self.add_line_numbers = add_line_numbers
+
+        if cache:
+            try:
+                tempfile.gettempdir()
+            except FileNotFoundError:
+                # there is no usable directory to store the grammar cache in
+                cache = False
+
         self.lark_parser = Lark(grammar=LARK_GRAMMAR, parser="lalr", propagate_positions=True, regex=True, cache=cache)
 
     def parse(self, *, text: str | None = None, file_path: Path | None = None) -> pycep_typing.BicepJson:
-- 
2.43.0


From c846f145ae88df765c6add2de1599205214aef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 4/4] fix: do not lose an exception raised while looking up the
 method for a rule

---
 pycep/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycep/main.py b/pycep/main.py
index 4fe7f49..1116deb 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -35,6 +35,12 @@ class BicepParser:
 
     def parse(self, *, text: str | None = None, file_path: Path | None = None) -> pycep_typing.BicepJson:
         tree = self._create_tree(text=text, file_path=file_path)
+
+        for subtree in tree.iter_subtrees():
+            # a `Token` is compared by Python code, while `getattr()` looks up the method for a rule and
+            # ignores every exception, ex. a `KeyboardInterrupt` would get lost and the rule not transformed
+            subtree.data = str(subtree.data)
+
         return BicepToJson(add_line_numbers=self.add_line_numbers).transform(tree)
 
     def create_tree(self, *, text: str | None = None, file_path: Path | None = None) -> str:
-- 
2.43.0

