From 0a5ee15cdea93ce2a9b2b0d3624e42519035c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 01/35] fix: split_package rejects names with an empty last
 component

---
 modulegraph2/_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 3683de5..ee11eca 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -37,7 +37,7 @@ def split_package(name: str) -> tuple[str | None, str]:
 
     name_abs = name.lstrip(".")
     dots = len(name) - len(name_abs)
-    if not name_abs or ".." in name_abs:
+    if not name_abs or ".." in name_abs or name_abs.endswith("."):
         raise ValueError(f"Invalid module name {name!r}")
 
     package, _, name = name_abs.rpartition(".")
-- 
2.43.0


From 47a723488b755adb3888907f6dec339d42b29395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 02/35] fix: saved_sys_path also restores sys.path when the
 block rebinds it

---
 modulegraph2/_utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index ee11eca..5f3189a 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -14,13 +14,15 @@ def saved_sys_path():
     of :data:`sys.path` when leaving the ``with``
     block.
     """
-    orig_path = list(sys.path)
+    path = sys.path
+    orig_path = list(path)
 
     try:
         yield
 
     finally:
-        sys.path[:] = orig_path
+        path[:] = orig_path
+        sys.path = path
         importlib.invalidate_caches()
 
 
-- 
2.43.0


From f53233a4a8323ef31663b0fa8378fb87490b7fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 03/35] fix: imports in try/except* statements are in a try
 statement

---
 modulegraph2/_ast_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 4efc7aa..453a271 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -10,6 +10,9 @@ from typing import Deque
 
 from ._importinfo import ImportInfo, create_importinfo
 
+# "try: ... except* ..." is a separate kind of node (Python 3.11 or later)
+_TRY_NODES: tuple[type[ast.AST], ...] = (ast.Try, getattr(ast, "TryStar", ast.Try))
+
 
 def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
     """
@@ -61,7 +64,7 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
             for child in ast.iter_child_nodes(node):
                 work_q.append((child, True, in_if, in_tryexcept))
 
-        elif isinstance(node, (ast.Try)):
+        elif isinstance(node, _TRY_NODES):
             for name, children in ast.iter_fields(node):
                 if name == "finalbody":
                     for child in children:
-- 
2.43.0


From ef6d29f4de5287467c15f7773e345707cba0f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 04/35] fix: keep all renames of a name that is imported more
 than once by one statement

---
 modulegraph2/_ast_tools.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 453a271..870a67a 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -47,14 +47,23 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
                 )
 
         elif isinstance(node, ast.ImportFrom):
-            yield create_importinfo(
-                (node.module or "", None),
-                {(nm.name, nm.asname) for nm in node.names},
-                node.level,
-                in_def,
-                in_if,
-                in_tryexcept,
-            )
+            # ImportInfo.import_names has one item per name, a name that's
+            # imported more than once ("from m import a as b, a as c")
+            # therefore needs more than one record.
+            names = {(nm.name, nm.asname): None for nm in node.names}
+            while names:
+                batch = {nm: asname for nm, asname in reversed(names)}
+                for item in batch.items():
+                    del names[item]
+
+                yield create_importinfo(
+                    (node.module or "", None),
+                    set(batch.items()),
+                    node.level,
+                    in_def,
+                    in_if,
+                    in_tryexcept,
+                )
 
         elif isinstance(node, ast.If):
             for child in ast.iter_child_nodes(node):
-- 
2.43.0


From b38475a49116bab00a44e2bfe43e3d99730b9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 05/35] fix: from-imports only follow imports that bind the
 name in the package

---
 modulegraph2/_modulegraph.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 413a063..5d5b464 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -65,6 +65,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
     _missing_hook: FirstNotNone[MissingCallback]
     _work_stack: list[tuple[Callable, tuple]]
     _global_lazy_nodes: dict[str, ImpliesValueType]
+    _plain_imports: set[tuple[str, str]]
 
     def __init__(
         self, *, use_stdlib_implies: bool = True, use_builtin_hooks: bool = True
@@ -75,6 +76,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         self._missing_hook = FirstNotNone()
         self._work_stack = []
 
+        # Edges for an "import name" statement that binds *name* in the
+        # importing module (as opposed to "from name import ...").
+        self._plain_imports = set()
+
         self._global_lazy_nodes = {}
 
         # Reference to __main__ cannot be valid when multiple scripts
@@ -913,6 +918,14 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             from_importinfo(import_info, False, import_info.import_module.asname),
         )
 
+        if (
+            import_info.is_global
+            and not import_info.import_names
+            and not import_info.star_import
+            and import_info.import_module.asname is None
+        ):
+            self._plain_imports.add((importing_module.identifier, node.identifier))
+
         self._work_stack.insert(
             offset, (self._process_namelist, (importing_module, node, import_info))
         )
@@ -966,9 +979,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                         # it is either a global or an imported module.
                         found_imported = False
                         for ed_set, tgt in self.outgoing(imported_module):
-                            if (
-                                any(nm == ed.imported_as for ed in ed_set)
-                                or tgt.identifier == nm
+                            if any(
+                                nm == ed.imported_as and ed.is_global for ed in ed_set
+                            ) or (
+                                tgt.identifier == nm
+                                and (imported_module.identifier, tgt.identifier)
+                                in self._plain_imports
                             ):
                                 self.add_edge(
                                     importing_module,
-- 
2.43.0


From c43700d416c6521127d2defd70a45b4ad161b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 06/35] fix: relative imports in scripts are invalid

---
 modulegraph2/_graphbuilder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 03a2a5d..f4f650a 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -30,6 +30,7 @@ from ._nodes import (
     Module,
     NamespacePackage,
     Package,
+    Script,
     SourceModule,
 )
 
@@ -514,6 +515,10 @@ def node_for_spec(
 def relative_package(importing_module: BaseNode, import_level: int):
     assert import_level > 0
 
+    if isinstance(importing_module, Script):
+        # Scripts are not part of a package, their name is a filesystem path.
+        return None
+
     if isinstance(importing_module, (Package, NamespacePackage)):
         import_level -= 1
 
-- 
2.43.0


From 7792f5f9473d0cd437bdf388f08ab0f6911fcfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 07/35] fix: handle all submodules of packages that cannot be
 imported

---
 modulegraph2/_modulegraph.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5d5b464..cb020a5 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -610,10 +610,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
-        except Exception as exc:
-            if not isinstance(exc, ModuleNotFoundError) or "No module named" in str(
-                exc
-            ):
+        except Exception:
+            parent = module_name.rpartition(".")[0]
+            if parent and parent not in sys.modules:
                 # find_spec actually imports parent packages, which can
                 # cause problems when importing fails for some reason.
                 #
@@ -624,19 +623,13 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # successfully calling node_for_spec on the parent package,
                 # hence we know that find_spec will be successfull and
                 # will find a pacakge with an __init__.py.
-                parent = module_name.rpartition(".")[0]
-                assert parent not in sys.modules
-
                 spec = importlib.util.find_spec(parent)
                 assert spec is not None
-                loader = spec.loader
-                assert isinstance(loader, importlib.abc.InspectLoader)
-                if loader.is_package(spec.name):
-                    path = spec.origin
-                    assert path is not None
-                    assert path.rpartition(os.sep)[-1].startswith("__init__."), path
-                    path = os.path.dirname(path)
-                    sys.modules[parent] = cast(ModuleType, FakePackage([path]))
+                search_path = spec.submodule_search_locations
+                if search_path is not None:
+                    sys.modules[parent] = cast(
+                        ModuleType, FakePackage(list(search_path))
+                    )
                     return self._load_module(importing_module, module_name)
 
                 else:
-- 
2.43.0


From b290e4f1f28058aa12dde550af74ed36d642add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 08/35] fix: modules with undecodable source or broken bytecode
 are invalid modules

---
 modulegraph2/_graphbuilder.py | 52 ++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index f4f650a..f782afa 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -100,6 +100,18 @@ SIX_MOVES_TO = {
     "zip_longest": "itertools",
 }
 
+# Exceptions raised for modules whose source or bytecode is not valid: syntax
+# errors, text that cannot be decoded, too complicated code, broken ".pyc" files.
+INVALID_CODE_ERRORS = (
+    SyntaxError,
+    ValueError,
+    TypeError,
+    EOFError,
+    ImportError,
+    RecursionError,
+    MemoryError,
+)
+
 
 def _contains_datafiles(directory: pathlib.Path):
     """
@@ -232,34 +244,14 @@ def node_for_spec(
         # Likewise for _frozen_importlib_external._NamespaceLoader
 
         inspect_loader = cast(importlib.abc.InspectLoader, loader)
-        try:
-            source_code = inspect_loader.get_source(spec.name)
-        except SyntaxError:
-            node = InvalidModule(
-                name=spec.name,
-                loader=loader,
-                distribution=(
-                    distribution_for_file(spec.origin, path)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                extension_attributes={},
-                filename=(
-                    pathlib.Path(spec.origin)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                globals_written=set(),
-                globals_read=set(),
-                code=None,
-            )
-            return node, []
-
         ast_imports: Iterable[ImportInfo] | None
         node_type: type[Module] | None = None
 
+        try:
+            source_code = inspect_loader.get_source(spec.name)
+        except INVALID_CODE_ERRORS:
+            node_type = InvalidModule
+
         if source_code is not None:
             filename = spec.origin
             assert filename is not None
@@ -272,7 +264,7 @@ def node_for_spec(
                     flags=ast.PyCF_ONLY_AST,
                     dont_inherit=True,
                 )
-            except SyntaxError:
+            except INVALID_CODE_ERRORS:
                 node_type = InvalidModule
                 ast_imports = None
 
@@ -283,14 +275,18 @@ def node_for_spec(
 
         try:
             code = inspect_loader.get_code(spec.name)
-            assert code is not None
+        except INVALID_CODE_ERRORS:
+            code = None
+
+        if code is not None and node_type is None:
             bytecode_imports, names_written, names_read = extract_bytecode_info(code)
-        except SyntaxError:
+        else:
             node_type = InvalidModule
             bytecode_imports = []
             names_written = set()
             names_read = set()
             code = None
+            ast_imports = None
 
         if node_type is None:
             if loader == importlib.machinery.FrozenImporter:
-- 
2.43.0


From c74b6339181506cb0b0cf0d3bf612fe9d56e7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 09/35] fix: nodes for missing submodules link to their package
 once they are used

---
 modulegraph2/_modulegraph.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index cb020a5..fb619db 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -182,10 +182,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         Args:
            module_name: Name of the module to import.
         """
-        node = self._find_module(module_name)
-        if node is None:
-            node = self._find_or_load_module(None, module_name)
-
+        node = self._find_or_load_module(None, module_name)
         self.add_root(node)
         self._run_stack()
         return node
@@ -284,9 +281,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         Returns
           The graph node for *import_name*.
         """
-        node = self._find_module(import_name)
-        if node is None:
-            node = self._find_or_load_module(importing_module, import_name)
+        node = self._find_or_load_module(importing_module, import_name)
 
         self.add_edge(importing_module, node, DEFAULT_DEPENDENCY)
         return node
@@ -311,12 +306,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         .. versionadded:: 2.3
         """
-        node = self._find_module(package_name)
-
         with self._saved_stack():
-            if node is None:
-                node = self._find_or_load_module(None, package_name)
-
+            node = self._find_or_load_module(None, package_name)
             self._run_stack()
 
         self.add_edge(importing_module, node, DEFAULT_DEPENDENCY)
@@ -797,6 +788,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         node = self._find_module(module_name)
         if node is not None:
+            if link_missing_to_parent and isinstance(node, MissingModule):
+                # The node may have been added without link to its package
+                parent_name = module_name.rpartition(".")[0]
+                parent_node = self._find_module(parent_name)
+                if parent_node is not None:
+                    self.add_edge(node, parent_node, DEFAULT_DEPENDENCY)
             return node
 
         containing_package, _ = split_package(module_name)
-- 
2.43.0


From 8afb1abc5f357a47bab900dab1835968939f69fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 10/35] fix: names in a from-import of a package by itself do
 not depend on each other

---
 modulegraph2/_modulegraph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index fb619db..c785000 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -963,12 +963,19 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                         return
 
                 importing_module.globals_written.update(import_info.import_names)
+
+                # A package can import names from itself, names bound by this
+                # statement must not be used to resolve its other names.
+                outgoing = [
+                    (set(ed_set), tgt)
+                    for ed_set, tgt in self.outgoing(imported_module)
+                ]
                 for nm in import_info.import_names:
                     if nm in imported_module.globals_written:
                         # Name exists as a global in the imported module,
                         # it is either a global or an imported module.
                         found_imported = False
-                        for ed_set, tgt in self.outgoing(imported_module):
+                        for ed_set, tgt in outgoing:
                             if any(
                                 nm == ed.imported_as and ed.is_global for ed in ed_set
                             ) or (
-- 
2.43.0


From 59df8eeb4db870ab55c4c76a46b71397fa512143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 11/35] fix: implied references of a package can refer to its
 own submodules

---
 modulegraph2/_modulegraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index c785000..d305422 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -801,7 +801,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             parent_node = self._find_or_load_module(
                 importing_module, containing_package
             )
-            if isinstance(parent_node, MissingModule):
+            # Implied references of the package can already have added the module
+            node = self._find_module(module_name)
+            if node is not None:
+                pass
+            elif isinstance(parent_node, MissingModule):
                 node = self._create_missing_module(importing_module, module_name)
             elif isinstance(parent_node, ExcludedModule):
                 node = ExcludedModule(module_name)
-- 
2.43.0


From cd9ef5c374f6d1019eb22d95ce3f1e3ac4a46fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:37 +0000
Subject: [PATCH 12/35] fix: actual modules of aliases can be excluded or have
 implied references

---
 modulegraph2/_modulegraph.py | 49 +++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index d305422..5ee49e6 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -641,19 +641,38 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             alias_node = AliasNode(module_name, node.name)
             self.add_node(alias_node)
             self._process_import_list(alias_node, ())
-            if self.find_node(node) is None:
-                self.add_node(node)
-                self._process_import_list(node, imports)
-
-                containing_package, _ = split_package(node.name)
-                if containing_package is not None:
-                    # Ensure that the aliased node links back to its package
-                    parent_node = self._find_or_load_module(None, containing_package)
-                    self.add_edge(node, parent_node, DEFAULT_DEPENDENCY)
 
-            self.add_edge(alias_node, node, DEFAULT_DEPENDENCY)
+            # The actual module can be excluded or have implied references
+            actual_node = self._find_or_load_module(
+                alias_node, node.name, loaded=(node, imports)
+            )
+            self.add_edge(alias_node, actual_node, DEFAULT_DEPENDENCY)
             return alias_node
 
+        return self._add_loaded_node(importing_module, node, imports)
+
+    def _add_loaded_node(
+        self,
+        importing_module: BaseNode | None,
+        node: BaseNode,
+        imports: Iterable[ImportInfo],
+    ) -> BaseNode:
+        """
+        Add the result of :func:`node_for_spec` to the graph
+
+        Args:
+          importing_module: The node triggering this import
+
+          node: The new node
+
+          imports: The imports of the module
+
+        Returns:
+          The node that was added
+        """
+        if isinstance(node, MissingModule):
+            return self._create_missing_module(importing_module, node.name)
+
         self.add_node(node)
 
         if isinstance(node, Package):
@@ -767,6 +786,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         module_name: str,
         *,
         link_missing_to_parent: bool = True,
+        loaded: tuple[BaseNode, Iterable[ImportInfo]] | None = None,
     ) -> BaseNode:
         """
         Locate the node for *module_name*, creating a new name if necessary.
@@ -780,6 +800,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
            :class:`MissingModule` node for *module_name* to
            *importing_module*.
 
+          loaded: Node and imports for *module_name* when those are
+           already known.
+
         Returns:
           The node for *importing_module*.
         """
@@ -805,7 +828,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             node = self._find_module(module_name)
             if node is not None:
                 pass
-            elif isinstance(parent_node, MissingModule):
+            elif isinstance(parent_node, MissingModule) and loaded is None:
                 node = self._create_missing_module(importing_module, module_name)
             elif isinstance(parent_node, ExcludedModule):
                 node = ExcludedModule(module_name)
@@ -817,7 +840,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         if node is None:
             node = self._implied_references(importing_module, module_name)
-            if node is None:
+            if node is None and loaded is not None:
+                node = self._add_loaded_node(importing_module, *loaded)
+            elif node is None:
                 node = self._load_module(importing_module, module_name)
 
         assert node is not None
-- 
2.43.0


From 9bab7564c8ab8092d8140a0ad898ef543c7d53fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 13/35] fix: names imported from aliases are looked up in the
 module the alias stands for

---
 modulegraph2/_modulegraph.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5ee49e6..d84b99c 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -972,27 +972,27 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
           import_info: Information about the import
         """
         assert isinstance(importing_module, (Module, Package, Script))
+
+        # Names are looked up in the module that an alias stands for
+        seen = set()
+        while (
+            isinstance(imported_module, AliasNode)
+            and imported_module.identifier not in seen
+        ):
+            seen.add(imported_module.identifier)
+            actual_node = self._find_module(imported_module.actual_module)
+            if actual_node is None:
+                return
+            imported_module = actual_node
+
         if import_info.star_import:
             if isinstance(imported_module, (Package, Module)):
                 importing_module.globals_written.update(imported_module.globals_written)
 
         else:
             if import_info.import_names and isinstance(
-                imported_module, (Package, NamespacePackage, AliasNode, Module)
+                imported_module, (Package, NamespacePackage, Module)
             ):
-                if isinstance(imported_module, AliasNode):
-                    importing_module.globals_written.update(import_info.import_names)
-                    node = self._find_module(imported_module.actual_module)
-                    assert node is not None
-
-                    imported_module = node
-                    if not isinstance(
-                        imported_module, (Package, NamespacePackage, Module)
-                    ):
-                        return
-
-                importing_module.globals_written.update(import_info.import_names)
-
                 # A package can import names from itself, names bound by this
                 # statement must not be used to resolve its other names.
                 outgoing = [
-- 
2.43.0


From 02f5eb5e4df96d1a8b4209f0ad8c317965142b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 14/35] fix: submodules of virtual and alias nodes do not have
 to be in a real package

---
 modulegraph2/_modulegraph.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index d84b99c..0d3a0c1 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -610,13 +610,15 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # Try to work around this by inserting a fake module object
                 # in sys.modules and retrying.
                 #
-                # node_for_spec on a submodule is called only after
-                # successfully calling node_for_spec on the parent package,
-                # hence we know that find_spec will be successfull and
-                # will find a pacakge with an __init__.py.
-                spec = importlib.util.find_spec(parent)
-                assert spec is not None
-                search_path = spec.submodule_search_locations
+                # The package does not have to exist when there are
+                # implied actions for its name.
+                try:
+                    spec = importlib.util.find_spec(parent)
+                except Exception:
+                    spec = None
+                search_path = (
+                    spec.submodule_search_locations if spec is not None else None
+                )
                 if search_path is not None:
                     sys.modules[parent] = cast(
                         ModuleType, FakePackage(list(search_path))
-- 
2.43.0


From d5beaa2c4f2408f513ddb5acd1f13a36ce8f238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:29 +0000
Subject: [PATCH 15/35] fix: the table for six.moves matches the names in six

---
 modulegraph2/_graphbuilder.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index f782afa..6ad3f3e 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -38,12 +38,15 @@ SIX_MOVES_GLOBALS = {"filter", "input", "map", "range", "xrange", "zip"}
 
 SIX_MOVES_TO = {
     "builtins": "builtins",
+    "collections_abc": "collections.abc",
     "configparser": "configparser",
     "copyreg": "copyreg",
     "cPickle": "pickle",
     "cStringIO": "io",
     "dbm_gnu": "dbm.gnu",
-    "_dummy_thread": "_dummy_thread",
+    "dbm_ndbm": "dbm.ndbm",
+    "_dummy_thread": "_thread",
+    "email_mime_image": "email.mime.image",
     "email_mime_multipart": "email.mime.multipart",
     "email_mime_nonmultipart": "email.mime.nonmultipart",
     "email_mime_text": "email.mime.text",
@@ -63,7 +66,7 @@ SIX_MOVES_TO = {
     "_thread": "_thread",
     "tkinter": "tkinter",
     "tkinter_dialog": "tkinter.dialog",
-    "tkinter_filedialog": "tkinter.FileDialog",
+    "tkinter_filedialog": "tkinter.filedialog",
     "tkinter_scrolledtext": "tkinter.scrolledtext",
     "tkinter_simpledialog": "tkinter.simpledialog",
     "tkinter_ttk": "tkinter.ttk",
@@ -82,21 +85,27 @@ SIX_MOVES_TO = {
     "urllib.request": "urllib.request",
     "urllib.response": "urllib.response",
     "urllib.robotparser": "urllib.robotparser",
+    "urllib_parse": "urllib.parse",
+    "urllib_error": "urllib.error",
+    "urllib_request": "urllib.request",
+    "urllib_response": "urllib.response",
     "urllib_robotparser": "urllib.robotparser",
-    "UserDict": "collections.UserDict",
-    "UserList": "collections.UserList",
-    "UserString": "collections.UserString",
     "winreg": "winreg",
     "xmlrpc_client": "xmlrpc.client",
     "xmlrpc_server": "xmlrpc.server",
-    # All these are function imports, and don't
+    # All these are function and class imports, and don't
     # get found when using find_spec...
     "filterfalse": "itertools",
     "getcwd": "os",
     "getcwdb": "os",
+    "getoutput": "subprocess",
     "intern": "sys",
     "reduce": "functools",
     "reload_module": "importlib",
+    "StringIO": "io",
+    "UserDict": "collections",
+    "UserList": "collections",
+    "UserString": "collections",
     "zip_longest": "itertools",
 }
 
-- 
2.43.0


From 3a93b99b7b2cf5299cec0523d7a36bb8128ba0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 16/35] fix: vendored names that are not in the vendor package
 are found on the system path

---
 modulegraph2/_graphbuilder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 6ad3f3e..7ec0d71 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -433,7 +433,14 @@ def node_for_spec(
                 importlib.invalidate_caches()
                 moved_spec = importlib.util.find_spec(f"{vendor_pkg}.{relative_name}")
         except ModuleNotFoundError:
-            moved_spec = importlib.util.find_spec(relative_name)
+            moved_spec = None
+
+        if moved_spec is None:
+            # Not vendored, use the system path
+            try:
+                moved_spec = importlib.util.find_spec(relative_name)
+            except ModuleNotFoundError:
+                pass
 
         if moved_spec is None:
             return MissingModule(f"{vendor_pkg}.{relative_name}"), ()
-- 
2.43.0


From 149cd9ce0fd66120fd9bc2ff95a5e3eb76ed29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:26 +0000
Subject: [PATCH 17/35] fix: functions in six.moves are not missing modules

---
 modulegraph2/_modulegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 0d3a0c1..12a6635 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1064,7 +1064,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                                     importing_module, dep_node, DEFAULT_DEPENDENCY
                                 )
                                 continue
-                        elif (
+                        if (
                             isinstance(imported_module, Package)
                             and nm in imported_module.globals_written
                         ):
-- 
2.43.0


From 22b4df245eb37ccd4c0d4efcf834b7edd05e0e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:58 +0000
Subject: [PATCH 18/35] fix: names in six.moves for modules in missing packages
 are missing modules

---
 modulegraph2/_graphbuilder.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 7ec0d71..b801bcb 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -375,7 +375,11 @@ def node_for_spec(
             except KeyError:
                 return MissingModule(spec.name), ()
 
-            moved_spec = importlib.util.find_spec(actual_name)
+            try:
+                moved_spec = importlib.util.find_spec(actual_name)
+            except ModuleNotFoundError:
+                moved_spec = None
+
             if moved_spec is None:
                 # The moved-to name doesn't actually exist. This
                 # can happen on systems where parts of the stdlib
@@ -386,7 +390,11 @@ def node_for_spec(
                 print(moved_spec.name, spec.name, actual_name, file=sys.stderr)
                 del sys.modules[actual_name]
                 importlib.invalidate_caches()
-                moved_spec = importlib.util.find_spec(actual_name)
+                try:
+                    moved_spec = importlib.util.find_spec(actual_name)
+                except ModuleNotFoundError:
+                    moved_spec = None
+
                 if moved_spec is None:
                     # The moved-to name doesn't actually exist. This
                     # can happen on systems where parts of the stdlib
-- 
2.43.0


From 0b8f7b8571af993b81c6a6cee1df6d0235823f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 19/35] fix: explicit namespace packages that cannot be
 imported are still scanned

---
 modulegraph2/_graphbuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index b801bcb..2dac03a 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -497,7 +497,7 @@ def node_for_spec(
             # the correct submodule search path.
             try:
                 m = importlib.import_module(node.name)
-            except ImportError:
+            except Exception:
                 pass
             else:
                 spec.submodule_search_locations = getattr(m, "__path__", [])
-- 
2.43.0


From 8aa11863b2690f82b1713d2c349566adda852815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 20/35] fix: nodes provided by hooks for missing modules are
 post-processed

---
 modulegraph2/_modulegraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 12a6635..1a38fe5 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -395,6 +395,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         """
         node = self._missing_hook(self, importing_module, module_name)
         if node is not None:
+            # Nodes from a hook are post-processed like all other nodes
+            self._process_import_list(node, ())
             return node
 
         node = MissingModule(module_name)
-- 
2.43.0


From dd5062c12f9abfdb9869dd925fb778d5209bf855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 21/35] fix: files that cannot be imported are not importable
 names of a distribution

---
 modulegraph2/_distributions.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index a88d681..cd674f7 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -110,13 +110,16 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
                 if not relpath.endswith(suffix):
                     continue
 
-                if relpath.endswith("/__init__" + suffix):
-                    import_names.append(
-                        relpath[: -len("/__init__") + -len(suffix)].replace("/", ".")
-                    )
-
-                else:
-                    import_names.append(relpath[: -len(suffix)].replace("/", "."))
+                module_path = relpath[: -len(suffix)]
+                if module_path.endswith("/__init__"):
+                    module_path = module_path[: -len("/__init__")]
+
+                # Files outside of the distribution directory (such as
+                # scripts) and files with a dot in their name cannot be
+                # imported.
+                parts = module_path.split("/")
+                if all(part and "." not in part for part in parts):
+                    import_names.append(".".join(parts))
 
                 break
 
-- 
2.43.0


From 9fb480b8fe7c5cc24f5fa268fabd3df8cf68089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 22/35] fix: import_package adds all kinds of modules in a
 package

Bytecode-only modules, extension modules and packages without source were
skipped, and the package itself was added again as package.__init__.
---
 modulegraph2/_modulegraph.py | 43 ++++++++++++++----------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 1a38fe5..b276a4a 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -7,7 +7,7 @@ import contextlib
 import importlib
 import operator
 import os
-import pathlib
+import pkgutil
 import sys
 from collections.abc import Callable, Iterable, Iterator
 from types import ModuleType
@@ -307,7 +307,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         .. versionadded:: 2.3
         """
         with self._saved_stack():
-            node = self._find_or_load_module(None, package_name)
+            node = self._find_or_load_module(importing_module, package_name)
             self._run_stack()
 
         self.add_edge(importing_module, node, DEFAULT_DEPENDENCY)
@@ -319,31 +319,20 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         # to find submodules by looking in the filesystem.
         #
 
-        spec = importlib.util.find_spec(package_name)
-        assert spec is not None, f"Graph doesn't reflect reality for {package_name}"
-        for path_name in spec.submodule_search_locations or []:
-            path = pathlib.Path(path_name)
-            for fn in path.glob("*.py"):
-                module = fn.stem
-                if not module.isidentifier():
-                    continue
-
-                module_node = self._find_or_load_module(
-                    node, f"{package_name}.{module}"
-                )
-                self.add_edge(node, module_node, DEFAULT_DEPENDENCY)
-
-                # This is harmless for modules, and avoids issues in edge cases
-                # where a package contains both a .py file and a sub package
-                self._work_stack.append(
-                    (self.import_package, (node, f"{package_name}.{module}"))
-                )
-
-            for fn in path.iterdir():
-                if fn.is_dir() and fn.name.isidentifier():
-                    self._work_stack.append(
-                        (self.import_package, (node, f"{package_name}.{fn.name}"))
-                    )
+        names: set[str] = set()
+        for path in node.search_path:
+            names.update(
+                info.name for info in pkgutil.iter_modules([os.fspath(path)])
+            )
+            if path.is_dir():
+                # Subpackages without an __init__
+                names.update(fn.name for fn in path.iterdir() if fn.is_dir())
+
+        names.discard("__pycache__")
+        for name in sorted(filter(str.isidentifier, names)):
+            self._work_stack.append(
+                (self.import_package, (node, f"{package_name}.{name}"))
+            )
         return node
 
     def add_post_processing_hook(self, hook: ProcessingCallback) -> None:
-- 
2.43.0


From 4f18d1301885af6e2820040365bf6f74317e09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 23/35] fix: only submodules of packages become roots for
 from-imports in source fragments

Names imported from modules and variables in packages were added as missing
modules, names imported from aliases were not looked up in the actual module
and relative imports led to an exception.
---
 modulegraph2/_modulegraph.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index b276a4a..834c3b0 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -205,9 +205,35 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             dont_inherit=True,
         )
         for info in extract_ast_info(ast_node):
-            self.add_module(info.import_module)
+            if info.import_level:
+                # The source code is not part of a package
+                continue
+
+            node = self.add_module(info.import_module)
+
+            # Names are looked up in the module that an alias stands for
+            seen = set()
+            while isinstance(node, AliasNode) and node.identifier not in seen:
+                seen.add(node.identifier)
+                node = self._find_or_load_module(None, node.actual_module)
+
+            if not isinstance(node, (Package, NamespacePackage)):
+                # Names in other modules are not modules
+                continue
+
             for name in info.import_names:
-                self.add_module(f"{info.import_module}.{name}")
+                subnode = self._find_or_load_module(
+                    None, f"{node.identifier}.{name}", link_missing_to_parent=False
+                )
+                if isinstance(subnode, MissingModule) and (
+                    isinstance(node, Package) and name in node.globals_written
+                ):
+                    continue
+
+                self.add_edge(subnode, node, DEFAULT_DEPENDENCY)
+                self.add_root(subnode)
+
+            self._run_stack()
 
     def add_distribution(
         self, distribution: PyPIDistribution | str
-- 
2.43.0


From 3d543e8baba81043819ebe3f9241b8f134c72015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 24/35] fix: SWIG support does not fail for toplevel modules
 and failing packages

The relative import for a toplevel module, or a package that raises another
exception than ImportError, led to an exception instead of a missing module,
and the placeholder for the package could stay in sys.modules.
---
 modulegraph2/_swig_support.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 12b80ca..068e94b 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -66,9 +66,13 @@ def swig_missing_hook(
     else:
         to_import = importing_module.name.rpartition(".")[0]
 
+    if not to_import:
+        # A toplevel module, relative imports are not possible.
+        return None
+
     try:
         spec = importlib.util.find_spec("." + missing_name, to_import)
-    except ImportError:
+    except Exception:
         # Loading the package may fail if there's and error. This
         # code assumes that's due to the invalid import by swig and
         # adjusts sys.modules for that before retrying.
@@ -92,9 +96,10 @@ def swig_missing_hook(
             ModuleType, FakePackage([sp.origin.rpartition(os.sep)[0]])
         )
 
-        spec = importlib.util.find_spec("." + missing_name, to_import)
-
-        del sys.modules[to_import]
+        try:
+            spec = importlib.util.find_spec("." + missing_name, to_import)
+        finally:
+            del sys.modules[to_import]
 
     if spec is not None:
         node, imports = node_for_spec(spec, sys.path)
-- 
2.43.0


From ac857166b89d2cdfad5453654ea3682cf93e8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 25/35] fix: mypyc helper modules are not roots of the graph

---
 modulegraph2/_mypyc_support.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 2f15688..968ad74 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -8,7 +8,6 @@ import ast
 import modulegraph2
 
 from ._ast_tools import extract_ast_info
-from ._depinfo import DependencyInfo
 from ._nodes import BaseNode, ExtensionModule, Package
 
 # Mypyc compiles Python code in a package to extension
@@ -85,8 +84,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
         return
 
     # Add explicit dependency to the mypy helper extension module
-    helper_node = graph.add_module(helper_module)
-    graph.add_edge(node, helper_node, DependencyInfo(False, True, False, None))
+    graph.import_module(node, helper_module)
 
     source_code = source_filename.read_bytes()
 
-- 
2.43.0


From 213ec7cb3890df74a5586a57f23a89bac4f31c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 26/35] fix: names are escaped in Graphviz and HTML output

---
 modulegraph2/_dotbuilder.py  | 16 ++++++++++++----
 modulegraph2/_htmlbuilder.py |  7 ++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_dotbuilder.py b/modulegraph2/_dotbuilder.py
index e8605ad..ba07620 100644
--- a/modulegraph2/_dotbuilder.py
+++ b/modulegraph2/_dotbuilder.py
@@ -15,6 +15,14 @@ from objectgraph import EDGE_TYPE, NODE_TYPE  # , ObjectGraph
 from ._modulegraph import ModuleGraph
 
 
+def quoted(value: str) -> str:
+    """
+    Format *value* as a quoted string for Graphviz.
+    """
+    value = value.replace("\\", "\\\\").replace('"', '\\"')
+    return f'"{value}"'
+
+
 def format_attributes(callable, *args):
     """
     Format the results of *callable* in the format expected
@@ -53,22 +61,22 @@ def export_to_dot(
 
     for source in graph.iter_graph():
         print(
-            f'    "{source.identifier}"{format_attributes(format_node, source)}',
+            f"    {quoted(source.identifier)}{format_attributes(format_node, source)}",
             file=file,
         )
         for edge, target in graph.outgoing(source):
             print(
-                f'    "{source.identifier}" -> "{target.identifier}"{format_attributes(format_edge, source, target, edge)}',  # noqa: B950
+                f"    {quoted(source.identifier)} -> {quoted(target.identifier)}{format_attributes(format_edge, source, target, edge)}",  # noqa: B950
                 file=file,
             )
 
     for idx, (group_name, group_icon, group_items) in enumerate(group_nodes(graph)):
         print(f"subgraph cluster_{idx} {{", file=file)
-        print(f'   label = "{group_name}"', file=file)
+        print(f"   label = {quoted(group_name)}", file=file)
         print(f"   shape = {group_icon}", file=file)
         print("   style=filled; color=lightgray", file=file)
         for node in group_items:
-            print(f'   "{node.identifier}"', file=file)
+            print(f"   {quoted(node.identifier)}", file=file)
 
         print("}", file=file)
         print(file=file)
diff --git a/modulegraph2/_htmlbuilder.py b/modulegraph2/_htmlbuilder.py
index 2caf3c7..8d4d985 100644
--- a/modulegraph2/_htmlbuilder.py
+++ b/modulegraph2/_htmlbuilder.py
@@ -9,6 +9,7 @@ Support code for generating HTML output from a module graph
 
 import operator
 import textwrap
+from html import escape
 from typing import TextIO
 
 from . import BaseNode, ModuleGraph
@@ -52,7 +53,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             continue
 
         print(
-            f'<a name="{node.identifier}"><h2>{type(node).__name__} {node.name}</h2></a>',  # noqa:E501, B950
+            f'<a name="{escape(node.identifier)}"><h2>{type(node).__name__} {escape(node.name)}</h2></a>',  # noqa:E501, B950
             file=file,
         )
         outgoing = list(graph.outgoing(node))
@@ -60,7 +61,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             print("<p>Depends on:", file=file)
             print(
                 ", ".join(
-                    f'<a href="#{target.identifier}">{target.name}</a>'
+                    f'<a href="#{escape(target.identifier)}">{escape(target.name)}</a>'
                     for _, target in outgoing
                 ),
                 file=file,
@@ -71,7 +72,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             print("<p>Used by:", file=file)
             print(
                 ", ".join(
-                    f'<a href="#{source.identifier}">{source.name}</a>'
+                    f'<a href="#{escape(source.identifier)}">{escape(source.name)}</a>'
                     for _, source in incoming
                     if source.identifier in reachable
                 ),
-- 
2.43.0


From d9b06758eb05ef068efc232e822102582b791629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 27/35] fix: RECORD files are read as UTF-8, whatever the
 locale

---
 modulegraph2/_distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index cd674f7..ab7bd5e 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -83,7 +83,9 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
     version = info["Version"]
     assert isinstance(version, str)
 
-    with open(os.path.join(distribution_file, "RECORD")) as record_fp:
+    with open(
+        os.path.join(distribution_file, "RECORD"), encoding="utf-8"
+    ) as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
 
         for ln in record_fp:
-- 
2.43.0


From 4c17ca7f8667a22e1c564c9914be088f2684c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 28/35] fix: files of distributions in relative search path
 entries

---
 modulegraph2/_distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index ab7bd5e..542e298 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -146,6 +146,8 @@ def all_distributions(
         path = sys.path
 
     for entry in path:
+        # The import system makes file names absolute
+        entry = os.path.abspath(entry)
         try:
             for fname in os.listdir(entry):
                 if not fname.endswith(".dist-info"):
-- 
2.43.0


From 5194b102607a77b32b0e3a8590754930d5a44b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 29/35] fix: data files are found in all directories of a
 package

---
 modulegraph2/_graphbuilder.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 2dac03a..b131660 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -122,6 +122,10 @@ INVALID_CODE_ERRORS = (
 )
 
 
+# Directories whose contents are not package data
+NO_DATA_DIRECTORIES = ("__pycache__", ".git", ".hg", ".svn")
+
+
 def _contains_datafiles(directory: pathlib.Path):
     """
     Returns true iff *directory* is contains package data
@@ -131,15 +135,18 @@ def _contains_datafiles(directory: pathlib.Path):
     """
     try:
         for p in directory.iterdir():
-            if any(p.name.endswith(sfx) for sfx in importlib.machinery.all_suffixes()):
-                # Python module is not a data file
-                continue
-
-            elif p.name in ("__pycache__", ".hg", ".svn", ".hg"):
+            if p.name in NO_DATA_DIRECTORIES:
                 continue
 
             elif p.is_dir():
-                return _contains_datafiles(p)
+                if _contains_datafiles(p):
+                    return True
+
+            elif any(
+                p.name.endswith(sfx) for sfx in importlib.machinery.all_suffixes()
+            ):
+                # Python module is not a data file
+                continue
 
             else:
                 return True
@@ -159,8 +166,8 @@ def _contains_datafiles(directory: pathlib.Path):
             for nm in zf.namelist():
                 if nm.startswith(path):
                     if any(
-                        part in ("__pycache__", ".hg", ".svn", ".hg")
-                        for part in nm.split("/")
+                        part in NO_DATA_DIRECTORIES
+                        for part in nm[len(path) :].split("/")  # noqa: E203
                     ):
                         continue
 
-- 
2.43.0


From bfab0f4cbafcf3d6653c24b8601e40f5c37efebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 30/35] fix: incomplete distributions do not hide others

---
 modulegraph2/_distributions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 542e298..fd02c39 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -79,9 +79,9 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
         info = BytesParser().parse(meta_fp)
 
     name = info["Name"]
-    assert isinstance(name, str)
     version = info["Version"]
-    assert isinstance(version, str)
+    if not isinstance(name, str) or not isinstance(version, str):
+        raise ValueError(f"{distribution_file!r} does not have valid metadata")
 
     with open(
         os.path.join(distribution_file, "RECORD"), encoding="utf-8"
@@ -159,7 +159,12 @@ def all_distributions(
                     dist = _cached_distributions[dist_name]
 
                 except KeyError:
-                    dist = create_distribution(dist_name)
+                    try:
+                        dist = create_distribution(dist_name)
+                    except (OSError, ValueError):
+                        # Not a usable distribution, for example the remains
+                        # of an interrupted uninstall.
+                        continue
                     _cached_distributions[dist_name] = dist
 
                 yield dist
-- 
2.43.0


From 374428f0d46560dd3e6b295f7a275b35319c32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 31/35] fix: source code of modules without a file

---
 modulegraph2/_graphbuilder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index b131660..fe76e2a 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -269,8 +269,7 @@ def node_for_spec(
             node_type = InvalidModule
 
         if source_code is not None:
-            filename = spec.origin
-            assert filename is not None
+            filename = spec.origin if spec.origin is not None else "<unknown>"
 
             try:
                 ast_node = compile(
-- 
2.43.0


From 264a4bf69321f7c67e3a5ba7d431a79da3fa7cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 32/35] fix: extension modules imported as __init__ of a
 package

---
 modulegraph2/_graphbuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index fe76e2a..33be6d6 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -487,7 +487,9 @@ def node_for_spec(
 
     loader = cast(importlib.abc.InspectLoader, loader)
 
-    if loader.is_package(spec.name):
+    # An extension module "package.__init__" has a loader for packages, but
+    # isn't one itself.
+    if spec.submodule_search_locations is not None and loader.is_package(spec.name):
         node_file = node.filename
         if node_file is not None:
             node_file = node_file.parent
-- 
2.43.0


From 47b4b5849c8a9532c9dec7874ba607f9138b49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 33/35] fix: scan bytecode with more than 65536 constants or
 names

---
 modulegraph2/_bytecode_tools.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index a89f204..5be6efe 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -58,7 +58,11 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
 
       is_class_code: True if this is the code object for a class
     """
-    instructions = list(dis.get_instructions(code))
+    # The prefixes for large operands are dropped, the operand of the other
+    # instructions is the full value.
+    instructions = [
+        inst for inst in dis.get_instructions(code) if inst.opname != "EXTENDED_ARG"
+    ]
 
     imports: list[ImportInfo] = []
     globals_written: set[str] = set()
@@ -70,12 +74,7 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
     for offset, inst in enumerate(instructions):
         if inst.opname == "IMPORT_NAME":
             from_inst_offset = 1
-            if instructions[offset - from_inst_offset].opname == "EXTENDED_ARG":
-                from_inst_offset += 1
-
-            level_inst_offset = from_inst_offset + 1
-            if instructions[offset - level_inst_offset].opname == "EXTENDED_ARG":
-                level_inst_offset += 1
+            level_inst_offset = 2
 
             assert (
                 instructions[offset - from_inst_offset].opname == "LOAD_CONST"
-- 
2.43.0


From 6ebf4d5a5c150bb2b39f32e239dcb0947b5a759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 34/35] fix: imports in generic and closure classes in bytecode
 are not in a function

---
 modulegraph2/_bytecode_tools.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 5be6efe..421cd0d 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -6,6 +6,7 @@ and the use of global names.
 
 import collections
 import dis
+import inspect
 import sys
 import types
 from collections.abc import Iterator
@@ -158,28 +159,13 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
                 const_offset = instructions[offset - 2].arg
             assert const_offset is not None
 
-            if sys.version_info[:2] >= (3, 11):
-                if (
-                    offset >= 2
-                    and instructions[offset - 2].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                elif (
-                    offset >= 3
-                    and instructions[offset - 2].opname == "PUSH_NULL"
-                    and instructions[offset - 3].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                else:
-                    func_codes.add(code.co_consts[const_offset])
-            else:
-                if (
-                    offset >= 3
-                    and instructions[offset - 3].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                else:
-                    func_codes.add(code.co_consts[const_offset])
+            child = code.co_consts[const_offset]
+            if not child.co_flags & inspect.CO_OPTIMIZED:
+                class_codes.add(child)
+            elif not child.co_name.startswith("<generic parameters of "):
+                # The type parameters of generic classes and functions (PEP 695)
+                # are evaluated by a function that's called right away.
+                func_codes.add(child)
 
     return imports, globals_written, globals_read, func_codes, class_codes
 
-- 
2.43.0


From fb836fcb3a4bd0a7b88091da66923c2519d7cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 35/35] fix: names declared global in a class are global names

---
 modulegraph2/_bytecode_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 421cd0d..cdf2b1e 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -130,7 +130,7 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             "STORE_NAME",
             "STORE_GLOBAL",
         ):
-            if is_class_code or is_function_code and inst.opname == "STORE_NAME":
+            if (is_class_code or is_function_code) and inst.opname == "STORE_NAME":
                 continue
 
             const_offset = inst.arg
-- 
2.43.0

