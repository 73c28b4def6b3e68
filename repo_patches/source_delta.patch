From 544c0795afbd1ec9f4b9efd375625faf16c47363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 01/79] fix: check out the resolved git target instead of
 always the branch

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 2aa3c70..0c3ebab 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -104,7 +104,7 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         git_target: Final[Optional[str]] = self._resolve_checkout_target()
         if git_target:
             try:
-                repo.git.checkout(self._git_target.branch, force=True)
+                repo.git.checkout(git_target, force=True)
             except git_exceptions.GitError as e:
                 raise FetchError(f"Failed to git checkout target: {git_target}") from e
 
-- 
2.43.0


From dcf18bfbabd6b71d575b066f5a64dab359021dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 02/79] fix: allow local git sources to be copied into the
 existing temp directory

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 0c3ebab..fca8fd1 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -65,7 +65,7 @@ class GitArtifactFetcher(BaseArtifactFetcher):
             case True:
                 return Repo.clone_from(self._git_target.url, self._temp_dir_path)  # type: ignore[misc]
             case False:
-                shutil.copytree(self._git_target.url, self._temp_dir_path)
+                shutil.copytree(self._git_target.url, self._temp_dir_path, dirs_exist_ok=True)
                 return Repo(self._temp_dir_path)
 
     def _resolve_checkout_target(self) -> Optional[str]:
-- 
2.43.0


From af36c8dfbe6e2c2e04f0bcf3caef68918e8c3e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 03/79] fix: report corrupt, truncated, or encrypted archives
 as fetch errors

---
 .../fetcher/http_artifact_fetcher.py               | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 2473478..9873a39 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -4,8 +4,10 @@
 
 from __future__ import annotations
 
+import lzma
 import tarfile
 import zipfile
+import zlib
 from enum import Enum, auto
 from pathlib import Path
 from typing import Final, Iterator, cast
@@ -82,7 +84,17 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
                 # TODO 7-zip support
                 case _:
                     raise FetchError("The archive type could not be identified.")
-        except (tarfile.TarError, zipfile.BadZipFile, ValueError) as e:
+        # Decompressors report corrupt/truncated data with their own exception types. `zipfile` raises a `RuntimeError`
+        # (or the derived `NotImplementedError`) on encrypted members and unsupported compression methods.
+        except (
+            tarfile.TarError,
+            zipfile.BadZipFile,
+            zlib.error,
+            lzma.LZMAError,
+            EOFError,
+            RuntimeError,
+            ValueError,
+        ) as e:
             raise FetchError("An extraction error occurred while extracting the archive.") from e
         except IOError as e:
             raise FetchError("A file system error occurred while extracting the archive.") from e
-- 
2.43.0


From e33590e68902ce26266a2ab4abb35cdaa3fee80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 04/79] fix: do not pass recipe paths and build arguments
 through a shell

---
 conda_recipe_manager/commands/rattler_bulk_build.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/rattler_bulk_build.py b/conda_recipe_manager/commands/rattler_bulk_build.py
index f51e44d..356f54e 100644
--- a/conda_recipe_manager/commands/rattler_bulk_build.py
+++ b/conda_recipe_manager/commands/rattler_bulk_build.py
@@ -53,10 +53,9 @@ def build_recipe(file: Path, path: Path, args: list[str]) -> tuple[str, BuildRes
     cmd.extend(args)
     try:
         output: Final[subprocess.CompletedProcess[str]] = subprocess.run(
-            " ".join(cmd),
+            cmd,
             encoding="utf-8",
             capture_output=True,
-            shell=True,
             check=False,
             timeout=DEFAULT_RATTLER_BUILD_TIMEOUT,
         )
@@ -65,6 +64,11 @@ def build_recipe(file: Path, path: Path, args: list[str]) -> tuple[str, BuildRes
             code=ExitCode.TIMEOUT,
             errors=["Recipe build dry-run timed out."],
         )
+    except OSError as e:
+        return str(file.relative_to(path)), BuildResult(
+            code=ExitCode.IO_ERROR,
+            errors=[f"Failed to run rattler-build: {e}"],
+        )
 
     return str(file.relative_to(path)), BuildResult(
         code=output.returncode,
-- 
2.43.0


From 1fe4de710609a7154f4c7fe4a309046e976d2b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 05/79] fix: reset the build number when a target version is
 provided with --build-num

---
 conda_recipe_manager/commands/bump_recipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index a92a213..d897d54 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -388,7 +388,7 @@ def bump_recipe(
         sys.exit(ExitCode.PARSE_EXCEPTION)
 
     # Attempt to update fields
-    _update_build_num(recipe_parser, build_num)
+    _update_build_num(recipe_parser, build_num and target_version is None)
 
     # NOTE: We check if `target_version` is specified to perform a "full bump" for type checking reasons. Also note that
     # the `build_num` flag is invalidated if we are bumping to a new version. The build number must be reset to 0 in
-- 
2.43.0


From eac86e57b867a75a2b289f156f2b7e737bc26ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 06/79] fix: compare the exact bulk build success rate against
 the threshold

---
 conda_recipe_manager/commands/rattler_bulk_build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/rattler_bulk_build.py b/conda_recipe_manager/commands/rattler_bulk_build.py
index 356f54e..8e0834f 100644
--- a/conda_recipe_manager/commands/rattler_bulk_build.py
+++ b/conda_recipe_manager/commands/rattler_bulk_build.py
@@ -214,4 +214,4 @@ def rattler_bulk_build(
         create_debug_file(debug_log, results, error_histogram)
 
     print(json.dumps(final_output, indent=2))
-    sys.exit(ExitCode.SUCCESS if percent_success >= min_success_rate else ExitCode.MISSED_SUCCESS_THRESHOLD)
+    sys.exit(ExitCode.SUCCESS if total_success / total_recipes >= min_success_rate else ExitCode.MISSED_SUCCESS_THRESHOLD)
-- 
2.43.0


From 050dd25be98218c07e9a09aaebbf73944451dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 07/79] fix: compare the exact bulk conversion success rate
 against the threshold

---
 conda_recipe_manager/commands/convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index 357443f..cbc03d9 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -368,4 +368,8 @@ def convert(
         final_output["recipes_with_warnings"] = recipes_with_warnings
 
     print_out(json.dumps(final_output, indent=2))
-    sys.exit(ExitCode.SUCCESS if percent_recipe_success >= min_success_rate else ExitCode.MISSED_SUCCESS_THRESHOLD)
+    sys.exit(
+        ExitCode.SUCCESS
+        if num_recipe_success / total_recipes >= min_success_rate
+        else ExitCode.MISSED_SUCCESS_THRESHOLD
+    )
-- 
2.43.0


From 4d91ee1e08cdfdb0b0498946fe67b73f3875752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 08/79] fix: count every unrecoverable conversion failure in
 the bulk statistics

---
 conda_recipe_manager/commands/convert.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index cbc03d9..567842f 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -306,7 +306,13 @@ def convert(
     num_recipe_success: int = 0
 
     for project_name, result in results.items():
-        if result.code in {ExitCode.PARSE_EXCEPTION, ExitCode.READ_EXCEPTION, ExitCode.RENDER_EXCEPTION}:
+        if result.code in {
+            ExitCode.ILLEGAL_OPERATION,
+            ExitCode.PARSE_EXCEPTION,
+            ExitCode.PRE_PROCESS_EXCEPTION,
+            ExitCode.READ_EXCEPTION,
+            ExitCode.RENDER_EXCEPTION,
+        }:
             recipes_with_except.append(project_name)
             exceptions = result.msg_tbl.get_messages(MessageCategory.EXCEPTION)
             for exception in exceptions:
-- 
2.43.0


From 49eeb51c1281eeed701322f4bf9405908f2270c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 09/79] fix: read patch command inputs as UTF-8

---
 conda_recipe_manager/commands/patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index 587fcad..2cb86b9 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -29,13 +29,13 @@ def _pre_patch_validate(
     :returns: A tuple containing the patch blob/blobs from the json file and a RecipeParser object
     """
     try:
-        contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text()))
+        contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text(encoding="utf-8")))
     except json.JSONDecodeError:
         print(f"Non-JSON file provided: {json_patch_file_path}")
         sys.exit(ExitCode.JSON_ERROR)
 
     try:
-        contents_recipe = recipe_file_path.read_text()
+        contents_recipe = recipe_file_path.read_text(encoding="utf-8")
     except IOError:
         print_err(f"Couldn't read the given recipe file: {recipe_file_path}")
         sys.exit(ExitCode.IO_ERROR)  # untested
-- 
2.43.0


From 859890b5a57d6b61a01899c311438c084c6bfbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 10/79] fix: report invalid JSON patch files on STDERR

---
 conda_recipe_manager/commands/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index 2cb86b9..b517954 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -31,7 +31,7 @@ def _pre_patch_validate(
     try:
         contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text(encoding="utf-8")))
     except json.JSONDecodeError:
-        print(f"Non-JSON file provided: {json_patch_file_path}")
+        print_err(f"Non-JSON file provided: {json_patch_file_path}")
         sys.exit(ExitCode.JSON_ERROR)
 
     try:
-- 
2.43.0


From 53c28ace06332db609227f51ab20885b497996b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 11/79] fix: do not save partially patched recipes

---
 conda_recipe_manager/commands/patch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index b517954..403ba66 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -81,5 +81,7 @@ def patch(json_patch_file_path: str, recipe_file_path: str) -> None:
         print_err("The patch provided did not follow the expected schema.")
         error_code = ExitCode.JSON_ERROR
 
-    recipe_path.write_text(recipe_parser.render(), encoding="utf-8")
+    # Only save the recipe if every patch was applied, so that a failure does not leave a partially patched recipe behind.
+    if error_code == ExitCode.SUCCESS:
+        recipe_path.write_text(recipe_parser.render(), encoding="utf-8")
     sys.exit(error_code)
-- 
2.43.0


From 591b56241cd4c1e53f6a16261e95ee065ad3ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 12/79] fix: wrap long lines in the patch command

---
 conda_recipe_manager/commands/patch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index 403ba66..f04fe7e 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -29,7 +29,9 @@ def _pre_patch_validate(
     :returns: A tuple containing the patch blob/blobs from the json file and a RecipeParser object
     """
     try:
-        contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text(encoding="utf-8")))
+        contents_json = cast(
+            JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text(encoding="utf-8"))
+        )
     except json.JSONDecodeError:
         print_err(f"Non-JSON file provided: {json_patch_file_path}")
         sys.exit(ExitCode.JSON_ERROR)
@@ -81,7 +83,7 @@ def patch(json_patch_file_path: str, recipe_file_path: str) -> None:
         print_err("The patch provided did not follow the expected schema.")
         error_code = ExitCode.JSON_ERROR
 
-    # Only save the recipe if every patch was applied, so that a failure does not leave a partially patched recipe behind.
+    # Only save the recipe if every patch was applied. A failure must not leave a partially patched recipe behind.
     if error_code == ExitCode.SUCCESS:
         recipe_path.write_text(recipe_parser.render(), encoding="utf-8")
     sys.exit(error_code)
-- 
2.43.0


From 430e20791c06752b1d23936256084174602fb10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 13/79] fix: read recipes as UTF-8 when building a recipe graph

---
 conda_recipe_manager/grapher/recipe_graph_from_disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/grapher/recipe_graph_from_disk.py b/conda_recipe_manager/grapher/recipe_graph_from_disk.py
index f04dbe5..ab808c4 100644
--- a/conda_recipe_manager/grapher/recipe_graph_from_disk.py
+++ b/conda_recipe_manager/grapher/recipe_graph_from_disk.py
@@ -28,7 +28,7 @@ class RecipeGraphFromDisk(RecipeGraph):
             a debug string and None.
         """
         try:
-            parser = RecipeReaderDeps(file.read_text())
+            parser = RecipeReaderDeps(file.read_text(encoding="utf-8"))
             return (parser.calc_sha256(), parser)
         except Exception:  # pylint: disable=broad-exception-caught
             return (file.as_posix(), None)
-- 
2.43.0


From 70c28a411958084d6f0fa42af7329cab534f5896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 14/79] fix: honor Python source encodings in the dependency
 scanner

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index b860230..d9bf9cc 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -96,7 +96,7 @@ class PythonDependencyScanner(BaseDependencyScanner):
         project_modules: Final[set[str]] = self._get_project_modules()
         # Adapted from:
         #   https://stackoverflow.com/questions/9008451/python-easy-way-to-read-all-import-statements-from-py-module
-        root = ast.parse(file.read_text(), file)
+        root = ast.parse(file.read_bytes(), file)
 
         for node in ast.walk(root):
             if not isinstance(node, (ast.Import, ast.ImportFrom)):
-- 
2.43.0


From f0e013fb5a3ee85adfa320c2ecac481294da5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 15/79] fix: do not report relative imports as dependencies

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index d9bf9cc..e1c626f 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -107,11 +107,10 @@ class PythonDependencyScanner(BaseDependencyScanner):
                 # Handle multiple (comma-separated) imports on one line
                 for alias in node.names:
                     module_names.append(alias.name.split(".")[0])
-            elif node.module is not None:
+            elif node.module is not None and node.level == 0:
                 module_names.append(node.module.split(".")[0])
 
             for module_name in module_names:
-                # TODO filter relative imports
                 # Filter-out the standard library modules and local module names (i.e. modules defined in the target
                 # project).
                 if not module_name or module_name in sys.stdlib_module_names or module_name in project_modules:
-- 
2.43.0


From 20a40335895ad59d5a638609637a9ad1177e52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 16/79] fix: log pyproject files that are not valid UTF-8

---
 .../scanner/dependency/pyproject_dep_scanner.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
index 082f225..a3c99aa 100644
--- a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
@@ -43,10 +43,10 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         try:
             with open(self._src_dir / self._project_fn, "rb") as f:
                 data = cast(dict[str, dict[str, list[str] | dict[str, list[str]]]], tomllib.load(f))
-        except (FileNotFoundError, tomllib.TOMLDecodeError) as e:
+        except (FileNotFoundError, UnicodeDecodeError, tomllib.TOMLDecodeError) as e:
             if isinstance(e, FileNotFoundError):
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"`{self._project_fn}` file not found.")
-            if isinstance(e, tomllib.TOMLDecodeError):
+            else:
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"Could not parse `{self._project_fn}` file.")
             return set()
 
-- 
2.43.0


From f3902b20ae8239948fedca8fc6a75b14c9e215ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 17/79] fix: include packages without dependencies in the
 recipe graphs

---
 conda_recipe_manager/grapher/recipe_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/grapher/recipe_graph.py b/conda_recipe_manager/grapher/recipe_graph.py
index 7f7f3c9..ee80223 100644
--- a/conda_recipe_manager/grapher/recipe_graph.py
+++ b/conda_recipe_manager/grapher/recipe_graph.py
@@ -97,6 +97,9 @@ class RecipeGraph:
                     continue
                 self._name_to_sha256[package_name] = sha
                 self._package_stats.total_packages += 1
+                # Every known package is a node in both graphs, even if it has no dependencies.
+                self._build_graph.add_node(package_name)  # type: ignore[misc]
+                self._test_graph.add_node(package_name)  # type: ignore[misc]
                 for dep in deps:
                     match dep.type:
                         # Build graph
-- 
2.43.0


From e7cd529d1d8ab6e9cf817634a0e342f17fba78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 18/79] fix: fail patches that use an out-of-bounds list index
 instead of raising

---
 conda_recipe_manager/parser/_traverse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index f32167c..26a8179 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -144,7 +144,11 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
 
     node = traverse(root, path)
     if node is not None and virt_idx >= 0:
-        phys_idx = remap_child_indices_virt_to_phys(node.children)[virt_idx]
+        idx_map = remap_child_indices_virt_to_phys(node.children)
+        # The caller is responsible for rejecting a virtual index that is out-of-bounds.
+        if virt_idx >= len(idx_map):
+            return node, virt_idx, INVALID_IDX
+        phys_idx = idx_map[virt_idx]
 
         # If the node in a list is a "Collection Element", we want return that node and not the parent that contains
         # the list. Collection Nodes are abstract containers that will contain the rest of
-- 
2.43.0


From dad72a6df67fddff8263fcd0e9f79b4247c65a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 19/79] fix: restore the recipe when a move patch fails half
 way

---
 conda_recipe_manager/parser/recipe_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 19ce469..7008853 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -17,6 +17,7 @@
 
 from __future__ import annotations
 
+import copy
 import difflib
 import re
 from typing import Final, Optional, TypeGuard, cast
@@ -453,7 +454,12 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
-        return self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value)
+        # The removal may invalidate the target path, so the original tree must be restored on failure.
+        original_root: Final[Node] = copy.deepcopy(self._root)
+        if self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value):
+            return True
+        self._root = original_root
+        return False
 
     def _patch_copy(self, path_stack: StrStack, value_from: str) -> bool:
         """
-- 
2.43.0


From d60223eeab2621d529ebc447361dca87a38717be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 20/79] fix: reject patches with an empty from path

---
 conda_recipe_manager/parser/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/types.py b/conda_recipe_manager/parser/types.py
index 69957bb..3d83386 100644
--- a/conda_recipe_manager/parser/types.py
+++ b/conda_recipe_manager/parser/types.py
@@ -37,7 +37,7 @@ JSON_PATCH_SCHEMA: Final[SchemaType] = {
     "properties": {
         "op": {"enum": ["add", "remove", "replace", "move", "copy", "test"]},
         "path": {"type": "string", "minLength": 1},
-        "from": {"type": "string"},
+        "from": {"type": "string", "minLength": 1},
         "value": {
             "type": [
                 "string",
-- 
2.43.0


From 475210fae785ff3be5783f8efc26982c6e871588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 21/79] fix: do not consume stack paths when they are converted
 to strings

---
 conda_recipe_manager/parser/_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 1f37fc8..a7e4cfb 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -60,9 +60,8 @@ def stack_path_to_str(path_stack: StrStack | StrStackImmutable) -> str:
     :param path_stack: Stack to construct back into a string.
     :returns: Path, described as a string.
     """
-    # Normalize type if a tuple is given.
-    if isinstance(path_stack, tuple):
-        path_stack = list(path_stack)
+    # Normalize the type and copy the stack, so that the caller's data is not consumed.
+    path_stack = list(path_stack)
     path = ""
     while len(path_stack) > 0:
         value = path_stack.pop()
-- 
2.43.0


From 429dfa8530f0ed1eca377e5d900eac8c870a4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 22/79] fix: rebuild the selector table when adding a comment

---
 conda_recipe_manager/parser/recipe_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 7008853..8b0c925 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -251,6 +251,7 @@ class RecipeParser(RecipeReader):
         # on the same line as their children.
         if node.is_single_key():
             node.children[0].comment = comment
+        self._rebuild_selectors()
         self._is_modified = True
 
     ## YAML Patching Functions ##
-- 
2.43.0


From 2295412a464e41bf9bcc9b1849a855dec11127ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 23/79] fix: do not modify the caller's patch in
 search_and_patch

---
 conda_recipe_manager/parser/recipe_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 8b0c925..0164bee 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -588,8 +588,7 @@ class RecipeParser(RecipeReader):
         paths = self.search(regex, include_comment)
         summation: bool = True
         for path in paths:
-            patch["path"] = path
-            summation = summation and self.patch(patch)
+            summation = summation and self.patch({**patch, "path": path})
         return summation
 
     def diff(self) -> str:
-- 
2.43.0


From 898095804211d7408434916931bc1dd8741e5981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 24/79] fix: parse multiline values at the end of a recipe file

---
 conda_recipe_manager/parser/recipe_reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 782de49..54a050b 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -450,16 +450,15 @@ class RecipeReader(IsModifiable):
                 )
                 # Type narrow that we assigned `value` as a `list`
                 assert isinstance(multiline_node.value, list)
-                multiline = lines[line_idx]
-                multiline_indent = num_tab_spaces(multiline)
                 # Add the line to the list once it is verified to be the next line to capture in this node. This means
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
                 # valid in multi-line strings, occasionally found in `/about/summary` sections.
-                while multiline_indent > new_indent or multiline == "":
+                while line_idx < num_lines:
+                    multiline = lines[line_idx]
+                    if multiline != "" and num_tab_spaces(multiline) <= new_indent:
+                        break
                     multiline_node.value.append(multiline.strip())
                     line_idx += 1
-                    multiline = lines[line_idx]
-                    multiline_indent = num_tab_spaces(multiline)
                 # The previous level is the key to this multi-line value, so we can safely reset it.
                 new_node.children = [multiline_node]
             if new_indent > cur_indent:
-- 
2.43.0


From f2b1776c55fe2d1e58966ebced83aa72afe58715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 25/79] fix: treat variable names literally when searching for
 references

---
 conda_recipe_manager/parser/recipe_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 54a050b..c2d1775 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1067,9 +1067,9 @@ class RecipeReader(IsModifiable):
         def _init_re() -> re.Pattern[str]:
             match self._schema_version:
                 case SchemaVersion.V0:
-                    return re.compile(r"{{.*" + var + r".*}}")
+                    return re.compile(r"{{.*" + re.escape(var) + r".*}}")
                 case SchemaVersion.V1:
-                    return re.compile(r"\${{.*" + var + r".*}}")
+                    return re.compile(r"\${{.*" + re.escape(var) + r".*}}")
 
         var_re: Final[re.Pattern[str]] = _init_re()
 
-- 
2.43.0


From dcc9787dd3376cd8a9a377b93151343afe21b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 26/79] fix: tolerate empty dependency sections when reading
 all dependencies

---
 conda_recipe_manager/parser/recipe_reader_deps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index feefba4..5a2fe18 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -125,8 +125,9 @@ class RecipeReaderDeps(RecipeReader):
             dep_map[package] = []
             for section_str, deps in requirements.items():
                 section = str_to_dependency_section(section_str)
-                # Unrecognized sections will be skipped as "junk" data
-                if section is None:
+                # Unrecognized sections will be skipped as "junk" data. The same is true of sections that are empty
+                # or may not contain a list (an empty section is interpreted as `None`).
+                if section is None or not isinstance(deps, list):
                     continue
 
                 for i, dep in enumerate(deps):
-- 
2.43.0


From fd31b08921a0152a8dd8f9d261fc87cc8f6d5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 27/79] fix: do not list dependency paths for empty dependency
 sections

---
 conda_recipe_manager/parser/recipe_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index c2d1775..a5fa943 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1002,6 +1002,9 @@ class RecipeReader(IsModifiable):
                 # Relying on `get_value()` ensures that we will only examine literal values and ignore comments
                 # in-between dependencies.
                 dependencies = cast(list[str], self.get_value(section_path, []))
+                # Empty sections do not contain a list of dependencies
+                if not isinstance(dependencies, list):
+                    continue
                 for i in range(len(dependencies)):
                     paths.append(f"{section_path}/{i}")
 
-- 
2.43.0


From b37cef1c7e5132c49da94e58cec64577b0c6967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 28/79] fix: save edits made to the variables of V1 recipes

---
 conda_recipe_manager/parser/recipe_parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 0164bee..683b416 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -33,7 +33,7 @@ from conda_recipe_manager.parser._traverse import (
 )
 from conda_recipe_manager.parser._types import Regex, StrStack
 from conda_recipe_manager.parser._utils import str_to_stack_path
-from conda_recipe_manager.parser.enums import SelectorConflictMode
+from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
@@ -104,6 +104,12 @@ class RecipeParser(RecipeReader):
         :param value: Value to set
         """
         self._vars_tbl[var] = value
+        # V1 variables are rendered from the parse tree.
+        if self._schema_version == SchemaVersion.V1:
+            if self.contains_value("/context"):
+                self.patch({"op": "add", "path": f"/context/{var}", "value": value})
+            else:
+                self.patch({"op": "add", "path": "/context", "value": {var: value}})
         self._is_modified = True
 
     def del_variable(self, var: str) -> None:
@@ -115,6 +121,9 @@ class RecipeParser(RecipeReader):
         if not var in self._vars_tbl:
             return
         del self._vars_tbl[var]
+        # V1 variables are rendered from the parse tree.
+        if self._schema_version == SchemaVersion.V1:
+            self.patch({"op": "remove", "path": f"/context/{var}"})
         self._is_modified = True
 
     ## Selector Editing Functions ##
-- 
2.43.0


From 60678e9bd5469d164fbfa5fd0df631e19a83d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 29/79] fix: simplify a comment on skipped dependency sections

---
 conda_recipe_manager/parser/recipe_reader_deps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index 5a2fe18..adcbd05 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -125,8 +125,7 @@ class RecipeReaderDeps(RecipeReader):
             dep_map[package] = []
             for section_str, deps in requirements.items():
                 section = str_to_dependency_section(section_str)
-                # Unrecognized sections will be skipped as "junk" data. The same is true of sections that are empty
-                # or may not contain a list (an empty section is interpreted as `None`).
+                # Unrecognized and empty sections will be skipped as "junk" data
                 if section is None or not isinstance(deps, list):
                     continue
 
-- 
2.43.0


From 2e96032c4c0a4dec7395c28e5fba30c0ba8a4d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:39 +0000
Subject: [PATCH 30/79] fix: evaluate `and` before `or` in selectors

---
 conda_recipe_manager/parser/selector_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/selector_parser.py b/conda_recipe_manager/parser/selector_parser.py
index e2ba136..e365559 100644
--- a/conda_recipe_manager/parser/selector_parser.py
+++ b/conda_recipe_manager/parser/selector_parser.py
@@ -125,7 +125,8 @@ class SelectorParser(IsModifiable):
                 #   - `not osx and win` is interpreted as `(not osx) and win`
                 #   - In Python, `not True or True` is interpreted as `(not True) or True`, returning `True`
                 if node.value != LogicOp.NOT:
-                    while op_stack and op_stack[-1].value == LogicOp.NOT:
+                    # `AND` has a higher precedence than `OR` and operators of the same precedence are left-associative.
+                    while op_stack and (node.value == LogicOp.OR or op_stack[-1].value != LogicOp.OR):
                         postfix_stack.append(op_stack.pop())
                 op_stack.append(node)
                 continue
-- 
2.43.0


From faa92f844b9e2d70a65d3d08f837ec15ff104f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:39 +0000
Subject: [PATCH 31/79] fix: convert the git_branch source field to the V1
 format

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 14cfc50..a0a0f03 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -301,6 +301,7 @@ class RecipeParserConvert(RecipeParser):
 
                 # `git` source transformations (`conda` does not appear to support all of the new features)
                 self._patch_move_base_path(src_path, "/git_url", "/git")
+                self._patch_move_base_path(src_path, "/git_branch", "/branch")
                 self._patch_move_base_path(src_path, "/git_tag", "/tag")
                 self._patch_move_base_path(src_path, "/git_rev", "/rev")
                 self._patch_move_base_path(src_path, "/git_depth", "/depth")
-- 
2.43.0


From f1f156f8630ab2fda499bc370a684cc80e9d76b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 32/79] fix: convert Jinja substitutions in a deterministic
 order

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index a0a0f03..3d91dc4 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -10,7 +10,12 @@ from typing import Final, Optional, cast
 
 from conda_recipe_manager.licenses.spdx_utils import SpdxUtils
 from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, CanonicalSortOrder, Regex
-from conda_recipe_manager.parser._utils import search_any_regex, set_key_conditionally, stack_path_to_str
+from conda_recipe_manager.parser._utils import (
+    dedupe_and_preserve_order,
+    search_any_regex,
+    set_key_conditionally,
+    stack_path_to_str,
+)
 from conda_recipe_manager.parser.enums import SchemaVersion
 from conda_recipe_manager.parser.recipe_parser import RecipeParser
 from conda_recipe_manager.parser.types import CURRENT_RECIPE_SCHEMA_FORMAT
@@ -154,10 +159,10 @@ class RecipeParserConvert(RecipeParser):
         # Similarly, patch-in the new `schema_version` value to the top of the file
         self._patch_and_log({"op": "add", "path": "/schema_version", "value": CURRENT_RECIPE_SCHEMA_FORMAT})
 
-        # Swap all JINJA to use the new `${{ }}` format. A `set` is used as `str.replace()` will replace all instances
+        # Swap all JINJA to use the new `${{ }}` format. Paths are de-duped as `str.replace()` will replace all instances
         # and a value containing multiple variables could be visited multiple times, causing multiple `${{}}`
         # encapsulations.
-        jinja_sub_locations: Final[set[str]] = set(self._v1_recipe.search(Regex.JINJA_V0_SUB))
+        jinja_sub_locations: Final[list[str]] = dedupe_and_preserve_order(self._v1_recipe.search(Regex.JINJA_V0_SUB))
         for path in jinja_sub_locations:
             value = self._v1_recipe.get_value(path)
             # Values that match the regex should only be strings. This prevents crashes that should not occur.
-- 
2.43.0


From ab00376bab55b3ce99df256228c4f51360291095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 33/79] fix: wrap long lines

---
 conda_recipe_manager/commands/rattler_bulk_build.py  | 6 +++++-
 conda_recipe_manager/parser/recipe_parser_convert.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/rattler_bulk_build.py b/conda_recipe_manager/commands/rattler_bulk_build.py
index 8e0834f..c3759ef 100644
--- a/conda_recipe_manager/commands/rattler_bulk_build.py
+++ b/conda_recipe_manager/commands/rattler_bulk_build.py
@@ -214,4 +214,8 @@ def rattler_bulk_build(
         create_debug_file(debug_log, results, error_histogram)
 
     print(json.dumps(final_output, indent=2))
-    sys.exit(ExitCode.SUCCESS if total_success / total_recipes >= min_success_rate else ExitCode.MISSED_SUCCESS_THRESHOLD)
+    sys.exit(
+        ExitCode.SUCCESS
+        if total_success / total_recipes >= min_success_rate
+        else ExitCode.MISSED_SUCCESS_THRESHOLD
+    )
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 3d91dc4..e10fdf4 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -159,7 +159,7 @@ class RecipeParserConvert(RecipeParser):
         # Similarly, patch-in the new `schema_version` value to the top of the file
         self._patch_and_log({"op": "add", "path": "/schema_version", "value": CURRENT_RECIPE_SCHEMA_FORMAT})
 
-        # Swap all JINJA to use the new `${{ }}` format. Paths are de-duped as `str.replace()` will replace all instances
+        # Swap all JINJA to use the new `${{ }}` format. Paths are unique as `str.replace()` will replace all instances
         # and a value containing multiple variables could be visited multiple times, causing multiple `${{}}`
         # encapsulations.
         jinja_sub_locations: Final[list[str]] = dedupe_and_preserve_order(self._v1_recipe.search(Regex.JINJA_V0_SUB))
-- 
2.43.0


From 528f4aa6b58c7d7a34f93003b670d2ac72ab83cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 34/79] fix: tolerate empty /context and /outputs sections

---
 conda_recipe_manager/parser/recipe_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index a5fa943..7ff87fb 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -371,7 +371,10 @@ class RecipeReader(IsModifiable):
                     except Exception:  # pylint: disable=broad-exception-caught
                         self._vars_tbl[key] = value
             case SchemaVersion.V1:
-                self._vars_tbl = cast(dict[str, JsonType], self.get_value("/context", {}))
+                # An empty section does not contain a table of variables
+                context = self.get_value("/context", {})
+                if isinstance(context, dict):
+                    self._vars_tbl = cast(dict[str, JsonType], context)
 
     def _rebuild_selectors(self) -> None:
         """
@@ -955,6 +958,9 @@ class RecipeReader(IsModifiable):
         paths: list[str] = ["/"]
 
         outputs: Final[list[str]] = cast(list[str], self.get_value("/outputs", []))
+        # An empty section does not contain a list of outputs
+        if not isinstance(outputs, list):
+            return paths
         for i in range(len(outputs)):
             paths.append(f"/outputs/{i}")
 
-- 
2.43.0


From 3ba3bf0ad6391b40273bbe03ce97f4a585012271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 35/79] fix: leave the recipe unchanged when a move patch or
 set_variable raises

---
 conda_recipe_manager/parser/recipe_parser.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 683b416..05610d5 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -103,13 +103,13 @@ class RecipeParser(RecipeReader):
         :param var: Variable to modify
         :param value: Value to set
         """
-        self._vars_tbl[var] = value
         # V1 variables are rendered from the parse tree.
         if self._schema_version == SchemaVersion.V1:
             if self.contains_value("/context"):
                 self.patch({"op": "add", "path": f"/context/{var}", "value": value})
             else:
                 self.patch({"op": "add", "path": "/context", "value": {var: value}})
+        self._vars_tbl[var] = value
         self._is_modified = True
 
     def del_variable(self, var: str) -> None:
@@ -464,12 +464,18 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
-        # The removal may invalidate the target path, so the original tree must be restored on failure.
-        original_root: Final[Node] = copy.deepcopy(self._root)
-        if self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value):
-            return True
-        self._root = original_root
-        return False
+        # The removal may invalidate the target path. Work on a copy of the tree, so that a failure changes nothing.
+        original_root: Final[Node] = self._root
+        self._root = copy.deepcopy(original_root)
+        is_successful = False
+        try:
+            is_successful = self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(
+                path_stack, original_value
+            )
+        finally:
+            if not is_successful:
+                self._root = original_root
+        return is_successful
 
     def _patch_copy(self, path_stack: StrStack, value_from: str) -> bool:
         """
-- 
2.43.0


From e04dbbbb95d1400e6be5a2663b22204eaa012015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:45 +0000
Subject: [PATCH 36/79] fix: support empty collections in recipes and patches

---
 conda_recipe_manager/parser/recipe_parser.py | 4 ++--
 conda_recipe_manager/parser/recipe_reader.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 05610d5..197d461 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -356,7 +356,7 @@ class RecipeParser(RecipeReader):
         # Mark children as list members if they are list members
         if append_to_list or phys_idx > INVALID_IDX:
             # Adding an object to a list requires the children to be wrapped in a collection node
-            if not isinstance(value, PRIMITIVES_TUPLE):
+            if value and not isinstance(value, PRIMITIVES_TUPLE):
                 new_children = [Node(list_member_flag=True, children=new_children)]
             else:
                 for child in new_children:
@@ -425,7 +425,7 @@ class RecipeParser(RecipeReader):
         # Lists inject all children at the target position.
         if phys_idx > INVALID_IDX:
             # Adding an object to a list requires the children to be wrapped in a collection node
-            if not isinstance(value, PRIMITIVES_TUPLE):
+            if value and not isinstance(value, PRIMITIVES_TUPLE):
                 new_children = [Node(list_member_flag=True, children=new_children)]
             else:
                 # Ensure all children are marked as list members
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 7ff87fb..f8e3f82 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -160,7 +160,7 @@ class RecipeReader(IsModifiable):
 
         # If a dictionary is returned, we have a line containing a key and potentially a value. There should only be 1
         # key/value pairing in 1 line. Nodes representing keys should be flagged for handling edge cases.
-        if isinstance(output, dict):
+        if isinstance(output, dict) and output:
             children: list[Node] = []
             key = list(output.keys())[0]
             # If the value returned is None, there is no leaf node to set
@@ -169,7 +169,7 @@ class RecipeReader(IsModifiable):
                 children.append(Node(cast(Primitives, output[key]), comment))
             return Node(key, comment, children, key_flag=True)
         # If a list is returned, then this line is a listed member of the parent Node
-        if isinstance(output, list):
+        if isinstance(output, list) and output:
             # The full line is a comment
             if s.startswith("#"):
                 # Comments are list members to ensure indentation
@@ -181,7 +181,7 @@ class RecipeReader(IsModifiable):
             # multi-output recipe files so we need to support the scenario here.
             #
             # `PKG-3006` tracks an investigation effort into what we need to support for our purposes.
-            if isinstance(output[0], dict):
+            if isinstance(output[0], dict) and output[0]:
                 # Build up the key-and-potentially-value pair nodes first
                 key_children: list[Node] = []
                 key = list(output[0].keys())[0]
-- 
2.43.0


From 59e0117abf3874775d6f089bdcb4bb3c85b600e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:09 +0000
Subject: [PATCH 37/79] fix: insert at list positions that hold a collection
 when adding

Adding a value at a list index replaced the contents of an existing element if
that element was a collection, e.g. `/outputs/0`, instead of inserting before it.
Moving an output in front of another one destroyed the latter.
---
 conda_recipe_manager/parser/recipe_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 197d461..05bac1a 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -326,6 +326,13 @@ class RecipeParser(RecipeReader):
         if node is None and not append_to_list:
             path_to_create = path_stack_copy.pop(0)
             node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack_copy)
+        # NOTE from the RFC: Adding at an existing index inserts the value before the current element. This also applies
+        # to elements that are collections, so the list that contains the element must be targeted.
+        elif node is not None and node.is_collection_element() and not append_to_list and path_stack_copy[0].isdigit():
+            virt_idx = int(path_stack_copy.pop(0))
+            node = traverse(self._root, path_stack_copy)
+            if node is not None:
+                phys_idx = remap_child_indices_virt_to_phys(node.children)[virt_idx]
 
         return node, virt_idx, phys_idx, path_to_create, append_to_list
 
-- 
2.43.0


From 3824576383da808b7d9d664e1ea7818c3b56fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:05 +0000
Subject: [PATCH 38/79] fix: refuse to move a value that does not exist onto
 itself

---
 conda_recipe_manager/parser/recipe_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 05bac1a..2e48781 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -579,7 +579,7 @@ class RecipeParser(RecipeReader):
         # A no-op move is silly, but we might as well make it efficient AND ensure a no-op move doesn't corrupt our
         # modification flag.
         if op == "move" and path == patch["from"]:
-            return True
+            return self.contains_value(path)
 
         # Both versions of the path are sent over so that the op can easily use both private and public functions
         # (without incurring even more conversions between path types).
-- 
2.43.0


From 215d185a8baef79bcd7fbbb46475e8bb4aa54b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 39/79] fix: refuse to add keys or elements to values that
 cannot hold them

---
 conda_recipe_manager/parser/recipe_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 2e48781..828617c 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -354,6 +354,15 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
+        # NOTE from the RFC: The target must be an existing object or array. New keys can't be added to lists or plain
+        # values and elements can't be appended to objects or plain values.
+        if path_to_create and (virt_idx > INVALID_IDX or not all(c.key_flag or c.is_comment() for c in node.children)):
+            return False
+        if append_to_list and not (
+            node.key_flag and all(c.list_member_flag or c.is_comment() for c in node.children)
+        ):
+            return False
+
         # If we couldn't find 1 level in the path, ensure that we re-insert that as the "root" of the sub-tree we are
         # about to create.
         if path_to_create:
-- 
2.43.0


From 1fdec4183262e4f48d9701fefa6be01a12003242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:54 +0000
Subject: [PATCH 40/79] fix: return the mapping for paths to list elements that
 are mappings

---
 conda_recipe_manager/parser/recipe_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index f8e3f82..c05cd56 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -872,7 +872,8 @@ class RecipeReader(IsModifiable):
             # NOTE: Traversing the tree and generating our own data structures will be more efficient than rendering and
             # leveraging the YAML parser, BUT this method re-uses code and is easier to maintain.
             lst: list[str] = []
-            RecipeReader._render_tree(node, -1, lst)
+            # Elements that are collections render with the list indicator, so the other keys must be indented.
+            RecipeReader._render_tree(node, 0 if node.is_collection_element() else -1, lst)
             return_value = "\n".join(lst)
 
         # Collection types are transformed into strings above and will need to be transformed into a proper data type.
@@ -880,6 +881,9 @@ class RecipeReader(IsModifiable):
         if isinstance(return_value, str):
             parser = self if sub_vars else None
             parsed_value = RecipeReader._parse_yaml(return_value, parser)
+            # Elements that are collections render as the only member of a list. The path targets the element itself.
+            if node.is_collection_element() and isinstance(parsed_value, list):
+                return parsed_value[0]
             # Lists containing 1 value will drop the surrounding list by the YAML parser. To ensure greater consistency
             # and provide better type-safety, we will re-wrap such values.
             if not isinstance(parsed_value, list) and len(node.children) == 1 and node.children[0].list_member_flag:
-- 
2.43.0


From be1a2650bc319aa41176afc08fe69c153883e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:23 +0000
Subject: [PATCH 41/79] fix: refuse to move a value into itself

---
 conda_recipe_manager/parser/recipe_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 828617c..7e702ab 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -469,6 +469,13 @@ class RecipeParser(RecipeReader):
         #   This operation is functionally identical to a "remove" operation on the "from" location, followed
         #   immediately by an "add" operation at the target location with the value that was just removed.
         # So to save on development and maintenance, that is how this op is written.
+        # NOTE from the RFC:
+        #   The "from" location MUST NOT be a proper prefix of the "path" location; i.e., a location cannot be moved
+        #   into one of its children.
+        from_stack: Final[StrStack] = str_to_stack_path(value_from)
+        if path_stack[-len(from_stack) :] == from_stack:
+            return False
+
         original_value: JsonType
         try:
             original_value = self.get_value(value_from)
@@ -485,7 +492,7 @@ class RecipeParser(RecipeReader):
         self._root = copy.deepcopy(original_root)
         is_successful = False
         try:
-            is_successful = self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(
+            is_successful = self._patch_remove(from_stack.copy()) and self._patch_add(
                 path_stack, original_value
             )
         finally:
-- 
2.43.0


From 7d9917b39fbfdf0f7a19806df1fe737ab8e6cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:52 +0000
Subject: [PATCH 42/79] fix: build data objects from recipes with lists that
 start with a mapping

---
 conda_recipe_manager/parser/recipe_reader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index c05cd56..5ba500a 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -735,6 +735,11 @@ class RecipeReader(IsModifiable):
             return
 
         key = cast(str, node.value)
+        # Empty keys in a collection are interpreted to point to `None`
+        if node.is_empty_key():
+            data[key] = None
+            return
+
         for child in node.children:
             # Ignore comment-only lines
             if child.is_comment():
@@ -750,7 +755,7 @@ class RecipeReader(IsModifiable):
 
             # Empty keys are interpreted to point to `None`
             if child.is_empty_key():
-                data[key][child.value] = None
+                data.setdefault(key, {})[child.value] = None
                 continue
 
             # Collection nodes are skipped as they are placeholders. However, their children are rendered recursively
@@ -759,14 +764,14 @@ class RecipeReader(IsModifiable):
                 elem_dict = {}
                 for element in child.children:
                     self._render_object_tree(element, replace_variables, elem_dict)
-                if len(data[key]) == 0:
+                if not isinstance(data.get(key), list):
                     data[key] = []
                 data[key].append(elem_dict)
                 continue
 
             # List members accumulate values in a list
             if child.list_member_flag:
-                if key not in data:
+                if not isinstance(data.get(key), list):
                     data[key] = []
                 data[key].append(value)
                 continue
-- 
2.43.0


From ffc792e8ec765d5c52dc4c59f3aeefe0bed6dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 43/79] fix: replace list elements that are mappings by plain
 values

---
 conda_recipe_manager/parser/recipe_parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 7e702ab..0e07d7a 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -433,7 +433,19 @@ class RecipeParser(RecipeReader):
         :param value: Value to update with.
         :returns: True if the operation was successful. False otherwise.
         """
+        path_stack_copy = path_stack.copy()
         node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
+        # A plain value can't take the place of the keys of a collection element. The element itself is to be replaced.
+        if (
+            node is not None
+            and node.is_collection_element()
+            and path_stack_copy[0].isdigit()
+            and isinstance(value, PRIMITIVES_TUPLE)
+        ):
+            virt_idx = int(path_stack_copy.pop(0))
+            node = traverse(self._root, path_stack_copy)
+            if node is not None:
+                phys_idx = remap_child_indices_virt_to_phys(node.children)[virt_idx]
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
-- 
2.43.0


From e80e4492a377b9cb50f515cc09d97f4df04e30f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:27 +0000
Subject: [PATCH 44/79] fix: keep a lone empty key from becoming the value of
 its section

---
 conda_recipe_manager/parser/_node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 1ea2666..1b39d10 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -155,7 +155,12 @@ class Node:
 
         :returns: True if the node represents a single key. False otherwise.
         """
-        return self.key_flag and len(self.children) == 1 and self.children[0].is_leaf()
+        return (
+            self.key_flag
+            and len(self.children) == 1
+            and self.children[0].is_leaf()
+            and not self.children[0].is_empty_key()
+        )
 
     def is_collection_element(self) -> bool:
         """
-- 
2.43.0


From 950f787b4dc6f525b4af5d9c794941973620ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 45/79] fix: keep values from being addressed as if they were
 keys

---
 conda_recipe_manager/parser/_traverse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index 26a8179..759304d 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -90,7 +90,8 @@ def _traverse_recurse(node: Node, path: StrStack) -> Optional[Node]:
 
     for child in node.children:
         # Remember: for nodes that represent part of the path, the "value" stored in the node is part of the path-name.
-        if child.value == path_part:
+        # Only keys are part of a path, the values they hold are not.
+        if child.key_flag and child.value == path_part:
             path.pop()
             return _traverse_recurse(child, path)
     # Path not found
-- 
2.43.0


From b820af7489f63dc02a85214ab917a45449a2fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:12 +0000
Subject: [PATCH 46/79] fix: keep misaligned comments from altering the
 structure of a recipe

---
 conda_recipe_manager/parser/recipe_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 5ba500a..f1bbd4a 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -436,6 +436,14 @@ class RecipeReader(IsModifiable):
 
             new_indent = num_tab_spaces(line)
             new_node = RecipeReader._parse_line_node(clean_line)
+            # The indentation of a comment has no meaning in YAML. Comments that are not aligned with the surrounding
+            # lines must not alter the structure of the tree.
+            if new_node.is_comment():
+                next_indent = next(
+                    (num_tab_spaces(s) for s in lines[line_idx:] if s.strip() and not s.strip().startswith("#")), 0
+                )
+                new_indent = min(max(new_indent, next_indent), max(cur_indent, next_indent))
+                new_indent -= (new_indent - next_indent) % TAB_SPACE_COUNT
             # If the last node ended (pre-comments) with a |, >, or other multi-line character, reset the value to be a
             # list of the following extra-indented strings
             multiline_re_match = Regex.MULTILINE.match(line)
-- 
2.43.0


From d1dae1e3a7ccf5c74f6cba10cb96a1e7ce8f1682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 47/79] fix: recognize multi-line values only where the value
 of a key starts one

---
 conda_recipe_manager/parser/_types.py        | 2 +-
 conda_recipe_manager/parser/recipe_reader.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 8379076..c0b9879 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -197,7 +197,7 @@ class Regex:
     SELECTOR: Final[re.Pattern[str]] = re.compile(r"\[.*\]")
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
-    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*.*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)")
+    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*(?:(?!\s#).)*:\s+(\||>)(\+|\-)?[0-9]*(\s*|\s+#.*)$")
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index f1bbd4a..576406d 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -446,7 +446,7 @@ class RecipeReader(IsModifiable):
                 new_indent -= (new_indent - next_indent) % TAB_SPACE_COUNT
             # If the last node ended (pre-comments) with a |, >, or other multi-line character, reset the value to be a
             # list of the following extra-indented strings
-            multiline_re_match = Regex.MULTILINE.match(line)
+            multiline_re_match = None if new_node.is_comment() else Regex.MULTILINE.match(line)
             if multiline_re_match:
                 # Calculate which multiline symbol is used. The first character must be matched, the second is optional.
                 variant_capture = cast(str, multiline_re_match.group(Regex.MULTILINE_VARIANT_CAPTURE_GROUP_CHAR))
-- 
2.43.0


From 4c33fabd0488bfe6aa2227c5b9f7cd0b17e32954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:28 +0000
Subject: [PATCH 48/79] fix: keep keys apart from an empty first key of a list
 element

---
 conda_recipe_manager/parser/recipe_reader.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 576406d..49134b2 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -475,8 +475,13 @@ class RecipeReader(IsModifiable):
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
-                # to be added to the stack to maintain composition
-                if last_node.is_collection_element() and not last_node.children[0].is_single_key():
+                # to be added to the stack to maintain composition. Keys that are aligned with an empty first key are
+                # siblings of that key.
+                if (
+                    last_node.is_collection_element()
+                    and not last_node.children[0].is_single_key()
+                    and (new_indent - cur_indent > TAB_SPACE_COUNT or new_node.list_member_flag)
+                ):
                     node_stack.append(last_node.children[0])
             elif new_indent < cur_indent:
                 # Multiple levels of depth can change from line to line, so multiple stack nodes must be pop'd. Example:
@@ -690,6 +695,8 @@ class RecipeReader(IsModifiable):
             # Empty keys can be easily confused for leaf nodes. The difference is these nodes render with a "dangling"
             # `:` mark
             elif child.is_empty_key():
+                if node.is_collection_element() and child is node.children[0]:
+                    extra_tab = "- "
                 lines.append(f"{spaces}{extra_tab}" f"{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
             elif child.is_leaf():
-- 
2.43.0


From 34711010eac5431084ca9c1e7f709db7fa0520aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:46 +0000
Subject: [PATCH 49/79] fix: parse and render multi-line values of the first
 key of a list element

---
 conda_recipe_manager/parser/recipe_reader.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 49134b2..913ef95 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -461,17 +461,21 @@ class RecipeReader(IsModifiable):
                 )
                 # Type narrow that we assigned `value` as a `list`
                 assert isinstance(multiline_node.value, list)
+                # The key may be the first key of a mapping that is an element of a list, i.e. `- key: |`.
+                multiline_in_list: bool = new_node.is_collection_element()
+                multiline_key_node: Node = new_node.children[0] if multiline_in_list else new_node
+                multiline_key_indent: int = new_indent + (TAB_SPACE_COUNT if multiline_in_list else 0)
                 # Add the line to the list once it is verified to be the next line to capture in this node. This means
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
                 # valid in multi-line strings, occasionally found in `/about/summary` sections.
                 while line_idx < num_lines:
                     multiline = lines[line_idx]
-                    if multiline != "" and num_tab_spaces(multiline) <= new_indent:
+                    if multiline != "" and num_tab_spaces(multiline) <= multiline_key_indent:
                         break
                     multiline_node.value.append(multiline.strip())
                     line_idx += 1
                 # The previous level is the key to this multi-line value, so we can safely reset it.
-                new_node.children = [multiline_node]
+                multiline_key_node.children = [multiline_node]
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
@@ -637,7 +641,7 @@ class RecipeReader(IsModifiable):
                 )
                 return
 
-            if is_first_collection_child:
+            if is_first_collection_child and node.children[0].multiline_variant == MultilineVariant.NONE:
                 lines.append(
                     f"{TAB_AS_SPACES * (depth-1)}- {node.value}: "
                     f"{stringify_yaml(node.children[0].value)}  "
@@ -651,7 +655,8 @@ class RecipeReader(IsModifiable):
             # By the language spec, # symbols do not indicate comments on multiline strings.
             if node.children[0].multiline_variant != MultilineVariant.NONE:
                 multi_variant: Final[MultilineVariant] = node.children[0].multiline_variant
-                lines.append(f"{spaces}{node.value}: {multi_variant}  {node.comment}".rstrip())
+                key_prefix = f"{TAB_AS_SPACES * (depth-1)}- " if is_first_collection_child else spaces
+                lines.append(f"{key_prefix}{node.value}: {multi_variant}  {node.comment}".rstrip())
                 for val_line in cast(list[str], node.children[0].value):
                     lines.append(
                         f"{spaces}{TAB_AS_SPACES}"
-- 
2.43.0


From 98eb21b3a95b87a74020a19bbb719d54b21a8f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:39 +0000
Subject: [PATCH 50/79] fix: keep commented-out lines from being listed as
 selectors

---
 conda_recipe_manager/parser/recipe_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 913ef95..f187d4d 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -384,8 +384,8 @@ class RecipeReader(IsModifiable):
         self._selector_tbl: dict[str, list[SelectorInfo]] = {}
 
         def _collect_selectors(node: Node, path: StrStack) -> None:
-            # Ignore empty comments
-            if not node.comment:
+            # Ignore empty comments and lines that are only a comment. The latter are not addressable.
+            if not node.comment or node.is_comment():
                 return
             match = Regex.SELECTOR.search(node.comment)
             if not match:
-- 
2.43.0


From f8ff667193f81fbda5ee1e246006a5ceae3a2a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:33 +0000
Subject: [PATCH 51/79] fix: match whole variable names when listing the
 references of a variable

---
 conda_recipe_manager/parser/recipe_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index f187d4d..5fb82e3 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1103,11 +1103,13 @@ class RecipeReader(IsModifiable):
         # The regular expression between the braces is very forgiving to match JINJA expressions like
         # `{{ name | lower }}`
         def _init_re() -> re.Pattern[str]:
+            # The name must be found as a whole word within one substitution
+            substitution: Final[str] = r"{{(?:(?!}}).)*(?<!\w)" + re.escape(var) + r"(?!\w)(?:(?!}}).)*}}"
             match self._schema_version:
                 case SchemaVersion.V0:
-                    return re.compile(r"{{.*" + re.escape(var) + r".*}}")
+                    return re.compile(substitution)
                 case SchemaVersion.V1:
-                    return re.compile(r"\${{.*" + re.escape(var) + r".*}}")
+                    return re.compile(r"\$" + substitution)
 
         var_re: Final[re.Pattern[str]] = _init_re()
 
-- 
2.43.0


From a05f5bb4006ff3d9d9e9513c4392d641cebac938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:01 +0000
Subject: [PATCH 52/79] fix: keep an existing comment when adding a selector

---
 conda_recipe_manager/parser/recipe_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 0e07d7a..9fcb721 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -159,7 +159,7 @@ class RecipeParser(RecipeReader):
 
         comment = ""
         old_selector_found = Regex.SELECTOR.search(node.comment)
-        if node.comment == "" or mode == SelectorConflictMode.REPLACE:
+        if node.comment == "" or (old_selector_found and mode == SelectorConflictMode.REPLACE):
             comment = f"# {selector}"
         # "Append" to existing selectors
         elif old_selector_found:
-- 
2.43.0


From 40e8b48a617b446bff09e52620f1226937a3cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:56 +0000
Subject: [PATCH 53/79] fix: convert selectors on false values without turning
 the value into true

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index e10fdf4..161f478 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -224,11 +224,12 @@ class RecipeParserConvert(RecipeParser):
                 patch: JsonPatchType = {
                     "op": "replace",
                     "path": selector_path,
-                    "value": "${{ true if " + bool_expression + " }}",
+                    "value": "${{ " + ("true" if info.node.value else "false") + " if " + bool_expression + " }}",
                 }
                 # `skip` is special and can be a single boolean expression or a list of boolean expressions.
+                # A condition on not skipping has no effect, as that is the default.
                 if selector_path.endswith("/build/skip"):
-                    patch["value"] = bool_expression
+                    patch["value"] = bool_expression if info.node.value else False
                 if not isinstance(info.node.value, bool):
                     # CEP-13 states that ONLY list members may use the `if/then/else` blocks
                     if not info.node.list_member_flag:
-- 
2.43.0


From 6b1c8129145aea38a57e71ad849393ff57e36ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:21 +0000
Subject: [PATCH 54/79] fix: convert recipes with an empty test section

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 161f478..bf6ed27 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -651,6 +651,10 @@ class RecipeParserConvert(RecipeParser):
             # Move `test` to `tests` and encapsulate the pre-existing object into a list
             new_test_path = f"{test_path}s"
             test_element = cast(dict[str, JsonType], self._v1_recipe.get_value(test_path))
+            # There is nothing to convert in an empty section
+            if not isinstance(test_element, dict):
+                self._patch_and_log({"op": "remove", "path": test_path})
+                continue
             test_array: list[JsonType] = []
             # There are 3 types of test elements. We break them out of the original object, if they exist.
             # `Python` Test Element
-- 
2.43.0


From 3d2c423a0a35290c9be45fe58934f1c4ab423c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:09 +0000
Subject: [PATCH 55/79] fix: do not take # signs in quoted texts for comments

---
 conda_recipe_manager/parser/recipe_reader.py | 25 +++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 5fb82e3..43fd3ad 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -128,6 +128,23 @@ class RecipeReader(IsModifiable):
             )
         return output
 
+    @staticmethod
+    def _is_comment(text: str, trailing_text: str, output: JsonType) -> bool:
+        """
+        Determines if the text that starts at a `#` symbol is a comment, as opposed to a part of a quoted string.
+
+        :param text: Part of a line in front of the `#` symbol
+        :param trailing_text: Rest of the line, starting at the `#` symbol
+        :param output: Pythonic data corresponding to the full line
+        :returns: True if the trailing text is a comment. False otherwise.
+        """
+        if "'" not in trailing_text and '"' not in trailing_text:
+            return True
+        try:
+            return RecipeReader._parse_yaml(text) == output
+        except yaml.YAMLError:
+            return False
+
     @staticmethod
     def _parse_line_node(s: str) -> Node:
         """
@@ -153,10 +170,12 @@ class RecipeReader(IsModifiable):
             return Node(comment=s)
         # There is a comment at the end of the line if a `#` symbol is found with leading whitespace before it. If it is
         # "touching" a character on the left-side, it is just part of a string.
-        comment_re_result = Regex.DETECT_TRAILING_COMMENT.search(s)
-        if comment_re_result is not None:
+        for comment_re_result in Regex.DETECT_TRAILING_COMMENT.finditer(s):
             # Group 0 is the whole match, Group 1 is the leading whitespace, Group 2 locates the `#`
-            comment = s[comment_re_result.start(2) :]
+            trailing_text = s[comment_re_result.start(2) :]
+            if RecipeReader._is_comment(s[: comment_re_result.start()], trailing_text, output):
+                comment = trailing_text
+                break
 
         # If a dictionary is returned, we have a line containing a key and potentially a value. There should only be 1
         # key/value pairing in 1 line. Nodes representing keys should be flagged for handling edge cases.
-- 
2.43.0


From 8066c15f941654afa4e1d8e5f55a94cf8b66c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:09 +0000
Subject: [PATCH 56/79] fix: keep the quotes around texts that YAML would read
 as something else

---
 conda_recipe_manager/parser/_types.py        |  3 +++
 conda_recipe_manager/parser/_utils.py        | 27 ++++++++++++++++++++
 conda_recipe_manager/parser/recipe_reader.py |  3 ++-
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index c0b9879..9f73118 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -194,6 +194,9 @@ class Regex:
         JINJA_FUNCTION_MATCH,
     }
 
+    # Single words that YAML may read as a number, a boolean, a date, or null
+    YAML_WORD: Final[re.Pattern[str]] = re.compile(r"^[\w.:+~-]*$")
+
     SELECTOR: Final[re.Pattern[str]] = re.compile(r"\[.*\]")
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index a7e4cfb..3a9a355 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -9,6 +9,8 @@ import re
 from collections.abc import Iterable
 from typing import Final, cast
 
+import yaml
+
 from conda_recipe_manager.parser._types import (
     RECIPE_MANAGER_SUB_MARKER,
     ROOT_NODE_VALUE,
@@ -145,6 +147,29 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
     return s
 
 
+def _is_altered_without_quotes(s: str) -> bool:
+    """
+    Determines if a string has to be quoted in YAML, as it would be read as another text without the quote marks. For
+    example: `"1.10"` would become `1.1`, `"007"` would become `7`, `"yes"` would become `true`, and `""` would become
+    `null`. Text like `a: b` would become a key and a value. Strings like `"1.2"` that only look like a number are not
+    altered.
+
+    :param s: String to check
+    :returns: True if the string needs quote marks. False otherwise.
+    """
+    # These mark a key and a comment
+    if ": " in s or " #" in s:
+        return True
+    # Only single words can be read as something other than a string.
+    if not Regex.YAML_WORD.match(s):
+        return False
+    try:
+        value = yaml.safe_load(s)
+    except (ValueError, yaml.YAMLError):
+        return True
+    return value is None or isinstance(value, bool) or str(value) != s
+
+
 def stringify_yaml(
     val: NodeValue | SentinelType, multiline_variant: MultilineVariant = MultilineVariant.NONE
 ) -> NodeValue:
@@ -170,6 +195,8 @@ def stringify_yaml(
         return "false"
     # Handle special string quote cases
     if isinstance(val, str):
+        if multiline_variant == MultilineVariant.NONE and not Regex.JINJA_V0_SUB.search(val) and _is_altered_without_quotes(val):
+            return json.dumps(val)
         return quote_special_strings(val, multiline_variant)
     return val
 
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 43fd3ad..7bd0f13 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1273,7 +1273,8 @@ class RecipeReader(IsModifiable):
         paths: list[str] = []
 
         def _search_paths(node: Node, path_stack: StrStack) -> None:
-            value = str(stringify_yaml(node.value))
+            # Search the text of a string, without the quote marks that YAML may require
+            value = node.value if isinstance(node.value, str) else str(stringify_yaml(node.value))
             if include_comment and node.comment:
                 value = f"{value}{TAB_AS_SPACES}{node.comment}"
             if node.is_leaf() and re_obj.search(value):
-- 
2.43.0


From 05021e18900aa702a421c18d9df297fc0596f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:47 +0000
Subject: [PATCH 57/79] fix: do not add quote marks to texts that are read
 together with substitutions

---
 conda_recipe_manager/parser/recipe_reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 7bd0f13..34e63c8 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -71,7 +71,7 @@ class RecipeReader(IsModifiable):
         """
         # Add the substitutions back in
         if isinstance(data, str):
-            data = modifier(quote_special_strings(data))
+            data = modifier(data)
         if isinstance(data, dict):
             for key in data.keys():
                 data[key] = RecipeReader._parse_yaml_recursive_sub(cast(str, data[key]), modifier)
@@ -98,8 +98,14 @@ class RecipeReader(IsModifiable):
         def _sub_jinja(out: JsonType) -> JsonType:
             if parser is None:
                 return out
+            # Strings without substitutions have been parsed already. Parsing them again would alter quoted strings.
             return RecipeReader._parse_yaml_recursive_sub(
-                out, parser._render_jinja_vars  # pylint: disable=protected-access
+                out,
+                lambda d: (
+                    parser._render_jinja_vars(d)  # pylint: disable=protected-access
+                    if Regex.JINJA_V0_SUB.search(d)
+                    else d
+                ),
             )
 
         # Our first attempt handles special string cases that require quotes that the YAML parser drops. If that fails,
-- 
2.43.0


From c589c3bdc057e63dc20d86e9338f803c6483dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:47 +0000
Subject: [PATCH 58/79] fix: return quoted texts and lists of one number from
 get_value as they are

---
 conda_recipe_manager/parser/recipe_reader.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 34e63c8..661ee40 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -901,6 +901,7 @@ class RecipeReader(IsModifiable):
                 raise KeyError(f"No value/key found at path {path!r}")
             return default
 
+        parser: Final[Optional[RecipeReader]] = self if sub_vars else None
         return_value: JsonType = None
         # Handle unpacking of the last key-value set of nodes.
         if node.is_single_key() and not node.is_root():
@@ -924,21 +925,20 @@ class RecipeReader(IsModifiable):
             lst: list[str] = []
             # Elements that are collections render with the list indicator, so the other keys must be indented.
             RecipeReader._render_tree(node, 0 if node.is_collection_element() else -1, lst)
-            return_value = "\n".join(lst)
-
-        # Collection types are transformed into strings above and will need to be transformed into a proper data type.
-        # `_parse_yaml()` will also render JINJA variables for us, if requested.
-        if isinstance(return_value, str):
-            parser = self if sub_vars else None
-            parsed_value = RecipeReader._parse_yaml(return_value, parser)
+            # Collection types are transformed into strings above and need to be transformed into a proper data type.
+            # `_parse_yaml()` will also render JINJA variables for us, if requested.
+            parsed_value = RecipeReader._parse_yaml("\n".join(lst), parser)
             # Elements that are collections render as the only member of a list. The path targets the element itself.
             if node.is_collection_element() and isinstance(parsed_value, list):
                 return parsed_value[0]
-            # Lists containing 1 value will drop the surrounding list by the YAML parser. To ensure greater consistency
-            # and provide better type-safety, we will re-wrap such values.
-            if not isinstance(parsed_value, list) and len(node.children) == 1 and node.children[0].list_member_flag:
-                return [parsed_value]
             return parsed_value
+
+        # Primitive values have already been parsed. Parsing them again would alter quoted strings, like `"1.10"`.
+        if sub_vars and isinstance(return_value, str) and Regex.JINJA_V0_SUB.search(return_value):
+            return_value = RecipeReader._parse_yaml(return_value, parser)
+        # Lists containing 1 value are handled like single keys. We re-wrap such values.
+        if len(node.children) == 1 and node.children[0].list_member_flag:
+            return [return_value]
         return return_value
 
     def find_value(self, value: Primitives) -> list[str]:
-- 
2.43.0


From 22df321c2a7c552d112dd0c4fc4ecef13e287967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:40 +0000
Subject: [PATCH 59/79] fix: keep texts of several lines readable when
 collections that hold them are patched in

---
 conda_recipe_manager/parser/_types.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 9f73118..142a65c 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -116,6 +116,12 @@ class ForceIndentDumper(yaml.Dumper):
     def increase_indent(self, flow: bool = False, indentless: bool = False) -> None:  # pylint: disable=unused-argument
         return super().increase_indent(flow, False)
 
+    def represent_scalar(self, tag: str, value: str, style: str | None = None) -> yaml.ScalarNode:
+        """
+        Writes multiline strings with the `|` marker. The parser does not support multiline strings in quotes.
+        """
+        return super().represent_scalar(tag, value, "|" if "\n" in value else style)
+
 
 class Regex:
     """
-- 
2.43.0


From c9b86b545525401689410189438d8b6986a8099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:40 +0000
Subject: [PATCH 60/79] fix: read the lowercase constants of Jinja as constants

---
 conda_recipe_manager/parser/recipe_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 661ee40..0aa50fd 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -391,6 +391,9 @@ class RecipeReader(IsModifiable):
                 for line in cast(list[str], Regex.JINJA_V0_SET_LINE.findall(self._init_content)):
                     key = line[line.find("set") + len("set") : line.find("=")].strip()
                     value = line[line.find("=") + len("=") : line.find("%}")].strip()
+                    # JINJA also accepts lowercase spellings of these constants
+                    if value in {"true", "false", "none"}:
+                        value = value.capitalize()
                     try:
                         self._vars_tbl[key] = ast.literal_eval(value)  # type: ignore[misc]
                     except Exception:  # pylint: disable=broad-exception-caught
-- 
2.43.0


From f6c3a47404eb881c0fb0120cf1899573ef4fff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:04 +0000
Subject: [PATCH 61/79] fix: render a comment line that comes first in a list
 entry above the entry

When a comment line is the first child of a list entry (for example after the
key above it was removed or moved), the "- " prefix of the entry was lost and
the entry was merged into the one before it.
---
 conda_recipe_manager/parser/recipe_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 0aa50fd..d60ac4e 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -650,8 +650,11 @@ class RecipeReader(IsModifiable):
 
         # Edge case: The first element of dictionary in a list has a list `- ` prefix. Subsequent keys in the dictionary
         # just have a tab.
+        # Comments above the first element are rendered above the prefix.
         is_first_collection_child: Final[bool] = (
-            parent is not None and parent.is_collection_element() and node == parent.children[0]
+            parent is not None
+            and parent.is_collection_element()
+            and node == next((child for child in parent.children if not child.is_comment()), None)
         )
 
         # Handle same-line printing
@@ -728,7 +731,7 @@ class RecipeReader(IsModifiable):
             # Empty keys can be easily confused for leaf nodes. The difference is these nodes render with a "dangling"
             # `:` mark
             elif child.is_empty_key():
-                if node.is_collection_element() and child is node.children[0]:
+                if node.is_collection_element() and child is next(c for c in node.children if not c.is_comment()):
                     extra_tab = "- "
                 lines.append(f"{spaces}{extra_tab}" f"{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
-- 
2.43.0


From d084942e68228d152898d56fe851c12c3b2c43ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:47 +0000
Subject: [PATCH 62/79] fix: keep the quote marks of texts with substitutions
 that are not YAML without them

---
 conda_recipe_manager/parser/_utils.py | 32 +++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 3a9a355..21c1e29 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -170,6 +170,31 @@ def _is_altered_without_quotes(s: str) -> bool:
     return value is None or isinstance(value, bool) or str(value) != s
 
 
+def _quote_text_around_substitutions(s: str) -> str:
+    """
+    Quotes a string that contains JINJA substitutions, if the text around the substitutions requires quote marks in
+    YAML. For example: `"**/{{ name }}.so"` or `"{{ name }}: foo"`. The substitutions themselves can't contain escaped
+    quote marks.
+
+    :param s: String to modify
+    :returns: YAML version of the string.
+    """
+    text = cast(str, Regex.JINJA_V0_SUB.sub(RECIPE_MANAGER_SUB_MARKER, s))
+    if (
+        ": " not in text
+        and " #" not in text
+        and not text.endswith(":")
+        and not text.startswith(("- ", "? "))
+        and text[0] not in "[]{},&*!|>%@`#'\""
+    ):
+        return s
+    if '"' not in s and "\\" not in s:
+        return f'"{s}"'
+    if "'" not in s:
+        return f"'{s}'"
+    return s
+
+
 def stringify_yaml(
     val: NodeValue | SentinelType, multiline_variant: MultilineVariant = MultilineVariant.NONE
 ) -> NodeValue:
@@ -195,8 +220,11 @@ def stringify_yaml(
         return "false"
     # Handle special string quote cases
     if isinstance(val, str):
-        if multiline_variant == MultilineVariant.NONE and not Regex.JINJA_V0_SUB.search(val) and _is_altered_without_quotes(val):
-            return json.dumps(val)
+        if multiline_variant == MultilineVariant.NONE:
+            if Regex.JINJA_V0_SUB.search(val):
+                return _quote_text_around_substitutions(val)
+            if _is_altered_without_quotes(val):
+                return json.dumps(val)
         return quote_special_strings(val, multiline_variant)
     return val
 
-- 
2.43.0


From 8efb3833499aea5e3c81debfcfd90b7ac992fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:47 +0000
Subject: [PATCH 63/79] fix: substitute the variables of texts that would be
 read as keys or comments

---
 conda_recipe_manager/parser/recipe_reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index d60ac4e..8f2fc51 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -375,7 +375,13 @@ class RecipeReader(IsModifiable):
             #   - Ensures the returned value is YAML-parsable
             elif self._schema_version == SchemaVersion.V0 and s[:2] == "{{":
                 s = f"${s}"
-        return cast(JsonType, yaml.load(s, Loader=SafeLoader))
+        # Strings are read without their quote marks. Without them, these strings would be taken for a key or a comment.
+        if "\n" not in s and s[:1] not in {"[", "{", '"', "'"} and (": " in s or " #" in s):
+            return s
+        try:
+            return cast(JsonType, yaml.load(s, Loader=SafeLoader))
+        except yaml.YAMLError:
+            return s
 
     def _init_vars_tbl(self) -> None:
         """
@@ -941,7 +947,7 @@ class RecipeReader(IsModifiable):
 
         # Primitive values have already been parsed. Parsing them again would alter quoted strings, like `"1.10"`.
         if sub_vars and isinstance(return_value, str) and Regex.JINJA_V0_SUB.search(return_value):
-            return_value = RecipeReader._parse_yaml(return_value, parser)
+            return_value = self._render_jinja_vars(return_value)
         # Lists containing 1 value are handled like single keys. We re-wrap such values.
         if len(node.children) == 1 and node.children[0].list_member_flag:
             return [return_value]
-- 
2.43.0


From 27d4f1e517a52b4a301d29d34eb0660071978306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:47 +0000
Subject: [PATCH 64/79] fix: keep quoted strings as strings when rendering a
 recipe to an object with its variables replaced

---
 conda_recipe_manager/parser/recipe_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 8f2fc51..9705ff4 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -805,7 +805,8 @@ class RecipeReader(IsModifiable):
             # Handle multiline strings and variable replacement
             value = normalize_multiline_strings(child.value, child.multiline_variant)
             if isinstance(value, str):
-                if replace_variables:
+                # Strings without substitutions have been parsed already. Parsing them again would alter quoted strings.
+                if replace_variables and Regex.JINJA_V0_SUB.search(value):
                     value = self._render_jinja_vars(value)
                 elif child.multiline_variant != MultilineVariant.NONE:
                     value = cast(str, yaml.load(value, Loader=SafeLoader))
-- 
2.43.0


From e6bda66a2df4c5c153247e86137dbe598f1c26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:56 +0000
Subject: [PATCH 65/79] fix: restore the substitutions of keys and of values
 next to comments when recipes are read

---
 conda_recipe_manager/parser/recipe_reader.py | 30 ++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 9705ff4..2647762 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -33,7 +33,6 @@ from conda_recipe_manager.parser._utils import (
     stack_path_to_str,
     str_to_stack_path,
     stringify_yaml,
-    substitute_markers,
 )
 from conda_recipe_manager.parser.dependency import DependencySection, dependency_section_to_str
 from conda_recipe_manager.parser.enums import SchemaVersion
@@ -61,23 +60,30 @@ class RecipeReader(IsModifiable):
     _sentinel = SentinelType()
 
     @staticmethod
-    def _parse_yaml_recursive_sub(data: JsonType, modifier: Callable[[str], JsonType]) -> JsonType:
+    def _parse_yaml_recursive_sub(
+        data: JsonType, modifier: Callable[[str], JsonType], modify_keys: bool = False
+    ) -> JsonType:
         """
         Recursive helper function used when we need to perform variable substitutions.
 
         :param data: Data to substitute values in
         :param modifier: Modifier function that performs some kind of substitution.
+        :param modify_keys: (Optional) If set to True, the keys of dictionaries are modified, too.
         :returns: Pythonic data corresponding to the line of YAML
         """
         # Add the substitutions back in
         if isinstance(data, str):
             data = modifier(data)
         if isinstance(data, dict):
-            for key in data.keys():
-                data[key] = RecipeReader._parse_yaml_recursive_sub(cast(str, data[key]), modifier)
+            data = {
+                (
+                    cast(str, modifier(key)) if modify_keys and isinstance(key, str) else key
+                ): RecipeReader._parse_yaml_recursive_sub(value, modifier, modify_keys)
+                for key, value in data.items()
+            }
         elif isinstance(data, list):
             for i in range(len(data)):
-                data[i] = RecipeReader._parse_yaml_recursive_sub(cast(str, data[i]), modifier)
+                data[i] = RecipeReader._parse_yaml_recursive_sub(data[i], modifier, modify_keys)
         return data
 
     @staticmethod
@@ -122,14 +128,22 @@ class RecipeReader(IsModifiable):
             # If a construction exception is thrown, attempt to re-parse by replacing Jinja macros (substrings in
             # `{{}}`) with friendly string substitution markers, then re-inject the substitutions back in. We classify
             # all Jinja substitutions as string values, so we don't have to worry about the type of the actual
-            # substitution.
+            # substitution. The markers are numbered, as some substitutions are not part of the data (i.e. comments) and
+            # others are keys, which must remain unique.
             sub_list: list[str] = Regex.JINJA_V0_SUB.findall(s)
-            s = Regex.JINJA_V0_SUB.sub(RECIPE_MANAGER_SUB_MARKER, s)
+            for i, sub in enumerate(sub_list):
+                s = s.replace(sub, f"{RECIPE_MANAGER_SUB_MARKER}{i}__", 1)
+
+            def _restore_subs(d: str) -> str:
+                for i, sub in enumerate(sub_list):
+                    d = d.replace(f"{RECIPE_MANAGER_SUB_MARKER}{i}__", sub)
+                return d
+
             # Because we leverage PyYaml to parse the data structures, we need to perform a second pass to perform
             # variable substitutions.
             output = _sub_jinja(
                 RecipeReader._parse_yaml_recursive_sub(
-                    cast(JsonType, yaml.load(s, Loader=SafeLoader)), lambda d: substitute_markers(d, sub_list)
+                    cast(JsonType, yaml.load(s, Loader=SafeLoader)), _restore_subs, modify_keys=True
                 )
             )
         return output
-- 
2.43.0


From 553cb8d19b418b6c58facf14160ce06a4f9092e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:56 +0000
Subject: [PATCH 66/79] fix: keep the lines of texts of several lines when
 collections are read with their variables replaced

---
 conda_recipe_manager/parser/recipe_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 2647762..72d3468 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -390,7 +390,12 @@ class RecipeReader(IsModifiable):
             elif self._schema_version == SchemaVersion.V0 and s[:2] == "{{":
                 s = f"${s}"
         # Strings are read without their quote marks. Without them, these strings would be taken for a key or a comment.
-        if "\n" not in s and s[:1] not in {"[", "{", '"', "'"} and (": " in s or " #" in s):
+        # Strings of several lines that have been read already would be joined to one line.
+        if "\n" in s:
+            is_text = s[:1] not in {"|", ">", "[", "{", '"', "'"}
+        else:
+            is_text = s[:1] not in {"[", "{", '"', "'"} and (": " in s or " #" in s)
+        if is_text:
             return s
         try:
             return cast(JsonType, yaml.load(s, Loader=SafeLoader))
-- 
2.43.0


From f77d2d78f6215757b48f56c9c779111fb2da4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:38 +0000
Subject: [PATCH 67/79] fix: end with an exit code on recipes and patch files
 that cannot be decoded

---
 conda_recipe_manager/commands/bump_recipe.py | 2 +-
 conda_recipe_manager/commands/patch.py       | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index d897d54..fbb6a09 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -374,7 +374,7 @@ def bump_recipe(
 
     try:
         recipe_content = Path(recipe_file_path).read_text(encoding="utf-8")
-    except IOError:
+    except (IOError, UnicodeDecodeError):
         log.error("Couldn't read the given recipe file: %s", recipe_file_path)
         sys.exit(ExitCode.IO_ERROR)
 
diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index f04fe7e..65643cf 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -32,13 +32,16 @@ def _pre_patch_validate(
         contents_json = cast(
             JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text(encoding="utf-8"))
         )
-    except json.JSONDecodeError:
+    except IOError:
+        print_err(f"Couldn't read the given patch file: {json_patch_file_path}")
+        sys.exit(ExitCode.IO_ERROR)
+    except (json.JSONDecodeError, UnicodeDecodeError):
         print_err(f"Non-JSON file provided: {json_patch_file_path}")
         sys.exit(ExitCode.JSON_ERROR)
 
     try:
         contents_recipe = recipe_file_path.read_text(encoding="utf-8")
-    except IOError:
+    except (IOError, UnicodeDecodeError):
         print_err(f"Couldn't read the given recipe file: {recipe_file_path}")
         sys.exit(ExitCode.IO_ERROR)  # untested
 
-- 
2.43.0


From 3548dec36ce7d004b3b0bae040c607c5cfaf0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:01 +0000
Subject: [PATCH 68/79] fix: pre-processing for V1 only rewrites function calls
 after a period, not periods in values

---
 conda_recipe_manager/parser/_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 142a65c..97640e7 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -145,10 +145,10 @@ class Regex:
     # Finds set statements that use dot functions over piped functions (`foo.replace(...)` vs `foo | replace(...)`).
     # Group 1 and Group 2 match the left and right sides of the period mark.
     PRE_PROCESS_JINJA_DOT_FUNCTION_IN_ASSIGNMENT: Final[re.Pattern[str]] = re.compile(
-        r"(\{%\s*set.*=.*)\.(.*\(.*\)\s*%\})"
+        r"(\{%\s*set(?:(?!%\}).)*=(?:(?!%\}).)*)\.([a-zA-Z0-9_]+\((?:(?!%\}).)*\)\s*%\})"
     )
     PRE_PROCESS_JINJA_DOT_FUNCTION_IN_SUBSTITUTION: Final[re.Pattern[str]] = re.compile(
-        r"(\{\{\s*[a-zA-Z0-9_]*.*)\.([a-zA-Z0-9_]*\(.*\)\s*\}\})"
+        r"(\{\{(?:(?!\}\}).)*)\.([a-zA-Z0-9_]+\((?:(?!\}\}).)*\)\s*\}\})"
     )
     # Strips empty parenthesis artifacts on functions like `| lower`
     PRE_PROCESS_JINJA_DOT_FUNCTION_STRIP_EMPTY_PARENTHESIS: Final[re.Pattern[str]] = re.compile(
-- 
2.43.0


From 357a2be35e01b0e02b4bb9ecfdc6ff499ad5ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:01 +0000
Subject: [PATCH 69/79] fix: convert each environ[] of a line on its own and
 leave os.environ[] alone

---
 conda_recipe_manager/parser/_types.py              |  2 +-
 .../parser/recipe_parser_convert.py                | 14 +-------------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 97640e7..811f47c 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -137,7 +137,7 @@ class Regex:
     ## Pre-process conversion tooling regular expressions ##
     # Finds `environ[]` used by a some recipe files. Requires a whitespace character to prevent matches with
     # `os.environ[]`, which is very rare.
-    PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"\s+environ\[(\"|')(.*)(\"|')\]")
+    PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"(?<=\s)environ\[(\"|')(.*?)\1\]")
     # Finds commonly used variants of `{{ hash_type }}:` which is a substitution for the `sha256` field
     PRE_PROCESS_JINJA_HASH_TYPE_KEY: Final[re.Pattern[str]] = re.compile(
         r"'{0,1}\{\{ (hash_type|hash|hashtype) \}\}'{0,1}:"
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index bf6ed27..7e6a7f1 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -738,19 +738,7 @@ class RecipeParserConvert(RecipeParser):
         # NOTE:
         #   - This is mostly used by Bioconda recipes and R-based-packages in the `license_file` field.
         #   - From our search, it looks like we never deal with more than one set of outer quotes within the brackets
-        replacements: list[tuple[str, str]] = []
-        for groups in cast(list[str], Regex.PRE_PROCESS_ENVIRON.findall(content)):
-            # Each match should return ["<quote char>", "<key>", "<quote_char>"]
-            quote_char = groups[0]
-            key = groups[1]
-            replacements.append(
-                (
-                    f"environ[{quote_char}{key}{quote_char}]",
-                    f"env.get({quote_char}{key}{quote_char})",
-                )
-            )
-        for old, new in replacements:
-            content = content.replace(old, new, 1)
+        content = Regex.PRE_PROCESS_ENVIRON.sub(r"env.get(\1\2\1)", content)
 
         # Replace `{{ hash_type }}:` with the value of `hash_type`, which is likely `sha256`. This is an uncommon
         # practice that is not part of the V1 specification. Currently, about 70 AnacondaRecipes and conda-forge files
-- 
2.43.0


From ee67c816b9fcde4e26fe44451efe080eb5922c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:01 +0000
Subject: [PATCH 70/79] fix: keep the algorithm that a hash type variable
 names, and the variable if it is still used

---
 conda_recipe_manager/parser/_types.py        |  6 ++++-
 conda_recipe_manager/parser/recipe_parser.py | 24 ++++++++++++++------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 811f47c..ad0e1ab 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -140,7 +140,11 @@ class Regex:
     PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"(?<=\s)environ\[(\"|')(.*?)\1\]")
     # Finds commonly used variants of `{{ hash_type }}:` which is a substitution for the `sha256` field
     PRE_PROCESS_JINJA_HASH_TYPE_KEY: Final[re.Pattern[str]] = re.compile(
-        r"'{0,1}\{\{ (hash_type|hash|hashtype) \}\}'{0,1}:"
+        r"['\"]?\{\{\s*(hash_type|hash|hashtype)\s*\}\}['\"]?:"
+    )
+    # Finds the variables that name the hash algorithm. Group 1 is the variable, group 2 is the algorithm.
+    PRE_PROCESS_JINJA_HASH_TYPE_VAR: Final[re.Pattern[str]] = re.compile(
+        r"\{%-?\s*set\s+(hash_type|hash|hashtype)\s*=\s*['\"](md5|sha\d+)['\"]\s*-?%\}"
     )
     # Finds set statements that use dot functions over piped functions (`foo.replace(...)` vs `foo | replace(...)`).
     # Group 1 and Group 2 match the left and right sides of the period mark.
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 9fcb721..66f54c9 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -85,14 +85,24 @@ class RecipeParser(RecipeReader):
         :param content: Recipe file contents to pre-process
         :returns: Pre-processed recipe file contents, devoid of `hash_type` key/variable usage.
         """
-        hash_type_var_variants: Final[set[str]] = {
-            '{% set hash_type = "sha256" %}\n',
-            '{% set hashtype = "sha256" %}\n',
-            '{% set hash = "sha256" %}\n',  # NOTE: `hash` is also commonly used for the actual SHA-256 hash value
+        hash_type_var_variants: Final[dict[str, str]] = {
+            "hash_type": '{% set hash_type = "sha256" %}\n',
+            "hashtype": '{% set hashtype = "sha256" %}\n',
+            "hash": '{% set hash = "sha256" %}\n',  # NOTE: `hash` is also commonly used for the SHA-256 hash value
         }
-        for hash_type_variant in hash_type_var_variants:
-            content = content.replace(hash_type_variant, "")
-        return Regex.PRE_PROCESS_JINJA_HASH_TYPE_KEY.sub("sha256:", content)
+        # The variable may name an algorithm other than SHA-256.
+        hash_types: Final[dict[str, str]] = dict(
+            cast(list[tuple[str, str]], Regex.PRE_PROCESS_JINJA_HASH_TYPE_VAR.findall(content))
+        )
+        content = Regex.PRE_PROCESS_JINJA_HASH_TYPE_KEY.sub(
+            lambda match: f"{hash_types.get(cast(str, match.group(1)), 'sha256')}:", content
+        )
+        for var, hash_type_variant in hash_type_var_variants.items():
+            # Variables that are still used must be kept.
+            remaining = content.replace(hash_type_variant, "")
+            if not re.search(rf"\{{[{{%].*\b{var}\b", remaining):
+                content = remaining
+        return content
 
     ## JINJA Variable Editing Functions ##
 
-- 
2.43.0


From 597430b5e5c9e3a49b4d17a44032cb094815b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:30 +0000
Subject: [PATCH 71/79] fix: convert quoted multi-line values after blank
 lines, and leave escaped backslashes alone

---
 conda_recipe_manager/parser/_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index ad0e1ab..e77f567 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -159,7 +159,9 @@ class Regex:
         r"(\|\s*(lower|upper))(\(\))"
     )
     # Attempts to normalize multiline strings containing quoted escaped newlines.
-    PRE_PROCESS_QUOTED_MULTILINE_STRINGS: Final[re.Pattern[str]] = re.compile(r"(\s*)(.*):\s*['\"](.*)\\n(.*)['\"]")
+    PRE_PROCESS_QUOTED_MULTILINE_STRINGS: Final[re.Pattern[str]] = re.compile(
+        r"(\n[ \t]*)(.*):\s*['\"](.*)(?<!\\)\\n(.*)['\"]"
+    )
     # rattler-build@0.18.0 deprecates `min_pin` and `max_pin`
     PRE_PROCESS_MIN_PIN_REPLACEMENT: Final[re.Pattern[str]] = re.compile(r"min_pin=")
     PRE_PROCESS_MAX_PIN_REPLACEMENT: Final[re.Pattern[str]] = re.compile(r"max_pin=")
-- 
2.43.0


From 794d58a4f8337b6eaed9e8f294b42f60d9b0554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:01 +0000
Subject: [PATCH 72/79] fix: bump-recipe no longer increments a build number
 that is true or false

---
 conda_recipe_manager/commands/bump_recipe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index fbb6a09..2c1f3ef 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -140,7 +140,8 @@ def _update_build_num(recipe_parser: RecipeParser, increment_build_num: bool) ->
     if increment_build_num and recipe_parser.contains_value(RecipePaths.BUILD_NUM):
         build_number = recipe_parser.get_value(RecipePaths.BUILD_NUM)
 
-        if not isinstance(build_number, int):
+        # NOTE: A `bool` is also an `int`.
+        if not isinstance(build_number, int) or isinstance(build_number, bool):
             log.error("Build number is not an integer.")
             sys.exit(ExitCode.ILLEGAL_OPERATION)
 
-- 
2.43.0


From d78342aae4754b0d396fe3f2c9c75a688c713ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 73/79] fix: the comment of a value that was replaced is no
 longer reported

---
 conda_recipe_manager/parser/recipe_parser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 66f54c9..8438204 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -306,6 +306,17 @@ class RecipeParser(RecipeReader):
 
         return True
 
+    @staticmethod
+    def _drop_replaced_comment(node: Node) -> None:
+        """
+        The comment of a `key: value` line is rendered from the value and is duplicated on the key. When the value is
+        replaced, the comment of that line goes with it.
+
+        :param node: Node that has been assigned new children
+        """
+        if node.is_single_key():
+            node.comment = ""
+
     def _patch_add_find_target(self, path_stack: StrStack) -> tuple[Optional[Node], int, int, str, bool]:
         """
         Finds the target node of an `add()` operation, along with some supporting information.
@@ -397,6 +408,7 @@ class RecipeParser(RecipeReader):
         # NOTE from the RFC: "If the member already exists, it is replaced by the specified value."
         else:
             node.children = new_children
+            RecipeParser._drop_replaced_comment(node)
 
         return True
 
@@ -477,6 +489,7 @@ class RecipeParser(RecipeReader):
         # Leafs that represent values/paths of values can evict all children, and be replaced with new children, derived
         # from a new tree of values.
         node.children = new_children
+        RecipeParser._drop_replaced_comment(node)
         return True
 
     def _patch_move(self, path_stack: StrStack, value_from: str) -> bool:
-- 
2.43.0


From 91e0b201305156e1cca9b6c4bd0a42cc867e45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 74/79] fix: a V1 variable keeps its comment when it is changed

---
 conda_recipe_manager/parser/recipe_parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 8438204..2296bc0 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -116,7 +116,15 @@ class RecipeParser(RecipeReader):
         # V1 variables are rendered from the parse tree.
         if self._schema_version == SchemaVersion.V1:
             if self.contains_value("/context"):
-                self.patch({"op": "add", "path": f"/context/{var}", "value": value})
+                path: Final[str] = f"/context/{var}"
+                # The comment of a variable stays with that variable.
+                node = traverse(self._root, str_to_stack_path(path))
+                comment: Final[str] = "" if node is None else node.comment
+                self.patch({"op": "add", "path": path, "value": value})
+                if node is not None and node.is_single_key():
+                    node.comment = comment
+                    node.children[0].comment = comment
+                    self._rebuild_selectors()
             else:
                 self.patch({"op": "add", "path": "/context", "value": {var: value}})
         self._vars_tbl[var] = value
-- 
2.43.0


From 4c0b4e410a39683f045d8001ef0b2fd494ead588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 75/79] fix: V1 variables follow edits of the context section

---
 conda_recipe_manager/parser/recipe_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 2296bc0..1f3e59c 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -648,6 +648,13 @@ class RecipeParser(RecipeReader):
         if is_successful and op != "test":
             # TODO this is not the most efficient way to update the selector table, but for now, it works.
             self._rebuild_selectors()
+            # V1 variables are part of the parse tree. If that section can't be read, the known variables are kept.
+            if self._schema_version == SchemaVersion.V1:
+                known_vars: Final = self._vars_tbl
+                try:
+                    self._init_vars_tbl()
+                except Exception:  # pylint: disable=broad-exception-caught
+                    self._vars_tbl = known_vars
             # TODO technically this doesn't handle a no-op.
             self._is_modified = True
 
-- 
2.43.0


From 89b7ace0f508db58d529574c3d5597efac493aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 76/79] fix: a list element no longer keeps the comment that
 its first key has lost

---
 conda_recipe_manager/parser/recipe_reader.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 72d3468..3c26c88 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -434,6 +434,18 @@ class RecipeReader(IsModifiable):
         Re-builds the selector look-up table. This table allows quick access to tree nodes that have a selector
         specified. This needs to be called when the tree or selectors are modified.
         """
+
+        # The first line of a list element is shared with its first key and so is the comment on that line.
+        def _share_comments(node: Node, _: StrStack) -> None:
+            if not node.is_collection_element():
+                return
+            for child in node.children:
+                if child.key_flag:
+                    node.comment = child.comment
+                    return
+
+        traverse_all(self._root, _share_comments)
+
         self._selector_tbl: dict[str, list[SelectorInfo]] = {}
 
         def _collect_selectors(node: Node, path: StrStack) -> None:
-- 
2.43.0


From 8995ca43ea35015198f37494478fe1367eb87564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 77/79] fix: bump-recipe keeps the selectors and comments of
 the values that it bumps

---
 conda_recipe_manager/commands/bump_recipe.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index 2c1f3ef..e7ac801 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -89,7 +89,19 @@ def _exit_on_failed_patch(recipe_parser: RecipeParser, patch_blob: JsonPatchType
     :param recipe_parser: Recipe file to update.
     :param patch_blob: Recipe patch to execute.
     """
+    # A patch drops the comment found on the line of the value that is replaced. That comment still applies to the value
+    # that is bumped.
+    path: Final[str] = str(patch_blob["path"])
+    selector: Final[str] = (
+        recipe_parser.get_selector_at_path(path) if recipe_parser.contains_selector_at_path(path) else ""
+    )
+    comment: Final[str] = recipe_parser.get_comments_table().get(path, "")
+
     if recipe_parser.patch(patch_blob):
+        if selector:
+            recipe_parser.add_selector(path, selector)
+        if comment:
+            recipe_parser.add_comment(path, comment)
         log.debug("Executed patch: %s", patch_blob)
         return
 
-- 
2.43.0


From 4be1499ad96d03927174d34aeac8ad3025280c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:30 +0000
Subject: [PATCH 78/79] fix: keep the inner indentation of multi-line values

---
 conda_recipe_manager/parser/recipe_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 3c26c88..ce68638 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -533,11 +533,13 @@ class RecipeReader(IsModifiable):
                 # Add the line to the list once it is verified to be the next line to capture in this node. This means
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
                 # valid in multi-line strings, occasionally found in `/about/summary` sections.
+                # The first line of text sets the indentation. Any further indentation is part of the value.
+                text_indent = next((num_tab_spaces(s) for s in lines[line_idx:] if s.strip()), 0)
                 while line_idx < num_lines:
                     multiline = lines[line_idx]
                     if multiline != "" and num_tab_spaces(multiline) <= multiline_key_indent:
                         break
-                    multiline_node.value.append(multiline.strip())
+                    multiline_node.value.append(multiline[min(text_indent, num_tab_spaces(multiline)) :].rstrip())
                     line_idx += 1
                 # The previous level is the key to this multi-line value, so we can safely reset it.
                 multiline_key_node.children = [multiline_node]
-- 
2.43.0


From 04ff7d722062b8e75a574fb55c3930696edb191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:51 +0000
Subject: [PATCH 79/79] fix: quote all texts that YAML reads as something else

Rendered texts that start with a backtick, #, {, }, | or >, that hold control
characters or whitespace at their edges, or that look like a date, were invalid
or read back as another value. Characters like emojis were escaped as surrogate
pairs, which YAML does not join again.
---
 conda_recipe_manager/parser/_utils.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 21c1e29..afaee5b 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -105,6 +105,19 @@ def substitute_markers(s: str, subs: list[str]) -> str:
     return s
 
 
+def _to_quoted_yaml(s: str) -> str:
+    """
+    Writes a string as a quoted YAML string, on a single line. The PyYaml equivalent function injects newlines, hence
+    why we abuse the JSON library.
+
+    :param s: String to quote
+    :returns: Quoted YAML string
+    """
+    # JSON escapes characters like emojis as surrogate pairs, which have no meaning in YAML.
+    quoted = json.dumps(s, ensure_ascii=False)
+    return "".join(c if c.isprintable() else f"\\U{ord(c):08x}" for c in quoted)
+
+
 def quote_special_strings(s: str, multiline_variant: MultilineVariant = MultilineVariant.NONE) -> str:
     """
     Ensure string quote escaping if quote marks are present. Otherwise this has the unintended consequence of
@@ -142,8 +155,7 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
 
     # `*` is common enough that we query the set before checking every "startswith" option as a small optimization.
     if s in _TO_QUOTE_SPECIAL_CHARS or ("${{" not in s and ("'" in s or '"' in s)) or _startswith_check_all():
-        # The PyYaml equivalent function injects newlines, hence why we abuse the JSON library to write our YAML
-        return json.dumps(s)
+        return _to_quoted_yaml(s)
     return s
 
 
@@ -160,6 +172,9 @@ def _is_altered_without_quotes(s: str) -> bool:
     # These mark a key and a comment
     if ": " in s or " #" in s:
         return True
+    # These start something other than plain text. Whitespace at the edges and control characters are not kept.
+    if s.startswith(("#", "{", "}", "|", ">", "`")) or s != s.strip() or not s.isprintable():
+        return True
     # Only single words can be read as something other than a string.
     if not Regex.YAML_WORD.match(s):
         return False
@@ -167,7 +182,7 @@ def _is_altered_without_quotes(s: str) -> bool:
         value = yaml.safe_load(s)
     except (ValueError, yaml.YAMLError):
         return True
-    return value is None or isinstance(value, bool) or str(value) != s
+    return not isinstance(value, (str, int, float)) or isinstance(value, bool) or str(value) != s
 
 
 def _quote_text_around_substitutions(s: str) -> str:
@@ -224,7 +239,7 @@ def stringify_yaml(
             if Regex.JINJA_V0_SUB.search(val):
                 return _quote_text_around_substitutions(val)
             if _is_altered_without_quotes(val):
-                return json.dumps(val)
+                return _to_quoted_yaml(val)
         return quote_special_strings(val, multiline_variant)
     return val
 
-- 
2.43.0

