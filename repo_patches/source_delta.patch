From 11487f86e1f0edb3f7780fd75e1e1509f053e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 01/42] fix: don't fail to guess extension of data with too
 large JSON numbers or nesting

---
 cdtb/wad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index 4c49e78..e4f706b 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -170,7 +170,7 @@ class WadFileHeader:
         try:
             json.loads(data)
             return 'json'
-        except (json.JSONDecodeError, UnicodeDecodeError):
+        except (ValueError, RecursionError):
             pass
 
         # Unknown
-- 
2.43.0


From fa4ab85569169ea37db47a9f2a5566b02266375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 02/42] fix: don't write a malformed vertex reference in OBJ
 faces

---
 cdtb/sknfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/sknfile.py b/cdtb/sknfile.py
index 18b9f4f..793f6c1 100644
--- a/cdtb/sknfile.py
+++ b/cdtb/sknfile.py
@@ -80,6 +80,6 @@ class SknFile:
 
         for i in range(0, len(entry["indices"]), 3):
             a, b, c = entry["indices"][i : i + 3]
-            content += "f {0}/{0}/{0} {1}/{1}/{1}/ {2}/{2}/{2}\n".format(a, b, c)
+            content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\n".format(a, b, c)
 
         return content
-- 
2.43.0


From ced17ff842226c233f7d0430b56c2126341447c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 03/42] fix: don't rebase the last submesh-relative index to an
 invalid index 0

---
 cdtb/sknfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/sknfile.py b/cdtb/sknfile.py
index 793f6c1..4f6ed91 100644
--- a/cdtb/sknfile.py
+++ b/cdtb/sknfile.py
@@ -41,7 +41,7 @@ class SknFile:
         for entry in self.entries:
             entry["vertices"] = vertices[entry["start_vertex"] : entry["start_vertex"] + entry["vertex_count"]]
             entry["indices"] = [
-                x - (0 if x < entry["start_vertex"] else entry["start_vertex"])
+                x - (0 if x <= entry["start_vertex"] else entry["start_vertex"])
                 for x in indices[entry["start_index"] : entry["start_index"] + entry["index_count"]]
             ]
 
-- 
2.43.0


From 84de99910aea8ffe4b077f329d208197ca75cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 04/42] fix: parse release manifests given as a file object

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 24e3fc4..beeaac4 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -85,7 +85,7 @@ class PatcherManifest:
                 with open(path_or_f, "rb") as f:
                     self.parse_rman(f)
             else:
-                self.parse_rman(f)
+                self.parse_rman(path_or_f)
 
     def filter_files(self, langs=True) -> List[PatcherFile]:
         """Filter files from the manifest with provided filters"""
-- 
2.43.0


From 0fa27739fdb78ae35f5f8a78f9a902476c43ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 05/42] fix: support lists of languages when filtering files

---
 cdtb/patcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index beeaac4..a0562eb 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -69,8 +69,10 @@ class PatcherFile:
         elif langs is True:
             return lambda f: True
         else:
-            lang = langs.lower()  # compare lowercased
-            return lambda f: f.flags is not None and any(f.lower() == lang for f in f.flags)
+            if isinstance(langs, str):
+                langs = [langs]
+            langs = {lang.lower() for lang in langs}  # compare lowercased
+            return lambda f: f.flags is not None and any(f.lower() in langs for f in f.flags)
 
 
 class PatcherManifest:
-- 
2.43.0


From 6de8eb3c92b7d246a082e25057a77ab25d9f9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:23 +0000
Subject: [PATCH 06/42] fix: never leave a partially written file when the
 process is killed

---
 cdtb/tools.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index c45fdad..46e4ce7 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -1,4 +1,5 @@
 import glob
+import itertools
 import os
 import re
 import shutil
@@ -19,22 +20,29 @@ except ImportError:
     json_dumps = json.dumps
 
 
+_tmp_counter = itertools.count()
+
 @contextmanager
 def write_file_or_remove(path, binary=True):
     """Open a file for writing, create its parent directory if needed
 
+    The file gets its name once completely written: it is never partially
+    written, even if the process is killed.
     If the writing fails, the file is removed.
     """
+    tmp_path = os.path.join(os.path.dirname(path), f".cdtb-{os.getpid()}-{next(_tmp_counter)}.tmp")
     try:
         os.makedirs(os.path.dirname(path), exist_ok=True)
-        with open(path, 'wb' if binary else 'w') as f:
+        with open(tmp_path, 'wb' if binary else 'w') as f:
             yield f
+        os.replace(tmp_path, path)
     except:
         # remove partially written file
-        try:
-            os.remove(path)
-        except OSError:
-            pass
+        for p in (tmp_path, path):
+            try:
+                os.remove(p)
+            except OSError:
+                pass
         raise
 
 @contextmanager
-- 
2.43.0


From 27969b5456fff33743dd83692378a5b62820b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:23 +0000
Subject: [PATCH 07/42] fix: don't keep a partially written patch version in
 cache

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index a0562eb..1dc67f7 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -605,7 +605,7 @@ class PatcherReleaseElement:
             if version is None:
                 logger.warning(f"failed to retrieve patch version of {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
-- 
2.43.0


From 6ab395e8f2185f299d1294d7ea5b80667e847446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 08/42] fix: don't keep a partially written patch version in
 RADS cache

---
 cdtb/rads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 3cdce6d..a101258 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -327,7 +327,7 @@ class RadsSolutionVersion:
             if version is None:
                 logger.warning(f"failed to retrieve patch version for {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
-- 
2.43.0


From 269fe24d4f1286089bf7a23f419129ef7e1e7911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 09/42] fix: extract again incomplete or overwritten files when
 symlinks are not used

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 1dc67f7..2573a9b 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -453,7 +453,7 @@ class PatcherStorage(Storage):
         else:
             real_output = output
 
-        if not os.path.isfile(real_output):
+        if not self.use_extract_symlinks or not os.path.isfile(real_output):
             logger.debug(f"extract {file.name} to {real_output}")
             with write_file_or_remove(real_output) as f:
                 for chunk in file.chunks:
-- 
2.43.0


From 25629e12702afc86196bb43ae9bc77e73735731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 10/42] fix: don't record a release twice when latest.timestamp
 could not be written

---
 cdtb/patcher.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 2573a9b..4b15405 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -365,11 +365,8 @@ class PatcherStorage(Storage):
             'game_patch_url': self.get_latest_game_manifest(),
         }
 
-        latest_timestamp = self.latest_timestamp()
-        if latest_timestamp is None:
-            latest_release = None
-        else:
-            latest_release = PatcherRelease(self, latest_timestamp)
+        # don't rely on `latest.timestamp`, not written if the process has been interrupted
+        latest_release = next(self.iter_releases(), None)
         if latest_release and release_info == latest_release.data:
             return  # already up to date
 
-- 
2.43.0


From 4776f06be380d2b6421586a0c0941c1a038a2814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 11/42] fix: return None for the latest patch when there is no
 patch

---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index 15506ff..ced0e2a 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -313,7 +313,7 @@ class Storage(metaclass=StorageRegister):
 
         it = self.patches(stored=stored)
         if version is None:
-            return next(it)
+            return next(it, None)
         for p in it:
             if p.version == version:
                 return p
-- 
2.43.0


From 9c074d6724b0fa1784908e06b06a3b92290fb79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 12/42] fix: report that the previous patch cannot be guessed
 for the oldest stored patch

---
 cdtb/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index b35c851..43bdc68 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -293,9 +293,11 @@ def command_export(parser, args):
             it = storage.patches(stored=True)
             for v in it:
                 if v.version == patch.version:
-                    previous_patch = next(it)
+                    previous_patch = next(it, None)
                     break
             else:
+                previous_patch = None
+            if previous_patch is None:
                 parser.error("cannot guess previous patch")
 
         exporter = CdragonRawPatchExporter(os.path.join(args.output, str(patch.version)), patch, previous_patch, symlinks=symlinks)
-- 
2.43.0


From 9404705894c38a5d73b09ddb43598e44b6d0151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 13/42] fix: accept --from when updating all exported patches

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 43bdc68..69c9daf 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -270,7 +270,7 @@ def command_export(parser, args):
         # multiple patches (update only)
         if args.previous:
             parser.error("patch version required with --previous or --full")
-        if args.first:
+        if not args.first:
             parser.error("--from is required when no patch is provided")
         exporters = CdragonRawPatchExporter.from_directory(storage, args.output, PatchVersion(args.first), symlinks=symlinks)
         for exporter in exporters:
-- 
2.43.0


From c01e7f099a55a9417acaf27748e9009e3631c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 14/42] fix: support elements in hashes-guess components

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 69c9daf..05000a1 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -200,7 +200,7 @@ def command_hashes_guess(parser, args):
         if isinstance(component, Patch):
             elements = component.elements
         else:
-            elements = [component.elements]
+            elements = [component]
         for elem in elements:
             wads.extend(Wad(p) for p in elem.fspaths() if p.endswith('.wad') or p.endswith('.wad.client'))
 
-- 
2.43.0


From 06bf4629e3c9db2943951251ee161efd183b3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 15/42] fix: don't ignore --patchline when using the default
 storage

---
 cdtb/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 05000a1..4cf590a 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -62,11 +62,11 @@ def parse_storage_args(parser, args) -> Storage:
         conf = storage_conf_from_path(path)
         if conf is None:
             parser.error(f"cannot retrieve storage configuration from '{path}'")
-        if args.patchline is not None:
-            if conf['type'] == 'patcher':
-                conf['patchline'] = args.patchline
-            else:
-                parser.error("--patchline is only supported for 'patcher' storage")
+    if args.patchline is not None:
+        if conf['type'] == 'patcher':
+            conf['patchline'] = args.patchline
+        else:
+            parser.error("--patchline is only supported for 'patcher' storage")
     return Storage.from_conf(conf)
 
 
-- 
2.43.0


From 9e0d47789da31178d36db6ade07c324805fcb509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 16/42] fix: ignore directories named after a single number
 when collecting exported patches

---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index e8422f0..425b978 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -516,7 +516,7 @@ class CdragonRawPatchExporter:
                 continue
             try:
                 version = PatchVersion(path)
-            except (ValueError, TypeError):
+            except (ValueError, TypeError, AssertionError):
                 continue
             versions.add(version)
 
-- 
2.43.0


From 4a975809e18ea6d952c7c9598218b5987f63532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 17/42] fix: report the name of the component which is not
 found

---
 cdtb/__main__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 4cf590a..ae521ff 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -31,12 +31,13 @@ from cdtb.tools import json_dump
 
 def parse_component_arg(parser, storage: Storage, component: str):
     """Wrapper around parse_storage_component() to parse CLI arguments into patch elements"""
+    name = component
     try:
-        component = parse_storage_component(storage, component)
+        component = parse_storage_component(storage, name)
     except ValueError:
-        parser.error(f"invalid component: {component}")
+        parser.error(f"invalid component: {name}")
     if component is None:
-        parser.error(f"component not found: {component}")
+        parser.error(f"component not found: {name}")
 
     if isinstance(component, Patch):
         return list(component.elements)
-- 
2.43.0


From 9b6cb23eb114076c71bae58bd44df2f74e354fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 18/42] fix: don't filter files without checksum when comparing
 with the previous patch

---
 cdtb/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 425b978..d79646e 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -199,9 +199,10 @@ class Exporter:
                 # compare the sha256 hashes to find the common files
                 # don't resolve hashes: we just need the sha256
                 logger.debug(f"filter modified WAD file: {path}")
+                # note: there is no sha256 in old WAD versions, files may have changed
                 other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
                 # change the files from the wad so it only extract these
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 != other_sha256.get(wf.path_hash)]
+                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get(wf.path_hash)]
                 if not self_wad.files:
                     del self.wads[path]
 
-- 
2.43.0


From 7f1d01f57a2cb7ea854e00d4c5172f0d78a5e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 19/42] fix: export files which don't have the same path in the
 previous patch

---
 cdtb/export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index d79646e..d8073a6 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -200,9 +200,10 @@ class Exporter:
                 # don't resolve hashes: we just need the sha256
                 logger.debug(f"filter modified WAD file: {path}")
                 # note: there is no sha256 in old WAD versions, files may have changed
-                other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
+                # and the export path, which may depend on the patch version
+                other_files = {wf.path_hash: (wf.sha256, wf.path) for wf in other_wad.files}
                 # change the files from the wad so it only extract these
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get(wf.path_hash)]
+                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or (wf.sha256, wf.path) != other_files.get(wf.path_hash)]
                 if not self_wad.files:
                     del self.wads[path]
 
-- 
2.43.0


From 6c35c47c2e257289b2105667cb7850cf68973e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 20/42] fix: accept language names, as given on the command
 line, for RADS storages

---
 cdtb/rads.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index a101258..912d727 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -289,10 +289,10 @@ class RadsSolutionVersion:
             return dependencies[None]
         elif langs is True:
             return list({pv for pvs in dependencies.values() for pv in pvs})
-        elif isinstance(langs, Language):
-            return dependencies[langs]
+        elif isinstance(langs, (Language, str)):
+            return dependencies[Language(langs)]
         else:
-            return list({pv for lang in langs for pv in dependencies[lang]})
+            return list({pv for lang in langs for pv in dependencies[Language(lang)]})
 
     def filepaths(self, langs) -> Generator[str, None, None]:
         """Generate the extract path of files in the solution version"""
-- 
2.43.0


From 78bd37aa3378bd1a61165cf1788daaeaa8af4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 21/42] fix: extract empty files at the offset of another file
 of the package

---
 cdtb/rads.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 912d727..81b3a11 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -511,8 +511,8 @@ class RadsProjectVersion:
 
         for package, files in files_by_package.items():
             with self.project.storage.stream(f"{package_files_path}/{package}") as reader:
-                # sort files by offset to extract while streaming the bin file
-                for pkgfile in sorted(files, key=lambda f: f.offset):
+                # sort files by offset to extract while streaming the bin file, empty ones first
+                for pkgfile in sorted(files, key=lambda f: (f.offset, f.size)):
                     logger.debug(f"extracting {pkgfile.path}")
                     reader.skip_to(pkgfile.offset)
                     fspath = self.project.storage.fspath(pkgfile.extract_path)
-- 
2.43.0


From 15d97890575cb22d0476c3dd60d7e35308074322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 22/42] fix: report malformed files as conversion errors

A truncated or corrupt bin, skn, stringtable, atlas or champion skins
file made the whole export fail.
---
 cdtb/export.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index d8073a6..06bb5f6 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -727,7 +727,7 @@ class BinConverter(FileConverter):
         with write_file_or_remove(output_path + '.json') as fout:
             try:
                 binfile = BinFile(output_path, btype_version=self.btype_version)
-            except ValueError as e:
+            except (ValueError, AssertionError, struct.error) as e:
                 raise FileConversionError(f"failed to parse bin file: {e}")
             fout.write(json_dumps(binfile.to_serializable()).encode('ascii'))
 
@@ -749,7 +749,10 @@ class SknConverter(FileConverter):
         obj_output_path = os.path.join(output, os.path.splitext(path)[0])
         shutil.rmtree(obj_output_path, ignore_errors=True)
         with write_dir_or_remove(obj_output_path):
-            sknfile = SknFile(output_path)
+            try:
+                sknfile = SknFile(output_path)
+            except (ValueError, struct.error) as e:
+                raise FileConversionError(f"failed to parse skn file: {e}")
             for entry in sknfile.entries:
                 name = os.path.join(obj_output_path, entry["name"] + ".obj")
                 with open(name, "w") as f:
@@ -773,7 +776,10 @@ class RstConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             shutil.copyfileobj(fin, fout)
 
-        rstfile = RstFile(output_path, self.game_version)
+        try:
+            rstfile = RstFile(output_path, self.game_version)
+        except (ValueError, IndexError, struct.error) as e:
+            raise FileConversionError(f"failed to parse stringtable file: {e}")
         hashes = {key_to_rsthash(hash, bits=rstfile.hash_bits): value for hash, value in self.hashes.items()}
         rst_json = {"entries": {}, "version": rstfile.version}
         for key, value in rstfile.entries.items():
@@ -800,7 +806,11 @@ class AtlasInfoConverter(FileConverter):
         output_path = os.path.join(output, path)
 
         with write_file_or_remove(output_path + ".json", False) as fout:
-            json_dump(self.parse_atlasinfo(fin), fout, ensure_ascii=False)
+            try:
+                atlas_info = self.parse_atlasinfo(fin)
+            except (ValueError, IndexError, struct.error) as e:
+                raise FileConversionError(f"failed to parse atlas info file: {e}")
+            json_dump(atlas_info, fout, ensure_ascii=False)
 
     @staticmethod
     def parse_atlasinfo(f):
@@ -845,7 +855,11 @@ class ChampionSkinInfoConverter(FileConverter):
         output_path = os.path.join(output, path)
 
         with write_file_or_remove(output_path + ".json", False) as fout:
-            json_dump(self.parse_championskininfo(fin), fout, ensure_ascii=False)
+            try:
+                skin_info = self.parse_championskininfo(fin)
+            except (ValueError, struct.error) as e:
+                raise FileConversionError(f"failed to parse champion skins file: {e}")
+            json_dump(skin_info, fout, ensure_ascii=False)
 
     @staticmethod
     def parse_championskininfo(f):
-- 
2.43.0


From 6b91cd82e2fdbe1863661219c5ff63753399a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 23/42] fix: reject truncated length-prefixed strings

A table which ends in the middle of a string was read as a shorter one.
---
 cdtb/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 46e4ce7..7fc48e2 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -87,7 +87,8 @@ class BinaryParser:
 
     def unpack_string(self):
         """Unpack string prefixed by its 32-bit length"""
-        return self.f.read(self.unpack('<L')[0]).decode('utf-8')
+        length, = self.unpack('<L')
+        return self.unpack(f'{length}s')[0].decode('utf-8')
 
 def stringtable_paths(base_dir, game):
     """
-- 
2.43.0


From 484d4fc842e3bb34466bb8ac1cfc4925a34c37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 24/42] fix: read string tables of Arena data with the version
 of the patch

The hashes of texts depend on it: no text was found for patches before 15.2.
---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 06bb5f6..fd9f776 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -401,7 +401,7 @@ class CdragonRawPatchExporter:
             return  # no supported Arena data before 13.14
         # don't import in module to be able to execute arenadata module
         from .arenadata import ArenaTransformer
-        transformer = ArenaTransformer(os.path.join(self.output, "game"))
+        transformer = ArenaTransformer(os.path.join(self.output, "game"), self.patch.version.as_int())
         transformer.export(os.path.join(self.output, "cdragon/arena"), langs=None)
 
     def _create_exporter(self, patch):
-- 
2.43.0


From b47d6eb63279d78a129e1650bfd13a0126cfba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:22 +0000
Subject: [PATCH 25/42] fix: don't list the cdragon directory as an exported
 path

It was added to the list of exported files when no link was to be created.
---
 cdtb/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index fd9f776..c6fc271 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -358,8 +358,7 @@ class CdragonRawPatchExporter:
                 symlinked_paths = reduce_common_paths(new_paths - changed_paths, prev_paths, changed_paths)
 
         # exclude generated "cdragon" files
-        changed_paths.add("cdragon")
-        exporter.clean_output_dir(changed_paths, set(symlinked_paths or []))
+        exporter.clean_output_dir(changed_paths | {"cdragon"}, set(symlinked_paths or []))
 
         # extract files, create symlinks if needed
         exporter.export(overwrite=overwrite)
-- 
2.43.0


From 07666ce0f2a9f9c5d0088df532d517a1a862d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 26/42] fix: don't update known hashes while iterating over
 them in guess_patterns

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 7619e1f..9cfe560 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -549,7 +549,7 @@ class LcuHashGuesser(HashGuesser):
         self.check_iter(f'plugins/rcp-be-sanitizer/global/default/{p}' for p in paths)
 
         # plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/{name}.png -> {name}_splash.png
-        for p in self.known.values():
+        for p in list(self.known.values()):
             if p.startswith('plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/'):
                 self.check(p.replace('.png', '_splash.png'))
 
-- 
2.43.0


From 21e764679a28e5f8ce5eb0f58df76c1070eccbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 27/42] fix: try all combinations in substitute_skin_numbers,
 not only the ones of different skins in set order

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 9cfe560..74e8f90 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -659,7 +659,7 @@ class GameHashGuesser(HashGuesser):
         logger.debug(f"substitute skin numbers: {len(characters)} characters")
         for char, (skins, formats) in progress_iterator(characters.items(), lambda v: v[0]):
             for fmt, nocc in formats:
-                self.check_iter(fmt % p for p in itertools.combinations(skins, nocc))
+                self.check_iter(fmt % p for p in itertools.product(skins, repeat=nocc))
 
     def substitute_suffixes(self):
         """Replace `.suffix.ext` using all known suffixes"""
-- 
2.43.0


From 3548bb6230c8df4f079819a1ca0684ad929aaaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 28/42] fix: guess basenames in the root directory without a
 leading slash

---
 cdtb/hashes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 74e8f90..2578ee5 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -251,7 +251,7 @@ class HashGuesser:
 
         dirs = self.directory_list()
         for name in progress_iterator(sorted(names)):
-            self.check_iter(f"{dir}/{name}" for dir in dirs)
+            self.check_iter(f"{dir}/{name}" if dir else name for dir in dirs)
 
     def directory_list(self, cached=True):
         """Return a set of all directories and subdirectories"""
@@ -273,7 +273,7 @@ class HashGuesser:
         dirs = self.directory_list()
         logger.debug(f"substitute basenames: {len(names)} basenames, {len(dirs)} directories")
         for name in progress_iterator(sorted(names)):
-            self.check_iter(f"{dir}/{name}" for dir in dirs)
+            self.check_iter(f"{dir}/{name}" if dir else name for dir in dirs)
 
     def _substitute_basename_words(self, paths, words, nold=1, nnew=1):
         """Replaces nold side by side words with nnew words in all basenames of all given paths
-- 
2.43.0


From b48f99021b4cc06e1ada0494b210472b95e67821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 29/42] fix: don't use percent signs of known paths as format
 specifiers when guessing

---
 cdtb/hashes.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 2578ee5..347d5fd 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -169,6 +169,11 @@ def progress_iterator(sequence, formatter=None):
 
 
 
+def escape_format(s):
+    """Escape a string to be part of a format string, for use with `%`"""
+    return s.replace('%', '%%')
+
+
 class HashGuesser:
     """
     Guess hashes from files
@@ -289,7 +294,7 @@ class HashGuesser:
         for path in paths:
             for m in re_extract.finditer(path):
                 match = m.group(1) + m.group(2)
-                temp_formats.add(format_part % (path[:m.start()], path[m.span()[0]+len(match):]))
+                temp_formats.add(format_part % (escape_format(path[:m.start()]), escape_format(path[m.span()[0]+len(match):])))
 
         formats = {fmt.replace("{sep}", sep) for fmt in temp_formats for sep in "-_"}
 
@@ -306,8 +311,8 @@ class HashGuesser:
         formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
-                formats.update('%s%%s%s%s' % (path[:m.start()], sep, path[m.start():]) for sep in "-_")
-                formats.update('%s%s%%s%s' % (path[:m.end()], sep, path[m.end():]) for sep in "-_")
+                for pos, fmt in ((m.start(), '%s%%s%s%s'), (m.end(), '%s%s%%s%s')):
+                    formats.update(fmt % (escape_format(path[:pos]), sep, escape_format(path[pos:])) for sep in "-_")
 
         logger.debug(f"add basename word: {len(formats)} formats, {len(words)} words")
         for fmt in progress_iterator(sorted(formats)):
@@ -329,7 +334,7 @@ class HashGuesser:
         formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
-                formats.add('%s%s%s' % (path[:m.start()], fmt, path[m.end():]))
+                formats.add('%s%s%s' % (escape_format(path[:m.start()]), fmt, escape_format(path[m.end():])))
 
         nrange = range(nmax)
         logger.debug(f"substitute numbers: {len(formats)} formats, nmax = {nmax}")
@@ -432,7 +437,7 @@ class LcuHashGuesser(HashGuesser):
 
         all_paths = [p for p in self.known.values() if p.startswith('plugins/')]
         plugins = {p.split('/', 2)[1] for p in all_paths}
-        formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', p) for p in all_paths}
+        formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', escape_format(p)) for p in all_paths}
 
         logger.debug(f"substitute plugin: {len(formats)} formats, {len(plugins)} plugins")
         for fmt in progress_iterator(sorted(formats)):
@@ -653,7 +658,7 @@ class GameHashGuesser(HashGuesser):
                 continue
             c = characters.setdefault(char, (set(), set()))
             c[0].add(skin)
-            c[1].add(re.subn(r'(?:base|skin\d+)', '%s', p))
+            c[1].add(re.subn(r'(?:base|skin\d+)', '%s', escape_format(p)))
 
         # generate all combinations
         logger.debug(f"substitute skin numbers: {len(characters)} characters")
@@ -674,7 +679,7 @@ class GameHashGuesser(HashGuesser):
             prefix, suffix, ext = m.groups()
             if suffix:
                 suffixes.add(suffix)
-            formats.add(f"{prefix}%s{ext}")
+            formats.add(f"{escape_format(prefix)}%s{escape_format(ext)}")
 
         # generate all combinations
         logger.debug(f"substitute suffixes: {len(formats)} formats, {len(suffixes)} suffixes")
-- 
2.43.0


From 6cfb2fa70e6f623d7b2cf385bcf00bf248db21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 30/42] fix: ignore paths outside of a plugin directory in
 substitute_plugin

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 347d5fd..979114b 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -435,7 +435,7 @@ class LcuHashGuesser(HashGuesser):
     def substitute_plugin(self):
         """Guess hashes by changing plugin name"""
 
-        all_paths = [p for p in self.known.values() if p.startswith('plugins/')]
+        all_paths = [p for p in self.known.values() if re.match(r'^plugins/[^/]+/', p)]
         plugins = {p.split('/', 2)[1] for p in all_paths}
         formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', escape_format(p)) for p in all_paths}
 
-- 
2.43.0


From db7e0f44c1ae225b19e8236086dc695eeef1eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 31/42] fix: skip redirections and unreadable entries when
 searching text files of a WAD

---
 cdtb/hashes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 979114b..faa8ff0 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -364,8 +364,11 @@ class HashGuesser:
                 # skip non-text files as soon as possible
                 if wadfile.ext in ('png', 'jpg', 'ttf', 'webm', 'ogg', 'dds', 'tga'):
                     continue
+                data = wad.read_file_data(f, wadfile)
+                if data is None:
+                    continue # redirection or unreadable entry
                 try:
-                    data = wadfile.read_data(f).decode('utf-8-sig')
+                    data = data.decode('utf-8-sig')
                 except UnicodeDecodeError:
                     continue
                 if data:
-- 
2.43.0


From 71cff62aab3c2efb118e7713bf5f36c783b29d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 32/42] fix: accept JSON documents of any type when searching
 LCU hashes

---
 cdtb/hashes.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index faa8ff0..eafcc02 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -459,10 +459,15 @@ class LcuHashGuesser(HashGuesser):
                 # parse specific information from known json files
                 try:
                     jdata = json.loads(data)
-                except (json.JSONDecodeError, UnicodeDecodeError):
+                except (ValueError, RecursionError):
                     pass
 
-            if jdata is not None:
+            if isinstance(jdata, list):
+                if wadfile.path == 'plugins/rcp-be-lol-game-data/global/default/v1/champion-summary.json':
+                    champion_ids = [v['id'] for v in jdata]
+                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json' for cid in champion_ids)
+                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champion-splashes/{cid}/metadata.json' for cid in champion_ids)
+            elif isinstance(jdata, dict):
                 if wadfile.path == 'plugins/rcp-fe-lol-loot/global/default/trans.json':
                     # names of hextech items, keys are also image names
                     self.check_iter(f"plugins/rcp-be-lol-game-data/global/default/v1/hextech-images/{k}.png" for k in jdata)
@@ -480,10 +485,6 @@ class LcuHashGuesser(HashGuesser):
                     self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/config.json" for name in names)
                     self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/{path.lower()}" for name in names for path in jdata['files'].values())
                     continue  # no more data to parse
-                elif wadfile.path == 'plugins/rcp-be-lol-game-data/global/default/v1/champion-summary.json':
-                    champion_ids = [v['id'] for v in jdata]
-                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json' for cid in champion_ids)
-                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champion-splashes/{cid}/metadata.json' for cid in champion_ids)
                 elif 'recommendedItemDefaults' in jdata:
                     # plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json
                     self.check_iter(f'plugins/rcp-be-lol-game-data/global/default{p.lower()}' for p in jdata['recommendedItemDefaults'])
-- 
2.43.0


From 009badcd51ed9735d7e3435f6aab1836093c9e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 33/42] fix: skip non-ASCII paths of preload and shader files
 when searching game hashes

---
 cdtb/hashes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index eafcc02..7c19935 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -858,7 +858,10 @@ class GameHashGuesser(HashGuesser):
                 elif wadfile.ext == 'preload':
                     # preload files
                     for m in re.finditer(br'Name="([^"]+)"', data):
-                        path = m.group(1).lower().decode('ascii')
+                        try:
+                            path = m.group(1).lower().decode('ascii')
+                        except UnicodeDecodeError:
+                            continue
                         if path.endswith('.lua'):
                             self.check(path)
                             self.check(path[:-4] + '.luabin')
@@ -874,7 +877,10 @@ class GameHashGuesser(HashGuesser):
                     if wadfile.path:
                         dirname = os.path.dirname(wadfile.path)
                         for m in re.finditer(br'#include "([^"]+)"', data):
-                            subpath = m.group(1).lower().decode('ascii')
+                            try:
+                                subpath = m.group(1).lower().decode('ascii')
+                            except UnicodeDecodeError:
+                                continue
                             self.check(os.path.normpath(f"{dirname}/{subpath}").replace('\\', '/'))
 
                 elif wadfile.ext == 'atlas':
-- 
2.43.0


From 8d745029de0aeddb03ac4dec7ecd31e96cd0e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 34/42] fix: read game data of older patches in Arena export

The game version was only used for string tables: game data from before
10.8 was not read with the type numbering of its patch.
---
 cdtb/arenadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index 9538546..b159cf3 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -15,7 +15,7 @@ class ArenaTransformer:
         """Parse bin data into template data"""
         map30_file = os.path.join(self.input_dir, "data", "maps", "shipping", "map30", "map30.bin")
 
-        map30 = BinFile(map30_file)
+        map30 = BinFile(map30_file, btype_version=self.game_version)
 
         augments = self.parse_augments(map30)
 
-- 
2.43.0


From cccfabfd874f2ac6c6d34160d42afc3a97c5907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 35/42] fix: accept Arena augments with a null spell

A link object is always true: a null link was looked up, and the whole
export failed.
---
 cdtb/arenadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index b159cf3..3987fe1 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -65,7 +65,7 @@ class ArenaTransformer:
             augment_datavalues = {}
             augment_calculations = {}
             augment_spellobject = augment.getv("RootSpell")
-            if augment_spellobject:
+            if augment_spellobject is not None and augment_spellobject.h != 0:
                 augment_spell = spellobject_entries[augment_spellobject].getv('mSpell')
                 for datavalue in augment_spell.getv("DataValues", augment_spell.getv('mDataValues', [])):
                     augment_datavalues[datavalue.getv("name", datavalue.getv("mName"))] = datavalue.getv("values", datavalue.getv("mValues", [0])[0])
-- 
2.43.0


From ce084cde8e5b3b5df395ac88be4a0af2cf536ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 36/42] fix: find string tables in directories with special
 characters

The input directory was part of the glob pattern.
---
 cdtb/tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 7fc48e2..025f61f 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -104,13 +104,13 @@ def stringtable_paths(base_dir, game):
     #   (game is either `lol` or `tft`)
 
     # Find the current format in order from newest to oldest
-    lang_dict = {re.search(rf"(.._..)/data/menu/en_us/{game}\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, f"??_??/data/menu/en_us/{game}.stringtable"))}
+    lang_dict = {re.search(rf"(.._..)/data/menu/en_us/{game}\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), f"??_??/data/menu/en_us/{game}.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"(.._..)/data/menu/en_us/main\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "??_??/data/menu/en_us/main.stringtable"))}
+        lang_dict = {re.search(r"(.._..)/data/menu/en_us/main\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), "??_??/data/menu/en_us/main.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"data/menu/main_(.._..)\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "data/menu/main_??_??.stringtable"))}
+        lang_dict = {re.search(r"data/menu/main_(.._..)\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), "data/menu/main_??_??.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"data/menu/fontconfig_(.._..)\.txt$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "data/menu/fontconfig_??_??.txt"))}
+        lang_dict = {re.search(r"data/menu/fontconfig_(.._..)\.txt$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), "data/menu/fontconfig_??_??.txt"))}
     if lang_dict:
         return lang_dict
     else:
-- 
2.43.0


From db5031fb696532390f57e62e679a6eb9ed2349cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 37/42] fix: read game data of older patches in TFT export

The game version was only used for string tables: game data from before
10.8 was not read with the type numbering of its patch.
---
 cdtb/tftdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index d47d604..cbfac73 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -41,7 +41,7 @@ class TftTransformer:
         """Parse bin data into template data"""
         map22_file = os.path.join(self.input_dir, "data", "maps", "shipping", "map22", "map22.bin")
 
-        map22 = BinFile(map22_file)
+        map22 = BinFile(map22_file, btype_version=self.game_version)
 
         character_names = self.parse_character_names(map22)
         traits = self.parse_traits(map22)
@@ -262,7 +262,7 @@ class TftTransformer:
             if not os.path.exists(self_path):
                 continue
 
-            tft_bin = BinFile(self_path)
+            tft_bin = BinFile(self_path, btype_version=self.game_version)
             record = next((x for x in tft_bin.entries if x.type == "TFTCharacterRecord"), {})
             if "spells" in record:
                 spell_ref = next((s for s in record.getv("spells") if s.h != 0), None)
-- 
2.43.0


From 7649dce55bceb5030ad45b34d80938c2d6dfd3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 38/42] fix: export TFT data of the first patches

Without TFTSetData, the lists of characters and traits were handled as
Python lists and the returned set did not have all its elements: the
export always failed.
---
 cdtb/tftdata.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index cbfac73..2168949 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -131,7 +131,7 @@ class TftTransformer:
         return {x.path: x.getv("name").lower() for x in map22.entries if x.type == "Character" or x.type == "TftCharacter"}
 
     def parse_sets(self, map22, character_names, traits):
-        """Parse character sets to a list of `(name, number, characters, traits, augments, items)`"""
+        """Parse character sets to a list of `(number, mutator, name, characters, traits, augments, items)`"""
         character_lists = {x.path: x for x in map22.entries if x.type == "MapCharacterList" or x.type == "TftCharacterList"}
         trait_lists = {x.path: x for x in map22.entries if x.type == "TftTraitList"}
         set_collection = [x for x in map22.entries if x.type == "TFTSetData"]
@@ -140,13 +140,11 @@ class TftTransformer:
 
         if not set_collection:
             # backward compatibility
-            longest_character_list = max(character_lists.values(), key=lambda v: len(v.fields[0].value))
-            longest_trait_list = max(trait_lists.values(), key=lambda v: len(v.fields[0].value))
-            champion_list = longest_character_list.fields[0].value
-            trait_list = longest_trait_list.fields[0].value
-            set_characters = [character_names.get(char) for char in champion_list]
-            set_traits = [traits.get(trait) for trait in trait_list]
-            return [(1, "Base", set_characters, set_traits)]
+            champion_list = max((x.fields[0].value.values for x in character_lists.values()), key=len)
+            trait_list = max((x.fields[0].value.values for x in trait_lists.values()), key=len)
+            set_characters = [character_names[char] for char in champion_list if char in character_names]
+            set_traits = [traits[trait] for trait in trait_list if trait in traits]
+            return [(1, None, "Base", set_characters, set_traits, [], [])]
 
         sets = []
         for item in set_collection:
-- 
2.43.0


From 5ca5a2fc8175110516882788fdfd897aa6b1512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 39/42] fix: don't skip the start of textual string tables

The bytes read to check the magic code were lost, and the first line was
ignored when it was a translation.
---
 cdtb/tftdata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 2168949..4097e58 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -8,8 +8,10 @@ from .tools import json_dump, stringtable_paths
 
 def load_translations(path, game_version=1502):
     with open(path, "rb") as f:
-        if f.read(3) == b"RST":
+        magic = f.read(3)
+        if magic != b"\xef\xbb\xbf":
             f.seek(0)
+        if magic == b"RST":
             return RstFile(f, game_version)
         else:
             translations = {}
-- 
2.43.0


From 0fa450442f8e711f2535d1dc867070c85fe9ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 40/42] fix: use older icons of TFT champions and abilities

str() of a missing value is never empty: the icon was 'None' and these of
older patches were never used.
---
 cdtb/tftdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 4097e58..33fd349 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -311,7 +311,7 @@ class TftTransformer:
                 "characterName": record.getv("mCharacterName"),
                 "name": champ.getv("mDisplayNameTra"),
                 "cost": cost,
-                "icon": str(champ.getv("PcSplashPath")) or champ.getv("mIconPath"),
+                "icon": str(champ.getv("PcSplashPath") or champ.getv("mIconPath")),
                 "tileIcon": str(champ.getv("TeamPlannerPortraitPath")),
                 "squareIcon": str(champ.getv("SquareSplashPath")),
                 "traits": [traits[h]["name"] for h in champ_traits if h in traits],
@@ -331,7 +331,7 @@ class TftTransformer:
                 "ability": {
                     "name": champ.getv("mAbilityNameTra") or spell_key_name,
                     "desc": champ.getv("mDescriptionTra") or spell_key_tooltip,
-                    "icon": str(champ.getv("AbilityIconPath")) or champ.getv("mPortraitIconPath"),
+                    "icon": str(champ.getv("AbilityIconPath") or champ.getv("mPortraitIconPath")),
                     "variables": ability_variables,
                 },
             }, champ_traits)
-- 
2.43.0


From 34cb6b04596e9d3906571e3404a1d0b46be6671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 41/42] fix: ignore exported versions older than --from, report
 all missing ones

Exporting all patches of a directory failed when a directory older than the
first requested version was not in the storage anymore. On the other hand,
missing versions were silently ignored if the storage had a patch older than
the first requested version.
---
 cdtb/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index c6fc271..bf57c46 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -519,6 +519,8 @@ class CdragonRawPatchExporter:
                 version = PatchVersion(path)
             except (ValueError, TypeError, AssertionError):
                 continue
+            if first and version < first:
+                continue
             versions.add(version)
 
         if not versions:
@@ -527,8 +529,6 @@ class CdragonRawPatchExporter:
         # get patches from versions (latest to oldest)
         patches = []
         for patch in storage.patches(stored=True):
-            if first and patch.version < first:
-                break
             if patch.version in versions:
                 patches.append(patch)
                 versions.remove(patch.version)
-- 
2.43.0


From 554a4ae5133358d0d95597df685c39e4e401f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 42/42] fix: report storages which cannot be used as usage
 errors

storage_conf_from_path() raises an exception and never returns None; an
unknown storage type raises an exception too.
---
 cdtb/__main__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index ae521ff..9d4ec1c 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -60,15 +60,19 @@ def parse_storage_args(parser, args) -> Storage:
             'path': 'cdn',
         }
     else:
-        conf = storage_conf_from_path(path)
-        if conf is None:
+        try:
+            conf = storage_conf_from_path(path)
+        except ValueError:
             parser.error(f"cannot retrieve storage configuration from '{path}'")
     if args.patchline is not None:
         if conf['type'] == 'patcher':
             conf['patchline'] = args.patchline
         else:
             parser.error("--patchline is only supported for 'patcher' storage")
-    return Storage.from_conf(conf)
+    try:
+        return Storage.from_conf(conf)
+    except ValueError as e:
+        parser.error(str(e))
 
 
 def command_download(parser, args):
-- 
2.43.0

