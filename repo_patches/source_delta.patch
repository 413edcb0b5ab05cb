From 9fdb782f20dd18dd5e1e762dfdb0a1b68b6087a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 01/49] fix: SimpleSheetsFactory.fetch_sheet() forgot to return
 the sibling-sheet

---
 pandalone/xleash/io/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 632e534..3e44d22 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -78,7 +78,7 @@ class SimpleSheetsFactory(object):
             if sheet_id is None:
                 sheet = base_sheet
             else:
-                base_sheet.open_sibling_sheet(sheet_id)
+                sheet = base_sheet.open_sibling_sheet(sheet_id)
         else:
             url = utils.path2url(wb_url)
             sheet = self._open_sheet(url, sheet_id)
-- 
2.43.0


From af1b81da8961fec24ae7179646fcb489b735da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:59 +0000
Subject: [PATCH 02/49] fix: SheetsFactory.close() abandoned the rest sheets
 open when one failed

---
 pandalone/xleash/io/backend.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 3e44d22..8715e77 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -190,11 +190,26 @@ class SheetsFactory(SimpleSheetsFactory):
                         del sh_dict[sh_id]
 
     def close(self):
-        """Closes all contained sheets and empties cache."""
-        for sh_dict in self._cached_sheets.values():
-            for sh in sh_dict.values():
-                sh._close_all()
+        """
+        Closes all contained sheets and empties cache.
+
+        Any sheet failing to close does not prevent the rest from closing;
+        the 1st error is raised in the end.
+        """
+        sheets = {
+            id(sh): sh
+            for sh_dict in self._cached_sheets.values()
+            for sh in sh_dict.values()
+        }
         self._cached_sheets = {}
+        error = None
+        for sh in sheets.values():
+            try:
+                sh._close_all()
+            except Exception as ex:
+                error = error or ex
+        if error:
+            raise error
 
     def add_sheet(self, sheet, wb_ids=None, sh_ids=None):
         """
-- 
2.43.0


From 3c11faa9f62e2568045e702f325325a7da4a7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 03/49] fix: opts in xl-ref discarded all base-opts, instead of
 overlaying them

---
 pandalone/xleash/_lasso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index fc3a5d8..8f06a55 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -156,6 +156,8 @@ class Ranger(object):
         try:
             parsed_fields = _parse.parse_xlref(xlref)
             filled_fields = dtz.valfilter(lambda v: v is not None, parsed_fields)
+            if "opts" in filled_fields:
+                filled_fields["opts"] = init_lasso.opts.new_child(filled_fields["opts"])
             init_lasso = init_lasso._replace(**filled_fields)
         except SyntaxError:
             raise
-- 
2.43.0


From db46a1b415274ab8c981a14c9949151b72e79b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 04/49] fix: `lax` arg of element-wise filters applied only on
 the 1st element

---
 pandalone/xleash/_lasso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 8f06a55..05d2708 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -113,6 +113,7 @@ class Ranger(object):
         lasso = self._relasso(lasso, func_name)
 
         verbose = lasso.opts.get("verbose", False)
+        kwds = dict(kwds)  # The call-spec may be invoked for many elements.
         lax = kwds.pop("lax", lasso.opts.get("lax", False))
         func, func_desc = "", ""
         try:
-- 
2.43.0


From 9884e182c3be52f50e3f8c3b091f848396c5c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 05/49] fix: failing filters in `verbose` mode crashed due to
 removed inspect.formatargspec()

---
 pandalone/xleash/_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 05d2708..5c3a1df 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -31,8 +31,8 @@ log = logging.getLogger(__name__)
 
 
 def _build_call_help(name, func, desc):
-    sig = func and inspect.formatargspec(*inspect.getfullargspec(func))
-    desc = textwrap.indent(textwrap.dedent(desc), "    ")
+    sig = func and inspect.signature(func)
+    desc = textwrap.indent(textwrap.dedent(desc or ""), "    ")
     return "\n\nFilter: %s%s:\n%s" % (name, sig, desc)
 
 
-- 
2.43.0


From 2cc6b43314dd833409759d271e56a446337d2dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 06/49] fix: dates of workbooks in the 1904 date-system were
 read 4 years off

---
 pandalone/xleash/io/_xlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index df8548a..ceff3b4 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -139,7 +139,7 @@ def _open_sheet_by_name_or_index(xlrd_book, wb_id, sheet_id):
                 raise xl_ex from None
             else:
                 xl_sh = xlrd_book.sheet_by_index(sheet_id)
-    return XlrdSheet(xl_sh, wb_id)
+    return XlrdSheet(xl_sh, wb_id, epoch1904=bool(xlrd_book.datemode))
 
 
 class XlrdSheet(ABCSheet):
-- 
2.43.0


From 9fb4dbed3acafe95a49236900260752b37bdd94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 07/49] fix: xlrd-backend could not open remote workbooks

---
 pandalone/xleash/io/_xlrd.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index ceff3b4..f39b397 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -235,20 +235,16 @@ class XlrdBackend(ABCBackend):
         return book.sheet_names()
 
     def _open_book(self, url):
-        parts = filename = urlparse(url)
-        ropts = parts.params or {}
-        if "logfile" not in ropts:
-            ropts["logfile"] = utils.LoggerWriter(log, logging.DEBUG)
+        parts = urlparse(url)
+        ropts = {"logfile": utils.LoggerWriter(log, logging.DEBUG)}
         if parts.scheme == "file":
             path = utils.urlpath2path(parts.path)
             log.info("Opening book(%r)...", path)
             book = xlrd.open_workbook(path, **ropts)
         else:
-            ropts.pop("on_demand", None)
-            http_opts = ropts.get("http_opts", {})
-            with request.urlopen(url, **http_opts) as response:
-                log.info("Opening book(%r)...", filename)
-                book = xlrd.open_workbook(filename, file_contents=response, **ropts)
+            with request.urlopen(url) as response:
+                log.info("Opening book(%r)...", url)
+                book = xlrd.open_workbook(url, file_contents=response.read(), **ropts)
 
         return book
 
-- 
2.43.0


From dc26444c2869597d16c86445bfe02107e4a0c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 08/49] fix: ensure_dir_exists() reported success when it lost
 a race to a non-directory

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 40f5252..53a39e7 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -345,7 +345,7 @@ def ensure_dir_exists(path, mode=0o755):
         try:
             os.makedirs(path, mode=mode)
         except OSError as e:
-            if e.errno != errno.EEXIST:
+            if e.errno != errno.EEXIST or not os.path.isdir(path):
                 raise
     elif not os.path.isdir(path):
         raise IOError("%r exists but is not a directory" % path)
-- 
2.43.0


From 53ac244a94382af6b92445f95894df62c56520ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 09/49] fix: make_unique_filename() ignored its `filegen`
 argument

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 53a39e7..8acdf51 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -255,7 +255,7 @@ def generate_filenames(filename):
 
 
 def make_unique_filename(fname, filegen=generate_filenames):
-    fname_genor = generate_filenames(fname)
+    fname_genor = filegen(fname)
     fname = next(fname_genor)
     while os.path.exists(fname):
         fname = next(fname_genor)
-- 
2.43.0


From 46a570d1bc53bf48f21d84470ed5d0b92bb27997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 10/49] fix: urlpath2path() appended the UNC-prefix, corrupting
 long paths

---
 pandalone/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 8acdf51..e1a6680 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -182,8 +182,8 @@ def urlpath2path(url):
     p = ur.url2pathname(url)
     if _is_dir_regex.search(url) and p[-1] != os.sep:
         p = p + osp.sep
-    if len(p) > 200:
-        p += _unc_prefix
+    if os.name == "nt" and len(p) > 200:
+        p = _unc_prefix + p
     return p
 
 
-- 
2.43.0


From ecc388e801ee3bc1cff9141f1e8d997bab344930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 11/49] fix: JSONCodec corrupted pickles containing
 line-endings

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ec3975c..c4dbf70 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1428,7 +1428,7 @@ class JSONCodec:
     class Encoder(JSONEncoder):
         def encode(self, o):
             pickle_bytes = pickle.dumps(o)
-            pickle_str = binascii.b2a_qp(pickle_bytes).decode(encoding="utf8")
+            pickle_str = binascii.b2a_qp(pickle_bytes, istext=False).decode(encoding="utf8")
             o = {JSONCodec._obj: pickle_str, JSONCodec._ver_key: JSONCodec._ver}
             return JSONEncoder.encode(self, o)
 
-- 
2.43.0


From af65b2e06b2b6c6abecb216752d663c503941b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 12/49] fix: merged-columns & additional-property errors
 depended on hash-seed

---
 pandalone/pandata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index c4dbf70..0cf3ce5 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -209,7 +209,7 @@ def _rule_additionalProperties(validator, aP, instance, schema):
     if not validator.is_type(instance, "object"):
         return
 
-    extras = set(_find_additional_properties(instance, schema))
+    extras = list(_find_additional_properties(instance, schema))
 
     if validator.is_type(aP, "object"):
         for extra in extras:
@@ -884,7 +884,7 @@ class Pandel(object):
             b = pd.DataFrame() if b is None else pd.DataFrame(b)
 
             a.update(b)  # , 'outer') NOT IMPL YET
-            extra_b_items = list(set(b.columns) - set(a.columns))
+            extra_b_items = [c for c in b.columns if c not in a.columns]
             a[extra_b_items] = b[extra_b_items]
 
         elif isinstance(a, pd.Series) or isinstance(b, pd.Series):
-- 
2.43.0


From 180397006f84e2fffc13414fb6b4fff1170437c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 13/49] fix: auto-defaults shared the schema's mutable values
 with models

---
 pandalone/pandata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 0cf3ce5..bae27ae 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -13,6 +13,7 @@ URI-references, implemented by :class:`Pandel`.
 
 import abc
 import binascii
+import copy
 import collections.abc as cabc
 import functools as fnt
 import numbers
@@ -290,7 +291,7 @@ def _rule_auto_defaults_properties(
                 and _is_null(None, instance[property])
             )
         ):
-            instance[property] = subschema["default"]
+            instance[property] = copy.deepcopy(subschema["default"])
         elif (
             first_defined(subschema.get("autoRemoveNull"), auto_remove_nulls)
             and not _is_null_in_type(subschema.get("type"))
-- 
2.43.0


From f0f7cdbee5e735497ea72cc0483ff214399b0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 14/49] fix: building a Pandel modified or shared parts of the
 submodels given

---
 pandalone/pandata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index bae27ae..56e98fb 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -941,13 +941,16 @@ class Pandel(object):
         "Step-1"
         for (mdl, path_ops) in self._submodel_tuples:
             schema = self._get_json_schema(is_prevalidation=True)
-            for err in self._validate_json_model(schema, mdl):
+            # Auto-defaults must not side-effect the submodels given.
+            for err in self._validate_json_model(schema, copy.deepcopy(mdl)):
                 yield err
 
     def _merge(self):
         "Step-2"
         for (mdl, path_ops) in self._submodel_tuples:
-            self.model = self._clone_and_merge_submodels(self.model, mdl)
+            self.model = self._clone_and_merge_submodels(
+                self.model, copy.deepcopy(mdl)
+            )
         if False:
             yield  # Just mark method as generator.
 
-- 
2.43.0


From 21e13c64200852ec173042f51bfa5eb42af024b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 15/49] fix: assigning an alias on a Pstep modified the pmods
 shared with other psteps

---
 pandalone/mappings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index ddfe008..1b2b2ac 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1093,6 +1093,8 @@ class Pstep(str):
                 if alias is not None:
                     pmod = self._pmod
                     if pmod:
+                        # Pmods are shared among psteps, must not modify it.
+                        self._pmod = pmod = copy(pmod)
                         pmod._alias = alias
                     else:
                         self._pmod = Pmod(_alias=alias)
-- 
2.43.0


From 0fe67f0858c9206830f6b5c61c3bc5a22417b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 16/49] fix: bumping twice from the same process used stale
 file contents

---
 bin/bumpver.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bin/bumpver.py b/bin/bumpver.py
index edaba27..9d343ae 100755
--- a/bin/bumpver.py
+++ b/bin/bumpver.py
@@ -19,7 +19,6 @@ Without <new-ver> prints version extracted from current file.
 import os.path as osp
 import sys
 import re
-import functools as fnt
 
 import docopt
 
@@ -37,7 +36,6 @@ class CmdException(Exception):
     pass
 
 
-@fnt.lru_cache()
 def read_txtfile(fpath):
     with open(fpath, "rt", encoding="utf-8") as fp:
         return fp.read()
-- 
2.43.0


From 4477f59be76ecc54ef2f41368afea3e0b77defbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 17/49] fix: removing VBA-modules missed some of the names
 given

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 2358ab7..ba5ac9e 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -119,7 +119,7 @@ def _remove_vba_modules(xl_vbcs, *mod_names_to_del):
 
     # Comparisons are case-insensitive.
     if mod_names_to_del:
-        mod_names_to_del = map(str.lower, mod_names_to_del)
+        mod_names_to_del = set(map(str.lower, mod_names_to_del))
 
     # Gather all workbook vba-modules.
     xl_mods = [xl_vbc for xl_vbc in xl_vbcs if xl_vbc.Type == XL_TYPE_MODULE]
-- 
2.43.0


From abb061b10875ede43d8f1468e33e2b315f44c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 18/49] fix: Excel alerts were left disabled when saving a
 workbook failed

---
 pandalone/xlsutils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index ba5ac9e..13f6c1d 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -179,13 +179,17 @@ def _save_workbook(xl_workbook, path):
         # directory
         path = os.path.join(os.getcwd(), xl_workbook.Name)
         xl_workbook.Application.DisplayAlerts = False
-        xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
-        xl_workbook.Application.DisplayAlerts = True
+        try:
+            xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
+        finally:
+            xl_workbook.Application.DisplayAlerts = True
     elif path:
         # Save under new name/location
         xl_workbook.Application.DisplayAlerts = False
-        xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
-        xl_workbook.Application.DisplayAlerts = True
+        try:
+            xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
+        finally:
+            xl_workbook.Application.DisplayAlerts = True
 
 
 def _save_excel_as_macro_enabled(xl_wb, new_fname=None):
-- 
2.43.0


From 5548b3851af387531a850f9a4fd40b90fa365363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 19/49] fix: xl-refs encased in delimiter chars could not be
 lassoed

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 18a4017..ffd3c3e 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -477,7 +477,7 @@ def parse_xlref(xlref):
         else:
             if m:
                 res = _parse_xlref(m.group(2))
-                res["xl-ref"] = xlref
+                res["xl_ref"] = xlref
             else:
                 raise ex
 
-- 
2.43.0


From cb1723f4316e5304c78e536069108c05d01a05e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 20/49] fix: `redim` filter converted elements of mixed-type
 rects to strings

---
 pandalone/xleash/_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 904bc6a..7fec604 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -158,7 +158,7 @@ def _redim(values, new_ndim):
     if new_ndim is None:
         return values
 
-    values = np.asarray(values)
+    values = np.asarray(values, dtype=object)  # Preserve mixed element-types.
     try:
         new_ndim, transpose = new_ndim
         if transpose:
-- 
2.43.0


From 9dda1a196e1a7baccb2795852af2ca4412da9ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 21/49] fix: a sheet failing to close when replaced remained
 cached & leaked the new one

---
 pandalone/xleash/io/backend.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 8715e77..292967a 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -183,11 +183,12 @@ class SheetsFactory(SimpleSheetsFactory):
     def _close_sheet(self, key):
         sheet = self._cache_get(key)
         if sheet:
-            sheet._close()
+            # Forget it first, not to serve it again if closing fails.
             for sh_dict in self._cached_sheets.values():
                 for sh_id, sh in list(sh_dict.items()):
                     if sh is sheet:
                         del sh_dict[sh_id]
+            sheet._close()
 
     def close(self):
         """
@@ -222,11 +223,17 @@ class SheetsFactory(SimpleSheetsFactory):
         """
         assert sheet, (sheet, wb_ids, sh_ids)
         keys = self._derive_sheet_keys(sheet, wb_ids, sh_ids)
+        error = None
         for k in keys:
             old_sheet = self._cache_get(k)
             if old_sheet and old_sheet is not sheet:
-                self._close_sheet(k)
+                try:
+                    self._close_sheet(k)
+                except Exception as ex:
+                    error = error or ex
             self._cache_put(k, sheet)
+        if error:
+            raise error
 
     def fetch_sheet(self, wb_id, sheet_id, base_sheet=None):
         """
-- 
2.43.0


From b8ec2ae141b112c7a3d7b1184e9af5e45d2892df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 22/49] fix: relative recursive xl-refs in lists were not based
 on their own cell

---
 pandalone/xleash/_filter.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 7fec604..1359d0e 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -282,18 +282,21 @@ def run_filter_elementwise(
     def upd_base_coords(elval, cdepth, base_coords, i):
         if base_coords and not isinstance(elval, dict):
             row, col = base_coords
-            try:
-                import pandas as pd
-            except ImportError:
+            if isinstance(elval, list):
                 if cdepth == 0:
                     row += i
                 elif cdepth == 1:
-                    col += +i
-            else:
-                if isinstance(elval, pd.DataFrame):
                     col += i
-                elif isinstance(elval, pd.Series):
-                    row += i
+            else:
+                try:
+                    import pandas as pd
+                except ImportError:
+                    pass
+                else:
+                    if isinstance(elval, pd.DataFrame):
+                        col += i
+                    elif isinstance(elval, pd.Series):
+                        row += i
 
             return row, col
 
-- 
2.43.0


From 53caae263f84a753212e51acdd0834fb470ad5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 23/49] fix: errors on resolving single-edge xl-refs were
 masked by a TypeError

Formatting the edges of the error-message concatenated a tuple with a str.
---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 5c3a1df..23d0d33 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -39,7 +39,7 @@ def _build_call_help(name, func, desc):
 def _Lasso_to_edges_str(lasso):
     st = lasso.st_edge if lasso.st_edge else ""
     nd = lasso.nd_edge if lasso.nd_edge else ""
-    s = st if st and not nd else "%s:%s" % (st, nd)
+    s = str(st) if st and not nd else "%s:%s" % (st, nd)
     exp = ":%s" % lasso.exp_moves.upper() if lasso.exp_moves else ""
     return s + exp
 
-- 
2.43.0


From a56dfd8ee25d50cd1b6fc9abec0dd30eeeea4f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 24/49] fix: base-opts given to the default Ranger replaced the
 default opts

They are documented to be merged with them.
---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 23d0d33..bc6ea7d 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -311,7 +311,7 @@ def make_default_Ranger(sheets_factory=None, base_opts=None, available_filters=N
     """
     return Ranger(
         sheets_factory or backend.SheetsFactory(),
-        base_opts or get_default_opts(),
+        get_default_opts(base_opts),
         available_filters,
     )
 
-- 
2.43.0


From b6fbc132c3158303d5dc243877c032e15e54ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 25/49] fix: lax lassos returned the non-Lasso results of
 misbehaving filters

The failure had been suppressed, but its result replaced the lasso anyway.
---
 pandalone/xleash/_lasso.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index bc6ea7d..73ab7fa 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -119,11 +119,11 @@ class Ranger(object):
         try:
             func_rec = self.available_filters[func_name]
             func, func_desc = parse_avail_func_rec(**func_rec)
-            lasso = func(self, lasso, *args, **kwds)
-            assert isinstance(lasso, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
-                func_name,
-                lasso,
-            )
+            res_lasso = func(self, lasso, *args, **kwds)
+            assert isinstance(
+                res_lasso, Lasso
+            ), "Filter(%r) returned not a Lasso(%r)!" % (func_name, res_lasso)
+            lasso = res_lasso
         except Exception as ex:
             if verbose:
                 func_desc = _build_call_help(func_name, func, func_desc)
-- 
2.43.0


From ffea4699466dacef619eb08e556bf3a6a8bc6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:20 +0000
Subject: [PATCH 26/49] fix: submodel sequences could not overwrite mappings or
 scalars, nor be overwritten

Merging a sequence with any other type crashed with TypeError, while they are
documented to just overwrite each other.
---
 pandalone/pandata.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 56e98fb..a7def49 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -880,6 +880,9 @@ class Pandel(object):
     def _clone_and_merge_submodels(self, a, b, path=""):
         """' Recursively merge b into a, cloning both. """
 
+        def is_seq(v):
+            return isinstance(v, cabc.Sequence) and not isinstance(v, str)
+
         if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
             a = pd.DataFrame() if a is None else pd.DataFrame(a)
             b = pd.DataFrame() if b is None else pd.DataFrame(b)
@@ -894,6 +897,17 @@ class Pandel(object):
             # a.update(b) # DOES NOT append extra keys!
             a = b.combine_first(a)
 
+        elif is_seq(a) or is_seq(b):
+            # Sequences do not merge, they just "overwrite".
+            val = a if b is None else b
+            if is_seq(val):
+                a = [
+                    self._clone_and_merge_submodels(item, None, "%s[%i]" % (path, i))
+                    for (i, item) in enumerate(val)
+                ]
+            else:
+                a = self._clone_and_merge_submodels(val, None, path)
+
         elif isinstance(a, cabc.Mapping) or isinstance(b, cabc.Mapping):
             a = {} if a is None else {**a}
             b = {} if b is None else {**b}
@@ -908,21 +922,6 @@ class Pandel(object):
                     val = b_val
                 a[key] = val
 
-        elif (isinstance(a, cabc.Sequence) and not isinstance(a, str)) or (
-            isinstance(b, cabc.Sequence) and not isinstance(b, str)
-        ):
-            if b is not None:
-                val = b
-            else:
-                val = a
-
-            l = list()
-            for (i, item) in enumerate(val):
-                l.append(
-                    self._clone_and_merge_submodels(item, None, "%s[%i]" % (path, i))
-                )
-            a = l
-
         elif a is None and b is None:
             raise ValidationError("Cannot merge Nones at path(%s)!" % path)
 
-- 
2.43.0


From 863d2465c726b14284e2f3b9da20ac0df23e9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:06 +0000
Subject: [PATCH 27/49] fix: xlsutils --pandalone did not find the VBA-modules
 shipped with the package

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 13f6c1d..06e448f 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -271,7 +271,7 @@ def main(*argv):
         if argv[1] == "--pandalone":
             mydir = os.path.dirname(__file__)
             argv = list(argv)
-            argv[1] = os.path.join(mydir, "*.vba")
+            argv[1] = os.path.join(mydir, "excel", "*.vba")
         elif argv[1].startswith("--"):
             exit(
                 "Unknown option(%s)! \n%s"
-- 
2.43.0


From 95783107299bbc4d5cd92939eb6303753066e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:25 +0000
Subject: [PATCH 28/49] fix: errors and interrupts while making lasso's ranger
 were masked by an UnboundLocalError

---
 pandalone/xleash/_lasso.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 73ab7fa..8d16d8d 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -381,12 +381,12 @@ def lasso(
     if base_opts is None:
         base_opts = get_default_opts()
 
+    ranger = make_default_Ranger(
+        sheets_factory=sheets_factory,
+        base_opts=base_opts,
+        available_filters=available_filters,
+    )
     try:
-        ranger = make_default_Ranger(
-            sheets_factory=sheets_factory,
-            base_opts=base_opts,
-            available_filters=available_filters,
-        )
         lasso = ranger.do_lasso(xlref, **context_kwds)
     finally:
         if factory_is_mine:
-- 
2.43.0


From 36cf7f05a276126cba66626ea87bf0b919aaea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:24 +0000
Subject: [PATCH 29/49] fix: keep renamings and assignments of psteps with
 empty names (falsy strings)

---
 pandalone/mappings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 1b2b2ac..6d0ef27 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1056,7 +1056,7 @@ class Pstep(str):
         attrs = None
         if pname is None:
             pname = ""
-        if maps:
+        if maps or isinstance(maps, Pstep):  # Psteps are strings, maybe empty.
             if isinstance(maps, (list, tuple, Pmod)):
                 if isinstance(maps, (list, tuple)):
                     maps = pmods_from_tuples(maps)
@@ -1098,7 +1098,9 @@ class Pstep(str):
                         pmod._alias = alias
                     else:
                         self._pmod = Pmod(_alias=alias)
-        csteps[ckey] = child = Pstep(ckey, existing_cstep or self._pmod, alias)
+        if existing_cstep is None:
+            existing_cstep = self._pmod
+        csteps[ckey] = child = Pstep(ckey, existing_cstep, alias)
 
         return child
 
@@ -1109,8 +1111,8 @@ class Pstep(str):
             if attr.startswith("_") or attr in _forbidden_pstep_attrs:
                 raise
             csteps = self._csteps
-            child = csteps and csteps.get(attr, None)
-            return child or self.__make_cstep(attr)
+            child = csteps.get(attr, None) if csteps else None
+            return self.__make_cstep(attr) if child is None else child
 
     def __setattr__(self, attr, value):
         if attr.startswith("_"):
-- 
2.43.0


From 26466ec8af2b4d4a920804d72ef724ce76a72e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:58 +0000
Subject: [PATCH 30/49] fix: element-wise filters failing midway left
 half-filtered values under lax

The values were modified in-place while diving, so a tolerated
failure (lax) yielded neither the original nor the filtered values.
---
 pandalone/xleash/_filter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 1359d0e..74b26b5 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -15,6 +15,7 @@ Prefer accessing the public members from the parent module.
 
 
 from collections import namedtuple, OrderedDict
+from copy import copy
 import logging
 
 
@@ -325,7 +326,9 @@ def run_filter_elementwise(
     def dive_list(elval, cdepth, base_coords):
         proced, elval = call_element_func(elval, cdepth, base_coords)
         if not proced and isinstance(elval, list):
-            for i, v in enumerate(elval):
+            items = enumerate(elval)
+            elval = copy(elval)  # Original values survive any failure (lax).
+            for i, v in items:
                 nbc = upd_base_coords(elval, cdepth, base_coords, i)
                 elval[i] = dive_indexed(v, cdepth + 1, nbc)
 
@@ -339,6 +342,7 @@ def run_filter_elementwise(
             except:
                 pass  # Just to avoid chained ex.
             else:
+                elval = copy(elval)  # Original values survive any failure (lax).
                 for i, (k, v) in enumerate(items):
                     # Dict is not ordered, so cannot locate `base_coords`!
                     if is_included(elval, k, cdepth):
-- 
2.43.0


From d52d95db67534628157e5ee1a6d246982134476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:08 +0000
Subject: [PATCH 31/49] fix: py & pyeval filters swallowed interrupts hitting
 their expressions

---
 pandalone/xleash/_filter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 74b26b5..1d5d804 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -414,6 +414,14 @@ def _asteval_interpreter(symtable, *args, **kwds):
     return interp
 
 
+def _raise_any_interrupt(aeval):
+    """Re-raise any interrupt (eg Ctrl+C) that hit the expression, swallowed by *asteval*."""
+    for err in aeval.error:
+        ex = err.exc_info[1]
+        if isinstance(ex, BaseException) and not isinstance(ex, Exception):
+            raise ex
+
+
 def _pyeval_element_func(ranger, lasso, context, elval, eval_all):
     proced = False
     if isinstance(elval, str):
@@ -424,6 +432,7 @@ def _pyeval_element_func(ranger, lasso, context, elval, eval_all):
         symtable.update({"xleash": xleash})
         aeval = _asteval_interpreter(symtable, writer=ast_log_writer)
         res = aeval.eval(expr)
+        _raise_any_interrupt(aeval)
         if aeval.error:
             error = aeval.error[0].get_error()
             if eval_all:
@@ -530,6 +539,7 @@ def py_filter(ranger, lasso, expr):
     symtable.update({"xleash": xleash})
     aeval = _asteval_interpreter(symtable, writer=ast_log_writer)
     res = aeval.eval(expr)
+    _raise_any_interrupt(aeval)
     if aeval.error:
         error = aeval.error[0].get_error()
         msg = "%i errors while py-evaluating %r: %s: %s"
-- 
2.43.0


From b46cbb47c1749dc4737daf262707fd2776eecc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:41 +0000
Subject: [PATCH 32/49] fix: interrupts while closing sheets left the rest open

Either the remaining sheets of a factory being closed,
or the new sheet replacing those evicted from its cache.
---
 pandalone/xleash/io/backend.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 292967a..5c60f96 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -115,6 +115,15 @@ class SimpleSheetsFactory(object):
         return sheet
 
 
+def _prevailing_error(error, new_error):
+    """The 1st error (if any), unless an interrupt (eg Ctrl+C) happened."""
+    if error is None or (
+        isinstance(error, Exception) and not isinstance(new_error, Exception)
+    ):
+        return new_error
+    return error
+
+
 class SheetsFactory(SimpleSheetsFactory):
     """
     A caching-store of :class:`ABCSheet` instances, serving them based on (workbook, sheet) IDs, optionally creating them from backends.
@@ -195,7 +204,7 @@ class SheetsFactory(SimpleSheetsFactory):
         Closes all contained sheets and empties cache.
 
         Any sheet failing to close does not prevent the rest from closing;
-        the 1st error is raised in the end.
+        the 1st error (or interrupt) is raised in the end.
         """
         sheets = {
             id(sh): sh
@@ -207,9 +216,9 @@ class SheetsFactory(SimpleSheetsFactory):
         for sh in sheets.values():
             try:
                 sh._close_all()
-            except Exception as ex:
-                error = error or ex
-        if error:
+            except BaseException as ex:
+                error = _prevailing_error(error, ex)
+        if error is not None:
             raise error
 
     def add_sheet(self, sheet, wb_ids=None, sh_ids=None):
@@ -229,10 +238,10 @@ class SheetsFactory(SimpleSheetsFactory):
             if old_sheet and old_sheet is not sheet:
                 try:
                     self._close_sheet(k)
-                except Exception as ex:
-                    error = error or ex
+                except BaseException as ex:
+                    error = _prevailing_error(error, ex)
             self._cache_put(k, sheet)
-        if error:
+        if error is not None:
             raise error
 
     def fetch_sheet(self, wb_id, sheet_id, base_sheet=None):
-- 
2.43.0


From 04630c1f81f7170019d94608f1c982de272d42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:27 +0000
Subject: [PATCH 33/49] fix: setting the empty json-pointer raised
 UnboundLocalError, not the documented RefResolutionError

---
 pandalone/pandata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index a7def49..5ce4c55 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1269,6 +1269,8 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
     """
 
     parts = list(iter_jsonpointer_parts(jsonpointer))
+    if not parts:
+        raise RefResolutionError("Cannot set the empty JSON pointer!")
 
     # Will scream if used on 1st iteration.
     #
-- 
2.43.0


From 11e603cbe863475dfd22575aed334ce539befee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:46 +0000
Subject: [PATCH 34/49] fix: setting a json-pointer appended to sequences on
 negative out-of-bounds indexes

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 5ce4c55..92153c1 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1292,7 +1292,7 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
                         % (part, jsonpointer, i)
                     )
                 else:
-                    if part > doclen:
+                    if not -doclen <= part <= doclen:
                         raise RefResolutionError(
                             "Index(%s) out of bounds(%i) of (%r)[%i]"
                             % (part, doclen, jsonpointer, i)
-- 
2.43.0


From ce4f82f600b4a317e2b60667a8ce0d54b848a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:11 +0000
Subject: [PATCH 35/49] fix: failing to set a json-pointer left a half-built
 branch in the document

---
 pandalone/pandata.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 92153c1..2094526 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1272,8 +1272,6 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
     if not parts:
         raise RefResolutionError("Cannot set the empty JSON pointer!")
 
-    # Will scream if used on 1st iteration.
-    #
     pdoc = None
     ppart = None
     for i, part in enumerate(parts):
@@ -1302,9 +1300,13 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
         except (LookupError):
             break  # Branch-extension needed.
         except (TypeError):  # Maybe indexing a string...
-            ndoc = object_factory()
-            pdoc[ppart] = ndoc
-            doc = ndoc
+            if i == 0:
+                raise RefResolutionError(
+                    "Cannot set JSON pointer(%r) on a %s document!"
+                    % (jsonpointer, type(doc).__name__)
+                )
+            # Replace it, along with the new-branch.
+            doc, part, i = pdoc, ppart, i - 1
             break  # Branch-extension needed.
 
         doc, pdoc, ppart = ndoc, doc, part
-- 
2.43.0


From d2293a89392fc36aa39d2d00895bbf220c513cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:40 +0000
Subject: [PATCH 36/49] fix: absolute paths resolved elsewhere than in a given
 falsy/ambiguous root, or with empty-str items

---
 pandalone/pandata.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 2094526..1b2e067 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1232,9 +1232,17 @@ def resolve_path(doc, path, default=_scream, root=None):
     :author: Julian Berman, ankostis
     """
 
+    if root is None:
+        root = doc
+    parts = iter_jsonpointer_parts_relaxed(path)
+    if path.startswith("/"):
+        # Absolute, even if document contains an "empty-str" item.
+        next(parts)
+        doc = root
+
     def resolve_root(d, p):
         if not p:
-            return root or doc
+            return root
         raise ValueError()
 
     part_resolvers = [
@@ -1243,7 +1251,7 @@ def resolve_path(doc, path, default=_scream, root=None):
         lambda d, p: getattr(d, p),
         resolve_root,
     ]
-    for part in iter_jsonpointer_parts_relaxed(path):
+    for part in parts:
         start_i = 0 if isinstance(doc, cabc.Sequence) else 1
         for resolver in part_resolvers[start_i:]:
             try:
-- 
2.43.0


From c3ebde8118c1c4f6bc73afadc1aa1dd9a1d0d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:04 +0000
Subject: [PATCH 37/49] fix: path2url() expands the user's home

The path had already become absolute, hence never started with tilde.
---
 pandalone/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index e1a6680..176ceb3 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -219,6 +219,9 @@ def path2url(path, expandvars=False, expanduser=False):
         # UNLESS it start with drive-letter (not to assume it as schema).
         #
         path = path.replace("\\", "/")
+        if expanduser:
+            # Expand while still relative (no remote URL starts with tilde).
+            path = osp.expanduser(path).replace("\\", "/")
         m = _file_drive_regex.match(path)
         if m:
             # A pesky Drive-relative path...assume it absolute!
@@ -233,13 +236,8 @@ def path2url(path, expandvars=False, expanduser=False):
             baseurl = up.urljoin("file:", cwd)
             path = up.urljoin(baseurl, path)
 
-        # Expand vars, conditionally on remote or local URL.
-        #
         parts = up.urlsplit(path)
-        p = parts.path
-        if parts.scheme == "file" and expanduser:
-            p = osp.expanduser(p)
-        p = normpath(p).replace("\\", "/")
+        p = normpath(parts.path).replace("\\", "/")
         path = up.urlunsplit(parts._replace(path=p))
 
     return path
-- 
2.43.0


From ab018dfb9b2c6cdc3610cacffb3b68b7fd07f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:50 +0000
Subject: [PATCH 38/49] fix: convpath() expands variables right before UNC
 shares

The mask of the share became part of the name of the variable.
---
 pandalone/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 176ceb3..0f9e7af 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -155,10 +155,11 @@ def convpath(fpath, abs_path=True, exp_user=True, exp_vars=True):
     if exp_user:
         fpath = osp.expanduser(fpath)
     if exp_vars:
-        # Mask UNC '\\server\share$\path` from expansion.
-        fpath = fpath.replace("$\\", "_UNC_PATH_HERE_")
+        # Mask UNC '\\server\share$\path` from expansion,
+        # with a char that cannot extend the name of a variable just before it.
+        fpath = fpath.replace("$\\", "\0")
         fpath = osp.expandvars(fpath)
-        fpath = fpath.replace("_UNC_PATH_HERE_", "$\\")
+        fpath = fpath.replace("\0", "$\\")
     fpath = abspath(fpath) if abs_path else normpath(fpath)
     return fpath
 
-- 
2.43.0


From 7c3a219bb1792f1075adf5ec181e60d5344d4c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:33 +0000
Subject: [PATCH 39/49] fix: bumpver strips only whole common parts of versions
 in messages

Bumping eg 10-->12 was committed as "bump 10-->2".
---
 bin/bumpver.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bin/bumpver.py b/bin/bumpver.py
index 9d343ae..7c02fc6 100755
--- a/bin/bumpver.py
+++ b/bin/bumpver.py
@@ -84,11 +84,7 @@ def format_syscmd(cmd):
 def strip_ver2_commonprefix(ver1, ver2):
     cprefix = osp.commonprefix([ver1, ver2])
     if cprefix:
-        striplen = cprefix.rfind(".")
-        if striplen > 0:
-            striplen += 1
-        else:
-            striplen = len(cprefix)
+        striplen = cprefix.rfind(".") + 1
         ver2 = ver2[striplen:]
 
     return ver2
-- 
2.43.0


From 3baaf4de1473590c69958584afda3521afd467d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 40/49] fix: save macro-enabled workbooks also when given an
 empty new filename

The empty name is treated as missing by the caller, but then nothing got saved.
---
 pandalone/xlsutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 06e448f..a667a3c 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -171,10 +171,10 @@ def _save_workbook(xl_workbook, path):
     xlOpenXMLWorkbookMacroEnabled = 52
 
     saved_path = xl_workbook.Path
-    if (saved_path != "") and (path is None):
+    if saved_path != "" and not path:
         # Previously saved: Save under existing name
         xl_workbook.Save()
-    elif (saved_path == "") and (path is None):
+    elif saved_path == "" and not path:
         # Previously unsaved: Save under current name in current working
         # directory
         path = os.path.join(os.getcwd(), xl_workbook.Name)
-- 
2.43.0


From 9a01d125ed197dedeef3bbe9f94587f26bb0dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:29 +0000
Subject: [PATCH 41/49] fix: obey auto-default flags in schemas when all
 respective PandelVisitor params are off

---
 pandalone/pandata.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 1b2e067..4055334 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -447,15 +447,17 @@ def PandelVisitor(
     validator = jsonschema.validators.validator_for(schema)
     props_rule = validator.VALIDATORS["properties"]
 
-    rules = {"additionalProperties": _rule_additionalProperties}
-    if any((auto_default, auto_default_nulls, auto_remove_nulls)):
-        rules["properties"] = fnt.partial(
+    rules = {
+        "additionalProperties": _rule_additionalProperties,
+        # Always, since schemas may enable those flags on their own.
+        "properties": fnt.partial(
             _rule_auto_defaults_properties,
             original_props_rule=props_rule,
             auto_default=auto_default,
             auto_default_nulls=auto_default_nulls,
             auto_remove_nulls=auto_remove_nulls,
-        )
+        ),
+    }
     if "propertyNames" in validator.VALIDATORS:
         rules["propertyNames"] = _rule_propertyNames
     if hasattr(jsonschema._utils, "unbool"):
-- 
2.43.0


From 225c837386f5add5be67caed0a0ecbb23300043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:42 +0000
Subject: [PATCH 42/49] fix: Pandel.get() returns the item resolved

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 4055334..5ee433d 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1046,7 +1046,7 @@ class Pandel(object):
         return self.model
 
     def get(self, path, **kws):
-        resolve_jsonpointer(self.model, path, **kws)
+        return resolve_jsonpointer(self.model, path, **kws)
 
 
 def escape_jsonpointer_part(part):
-- 
2.43.0


From 21416a56dfdf09d2981a5a2b5d2fd5ed13c378c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:18 +0000
Subject: [PATCH 43/49] fix: psteps cloned on assignment do not share their
 schema with the original

---
 pandalone/mappings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 6d0ef27..ee50cc0 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -883,6 +883,9 @@ def _clone_attrs(obj):
     ctags = attrs["_tags"]
     if ctags:
         attrs["_tags"] = attrs["_tags"].copy()
+    schema = attrs.get("_schema")
+    if schema is not None:
+        attrs["_schema"] = copy(schema)
     return attrs
 
 
-- 
2.43.0


From 6cc59222a8344c557d547479fcfb3ff9a2068c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:21 +0000
Subject: [PATCH 44/49] fix: py_where() locates programs with the .com
 extension

The extension lacked its dot, so "tool" located files called "toolcom" instead.
---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 0f9e7af..70beca4 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -352,7 +352,7 @@ def ensure_dir_exists(path, mode=0o755):
 
 def py_where(program, path=None):
     # From: http://stackoverflow.com/a/377028/548792
-    winprog_exts = (".bat", "com", ".exe")
+    winprog_exts = (".bat", ".com", ".exe")
 
     def is_exec(fpath):
         return (
-- 
2.43.0


From 35a7b48e236a69b43cede3aa3149df905bb376ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:35 +0000
Subject: [PATCH 45/49] fix: where() swallowed interrupts while asking the
 locator of the system

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 70beca4..349429e 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -382,7 +382,7 @@ def where(program):
         return res and [s.strip() for s in res.split("\n") if s.strip()]
     except subprocess.CalledProcessError:
         return []
-    except:
+    except Exception:
         return py_where(program)
 
 
-- 
2.43.0


From 0918870994ebde1ff583e050781f7700be3fef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:57 +0000
Subject: [PATCH 46/49] fix: redim filter failed dropping some trivial
 dimensions of deep values

Axes were squeezed one-by-one using their original indices, although removing
an axis shifts those after it; eg. shape (1, 1, 3, 1) could not become 2D.
---
 pandalone/xleash/_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 1d5d804..9a08ae1 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -113,8 +113,8 @@ def _downdim(values, new_ndim):
     elif offset == trivial_ndims:
         values = values.squeeze()
     else:
-        for _, indx in zip(range(offset), trivial_indxs):
-            values = values.squeeze(indx)
+        # All at once, since removing an axis shifts those after it.
+        values = values.squeeze(tuple(trivial_indxs[:offset]))
 
     return values
 
-- 
2.43.0


From 430f035f669f4c7856d9cdf08535f6c87f18dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:03 +0000
Subject: [PATCH 47/49] fix: plain NaN floats were not nulls

Identity never holds for `float("nan")`, so only the very `np.nan` object was
recognized as a null when adding defaults or removing nulls.
---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 5ee433d..3198933 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -172,7 +172,7 @@ def _is_integer(checker, instance):
 
 
 def _is_null(checker, instance):
-    if instance is None or instance is float("nan") or instance is np.nan:
+    if instance is None or isinstance(instance, float) and np.isnan(instance):
         return True
 
     ## Handle np.arrays's future "bool" behavior.
-- 
2.43.0


From 3c500bb8f3a661c0f8dd57079531c25029965c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:49 +0000
Subject: [PATCH 48/49] fix: expansions with a zero in their multiplicity were
 not valid syntax

Eg. `#A1:B2:R10` screamed, although any multiplicity may be given.
---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index ffd3c3e..d628e96 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -179,7 +179,7 @@ _regular_xlref_regex = re.compile(
             )?
         )?
         (?:
-            :(?P<exp_moves>[LURD?123456789]+)                # expansion moves
+            :(?P<exp_moves>(?:[LURD?]|[1-9]\d*(?!\d))+)      # expansion moves
         )?
     )?
     (?:
-- 
2.43.0


From 98e312f63bbc1dd783fc77bdc916064e8b6a4fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:43 +0000
Subject: [PATCH 49/49] fix: judging single-celled DataFrames for nulls

The validation of any DataFrame with a single cell failed with
'truth value of a Series is ambiguous' when nulls were considered.
---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 3198933..cd661e0 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -179,7 +179,7 @@ def _is_null(checker, instance):
     #  see https://github.com/numpy/numpy/issues/9583
     #
     try:
-        return instance.size == 1 and np.isnan(instance).all()
+        return instance.size == 1 and bool(np.isnan(np.asarray(instance)).all())
     except Exception:
         pass
 
-- 
2.43.0

