From de522edb33ef10431d093470150f33f91859a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 1/4] fix: build the omitted-control sentinel as float so
 integer inputs keep NaN

np.full_like(broad_to, nan) inherits the dtype of broad_to; for an integer
A or Z the NaN marker became INT_MIN and was used as a real control.
---
 src/kalmankit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/utils.py b/src/kalmankit/utils.py
index f386b5b..e9c1839 100644
--- a/src/kalmankit/utils.py
+++ b/src/kalmankit/utils.py
@@ -30,7 +30,7 @@ def check_none_and_broadcast(
         Array with np.nan values or original array if is not None.
     """
     if arr is None:
-        arr = np.full_like(broad_to, np.nan)
+        arr = np.full_like(broad_to, np.nan, dtype=float)
 
     return arr
 
-- 
2.43.0


From 81c239cf1864407caf2ac07fe5b82a8f85d9372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 2/4] fix: let KalmanFilter.predict take None for Bk or uk as
 documented

np.isnan(None) raised TypeError although the docstring says both can be
set to None to ignore the control part.
---
 src/kalmankit/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index c930a92..328ea6a 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -176,7 +176,7 @@ class KalmanFilter:
             Prior value of state covariance.
         """
         # project state ahead
-        if is_nan_all(Bk) or is_nan_all(uk):
+        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):
             xk_prior = Ak @ xk
         else:
             xk_prior = Ak @ xk + Bk @ uk
-- 
2.43.0


From 4473b547b0b724f80a87d3491ffbb162d69b384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 3/4] fix: fall through when a git command fails during version
 discovery

rev-list and show can fail (damaged or partial clone) after describe has
succeeded; the None output was dereferenced and importing kalmankit died
with AttributeError instead of using the next version source.
---
 src/kalmankit/_version.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index f60db0f..c03c35a 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -404,12 +404,15 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[
-        0
-    ].strip()
+    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
+    date = date.strip()
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
-- 
2.43.0


From 93a0eeedab8df6b16e3a831fd64ca7258fd1b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 4/4] fix: version lookup failed on git output that is not
 UTF-8

A branch or tag name stored in another encoding made run_command raise
UnicodeDecodeError, and with it the import of the package.
---
 src/kalmankit/_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index c03c35a..fe4bd6d 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -121,7 +121,7 @@ def run_command(
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None, None
-    stdout = process.communicate()[0].strip().decode()
+    stdout = process.communicate()[0].strip().decode(errors="replace")
     if process.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
-- 
2.43.0

