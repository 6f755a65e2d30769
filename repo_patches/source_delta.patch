From 20c218088ee176ae54f2cecf6d360cef1a6c2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 1/8] fix: interp_hybrid_to_pressure with in-memory data and
 chunked pressure inputs

data.chunks is None for in-memory data, so building the output chunks
failed with TypeError whenever only ps, hyam or hybm were dask arrays.
Chunk data like the pressure in that case.
---
 geocat/comp/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a840b63..b412d9a 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -701,6 +701,10 @@ def interp_hybrid_to_pressure(
     if in_dask and output is None:
         from dask.array.core import map_blocks
 
+        # data can be in memory while the pressure inputs are chunked
+        if data.chunks is None:
+            data = data.chunk(pressure.chunksizes)
+
         # Chunk pressure equal to data's chunks
         pressure = pressure.chunk(data.chunksizes)
 
-- 
2.43.0


From e89ab7d993a42131e12db388fb40577d28fb4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 2/8] fix: pearson_r with dask inputs split along the reduced
 dimensions

xskillscore rejects several chunks along a reduced dimension with a
ValueError, which pearson_r took for a weights mismatch and turned into
None. Merge the chunks along these dimensions first.
---
 geocat/comp/stats.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 3b9f484..930e658 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -151,6 +151,17 @@ def nmse(
     return metric
 
 
+def _merge_chunks(x, dim):
+    """Merge the chunks of a dask-backed ``x`` along ``dim`` (default: all)."""
+    if not isinstance(x, (xr.DataArray, xr.Dataset)) or not x.chunks:
+        return x
+    if dim is None:
+        dim = x.dims
+    elif isinstance(dim, str):
+        dim = [dim]
+    return x.chunk({d: -1 for d in dim if d in x.dims})
+
+
 def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis=None):
     """This function wraps the function of the same name from `xskillscore <htt
     ps://xskillscore.readthedocs.io/en/stable/api/xskillscore.pearson_r.html#xs
@@ -201,6 +212,8 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
     else:  # if a and b are xr.DataArrays
         if (dim is not None) and (axis is not None):
             warnings.warn("The `axis` keyword is unused with xarray.DataArray inputs")
+        # the dimensions being reduced must not be split into several chunks
+        a, b, weights = (_merge_chunks(x, dim) for x in (a, b, weights))
         try:
             return xs.pearson_r(a, b, dim, weights, skipna, keep_attrs)
         except ValueError:
-- 
2.43.0


From 15fd712a81bef4799899c4b06cb9ecd3fec408eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 3/8] fix: pearson_r returned None instead of raising on any
 ValueError

Every ValueError, also one raised while reading the data, was replaced
by a printed guess about the weights and a None result. Let it propagate.
---
 geocat/comp/stats.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 930e658..032ceb6 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -205,19 +205,13 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
             b = np.ravel(b)
             if weights is not None:
                 weights = np.ravel(weights)
-        try:
-            return xs_internal._pearson_r(a, b, weights, axis, skipna)
-        except ValueError:
-            print('Data along `axis` must have the same dimension as `weights`')
+        return xs_internal._pearson_r(a, b, weights, axis, skipna)
     else:  # if a and b are xr.DataArrays
         if (dim is not None) and (axis is not None):
             warnings.warn("The `axis` keyword is unused with xarray.DataArray inputs")
         # the dimensions being reduced must not be split into several chunks
         a, b, weights = (_merge_chunks(x, dim) for x in (a, b, weights))
-        try:
-            return xs.pearson_r(a, b, dim, weights, skipna, keep_attrs)
-        except ValueError:
-            print('Data along `dim` must have the same dimension as `weights`')
+        return xs.pearson_r(a, b, dim, weights, skipna, keep_attrs)
 
 
 def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
-- 
2.43.0


From 09555c835131cb61c4e3cec0ab6ceec97561c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:58 +0000
Subject: [PATCH 4/8] fix: warning filters leaked by overlapping vertical
 interpolations

warnings.catch_warnings is not thread-safe: when two interpolations
overlap (dask's threaded scheduler, caller threads), one restores the
filters under the other, so that the suppressed warning escapes, or
leaves the ignore filter behind for the rest of the process. Let
overlapping calls share one catch_warnings.
---
 geocat/comp/interpolation.py | 50 +++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index b412d9a..efe41fc 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import threading
 import typing
 import warnings
 
@@ -160,13 +161,54 @@ def _sigma_from_hybrid(psfc, hya, hyb, p0=100000.0):
     return hya * p0 / psfc + hyb
 
 
+class _IgnoreOutOfBounds:
+    """Ignore metpy's out of data bounds warning while interpolating.
+
+    Warning filters are process-wide, so calls that overlap in several threads
+    (e.g. dask's) must share one :class:`warnings.catch_warnings`: the first
+    one in installs the filter and the last one out restores the filters.
+    Otherwise they could restore them under each other or in the wrong order.
+    """
+
+    def __init__(self):
+        self._lock = threading.Lock()
+        self._users = 0
+        self._catcher = None
+
+    def __enter__(self):
+        with self._lock:
+            self._users += 1
+            try:
+                if self._users == 1:
+                    catcher = warnings.catch_warnings()
+                    catcher.__enter__()
+                    self._catcher = catcher
+                    warnings.filterwarnings(
+                        "ignore",
+                        r"Interpolation point out of data bounds encountered",
+                    )
+            except BaseException:
+                self._leave()
+                raise
+
+    def __exit__(self, *exc_info):
+        with self._lock:
+            self._leave()
+
+    def _leave(self):
+        self._users -= 1
+        if self._users == 0 and self._catcher is not None:
+            catcher, self._catcher = self._catcher, None
+            catcher.__exit__(None, None, None)
+
+
+_ignore_out_of_bounds = _IgnoreOutOfBounds()
+
+
 def _vertical_remap(func_interpolate, new_levels, xcoords, data, interp_axis=0):
     """Execute the defined interpolation function on data."""
 
-    with warnings.catch_warnings():
-        warnings.filterwarnings(
-            "ignore", r"Interpolation point out of data bounds encountered"
-        )
+    with _ignore_out_of_bounds:
         return func_interpolate(new_levels, xcoords, data, axis=interp_axis)
 
 
-- 
2.43.0


From 51917663276f3a208e242cedcfefac95ad6c38de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 5/8] fix: eofunc_eofs with meta=True wrote its results into
 the input's attributes

---
 geocat/comp/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 032ceb6..729903a 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -392,7 +392,7 @@ def eofunc_eofs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     attrs['eigenvalues'] = solver.eigenvalues(neigs=neofs)
     attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)
-- 
2.43.0


From 1a5dbf5c4d5331dcbfba2b62805b8d042695ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 6/8] fix: variable found among several candidates depended on
 the hash seed

---
 geocat/comp/gc_util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index 2b9c55f..7ee6a6f 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -117,16 +117,17 @@ def _find_var(
 
     # Then try direct name match
     if possible_names:
-        possible_names_expanded = set()
+        # ordered, so that the same variable is found in every process
+        possible_names_expanded = []
         for name in possible_names:
-            possible_names_expanded.update(
-                {
+            possible_names_expanded.extend(
+                [
                     name,
                     name.lower(),
                     name.upper(),
                     name.capitalize(),
                     '_'.join(word.capitalize() for word in name.split('_')),
-                }
+                ]
             )
 
         for name in possible_names_expanded:
-- 
2.43.0


From 210d074182cbb2b0e42597e866a4d8aaffbe471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:58 +0000
Subject: [PATCH 7/8] fix: heat_index, relhum_ice and relhum_water replaced any
 error of the conversion by an unrelated TypeError

---
 geocat/comp/meteorology.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index eea45c9..5d16dbc 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -388,7 +388,7 @@ def heat_index(
         try:
             temperature = np.asarray(temperature)
             relative_humidity = np.asarray(relative_humidity)
-        except [ValueError, TypeError] as e:
+        except (ValueError, TypeError) as e:
             raise TypeError(f"heat_index: cannot convert input to numpy array, {e}")
 
     # ensure all inputs same size
@@ -659,7 +659,7 @@ def relhum_ice(
             temperature = np.asarray(temperature)
             mixing_ratio = np.asarray(mixing_ratio)
             pressure = np.asarray(pressure)
-        except [ValueError, TypeError] as e:
+        except (ValueError, TypeError) as e:
             raise TypeError(f"relhum_ice: cannot convert input to numpy array, {e}")
 
     # If xarray input, pull data and store metadata
@@ -757,7 +757,7 @@ def relhum_water(
             temperature = np.asarray(temperature)
             mixing_ratio = np.asarray(mixing_ratio)
             pressure = np.asarray(pressure)
-        except [ValueError, TypeError] as e:
+        except (ValueError, TypeError) as e:
             raise TypeError(f"relhum_water: cannot convert input to numpy array, {e}")
 
     # If xarray input, pull data and store metadata
-- 
2.43.0


From 61a113f1be10c4f1ab2b9bffe2497c9098982584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:46 +0000
Subject: [PATCH 8/8] fix: a process forked while another thread interpolated
 vertically hung in its own interpolations

---
 geocat/comp/interpolation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index efe41fc..b73e2ab 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import os
 import threading
 import typing
 import warnings
@@ -201,9 +202,19 @@ class _IgnoreOutOfBounds:
             catcher, self._catcher = self._catcher, None
             catcher.__exit__(None, None, None)
 
+    def _after_fork_in_child(self):
+        """The threads that were interpolating do not exist in the child."""
+        self._lock = threading.Lock()
+        self._users = 1
+        self._leave()
+
 
 _ignore_out_of_bounds = _IgnoreOutOfBounds()
 
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(
+        after_in_child=_ignore_out_of_bounds._after_fork_in_child)
+
 
 def _vertical_remap(func_interpolate, new_levels, xcoords, data, interp_axis=0):
     """Execute the defined interpolation function on data."""
-- 
2.43.0

