From b2e4021a6af5033e04176090b37a8a58735a04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 1/6] fix: deseason() no longer rewrites the metadata of the
 array passed by the caller

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 779af5d..b869c17 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -742,7 +742,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
     assert isinstance(arr, xr.DataArray), "Input must be an xarray DataArray"
 
     # store array attributes for reassignment at the end
-    attrs = arr.attrs
+    attrs = dict(arr.attrs)
 
     # check that the specified time dimension exists
     core_dims = list(arr.dims)
-- 
2.43.0


From 81eddb509756f462a565d5b277ae5f92dc8b2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 2/6] fix: time averages keep the variable order of the input
 instead of a hash-seed dependent one

---
 src/momlevel/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 1b56c6a..35d8cd2 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -70,7 +70,7 @@ def annual_average(xobj, tcoord="time"):
     dim_coords = set(xobj.dims).union(set(xobj.coords))
 
     if isinstance(xobj, xr.core.dataset.Dataset):
-        variables = set(xobj.variables) - dim_coords
+        variables = [var for var in xobj.variables if var not in dim_coords]
         _xobj = xr.Dataset()
         for var in variables:
             if xobj[var].dtype not in ["object", "timedelta64[ns]"]:
@@ -149,7 +149,7 @@ def annual_cycle(xobj, tcoord="time", func="mean", time_axis_year=None):
     dim_coords = set(xobj.dims).union(set(xobj.coords))
 
     if isinstance(xobj, xr.core.dataset.Dataset):
-        variables = set(xobj.variables) - dim_coords
+        variables = [var for var in xobj.variables if var not in dim_coords]
         _xobj = xr.Dataset()
         for var in variables:
             if xobj[var].dtype not in ["object", "timedelta64[ns]"]:
@@ -474,7 +474,7 @@ def monthly_average(xobj, tcoord="time"):
     dim_coords = set(xobj.dims).union(set(xobj.coords))
 
     if isinstance(xobj, xr.core.dataset.Dataset):
-        variables = set(xobj.variables) - dim_coords
+        variables = [var for var in xobj.variables if var not in dim_coords]
         _xobj = xr.Dataset()
         for var in variables:
             if xobj[var].dtype not in ["object", "timedelta64[ns]"]:
-- 
2.43.0


From a7f0696952230f5661df1125db91f905cc1d4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 3/6] fix: report missing variables in a stable order instead
 of a hash-seed dependent one

---
 src/momlevel/derived.py | 2 +-
 src/momlevel/util.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 67b61b9..324b712 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -222,7 +222,7 @@ def calc_rel_vort(dset, varname_map=None, coord_dict=None, symmetric=False):
     # check that dataset contains u and v fields
     required = set(varname_map.values())
     varnames = set(dset.variables)
-    missing = list(required - varnames)
+    missing = sorted(required - varnames)
     if len(missing) > 0:
         raise ValueError(f"Input dataset missing fields: {missing}")
 
diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 35d8cd2..2feb1a4 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -751,7 +751,7 @@ def validate_dataset(dset, reference=False, strict=True, additional_vars=None):
         expected_varlist + reference_varlist if reference else expected_varlist
     )
 
-    missing = list(set(expected_varlist) - set(dset_varlist))
+    missing = sorted(set(expected_varlist) - set(dset_varlist))
 
     try:
         assert len(missing) == 0, f"Reference dataset is missing variables: {missing}"
-- 
2.43.0


From bcf017e567a193c4dfcaa0339db391afe034b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 4/6] fix: deseason() coefficient mode accepts a single time
 series

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index b869c17..f43c10e 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -597,7 +597,7 @@ def _detrend_deseason_chunk(chunk, axis=-1, daysinyear=365, output_format="resid
     if output_format == "coeff":
         # Reshape the chunk to 2D: (spatial_points, time)
         original_shape = chunk.shape
-        n_spatial_points = np.prod(original_shape[:-1])
+        n_spatial_points = int(np.prod(original_shape[:-1]))
         chunk_2d = chunk.reshape(n_spatial_points, original_shape[-1])
 
         # Apply the function to each spatial point
-- 
2.43.0


From 3963cccd036017be47d77e1dbc5f514b45ca3e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:46 +0000
Subject: [PATCH 5/6] fix: density, expansion coefficients, spiciness and N2
 adjustment no longer wipe the coordinate metadata of their inputs

xr.apply_ufunc and xr.where drop coordinate attributes in place, on the
variables shared with the caller's objects, unless attributes are kept.
---
 src/momlevel/derived.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 324b712..58b8d2d 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -51,6 +51,9 @@ def adjust_negative_n2(n2, zcoord="z_l"):
        Adjusted Brunt-Väisälä frequency, or buoyancy frequency, in s-2
     """
 
+    # work on a shallow copy; xr.where drops coordinate attributes in place
+    n2 = n2.copy(deep=False)
+
     # save original data mask and attributes
     mask = xr.where(n2.isnull(), np.nan, 1.0)
     attrs = n2.attrs
@@ -104,6 +107,7 @@ def calc_alpha(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     alpha.attrs = {
@@ -148,6 +152,7 @@ def calc_beta(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     beta.attrs = {
@@ -627,6 +632,7 @@ def calc_rho(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     rho.attrs = {
@@ -700,6 +706,7 @@ def calc_spice(thetao, so):
         thetao,
         so,
         dask="allowed",
+        keep_attrs=True,
     )
 
     pi.attrs = {
-- 
2.43.0


From ed53439f867ec4d4cf18ee32707364f7be0bb196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:46 +0000
Subject: [PATCH 6/6] fix: steric() no longer wipes the coordinate metadata of
 the reference state passed by the caller

---
 src/momlevel/steric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index abe23cb..bc80e93 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -148,8 +148,8 @@ def steric(
 
     # otherwise calculate the change in density relative to the reference
     else:
-        delta_rho = xr.where(
-            reference["volcello"].notnull(), rho - reference["rho"], np.nan
+        delta_rho = (rho - reference["rho"]).where(
+            reference["volcello"].notnull(), np.nan
         )
         delta_rho = delta_rho.transpose(tcoord, ...)
         delta_rho.attrs = {
-- 
2.43.0

