From 9cb5224e448a118f60103c12455fd9762e21dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 01/32] fix: broadcast observation coordinates in forward
 models and IGRF

The shape of the result was the broadcast shape of the coordinates, but the
coordinates themselves were only raveled: mixing scalars or (n, 1) and (m,)
coordinates read outside of the smaller arrays and returned wrong values.
---
 src/harmonica/_forward/dipole.py              | 4 +++-
 src/harmonica/_forward/ellipsoids/gravity.py  | 4 +++-
 src/harmonica/_forward/ellipsoids/magnetic.py | 4 +++-
 src/harmonica/_forward/point.py               | 4 +++-
 src/harmonica/_forward/prisms/gravity.py      | 4 +++-
 src/harmonica/_forward/prisms/layer.py        | 4 +++-
 src/harmonica/_forward/prisms/magnetic.py     | 4 +++-
 src/harmonica/_forward/tesseroid_gravity.py   | 4 +++-
 src/harmonica/_spherical_harmonics/igrf.py    | 4 +++-
 9 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/harmonica/_forward/dipole.py b/src/harmonica/_forward/dipole.py
index 8925450..6601d61 100644
--- a/src/harmonica/_forward/dipole.py
+++ b/src/harmonica/_forward/dipole.py
@@ -105,7 +105,9 @@ def dipole_magnetic(
     # Figure out the shape and size of the output array(s)
     cast = np.broadcast(*coordinates[:3])
     # Convert coordinates, dipoles and magnetic moments to arrays
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     dipoles = tuple(np.atleast_1d(i).ravel() for i in dipoles[:3])
     magnetic_moments = tuple(np.atleast_1d(m).ravel() for m in magnetic_moments)
     # Sanity checks
diff --git a/src/harmonica/_forward/ellipsoids/gravity.py b/src/harmonica/_forward/ellipsoids/gravity.py
index b3baaa9..577b345 100644
--- a/src/harmonica/_forward/ellipsoids/gravity.py
+++ b/src/harmonica/_forward/ellipsoids/gravity.py
@@ -76,7 +76,9 @@ def ellipsoid_gravity(
     cast = np.broadcast(*coordinates)
 
     # Ravel coordinates into 1d arrays
-    easting, northing, upward = tuple(np.atleast_1d(c).ravel() for c in coordinates)
+    easting, northing, upward = tuple(
+        np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates)
+    )
 
     # Allocate arrays
     ge, gn, gu = tuple(np.zeros(easting.size) for _ in range(3))
diff --git a/src/harmonica/_forward/ellipsoids/magnetic.py b/src/harmonica/_forward/ellipsoids/magnetic.py
index 9096ee9..1aeee83 100644
--- a/src/harmonica/_forward/ellipsoids/magnetic.py
+++ b/src/harmonica/_forward/ellipsoids/magnetic.py
@@ -78,7 +78,9 @@ def ellipsoid_magnetic(
 
     # Flatten coordinates
     cast = np.broadcast(*coordinates)
-    easting, northing, upward = tuple(np.atleast_1d(c).ravel() for c in coordinates)
+    easting, northing, upward = tuple(
+        np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates)
+    )
 
     # Allocate output arrays
     be, bn, bu = tuple(np.zeros_like(easting, dtype=np.float64) for _ in range(3))
diff --git a/src/harmonica/_forward/point.py b/src/harmonica/_forward/point.py
index 619e11b..54b8d11 100644
--- a/src/harmonica/_forward/point.py
+++ b/src/harmonica/_forward/point.py
@@ -235,7 +235,9 @@ def point_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Prepare arrays to be passed to the jitted functions
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     points = tuple(np.atleast_1d(i).ravel() for i in points[:3])
     masses = np.atleast_1d(masses).ravel()
     # Sanity checks
diff --git a/src/harmonica/_forward/prisms/gravity.py b/src/harmonica/_forward/prisms/gravity.py
index ee64393..7efb54e 100644
--- a/src/harmonica/_forward/prisms/gravity.py
+++ b/src/harmonica/_forward/prisms/gravity.py
@@ -200,7 +200,9 @@ def prism_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Convert coordinates, prisms and density to arrays with proper shape
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     prisms = np.atleast_2d(prisms)
     density = np.atleast_1d(density).ravel()
     # Sanity checks
diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 62ad43b..0aca3a3 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -383,7 +383,9 @@ class DatasetAccessorPrismLayer:
 
         # Ravel coordinates to 1D
         cast = np.broadcast(*coordinates[:3])
-        coordinates = tuple(np.atleast_1d(c).ravel() for c in coordinates[:3])
+        coordinates = tuple(
+            np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates[:3])
+        )
 
         # Determine parallel or serial forward modelling function
         numba_function = (
diff --git a/src/harmonica/_forward/prisms/magnetic.py b/src/harmonica/_forward/prisms/magnetic.py
index 43fc5e3..5aa51a5 100644
--- a/src/harmonica/_forward/prisms/magnetic.py
+++ b/src/harmonica/_forward/prisms/magnetic.py
@@ -108,7 +108,9 @@ def prism_magnetic(
     # Figure out the shape and size of the output array(s)
     cast = np.broadcast(*coordinates[:3])
     # Convert coordinates, prisms and magnetization to arrays with proper shape
-    coordinates = tuple(np.atleast_1d(c).ravel() for c in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates[:3])
+    )
     prisms = np.atleast_2d(prisms)
     magnetization = tuple(np.atleast_1d(m).ravel() for m in magnetization)
     # Sanity checks
diff --git a/src/harmonica/_forward/tesseroid_gravity.py b/src/harmonica/_forward/tesseroid_gravity.py
index 66acebb..ea73857 100644
--- a/src/harmonica/_forward/tesseroid_gravity.py
+++ b/src/harmonica/_forward/tesseroid_gravity.py
@@ -167,7 +167,9 @@ def tesseroid_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Convert coordinates, tesseroids and density to arrays
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     tesseroids = np.atleast_2d(tesseroids)
     # Sanity checks for tesseroids and computation points
     if not disable_checks:
diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 42b1331..e61bdf5 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -350,7 +350,9 @@ class IGRF14:
             shape as the coordinate arrays. All are in nT.
         """
         cast = np.broadcast(*coordinates[:3])
-        longitude, latitude, height = (np.atleast_1d(c).ravel() for c in coordinates)
+        longitude, latitude, height = (
+            np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates[:3])
+        )
         longitude, latitude_sph, radius = self.ellipsoid.geodetic_to_spherical(
             (longitude, latitude, height)
         )
-- 
2.43.0


From fa78a70db83b009bd2a55287d4c994505e8019e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 02/32] fix: broadcast coordinates and keep floating point
 results in predict

EquivalentSourcesSph.predict used the dtype of the first coordinate for the
result, so integer longitudes truncated the predictions. Both predict methods
assumed equally shaped coordinates, and the Cartesian one failed for plain
Python numbers.
---
 src/harmonica/_equivalent_sources/cartesian.py | 3 ++-
 src/harmonica/_equivalent_sources/spherical.py | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/cartesian.py b/src/harmonica/_equivalent_sources/cartesian.py
index 1340f7b..95dcfac 100644
--- a/src/harmonica/_equivalent_sources/cartesian.py
+++ b/src/harmonica/_equivalent_sources/cartesian.py
@@ -375,7 +375,8 @@ class EquivalentSources(vdb.BaseGridder):
         shape = np.broadcast(*coordinates[:3]).shape
         size = np.broadcast(*coordinates[:3]).size
         coordinates = tuple(
-            np.atleast_1d(i.astype(self.dtype)).ravel() for i in coordinates[:3]
+            np.atleast_1d(i).astype(self.dtype).ravel()
+            for i in np.broadcast_arrays(*coordinates[:3])
         )
         data = np.zeros(size, dtype=self.dtype)
         kernel = predict_numba_parallel if self.parallel else predict_numba_serial
diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index 606311b..7fbe141 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -240,9 +240,10 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         check_is_fitted(self, ["coefs_"])
         shape = np.broadcast(*coordinates[:3]).shape
         size = np.broadcast(*coordinates[:3]).size
-        dtype = coordinates[0].dtype
-        coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
-        data = np.zeros(size, dtype=dtype)
+        coordinates = tuple(
+            np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+        )
+        data = np.zeros(size, dtype=np.result_type(*coordinates, np.float32))
         kernel = predict_numba_parallel if self.parallel else predict_numba_serial
         kernel(coordinates, self.points_, self.coefs_, data, self.greens_function)
         return data.reshape(shape)
-- 
2.43.0


From 34f3092a9a25ea1753e2c503918b979cca4e8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 03/32] fix: memory estimation of equivalent sources honours
 points and keeps the fit

estimate_required_memory ignored custom points, and overwrote depth_ (and
points_ in the gradient-boosted case) of a fitted estimator, so later
predictions used the wrong sources. The spherical one took the size of the
elements from the coordinates although its jacobian is always float64.
---
 src/harmonica/_equivalent_sources/cartesian.py       |  8 ++++++--
 .../_equivalent_sources/gradient_boosted.py          | 12 ++++++++----
 src/harmonica/_equivalent_sources/spherical.py       |  2 +-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/cartesian.py b/src/harmonica/_equivalent_sources/cartesian.py
index 95dcfac..77086a5 100644
--- a/src/harmonica/_equivalent_sources/cartesian.py
+++ b/src/harmonica/_equivalent_sources/cartesian.py
@@ -17,6 +17,7 @@ import numpy as np
 import verde as vd
 import verde.base as vdb
 from numba import jit
+from sklearn.base import clone
 from sklearn.utils.validation import check_is_fitted
 
 from .._forward.utils import distance_cartesian
@@ -222,9 +223,12 @@ class EquivalentSources(vdb.BaseGridder):
         >>> int(n_bytes)
         80000
         """
-        # Build the sources and assign the points_ attribute
+        # Build the sources on a copy so the estimator is left untouched
         coordinates = vdb.n_1d_arrays(coordinates, 3)
-        points = self._build_points(coordinates)
+        if self.points is None:
+            points = clone(self)._build_points(coordinates)
+        else:
+            points = vdb.n_1d_arrays(self.points, 3)
         # Get the number of sources and data
         n_data = coordinates[0].size
         n_points = points[0].size
diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index ab522e3..531d69b 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -16,6 +16,7 @@ import bordado as bd
 import numpy as np
 import verde.base as vdb
 from sklearn import utils
+from sklearn.base import clone
 
 from .cartesian import EquivalentSources
 from .utils import cast_fit_input, predict_numba_parallel
@@ -171,12 +172,15 @@ class EquivalentSourcesGB(EquivalentSources):
         >>> int(n_bytes)
         10952
         """
-        # Build the sources and assign the points_ attribute
+        # Build the sources on a copy so the estimator is left untouched
         coordinates = vdb.n_1d_arrays(coordinates, 3)
-        points = self._build_points(coordinates)
-        self.points_ = points
+        estimator = clone(self)
+        if self.points is None:
+            estimator.points_ = estimator._build_points(coordinates)
+        else:
+            estimator.points_ = vdb.n_1d_arrays(self.points, 3)
         # Build the windows and get the indices
-        source_windows, data_windows = self._create_windows(coordinates)
+        source_windows, data_windows = estimator._create_windows(coordinates)
         # Get the number of sources and data for each window
         source_sizes = np.array([w.size for w in source_windows])
         data_sizes = np.array([w.size for w in data_windows])
diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index 7fbe141..01ee31a 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -171,7 +171,7 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         # Compute the size of the Jacobian matrix
         jacobian_size = n_data * n_points
         # Estimate size of a single element of the Jacobian matrix in bytes
-        return jacobian_size * np.dtype(coordinates[0].dtype).itemsize
+        return jacobian_size * np.dtype("float64").itemsize
 
     def fit(self, coordinates, data, weights=None):
         """
-- 
2.43.0


From 8a65e88144360e1086f53c9e3fb3108c5751a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 04/32] fix: check the size of every source array in point,
 dipole and prism models

Only the first coordinate of the points and dipoles and the first component of
the moments and magnetizations were compared, so shorter arrays were read out
of bounds.
---
 src/harmonica/_forward/dipole.py          | 14 ++++++++------
 src/harmonica/_forward/point.py           | 11 ++++++-----
 src/harmonica/_forward/prisms/magnetic.py | 11 ++++++-----
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/harmonica/_forward/dipole.py b/src/harmonica/_forward/dipole.py
index 6601d61..47634cf 100644
--- a/src/harmonica/_forward/dipole.py
+++ b/src/harmonica/_forward/dipole.py
@@ -283,12 +283,14 @@ def _check_dipoles_and_magnetic_moments(dipoles, magnetic_moments):
             " Magnetic moments vectors should have 3 components."
         )
         raise ValueError(msg)
-    if magnetic_moments[0].size != dipoles[0].size:
-        msg = (
-            f"Number of elements in magnetic_moments ({magnetic_moments[0].size})"
-            f" mismatch the number of dipoles ({dipoles[0].size})."
-        )
-        raise ValueError(msg)
+    n_dipoles = dipoles[0].size
+    for array in (*magnetic_moments, *dipoles):
+        if array.size != n_dipoles:
+            msg = (
+                f"Number of elements in magnetic_moments ({array.size})"
+                f" mismatch the number of dipoles ({n_dipoles})."
+            )
+            raise ValueError(msg)
 
 
 def _jit_dipole_magnetic_field_cartesian(
diff --git a/src/harmonica/_forward/point.py b/src/harmonica/_forward/point.py
index 54b8d11..718aec5 100644
--- a/src/harmonica/_forward/point.py
+++ b/src/harmonica/_forward/point.py
@@ -241,11 +241,12 @@ def point_gravity(
     points = tuple(np.atleast_1d(i).ravel() for i in points[:3])
     masses = np.atleast_1d(masses).ravel()
     # Sanity checks
-    if masses.size != points[0].size:
-        raise ValueError(
-            f"Number of elements in masses ({masses.size}) "
-            + f"mismatch the number of points ({points[0].size})"
-        )
+    for point_coordinate in points:
+        if masses.size != point_coordinate.size:
+            raise ValueError(
+                f"Number of elements in masses ({masses.size}) "
+                + f"mismatch the number of points ({point_coordinate.size})"
+            )
     # Compute gravitational field
     kernel = get_kernel(coordinate_system, field)
     dispatcher(coordinate_system, parallel)(
diff --git a/src/harmonica/_forward/prisms/magnetic.py b/src/harmonica/_forward/prisms/magnetic.py
index 5aa51a5..23c49ae 100644
--- a/src/harmonica/_forward/prisms/magnetic.py
+++ b/src/harmonica/_forward/prisms/magnetic.py
@@ -451,11 +451,12 @@ def _run_sanity_checks(prisms, magnetization):
             f"Invalid magnetization vectors with '{size}' elements. "
             + "Magnetization vectors should have only 3 elements."
         )
-    if magnetization[0].size != prisms.shape[0]:
-        raise ValueError(
-            f"Number of magnetization vectors ({magnetization[0].size}) "
-            + f"mismatch the number of prisms ({prisms.shape[0]})"
-        )
+    for component in magnetization:
+        if component.size != prisms.shape[0]:
+            raise ValueError(
+                f"Number of magnetization vectors ({component.size}) "
+                + f"mismatch the number of prisms ({prisms.shape[0]})"
+            )
     check_prisms(prisms)
 
 
-- 
2.43.0


From 9cde12daea562a71176ec046c9a6a48f03e53a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 05/32] fix: discretize tesseroids wider than half a turn

The longitudinal dimension of a tesseroid was the great-circle distance
between its sides, which shrinks to zero for a full turn: tesseroids spanning
the whole globe raised ZeroDivisionError and the ones close to it were barely
discretized, with errors of more than half of the field. Null tesseroids with
variable density raised ZeroDivisionError as well.
---
 src/harmonica/_forward/_tesseroid_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/harmonica/_forward/_tesseroid_utils.py b/src/harmonica/_forward/_tesseroid_utils.py
index 073fa05..6dadbdd 100644
--- a/src/harmonica/_forward/_tesseroid_utils.py
+++ b/src/harmonica/_forward/_tesseroid_utils.py
@@ -208,11 +208,11 @@ def _adaptive_discretization(
         distance = _distance_tesseroid_point(coordinates, tesseroid)
         # Check inequality
         n_lon, n_lat, n_rad = 1, 1, 1
-        if distance / l_lon < distance_size_ratio:
+        if distance < distance_size_ratio * l_lon:
             n_lon = 2
-        if distance / l_lat < distance_size_ratio:
+        if distance < distance_size_ratio * l_lat:
             n_lat = 2
-        if distance / l_rad < distance_size_ratio and radial_discretization:
+        if distance < distance_size_ratio * l_rad and radial_discretization:
             n_rad = 2
         # Apply discretization
         if n_lon * n_lat * n_rad > 1:
@@ -268,8 +268,11 @@ def _tesseroid_dimensions(tesseroid):
     w, e, s, n = np.radians(w), np.radians(e), np.radians(s), np.radians(n)
     latitude_center = (n + s) / 2
     l_lat = top * np.arccos(np.sin(n) * np.sin(s) + np.cos(n) * np.cos(s))
+    # The great-circle distance between the two sides shrinks again for tesseroids
+    # wider than half a turn: don't let it underestimate their size.
+    delta_lon = min(e - w, np.pi)
     l_lon = top * np.arccos(
-        np.sin(latitude_center) ** 2 + np.cos(latitude_center) ** 2 * np.cos(e - w)
+        np.sin(latitude_center) ** 2 + np.cos(latitude_center) ** 2 * np.cos(delta_lon)
     )
     l_rad = top - bottom
     return l_lon, l_lat, l_rad
-- 
2.43.0


From 952b1e9e28835971ef3deaabb355d6e2b64c40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 06/32] fix: discard tesseroids without volume for variable
 densities too

An observation point on a flat tesseroid was an endless subdivision.
---
 src/harmonica/_forward/_tesseroid_variable_density.py | 2 +-
 src/harmonica/_forward/tesseroid_gravity.py           | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/_tesseroid_variable_density.py b/src/harmonica/_forward/_tesseroid_variable_density.py
index e91844e..a705336 100644
--- a/src/harmonica/_forward/_tesseroid_variable_density.py
+++ b/src/harmonica/_forward/_tesseroid_variable_density.py
@@ -142,7 +142,7 @@ def density_based_discretization(tesseroids, density):
     discretized_tesseroids = []
     for tesseroid in tesseroids:
         discretized_tesseroids.extend(_density_based_discretization(tesseroid, density))
-    return np.atleast_2d(discretized_tesseroids)
+    return np.reshape(discretized_tesseroids, (-1, 6))
 
 
 def _density_based_discretization(tesseroid, density):
diff --git a/src/harmonica/_forward/tesseroid_gravity.py b/src/harmonica/_forward/tesseroid_gravity.py
index ea73857..15256b6 100644
--- a/src/harmonica/_forward/tesseroid_gravity.py
+++ b/src/harmonica/_forward/tesseroid_gravity.py
@@ -177,6 +177,10 @@ def tesseroid_gravity(
         check_points_outside_tesseroids(coordinates, tesseroids)
     # Check if density is a function or constant values
     if callable(density):
+        # Discard null tesseroids (zero volume)
+        tesseroids, _ = _discard_null_tesseroids(
+            tesseroids, np.ones(tesseroids.shape[0])
+        )
         # Run density-based discretization on each tesseroid
         tesseroids = density_based_discretization(tesseroids, density)
     else:
-- 
2.43.0


From 1b5def59adc6aa9071593314279a735069e0f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 07/32] fix: don't store padding defaults in the caller's
 pad_kwargs

apply_filter wrote pad_width, mode and constant_values in the dictionary passed
by the caller, so using it again for a grid with another shape or other
dimension names padded with the values of the first grid.
---
 src/harmonica/filters/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index 5971e45..287abc4 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -71,8 +71,8 @@ def apply_filter(
     """
     if filter_kwargs is None:
         filter_kwargs = {}
-    if pad_kwargs is None:
-        pad_kwargs = {}
+    # Work on a copy to avoid modifying the dictionary passed by the caller
+    pad_kwargs = {} if pad_kwargs is None else dict(pad_kwargs)
     grid_sanity_checks(grid)
     dims = grid.dims
     # Need to remove non-dimensional coordinates before padding and FFT because
-- 
2.43.0


From f0c53ae7ad185015c5ca2dd92e6041749705c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 08/32] fix: use the field angles for the magnetization in
 reduction_to_pole

As documented, when the magnetization angles are None they are equal to the
ones of the main field. They were passed on as None and raised TypeError.
---
 src/harmonica/_transformations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/harmonica/_transformations.py b/src/harmonica/_transformations.py
index 0e16cb6..1388eea 100644
--- a/src/harmonica/_transformations.py
+++ b/src/harmonica/_transformations.py
@@ -447,6 +447,10 @@ def reduction_to_pole(
     --------
     harmonica.filters.reduction_to_pole_kernel
     """
+    if magnetization_inclination is None:
+        magnetization_inclination = inclination
+    if magnetization_declination is None:
+        magnetization_declination = declination
     return apply_filter(
         grid,
         reduction_to_pole_kernel,
-- 
2.43.0


From 7957db131892809ba9315c4e8449c531252e3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 09/32] fix: IGRF predict keeps the shape of single-element
 arrays

---
 src/harmonica/_spherical_harmonics/igrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index e61bdf5..754450c 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -382,7 +382,7 @@ class IGRF14:
                 latitude, latitude_sph, (b_east, b_north_sph, b_radial)
             )
         )
-        if n_data == 1:
+        if cast.shape == ():
             b_vector = tuple(float(c) for c in b_vector)
         return b_vector
 
-- 
2.43.0


From 6bd8f685781703d0e73bd62adf7432646e7e1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 10/32] fix: layers keep fractional references of integer
 surfaces

---
 src/harmonica/_forward/prisms/layer.py    | 6 ++----
 src/harmonica/_forward/tesseroid_layer.py | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 0aca3a3..28d019d 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -303,11 +303,9 @@ class DatasetAccessorPrismLayer:
                 )
         else:
             reference = reference * np.ones(self.shape)
-        top = surface.copy()
-        bottom = reference.copy()
         reverse = surface < reference
-        top[reverse] = reference[reverse]
-        bottom[reverse] = surface[reverse]
+        top = np.where(reverse, reference, surface)
+        bottom = np.where(reverse, surface, reference)
         self._obj.coords["top"] = (self.dims, top)
         self._obj.coords["bottom"] = (self.dims, bottom)
 
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 5aefea7..f5097e7 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -311,11 +311,9 @@ class DatasetAccessorTesseroidLayer:
                 )
         else:
             reference = reference * np.ones(self.shape)
-        top = surface.copy()
-        bottom = reference.copy()
         reverse = surface < reference
-        top[reverse] = reference[reverse]
-        bottom[reverse] = surface[reverse]
+        top = np.where(reverse, reference, surface)
+        bottom = np.where(reverse, surface, reference)
         self._obj.coords["top"] = (self.dims, top)
         self._obj.coords["bottom"] = (self.dims, bottom)
 
-- 
2.43.0


From 3ce088fa569a3dd583550aab15ce97109e0833d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 11/32] fix: layers on descending coordinates keep the sign of
 their fields

---
 src/harmonica/_forward/prisms/layer.py    | 6 +++---
 src/harmonica/_forward/tesseroid_layer.py | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 28d019d..38404f6 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -196,7 +196,7 @@ class DatasetAccessorPrismLayer:
         """
         easting, northing = self._obj.easting.values, self._obj.northing.values
         _check_regular_grid(easting, northing)
-        s_north, s_east = northing[1] - northing[0], easting[1] - easting[0]
+        s_north, s_east = abs(northing[1] - northing[0]), abs(easting[1] - easting[0])
         return s_north, s_east
 
     @property
@@ -581,8 +581,8 @@ def _forward_gravity_prism_layer(
     """
     easting, northing, upward = coordinates
     n_coords = easting.size
-    half_spacing_east = (prisms_easting[1] - prisms_easting[0]) / 2
-    half_spacing_north = (prisms_northing[1] - prisms_northing[0]) / 2
+    half_spacing_east = abs(prisms_easting[1] - prisms_easting[0]) / 2
+    half_spacing_north = abs(prisms_northing[1] - prisms_northing[0]) / 2
 
     # Check if we need to update the progressbar on each iteration
     update_progressbar = progress_proxy is not None
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index f5097e7..51264b2 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -171,7 +171,7 @@ def _check_overlap(longitude):
     """
     Check if the prisms boundaries are overlapped.
     """
-    spacing = longitude[1] - longitude[0]
+    spacing = abs(longitude[1] - longitude[0])
     if longitude.max() - longitude.min() >= 360 - spacing:
         msg = (
             "Found invalid longitude coordinates that would create overlapping "
@@ -223,7 +223,8 @@ class DatasetAccessorTesseroidLayer:
         """
         latitude, longitude = self._obj.latitude.values, self._obj.longitude.values
         _check_regular_grid(longitude, latitude)
-        s_latitude, s_longitude = latitude[1] - latitude[0], longitude[1] - longitude[0]
+        s_latitude = abs(latitude[1] - latitude[0])
+        s_longitude = abs(longitude[1] - longitude[0])
         return s_latitude, s_longitude
 
     @property
-- 
2.43.0


From 7d0276739846c52c18a9b5e35f2205035af63472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 12/32] fix: FFT filters keep the values in place on decreasing
 coordinates

---
 src/harmonica/filters/_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index 287abc4..c5442da 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -99,6 +99,11 @@ def apply_filter(
     # Keep only the real part since the inverse transform returns complex
     # number by default
     filtered_grid = ifft(filtered_fft_grid).real
+    # The inverse transform always returns increasing coordinates. Reverse the
+    # dimensions that are decreasing in the original grid so that every value
+    # stays at its own location.
+    decreasing = [d for d in dims if grid[d][0] > grid[d][-1]]
+    filtered_grid = filtered_grid.isel({d: slice(None, None, -1) for d in decreasing})
     if pad:
         filtered_grid = xrft.unpad(filtered_grid, pad_kwargs["pad_width"])
     # Restore the original coordinates to the grid because the inverse
-- 
2.43.0


From 5b7b0d1a0fa6b5b4856986c2d80025169c8919e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 13/32] fix: filter small grids whose default padding is zero

---
 src/harmonica/filters/_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index c5442da..665d884 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -85,6 +85,10 @@ def apply_filter(
         # a padding of 100% but that seems exaggerated.
         if "pad_width" not in pad_kwargs:
             pad_kwargs["pad_width"] = {d: int(0.25 * grid[d].size) for d in dims}
+        # xrft can't handle dimensions with zero padding, so leave them out
+        pad_kwargs["pad_width"] = {
+            dim: width for dim, width in pad_kwargs["pad_width"].items() if np.any(width)
+        }
         if "mode" not in pad_kwargs:
             pad_kwargs["mode"] = "edge"
         if "constant_values" not in pad_kwargs:
-- 
2.43.0


From 25e200479c07c59c2d229527676909f3a3334cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 14/32] fix: accept integer and broadcasting layers in
 isostatic_moho_airy

---
 src/harmonica/_isostasy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_isostasy.py b/src/harmonica/_isostasy.py
index 9538b96..e6f8e47 100644
--- a/src/harmonica/_isostasy.py
+++ b/src/harmonica/_isostasy.py
@@ -139,8 +139,12 @@ def isostatic_moho_airy(
     layers_equivalent_topography = 0
     if layers is not None:
         for thickness, density in layers.values():
-            layers_equivalent_topography += thickness * density
-        layers_equivalent_topography /= density_crust
+            # Avoid in-place operations: they fail on integer arrays and on layers
+            # whose shapes broadcast to a larger one
+            layers_equivalent_topography = (
+                layers_equivalent_topography + thickness * density
+            )
+        layers_equivalent_topography = layers_equivalent_topography / density_crust
 
     # Calculate rock equivalent topography
     rock_equivalent_topography = basement + layers_equivalent_topography
-- 
2.43.0


From 849173b34bf954a427f22b8a6119179c3b602f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 15/32] fix: always divide tesseroids wider than half a turn
 along the longitude

The distance between the point and the center of such a tesseroid says nothing
about the other side of the globe: shells made of them were up to 10% off.
---
 src/harmonica/_forward/_tesseroid_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/_tesseroid_utils.py b/src/harmonica/_forward/_tesseroid_utils.py
index 6dadbdd..16602ce 100644
--- a/src/harmonica/_forward/_tesseroid_utils.py
+++ b/src/harmonica/_forward/_tesseroid_utils.py
@@ -208,7 +208,9 @@ def _adaptive_discretization(
         distance = _distance_tesseroid_point(coordinates, tesseroid)
         # Check inequality
         n_lon, n_lat, n_rad = 1, 1, 1
-        if distance < distance_size_ratio * l_lon:
+        # The center of a tesseroid wider than half a turn says little about how far
+        # the point is from the rest of it: always divide it along the longitude
+        if distance < distance_size_ratio * l_lon or tesseroid[1] - tesseroid[0] > 180:
             n_lon = 2
         if distance < distance_size_ratio * l_lat:
             n_lat = 2
-- 
2.43.0


From b10d7c7a6b96c2071b8f3955f7a60345382c56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 16/32] fix: magnetization of ellipsoids with non-diagonal
 susceptibility tensors

The internal field is H = H0 - N M, so M = chi H + Mr solves
(I + chi N) M = chi H0 + Mr. The product was computed in the opposite
order, which is only the same when the susceptibility tensor is diagonal
(or N is isotropic).
---
 src/harmonica/_forward/ellipsoids/magnetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/ellipsoids/magnetic.py b/src/harmonica/_forward/ellipsoids/magnetic.py
index 1aeee83..3b5fbca 100644
--- a/src/harmonica/_forward/ellipsoids/magnetic.py
+++ b/src/harmonica/_forward/ellipsoids/magnetic.py
@@ -287,7 +287,7 @@ def get_magnetisation(
     if n_tensor is None:
         n_tensor = get_demagnetization_tensor_internal(a, b, c)
     eye = np.identity(3)
-    lhs = eye + n_tensor @ susceptibility
+    lhs = eye + susceptibility @ n_tensor
     rhs = remnant_mag + susceptibility @ h0_field
     m = np.linalg.solve(lhs, rhs)
     return m
-- 
2.43.0


From 25817539ffa55ef652e01433c1d9c8470152aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 17/32] fix: default windows of gradient-boosted sources fit in
 the region

The default window size is the side of a square that would hold 5000 data
points. It was larger than the shortest dimension of the region on most
non-square regions with a little more than 5000 points (or on any elongated
survey), and fit and estimate_required_memory raised an error.
---
 src/harmonica/_equivalent_sources/gradient_boosted.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index 531d69b..ffa1c42 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -343,7 +343,10 @@ class EquivalentSourcesGB(EquivalentSources):
                 return source_windows_nonempty, data_windows_nonempty
             points_per_m2 = ndata / area
             window_area = 5e3 / points_per_m2
-            self.window_size_ = np.sqrt(window_area)
+            # Windows cannot be larger than any of the dimensions of the region
+            self.window_size_ = min(
+                np.sqrt(window_area), region[1] - region[0], region[3] - region[2]
+            )
         else:
             self.window_size_ = self.window_size
         # The windows for sources and data points are the same, but the
-- 
2.43.0


From 14304801f4d3c5cbf8139c317abc6fb14d967174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 18/32] fix: spherical equivalent sources own the coordinates
 of their sources

The fitted sources shared memory with the arrays passed to fit (or as points),
so that changing those arrays afterwards changed the predictions.
---
 src/harmonica/_equivalent_sources/spherical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index 01ee31a..824af44 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -206,12 +206,12 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         coordinates = vdb.n_1d_arrays(coordinates, 3)
         if self.points is None:
             self.points_ = (
-                coordinates[0],
-                coordinates[1],
+                coordinates[0].copy(),
+                coordinates[1].copy(),
                 coordinates[2] - self.relative_depth,
             )
         else:
-            self.points_ = vdb.n_1d_arrays(self.points, 3)
+            self.points_ = tuple(p.copy() for p in vdb.n_1d_arrays(self.points, 3))
         jacobian = self.jacobian(coordinates, self.points_)
         self.coefs_ = vdb.least_squares(jacobian, data, weights, self.damping)
         return self
-- 
2.43.0


From 1ba30e747ba69fd48d27b32e00f42bc6e81387bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 19/32] fix: windows of gradient-boosted sources cover points
 on the border

Rounding errors left data points and sources on the border of the region out
of every window: the data were never fitted and the coefficients of the
sources stayed zero.
---
 .../_equivalent_sources/gradient_boosted.py   | 41 ++++++++++++++++---
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index ffa1c42..a0aaf3b 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -15,6 +15,7 @@ import warnings
 import bordado as bd
 import numpy as np
 import verde.base as vdb
+from scipy.spatial import KDTree
 from sklearn import utils
 from sklearn.base import clone
 
@@ -360,11 +361,11 @@ class EquivalentSourcesGB(EquivalentSources):
             "window_size": self.window_size_,
             "overlap": self.overlapping,
         }
-        _, source_windows = bd.rolling_window(self.points_[:2], **kwargs)
-        _, data_windows = bd.rolling_window(coordinates[:2], **kwargs)
-        # Ravel the indices
-        source_windows = [i[0] for i in source_windows.ravel()]
-        data_windows = [i[0] for i in data_windows.ravel()]
+        # Get the indices of the sources and data points in each window
+        source_windows, data_windows = (
+            _indices_per_window(vdb.n_1d_arrays(c, 2), **kwargs)
+            for c in (self.points_, coordinates)
+        )
         # Shuffle windows
         if shuffle:
             source_windows, data_windows = utils.shuffle(
@@ -380,6 +381,36 @@ class EquivalentSourcesGB(EquivalentSources):
         return source_windows_nonempty, data_windows_nonempty
 
 
+def _indices_per_window(coordinates, **kwargs):
+    """
+    Return the indices of the points that fall inside each rolling window.
+
+    Points on the border of the region can be left out of every window due to
+    rounding errors. Include them in the window with the nearest center.
+
+    Parameters
+    ----------
+    coordinates : tuple
+        Tuple of 1d-arrays with the easting and northing of the points.
+    **kwargs
+        Arguments passed to :func:`bordado.rolling_window`.
+
+    Returns
+    -------
+    windows : list of 1d-arrays
+    """
+    centers, windows = bd.rolling_window(coordinates, **kwargs)
+    windows = [i[0] for i in windows.ravel()]
+    missing = np.setdiff1d(np.arange(coordinates[0].size), np.hstack(windows))
+    if missing.size > 0:
+        tree = KDTree(np.transpose(vdb.n_1d_arrays(centers, 2)))
+        points = np.transpose([c[missing] for c in coordinates])
+        _, nearest = tree.query(points, p=np.inf)
+        for window in np.unique(nearest):
+            windows[window] = np.union1d(windows[window], missing[nearest == window])
+    return windows
+
+
 def _get_region_data_sources(coordinates, points):
     """
     Return the region that contains every observation and every source.
-- 
2.43.0


From 0e424ca3e4e1ef5d5e5de3db52f68678f76d62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 20/32] fix: refuse ICGEM files whose points are not the nodes
 of the grid

The values were placed in the grid by their order, without looking at the
longitude and latitude columns: a missing point and a repeated one, or points
in another order, gave values at wrong places.
---
 src/harmonica/_io/icgem_gdf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/harmonica/_io/icgem_gdf.py b/src/harmonica/_io/icgem_gdf.py
index 4425d33..41242f1 100644
--- a/src/harmonica/_io/icgem_gdf.py
+++ b/src/harmonica/_io/icgem_gdf.py
@@ -50,6 +50,18 @@ def load_icgem_gdf(fname, **kwargs):
         "latitude": data["latitude"].reshape(shape)[:, 0][::-1],
     }
     dims = ["latitude", "longitude"]
+    # Check that the points in the columns are the nodes of a grid: the values
+    # are placed in it according to their order
+    mesh = {
+        "longitude": np.broadcast_to(coords["longitude"], shape),
+        "latitude": np.broadcast_to(coords["latitude"][::-1, np.newaxis], shape),
+    }
+    for name in dims:
+        if np.unique(coords[name]).size != coords[name].size or not np.allclose(
+            data[name].reshape(shape), mesh[name], rtol=0, atol=1e-8
+        ):
+            msg = f"The {name} column doesn't match a regular grid of shape '{shape}'."
+            raise OSError(msg)
     data_vars = {
         name: (dims, value.reshape(shape)[::-1])
         for name, value in data.items()
-- 
2.43.0


From c05c37489fd0623ca94230f1fd7169475f11f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 21/32] fix: refuse ICGEM files with repeated column names

Only the last of the columns was kept, silently.
---
 src/harmonica/_io/icgem_gdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/harmonica/_io/icgem_gdf.py b/src/harmonica/_io/icgem_gdf.py
index 41242f1..0739ca9 100644
--- a/src/harmonica/_io/icgem_gdf.py
+++ b/src/harmonica/_io/icgem_gdf.py
@@ -142,6 +142,9 @@ def _read_gdf_file(fname, **kwargs):
             len(metadata["attributes"]), rawdata.shape[0]
         )
         raise OSError(msg)
+    if len(set(metadata["attributes"])) != len(metadata["attributes"]):
+        msg = f"Found repeated column names in '{metadata['attributes']}'."
+        raise OSError(msg)
     return rawdata, metadata
 
 
-- 
2.43.0


From 869388b103b7beb4e46923ab7e19619b708c7f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 22/32] fix: east component of the IGRF at the poles

It was set to zero, while the other components were those along the given
longitude: the horizontal field at a pole lost its part across the meridian.
---
 src/harmonica/_spherical_harmonics/igrf.py | 32 ++++++++++++----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 754450c..a5f810f 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -586,6 +586,13 @@ def spherical_harmonics_magnetic_field(
         p_deriv = np.empty_like(g)
         legendre.associated_legendre_schmidt(cos_colat, max_degree, p)
         legendre.associated_legendre_schmidt_derivative(max_degree, p, p_deriv)
+        # The east component is divided by the sine of the colatitude. At the
+        # poles, where both vanish, the ratio of Pnm and the sine tends to the
+        # ratio of their derivatives.
+        if abs(sin_colat) < 1e-10:
+            p_east, east_factor = p_deriv, -1 / cos_colat
+        else:
+            p_east, east_factor = p, -1 / sin_colat
         # Pre-compute the sin and cos of longitude to avoid repeated
         # computation for every value of n. Use the recursive Chebyshev method
         # to calculate sin/cos(m lon) to save running trig functions. This
@@ -610,7 +617,7 @@ def spherical_harmonics_magnetic_field(
                 b_east[i] += (
                     r_frac
                     * (-m * g[n, m] * sin_mlon[m] + m * h[n, m] * cos_mlon[m])
-                    * p[n, m]
+                    * p_east[n, m]
                 )
                 b_north_sph[i] += (
                     r_frac
@@ -623,12 +630,7 @@ def spherical_harmonics_magnetic_field(
                     * (g[n, m] * cos_mlon[m] + h[n, m] * sin_mlon[m])
                     * p[n, m]
                 )
-        # The east component is singular at the poles. Set it to zero if close
-        # to the poles to avoid this.
-        if abs(sin_colat) < 1e-10:
-            b_east[i] = 0
-        else:
-            b_east[i] *= -1 / sin_colat
+        b_east[i] *= east_factor
 
 
 @numba.jit(nopython=True, parallel=True)
@@ -677,6 +679,13 @@ def spherical_harmonics_magnetic_field_grid(
         p_deriv = np.empty_like(g)
         legendre.associated_legendre_schmidt(cos_colat, max_degree, p)
         legendre.associated_legendre_schmidt_derivative(max_degree, p, p_deriv)
+        # The east component is divided by the sine of the colatitude. At the
+        # poles, where both vanish, the ratio of Pnm and the sine tends to the
+        # ratio of their derivatives.
+        if abs(sin_colat) < 1e-10:
+            p_east, east_factor = p_deriv, -1 / cos_colat
+        else:
+            p_east, east_factor = p, -1 / sin_colat
         for j in range(n_lon):
             r_frac = normalized_radius[i, j] ** (min_degree - 1 + 2)
             for n in range(min_degree, max_degree + 1):
@@ -685,7 +694,7 @@ def spherical_harmonics_magnetic_field_grid(
                     b_east[i, j] += (
                         r_frac
                         * (-m * g[n, m] * sin_mlon[j, m] + m * h[n, m] * cos_mlon[j, m])
-                        * p[n, m]
+                        * p_east[n, m]
                     )
                     b_north_sph[i, j] += (
                         r_frac
@@ -698,9 +707,4 @@ def spherical_harmonics_magnetic_field_grid(
                         * (g[n, m] * cos_mlon[j, m] + h[n, m] * sin_mlon[j, m])
                         * p[n, m]
                     )
-            # The east component is singular at the poles. Set it to zero if close
-            # to the poles to avoid this.
-            if abs(sin_colat) < 1e-10:
-                b_east[i, j] = 0
-            else:
-                b_east[i, j] *= -1 / sin_colat
+            b_east[i, j] *= east_factor
-- 
2.43.0


From e518b7dc90d698fac172c5c2919542ebedf072c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 23/32] fix: accept IGRF dates with a time zone

ISO 8601 dates with a UTC offset raised a TypeError when the coefficients
were interpolated.
---
 src/harmonica/_spherical_harmonics/igrf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index a5f810f..6df5f0b 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -112,6 +112,9 @@ def interpolate_coefficients(date, max_degree, years, g, h, g_sv, h_sv):
         assigned zero. The shape of the arrays will be ``(max_degree + 1,
         max_degree + 1)``. Units are nT.
     """
+    # The epochs are given in UTC
+    if date.tzinfo is not None:
+        date = date.astimezone(datetime.timezone.utc).replace(tzinfo=None)
     if date.year < years[0] or date.year >= years[-1] + 5:
         message = (
             f"Invalid date {date} for IGRF. "
-- 
2.43.0


From 259ef9a91acbabe9cb16ad275d80e04b0fdc40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 24/32] fix: heights of IGRF grids can be arrays

The documented 2d-array heights were taken as several coordinates and raised
an error. The spherical latitude varies along the rows of such grids, so they
are predicted point by point.
---
 src/harmonica/_spherical_harmonics/igrf.py | 67 +++++++++++-----------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 6df5f0b..975a5e6 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -443,39 +443,42 @@ class IGRF14:
         """
         if spacing is None and shape is None:
             spacing = calculate_ideal_spacing(self.max_degree)
-        longitude, latitude, height = bd.grid_coordinates(
-            region,
-            spacing=spacing,
-            shape=shape,
-            adjust=adjust,
-            non_dimensional_coords=height,
-        )
-        longitude, latitude_sph, radius = self.ellipsoid.geodetic_to_spherical(
-            (longitude, latitude, height)
-        )
-        longitude_radians = np.radians(longitude)
-        colatitude_radians = np.radians(90 - latitude_sph)
-        normalized_radius = self.reference_radius / radius
-        shape = longitude.shape
-        b_east = np.zeros(shape)
-        b_north_sph = np.zeros(shape)
-        b_radial = np.zeros(shape)
-        g, h = self.coefficients
-        spherical_harmonics_magnetic_field_grid(
-            longitude_radians[0, :],
-            colatitude_radians[:, 0],
-            normalized_radius,
-            g,
-            h,
-            self.min_degree,
-            self.max_degree,
-            b_east,
-            b_north_sph,
-            b_radial,
-        )
-        b_east, b_north, b_up = vector_spherical_to_geodetic(
-            latitude, latitude_sph, (b_east, b_north_sph, b_radial)
+        longitude, latitude = bd.grid_coordinates(
+            region, spacing=spacing, shape=shape, adjust=adjust
         )
+        if np.ndim(height) > 0:
+            # The spherical latitude varies with height so it's not constant
+            # along the rows of the grid
+            height = np.array(np.broadcast_to(height, longitude.shape))
+            b_east, b_north, b_up = self.predict((longitude, latitude, height))
+        else:
+            height = np.full_like(longitude, height)
+            longitude, latitude_sph, radius = self.ellipsoid.geodetic_to_spherical(
+                (longitude, latitude, height)
+            )
+            longitude_radians = np.radians(longitude)
+            colatitude_radians = np.radians(90 - latitude_sph)
+            normalized_radius = self.reference_radius / radius
+            shape = longitude.shape
+            b_east = np.zeros(shape)
+            b_north_sph = np.zeros(shape)
+            b_radial = np.zeros(shape)
+            g, h = self.coefficients
+            spherical_harmonics_magnetic_field_grid(
+                longitude_radians[0, :],
+                colatitude_radians[:, 0],
+                normalized_radius,
+                g,
+                h,
+                self.min_degree,
+                self.max_degree,
+                b_east,
+                b_north_sph,
+                b_radial,
+            )
+            b_east, b_north, b_up = vector_spherical_to_geodetic(
+                latitude, latitude_sph, (b_east, b_north_sph, b_radial)
+            )
         grid = vd.make_xarray_grid(
             (longitude, latitude, height),
             (b_east, b_north, b_up),
-- 
2.43.0


From 5af21d6ba3754c0bc7303de55b6f2501666a1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 25/32] fix: read prism and tesseroid layers by the names of
 their dimensions

A layer whose dimensions are transposed gave the gravity and boundaries of
other prisms, reading values out of bounds when it is not square.
---
 src/harmonica/_forward/prisms/layer.py    | 34 +++++++++++++++++------
 src/harmonica/_forward/tesseroid_layer.py | 34 +++++++++++++++++------
 2 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 38404f6..a8c9819 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -243,6 +243,24 @@ class DatasetAccessorPrismLayer:
         """
         return (self._obj.northing.size, self._obj.easting.size)
 
+    def _get_values(self, name):
+        """
+        Return the values of a variable of the layer as a 2d-array.
+
+        The array follows the order of ``dims``, no matter how the dimensions are
+        ordered in the dataset.
+
+        Parameters
+        ----------
+        name : str
+            Name of the coordinate or data variable.
+
+        Returns
+        -------
+        values : 2d-array
+        """
+        return self._obj[name].transpose(*self.dims).values
+
     def _get_prism_horizontal_boundaries(self, easting, northing):
         """
         Compute the horizontal boundaries of the prism.
@@ -396,7 +414,7 @@ class DatasetAccessorPrismLayer:
         thickness_threshold = (
             0.0 if thickness_threshold is None else thickness_threshold
         )
-        density = self._obj[density_name].values
+        density = self._get_values(density_name)
         if np.isnan(density).any():
             msg = (
                 "Found NaN values in 'density' property of the prisms layer. "
@@ -412,8 +430,8 @@ class DatasetAccessorPrismLayer:
                 coordinates,
                 self._obj.easting.values,
                 self._obj.northing.values,
-                self._obj.bottom.values,
-                self._obj.top.values,
+                self._get_values("bottom"),
+                self._get_values("top"),
                 density,
                 FIELDS[field],
                 result,
@@ -450,8 +468,8 @@ class DatasetAccessorPrismLayer:
         west, east, south, north = self._get_prism_horizontal_boundaries(
             easting.ravel(), northing.ravel()
         )
-        bottom = self._obj.bottom.values.ravel()
-        top = self._obj.top.values.ravel()
+        bottom = self._get_values("bottom").ravel()
+        top = self._get_values("top").ravel()
         prisms = np.vstack((west, east, south, north, bottom, top)).T
         return prisms
 
@@ -478,8 +496,8 @@ class DatasetAccessorPrismLayer:
         west, east, south, north = self._get_prism_horizontal_boundaries(
             center_easting, center_northing
         )
-        bottom = self._obj.bottom.values[indices]
-        top = self._obj.top.values[indices]
+        bottom = self._get_values("bottom")[indices]
+        top = self._get_values("top")[indices]
         return west, east, south, north, bottom, top
 
     def to_pyvista(self, drop_null_prisms=True):
@@ -511,7 +529,7 @@ class DatasetAccessorPrismLayer:
         properties = None
         if self._obj.data_vars:
             properties = {
-                data_var: np.asarray(self._obj[data_var]).ravel()[
+                data_var: self._get_values(data_var).ravel()[
                     np.logical_not(null_prisms)
                 ]
                 for data_var in self._obj.data_vars
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 51264b2..d507fe4 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -378,7 +378,7 @@ class DatasetAccessorTesseroidLayer:
         """
         # Get boundaries and density of the tesseroids
         boundaries = self._to_tesseroids()
-        density = self._obj[density_name].values
+        density = self._get_values(density_name)
         # Get the mask for selecting  only the tesseroid whose top boundary,
         # bottom boundary and density have no nans
         mask = self._get_nonans_mask(property_name=density_name)
@@ -422,12 +422,12 @@ class DatasetAccessorTesseroidLayer:
         """
         # Mask the tesseroid that contains no nans on top and bottom boundaries
         mask = np.logical_and(
-            np.logical_not(np.isnan(self._obj.top.values)),
-            np.logical_not(np.isnan(self._obj.bottom.values)),
+            np.logical_not(np.isnan(self._get_values("top"))),
+            np.logical_not(np.isnan(self._get_values("bottom"))),
         )
         # Mask the tesseroids that contains nans on the selected property
         if property_name is not None:
-            mask_property = np.logical_not(np.isnan(self._obj[property_name].values))
+            mask_property = np.logical_not(np.isnan(self._get_values(property_name)))
             # Warn if a nan is found within the masked property
             if not mask_property[mask].all():
                 warnings.warn(
@@ -439,6 +439,24 @@ class DatasetAccessorTesseroidLayer:
             mask = np.logical_and(mask, mask_property)
         return mask
 
+    def _get_values(self, name):
+        """
+        Return the values of a variable of the layer as a 2d-array.
+
+        The array follows the order of ``dims``, no matter how the dimensions are
+        ordered in the dataset.
+
+        Parameters
+        ----------
+        name : str
+            Name of the coordinate or data variable.
+
+        Returns
+        -------
+        values : 2d-array
+        """
+        return self._obj[name].transpose(*self.dims).values
+
     def _to_tesseroids(self):
         """
         Return the boundaries of each tesseroid of the layer.
@@ -462,8 +480,8 @@ class DatasetAccessorTesseroidLayer:
         ) = self._get_tesseroid_horizontal_boundaries(
             longitude.ravel(), latitude.ravel()
         )
-        bottom = self._obj.bottom.values.ravel()
-        top = self._obj.top.values.ravel()
+        bottom = self._get_values("bottom").ravel()
+        top = self._get_values("top").ravel()
         tesseroids = np.vstack(
             (longitude_w, longitude_e, latitude_s, latitude_n, bottom, top)
         ).T
@@ -514,8 +532,8 @@ class DatasetAccessorTesseroidLayer:
             latitude_s,
             latitude_n,
         ) = self._get_tesseroid_horizontal_boundaries(center_longitude, center_latitude)
-        bottom = self._obj.bottom.values[indices]
-        top = self._obj.top.values[indices]
+        bottom = self._get_values("bottom")[indices]
+        top = self._get_values("top")[indices]
         return longitude_w, longitude_e, latitude_s, latitude_n, bottom, top
 
 
-- 
2.43.0


From d4ee50cab546c069098e7a1529e5638262317c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 26/32] fix: do not write out of bounds when the maximum degree
 is zero

The Legendre functions and the synthesis of the IGRF wrote the terms of degree
one of tables with room for degree zero only.
---
 src/harmonica/_spherical_harmonics/igrf.py    | 10 ++++----
 .../_spherical_harmonics/legendre.py          | 24 +++++++++++--------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 975a5e6..f9a4137 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -609,8 +609,9 @@ def spherical_harmonics_magnetic_field(
         sin_mlon = np.empty(max_degree + 1)
         cos_mlon[0] = 1
         sin_mlon[0] = 0
-        cos_mlon[1] = np.cos(longitude[i])
-        sin_mlon[1] = np.sin(longitude[i])
+        if max_degree > 0:
+            cos_mlon[1] = np.cos(longitude[i])
+            sin_mlon[1] = np.sin(longitude[i])
         for m in range(2, max_degree + 1):
             cos_mlon[m] = 2 * cos_mlon[1] * cos_mlon[m - 1] - cos_mlon[m - 2]
             sin_mlon[m] = 2 * cos_mlon[1] * sin_mlon[m - 1] - sin_mlon[m - 2]
@@ -666,8 +667,9 @@ def spherical_harmonics_magnetic_field_grid(
     for j in numba.prange(n_lon):
         cos_mlon[j, 0] = 1
         sin_mlon[j, 0] = 0
-        cos_mlon[j, 1] = np.cos(longitude[j])
-        sin_mlon[j, 1] = np.sin(longitude[j])
+        if max_degree > 0:
+            cos_mlon[j, 1] = np.cos(longitude[j])
+            sin_mlon[j, 1] = np.sin(longitude[j])
         for m in range(2, max_degree + 1):
             cos_mlon[j, m] = (
                 2 * cos_mlon[j, 1] * cos_mlon[j, m - 1] - cos_mlon[j, m - 2]
diff --git a/src/harmonica/_spherical_harmonics/legendre.py b/src/harmonica/_spherical_harmonics/legendre.py
index d93c339..8ab235e 100644
--- a/src/harmonica/_spherical_harmonics/legendre.py
+++ b/src/harmonica/_spherical_harmonics/legendre.py
@@ -166,9 +166,10 @@ def associated_legendre_schmidt(x, max_degree, p):
     # Use the Holmes and Featherstone (2002) scaling to compute scaled Pnm
     # All terms are scaled by the max float range 1e280
     p[0, 0] = 1 * 1e-280
-    p[1, 0] = x * 1e-280
-    # This equation doesn't have u because of the scaling
-    p[1, 1] = p[0, 0]
+    if max_degree > 0:
+        p[1, 0] = x * 1e-280
+        # This equation doesn't have u because of the scaling
+        p[1, 1] = p[0, 0]
     # Calculate the zero order terms first
     for n in range(2, max_degree + 1):
         a_n0 = (2 * n - 1) / (sqrt[n] ** 2)
@@ -235,8 +236,9 @@ def associated_legendre_schmidt_derivative(max_degree, p, dp):
     # Pre-compute square roots of integers used in the loops
     sqrt = np.sqrt(np.arange(2 * (max_degree + 1)))
     dp[0, 0] = 0
-    dp[1, 0] = -p[1, 1]
-    dp[1, 1] = p[1, 0]
+    if max_degree > 0:
+        dp[1, 0] = -p[1, 1]
+        dp[1, 1] = p[1, 0]
     for n in range(2, max_degree + 1):
         a_nm = -sqrt[n] * sqrt[n + 1] / sqrt[2]
         dp[n, 0] = a_nm * p[n, 1]
@@ -291,9 +293,10 @@ def associated_legendre_full(x, max_degree, p):
     # Use the Holmes and Featherstone (2002) scaling to compute scaled Pnm
     # All terms are scaled by the max float range 1e280
     p[0, 0] = 1 * 1e-280
-    p[1, 0] = x * sqrt[3] * 1e-280
-    # This equation doesn't have u because of the scaling
-    p[1, 1] = p[0, 0] * sqrt[3]
+    if max_degree > 0:
+        p[1, 0] = x * sqrt[3] * 1e-280
+        # This equation doesn't have u because of the scaling
+        p[1, 1] = p[0, 0] * sqrt[3]
     # Calculate the zero order terms first
     for n in range(2, max_degree + 1):
         a_n0 = sqrt[2 * n - 1] * sqrt[2 * n + 1] / n
@@ -362,8 +365,9 @@ def associated_legendre_full_derivative(max_degree, p, dp):
     # Pre-compute square roots of integers used in the loops
     sqrt = np.sqrt(np.arange(2 * (max_degree + 1)))
     dp[0, 0] = 0
-    dp[1, 0] = -p[1, 1]
-    dp[1, 1] = p[1, 0]
+    if max_degree > 0:
+        dp[1, 0] = -p[1, 1]
+        dp[1, 1] = p[1, 0]
     for n in range(2, max_degree + 1):
         a_nm = -sqrt[n] * sqrt[n + 1] / sqrt[2]
         dp[n, 0] = a_nm * p[n, 1]
-- 
2.43.0


From d36d3067b0105461db26bfe5bfc32686c042a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 27/32] fix: angles of magnetic vectors given as integers

The squares of the components overflow the type of int16 and int32 arrays.
---
 src/harmonica/_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/harmonica/_utils.py b/src/harmonica/_utils.py
index 7e8fe0a..221cf21 100644
--- a/src/harmonica/_utils.py
+++ b/src/harmonica/_utils.py
@@ -144,12 +144,13 @@ def magnetic_vec_to_angles(magnetic_e, magnetic_n, magnetic_u, degrees=True):
     >>> print(intensity, inc, dec)
     3.0 45.0 45.0
     """
+    # Compute the horizontal component of the magnetic vector (without squares or
+    # negatives that could overflow the type of integer arrays)
+    horizontal_component = np.hypot(magnetic_e, magnetic_n)
     # Compute the intensity as a norm
-    intensity = np.sqrt(magnetic_e**2 + magnetic_n**2 + magnetic_u**2)
-    # Compute the horizontal component of the magnetic vector
-    horizontal_component = np.sqrt(magnetic_e**2 + magnetic_n**2)
+    intensity = np.hypot(horizontal_component, magnetic_u)
     # Calculate the inclination and declination
-    inclination = np.arctan2(-magnetic_u, horizontal_component)
+    inclination = -np.arctan2(magnetic_u, horizontal_component)
     declination = np.arctan2(magnetic_e, magnetic_n)
     # Convert to degree if needed
     if degrees:
-- 
2.43.0


From d541bda3fbd40189604b26b3c433bc8487148d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 28/32] fix: loads of layers of small integers in the isostatic
 Moho

The product of int16 thicknesses and integer densities overflows silently.
---
 src/harmonica/_isostasy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/harmonica/_isostasy.py b/src/harmonica/_isostasy.py
index e6f8e47..d0f4a34 100644
--- a/src/harmonica/_isostasy.py
+++ b/src/harmonica/_isostasy.py
@@ -140,9 +140,10 @@ def isostatic_moho_airy(
     if layers is not None:
         for thickness, density in layers.values():
             # Avoid in-place operations: they fail on integer arrays and on layers
-            # whose shapes broadcast to a larger one
-            layers_equivalent_topography = (
-                layers_equivalent_topography + thickness * density
+            # whose shapes broadcast to a larger one. Make densities floats so that
+            # the loads don't overflow the type of integer thicknesses.
+            layers_equivalent_topography = layers_equivalent_topography + thickness * (
+                1.0 * density
             )
         layers_equivalent_topography = layers_equivalent_topography / density_crust
 
-- 
2.43.0


From 8d49856d5af8bc9ced254ce5482ce4f30086eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 29/32] fix: refuse NaN as semiaxis of ellipsoids

---
 src/harmonica/_forward/ellipsoids/ellipsoids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/ellipsoids/ellipsoids.py b/src/harmonica/_forward/ellipsoids/ellipsoids.py
index 25c365d..0b17728 100644
--- a/src/harmonica/_forward/ellipsoids/ellipsoids.py
+++ b/src/harmonica/_forward/ellipsoids/ellipsoids.py
@@ -227,7 +227,8 @@ class Ellipsoid:
         semiaxis : {"a", "b", "c"}
             Semiaxis name. Used to generate the error message.
         """
-        if value <= 0:
+        # Negate the comparison so NaNs are also considered invalid
+        if not value > 0:
             msg = f"Invalid value of '{semiaxis}' equal to '{value}'. It must be positive."
             raise ValueError(msg)
 
-- 
2.43.0


From fe14f528a1713455dc0f80419d2608171f8f991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 30/32] fix: refuse centers of ellipsoids without three
 coordinates

---
 src/harmonica/_forward/ellipsoids/ellipsoids.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/harmonica/_forward/ellipsoids/ellipsoids.py b/src/harmonica/_forward/ellipsoids/ellipsoids.py
index 0b17728..494f8fe 100644
--- a/src/harmonica/_forward/ellipsoids/ellipsoids.py
+++ b/src/harmonica/_forward/ellipsoids/ellipsoids.py
@@ -126,6 +126,21 @@ class Ellipsoid:
         self._check_positive_semiaxis(value, "c")
         self._c = value
 
+    @property
+    def center(self) -> tuple[float, float, float]:
+        """Coordinates of the center of the ellipsoid in meters."""
+        return self._center
+
+    @center.setter
+    def center(self, value) -> None:
+        if np.shape(value) != (3,):
+            msg = (
+                f"Invalid 'center' with shape '{np.shape(value)}'. "
+                "It must have three elements: easting, northing and upward."
+            )
+            raise ValueError(msg)
+        self._center = value
+
     @property
     def density(self) -> float | None:
         """Density of the ellipsoid in :math:`kg/m^3`."""
-- 
2.43.0


From 52ef0ea172a9268c153b7378198701caa978d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 31/32] fix: vectors of magnetic intensities given as unsigned
 integers

The negative of an unsigned integer wraps around, so the upward component
was wrong by many orders of magnitude.
---
 src/harmonica/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_utils.py b/src/harmonica/_utils.py
index 221cf21..103cb32 100644
--- a/src/harmonica/_utils.py
+++ b/src/harmonica/_utils.py
@@ -70,7 +70,8 @@ def magnetic_angles_to_vec(intensity, inclination, declination):
     # Calculate the 3 components
     magnetic_e = intensity * np.cos(inc_rad) * np.sin(dec_rad)
     magnetic_n = intensity * np.cos(inc_rad) * np.cos(dec_rad)
-    magnetic_u = -intensity * np.sin(inc_rad)
+    # (negate the product: negatives of unsigned integers would wrap around)
+    magnetic_u = -(intensity * np.sin(inc_rad))
     return magnetic_e, magnetic_n, magnetic_u
 
 
-- 
2.43.0


From 14facb3281123d1e9f5840d8f0f526a834f35585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:46 +0000
Subject: [PATCH 32/32] fix: precision of the field of prolate ellipsoids at
 far points

---
 src/harmonica/_forward/ellipsoids/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/ellipsoids/utils.py b/src/harmonica/_forward/ellipsoids/utils.py
index 0f38a4f..acb0c5a 100644
--- a/src/harmonica/_forward/ellipsoids/utils.py
+++ b/src/harmonica/_forward/ellipsoids/utils.py
@@ -565,7 +565,10 @@ def _get_elliptical_integrals_prolate(a, b, lambda_):
     sqrt_e = np.sqrt(e2)
     sqrt_l1 = np.sqrt(a**2 + lambda_)
     sqrt_l2 = np.sqrt(b**2 + lambda_)
-    log = np.log((sqrt_e + sqrt_l1) / sqrt_l2)
+    # The arcsinh is equal to log((sqrt_e + sqrt_l1) / sqrt_l2), but it doesn't lose
+    # precision when sqrt_e is much smaller than sqrt_l2 (far points, or ellipsoids
+    # with similar semiaxes)
+    log = np.arcsinh(sqrt_e / sqrt_l2)
 
     g1 = (2 / (sqrt_e**3)) * (log - sqrt_e / sqrt_l1)
     g2 = (1 / (sqrt_e**3)) * ((sqrt_e * sqrt_l1) / (b**2 + lambda_) - log)
-- 
2.43.0

