From 44217013a9e2f895672bae61d41dfcbd877ad9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 01/33] fix: RootMUSIC1D fails to pair double roots on the unit
 circle

For (nearly) noiseless covariance matrices both copies of a double root can
end up on the unit circle or on the same side of it, which raised a
RuntimeError or reported an unresolved result. Pair the roots by conjugate
reciprocity instead of testing |z| == 1 exactly.
---
 doatools/estimation/music.py | 39 +++++++++++++++---------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index 00f960e..fc945bb 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -157,29 +157,22 @@ class RootMUSIC1D:
         # Find the roots of the polynomial.
         z = np.roots(coeff)
         # Find k points inside the unit circle that are also closest to the unit
-        # circle.
-        nz = len(z)
-        mask = np.ones((nz,), dtype=np.bool_)
-        for i in range(nz):
-            absz = abs(z[i])
-            if absz > 1.0:
-                # Outside the unit circle.
-                mask[i] = False
-            elif absz == 1.0:
-                # On the unit circle. Need to find the closest point and remove
-                # it.
-                idx = -1
-                dist = np.inf
-                for j in range(nz):
-                    if j != i and mask[j]:
-                        cur_dist = abs(z[i] - z[j])
-                        if cur_dist < dist:
-                            dist = cur_dist
-                            idx = j
-                if idx < 0:
-                    raise RuntimeError('Unpaired point found on the unit circle, which is impossible.')
-                mask[idx] = False
-        z = z[mask]
+        # circle. The roots come in conjugate reciprocal pairs, and we keep the
+        # one inside the unit circle from each pair. Roots on the unit circle
+        # are double roots. Because of rounding errors, both of them may end up
+        # on the same side of the unit circle.
+        unpaired = list(np.argsort(np.abs(1.0 - np.abs(z))))
+        inside = []
+        while unpaired:
+            i = unpaired.pop(0)
+            # The counterpart of zero is at infinity, hence not among the roots.
+            if unpaired and z[i] != 0.0:
+                j = min(unpaired, key=lambda j: abs(z[i].conj() * z[j] - 1.0))
+                unpaired.remove(j)
+                if abs(z[j]) < abs(z[i]):
+                    i = j
+            inside.append(i)
+        z = z[inside]
         sorted_indices = np.argsort(1.0 - np.abs(z))
         if len(z) < k:
             return False, None
-- 
2.43.0


From ebcf1d004a3427f2142cd13ae4638fd8d4488c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 02/33] fix: ESPRIT row weights are applied twice to
 overlapping subarrays

---
 doatools/estimation/esprit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/esprit.py b/doatools/estimation/esprit.py
index ac70c2b..0214373 100644
--- a/doatools/estimation/esprit.py
+++ b/doatools/estimation/esprit.py
@@ -121,8 +121,10 @@ class Esprit1D:
         Es2 = Es[displacement:, :]
         # Apply row weights.
         if row_weights is not None:
-            Es1 *= row_weights[:, np.newaxis]
-            Es2 *= row_weights[:, np.newaxis]
+            # Do not update in-place here because Es1 and Es2 are overlapping
+            # views of Es.
+            Es1 = Es1 * row_weights[:, np.newaxis]
+            Es2 = Es2 * row_weights[:, np.newaxis]
         # Estimate the rotation matrix.
         if formulation == 'tls':
             # Total least-squares
-- 
2.43.0


From 6e4a88490a9f827e03d6754f6ba554259dfe86b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 03/33] fix: incorrect power block of the FIM in
 crb_stouc_farfield_1d

The (i,j)-th element is tr(R^-1 a_i a_i^H R^-1 a_j a_j^H) = |a_i^H R^-1 a_j|^2,
not (a_i^H R^-1 a_j)^2.
---
 doatools/performance/crb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/crb.py b/doatools/performance/crb.py
index dbb6809..9351c10 100644
--- a/doatools/performance/crb.py
+++ b/doatools/performance/crb.py
@@ -216,7 +216,7 @@ def crb_stouc_farfield_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     ARA = A_H @ R_inv @ A
     PP = np.outer(p, p)
     FIM_tt = 2.0 * ((DRD.T * ARA + DRA.conj() * ARD) * PP).real
-    FIM_pp = (ARA.conj().T * ARA).real
+    FIM_pp = (ARA.conj() * ARA).real
     R_inv2 = R_inv @ R_inv
     FIM_ss = np.trace(R_inv2).real
     # diag(A @ B) = np.sum(A^T * B, axis=0, keepdims=True)
-- 
2.43.0


From 3aad6a9c57d3dc7eabbb3fb36b208c82a59638c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 04/33] fix: GainErrors and PhaseErrors do not accept lists

---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 627b9d3..c795762 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -176,7 +176,7 @@ class GainErrors(ArrayPerturbation):
     """
     def __init__(self, gain_errors, known=False):
         if not isinstance(gain_errors, np.ndarray):
-            gain_erros = np.array(gain_errors)
+            gain_errors = np.array(gain_errors)
         if gain_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(gain_errors, known)
@@ -232,7 +232,7 @@ class PhaseErrors(ArrayPerturbation):
     """
     def __init__(self, phase_errors, known=False):
         if not isinstance(phase_errors, np.ndarray):
-            gain_erros = np.array(phase_errors)
+            phase_errors = np.array(phase_errors)
         if phase_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(phase_errors, known)
-- 
2.43.0


From 58d92c63b30794b0febfe53550542e7eed017e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 05/33] fix: MutualCoupling accepts non-square matrices

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index c795762..92a8b65 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -290,7 +290,7 @@ class MutualCoupling(ArrayPerturbation):
     def __init__(self, C, known=False):
         if not isinstance(C, np.ndarray):
             C = np.array(C)
-        if C.ndim != 2 and C.shape[0] != C.shape[1]:
+        if C.ndim != 2 or C.shape[0] != C.shape[1]:
             raise ValueError('Expecting a square matrix.')
         super().__init__(C, known)
 
-- 
2.43.0


From cc053d27960de4997bc7970814f1b9107aec4f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 06/33] fix: ArrayPerturbation.is_applicable_to should return a
 tuple

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 92a8b65..2478317 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -41,7 +41,7 @@ class ArrayPerturbation:
             applicable. The second element is a string describing why this
             perturbation is not applicable.
         """
-        return True
+        return True, ''
 
     def perturb_sensor_locations(self, locations):
         """Perturbs the given sensor locations.
-- 
2.43.0


From 8f70a679bb8a4b94fbf6dc07a739398ccf5ab0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 07/33] fix: LocationErrors does not support integer sensor
 locations

---
 doatools/model/perturbations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 2478317..d696188 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -151,16 +151,18 @@ class LocationErrors(ArrayPerturbation):
     def perturb_sensor_locations(self, locations):
         array_dim = locations.shape[1]
         loc_err_dim = self._params.shape[1]
+        # Integer locations (or location errors) are allowed.
+        dtype = np.result_type(locations, self._params)
         if loc_err_dim <= array_dim:
             # It is possible that the location errors only exist along the
             # first one or two axis.
-            perturbed_locations = locations.copy()
+            perturbed_locations = locations.astype(dtype)
             perturbed_locations[:, :loc_err_dim] += self._params
         else:
             # Actual dimension is higher. For instance, this can happen if a
             # linear array, which is 1D, has location errors along both
             # x- and y-axis.
-            perturbed_locations = self._params.copy()
+            perturbed_locations = self._params.astype(dtype)
             perturbed_locations[:, :array_dim] += locations
         return perturbed_locations
 
-- 
2.43.0


From 8950f32fb251a77abe95d7b7c58310c9c39c2a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 08/33] fix: ensure_covariance_size does not check the number
 of columns

---
 doatools/estimation/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 09deb3b..5c94bec 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -10,7 +10,7 @@ def ensure_covariance_size(R, array):
     m = array.size
     if R.ndim != 2:
         raise ValueError('Expecting a matrix.')
-    if R.shape[0] != m or R.shape[0] != m:
+    if R.shape[0] != m or R.shape[1] != m:
         raise ValueError(
             'The shape of the covariance matrix does not match the array size.'
             'Expected shape is {0}. Got {1}'
-- 
2.43.0


From 6ba175fc4342b745ef04ec537fa4675eaf0bf6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 09/33] fix: points within flat regions of 2D spectra are
 treated as peaks

For instance, an infeasible 2D sparse recovery problem leads to an all-zero
spectrum, which was reported as resolved with arbitrary estimates.
---
 doatools/estimation/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 5c94bec..20c11fb 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -2,7 +2,7 @@ from collections import namedtuple
 from abc import ABC, abstractmethod
 import numpy as np
 from scipy.signal import find_peaks
-from scipy.ndimage import maximum_filter
+from scipy.ndimage import maximum_filter, minimum_filter
 
 # Helper functions for validating inputs.
 def ensure_covariance_size(R, array):
@@ -32,7 +32,9 @@ def find_peaks_simple(x):
     else:
         # Use maximum filter for peak finding.
         y = maximum_filter(x, 3)
-        return np.where(x == y)
+        # Points within a flat region (e.g., an all-zero sparse spectrum) are
+        # not peaks.
+        return np.where((x == y) & (x > minimum_filter(x, 3)))
 
 def get_noise_subspace(R, k):
     """
-- 
2.43.0


From 63d7d556051915924999e28fe055ff6bd9e3e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 10/33] fix: MinimumRedundancyLinearArray rejects the last
 preset (n = 20)

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 6d19a23..f9b5d4f 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -680,7 +680,7 @@ class MinimumRedundancyLinearArray(GridBasedArrayDesign):
     """
 
     def __init__(self, n, d0, name=None, **kwargs):
-        if n < 1 or n >= len(_MRLA_PRESETS):
+        if n < 1 or n > len(_MRLA_PRESETS):
             raise ValueError('The MRLA presets only support up to 20 elements.')
         if name is None:
             name = 'MRLA {0}'.format(n)
-- 
2.43.0


From 35e419529921358b0d9ea59917ef0767e48814f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 11/33] fix: UniformCircularArray ignores keyword arguments

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index f9b5d4f..612ced0 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -704,7 +704,7 @@ class UniformCircularArray(ArrayDesign):
         self._r = r
         theta = np.linspace(0., np.pi * (2.0 - 2.0 / n), n)
         locations = np.vstack((r * np.cos(theta), r * np.sin(theta))).T
-        super().__init__(locations, name)
+        super().__init__(locations, name, **kwargs)
 
     @property
     def radius(self):
-- 
2.43.0


From 0b1be1abdd142fb730c8af2ff45d9bb186c3c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 12/33] fix: out-of-range far-field 1D sources should lead to a
 ValueError

---
 doatools/model/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 8e619a6..06a451b 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -197,8 +197,8 @@ class FarField1DSourcePlacement(SourcePlacement):
         lb, ub = FarField1DSourcePlacement.VALID_RANGES[unit]
         if np.any(locations < lb) or np.any(locations > ub):
             raise ValueError(
-                "When unit is '{0}', source locations must be within [{0}, {1}]."
-                .format_map(unit, lb, ub)
+                "When unit is '{0}', source locations must be within [{1}, {2}]."
+                .format(unit, lb, ub)
             )
         super().__init__(locations, (unit,))
 
-- 
2.43.0


From babc955f6cf6cf2f4225edf5a17f86ec447c9dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 13/33] fix: integer source locations are truncated by in-place
 updates

Refining the estimates on a grid with integer axes returned truncated
estimates, and the ML estimators failed to refine integer initial estimates.
---
 doatools/model/sources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 06a451b..8441e96 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -17,6 +17,11 @@ class SourcePlacement(ABC):
     """
 
     def __init__(self, locations, units):
+        if not np.issubdtype(locations.dtype, np.floating):
+            # Source locations are real-valued. Integer inputs would otherwise
+            # lead to truncations when the locations are updated in-place (e.g.,
+            # when refining the estimates).
+            locations = locations.astype(np.float64)
         self._locations = locations
         self._units = units
 
-- 
2.43.0


From 0b6c9a268f636bb25ac3bb380c01723d432c2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 14/33] fix: FarField1DSearchGrid does not support multiple
 uniform grids

The axis was not a vector, and every uniform grid was written to the beginning
of the axis.
---
 doatools/estimation/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index de5e7a2..1cb8797 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -264,10 +264,11 @@ class FarField1DSearchGrid(SearchGrid):
                 locations = np.linspace(start, stop, size, endpoint=False)
             else:
                 n_points = sum(size)
-                locations = np.zeros((n_points, 1))
+                locations = np.zeros((n_points,))
                 offset = 0
                 for k in range(len(start)):
-                    locations[offset:offset+size[k], 0] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    locations[offset:offset+size[k]] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    offset += size[k]
             super().__init__((locations,), ('DOA',), (unit,))
     
     def _create_source_placement(self):
-- 
2.43.0


From 9d39e3cbe6f56346c06ca46b979d92a6d287c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 15/33] fix: NearField2DSearchGrid cannot be instantiated

The abstract method create_refined_grid_at was not implemented because of the
incorrect method name.
---
 doatools/estimation/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index 1cb8797..fc9b092 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -415,7 +415,7 @@ class NearField2DSearchGrid(SearchGrid):
     def _create_source_placement(self):
         return NearField2DSourcePlacement(cartesian(*self._axes))
 
-    def create_refined_grids_at(self, coord, density=10, span=1):
+    def create_refined_grid_at(self, coord, density=10, span=1):
         """Creates a finer search grid for 2D near-field sources.
         
         Args:
-- 
2.43.0


From b747d64aa35ac3ae95f6a771f7e45dd0ba32079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 16/33] fix: RandomPhaseSignal does not support scalar
 amplitudes

---
 doatools/model/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index a2282cd..946d4a0 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -93,7 +93,7 @@ class RandomPhaseSignal(SignalGenerator):
     def __init__(self, dim, amplitudes=1.0):
         self._dim = dim
         if np.isscalar(amplitudes):
-            self._amplitudes = np.full(amplitudes, (dim, 1))
+            self._amplitudes = np.full((dim, 1), amplitudes)
         else:
             if amplitudes.size != dim:
                 raise ValueError("The size of 'amplitudes' does not match the value of 'dim'.")
-- 
2.43.0


From 5297c21507863b92854c46b8e4ad78a3ebc06a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 17/33] fix: ecov_coarray_music_1d assumes half-wavelength
 virtual arrays

---
 doatools/performance/mse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/mse.py b/doatools/performance/mse.py
index aece6fa..bdb080c 100644
--- a/doatools/performance/mse.py
+++ b/doatools/performance/mse.py
@@ -133,7 +133,7 @@ def ecov_coarray_music_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     A = array.steering_matrix(sources, wavelength)
     R_ideal = (A * p) @ A.conj().T + sigma * np.eye(m)
     # Compute virtual array related variable.
-    arr_virtual = UniformLinearArray(m_v, wavelength / 2.0)
+    arr_virtual = UniformLinearArray(m_v, array.d0)
     Av, DAv = arr_virtual.steering_matrix(sources, wavelength, True)
     Rss_ideal = (Av * p) @ Av.conj().T + sigma * np.eye(m_v)
     # Construct the subarray selection matrices.
-- 
2.43.0


From 757f75bf4e0194b9272cfac65bb442fa49cfa27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 18/33] fix: AIC/MDL fail when the product of eigenvalues
 under- or overflows

---
 doatools/estimation/source_number.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index d11dfd8..323abfd 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -18,7 +18,9 @@ def ld_stat(l, n_sources, n_snapshots):
     n_sensors = l.size
     diff = n_sensors - n_sources
     l = l[:diff]
-    return n_snapshots * diff * log(np.sum(l) / diff / (np.prod(l)**(1./diff)))
+    # Compute the logarithm of the geometric mean directly. The product of the
+    # eigenvalues can easily overflow or underflow.
+    return n_snapshots * diff * (log(np.mean(l)) - np.mean(np.log(l)))
 
 def aic(x, n_snapshots):
     """Detects source numbers using AIC.
-- 
2.43.0


From 160df05631c85a65b743df131961031ad1e2526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 19/33] fix: SORTE depends on the scaling of the covariance
 matrix

The absolute threshold treats every eigenvalue gap as identical when the
eigenvalues are small (e.g., signals in the order of 1e-9).
---
 doatools/estimation/source_number.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index 323abfd..0386569 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -89,9 +89,13 @@ def sorte(x):
         raise ValueError('At least four eigenvalues required.')
     diffs = x[:-1] - x[1:]
     sigmas = [np.var(diffs[k:]) for k in range(n - 1)]
+    # Variances below this threshold are caused by rounding errors only. The
+    # threshold is relative because the number of sources should not depend on
+    # the scaling of the covariance matrix.
+    tol = (n * np.finfo(np.float_).eps * np.max(np.abs(x)))**2
     s = np.zeros((n - 2,))
     for k in range(n - 2):
-        if np.abs(sigmas[k]) < np.finfo(np.float_).eps:
+        if sigmas[k] <= tol:
             s[k] = np.inf
         else:
             s[k] = sigmas[k + 1] / sigmas[k]
-- 
2.43.0


From da4347cd6a7e4ffd9fe8d08228e900426522fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 20/33] fix: location errors are never visualized by
 plot_array/plot_coarray

---
 doatools/plotting/plot_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 325c04e..0591ec3 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -3,6 +3,7 @@ import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 import warnings
 from ..model.coarray import compute_unique_location_differences
+from ..model.perturbations import LocationErrors
 
 def _auto_scatter(ax, x, *args, **kwargs):
     """Scatter plots the input points (1D, 2D, or 3D).
@@ -41,7 +42,7 @@ def _fix_3d_aspect(ax):
 
 def _plot_array_impl(array, ax=None, coarray=False, show_location_errors=False):
     """Internal implementation for plotting arrays."""
-    if not array.has_perturbation('location_errors') and show_location_errors:
+    if not array.has_perturbation(LocationErrors) and show_location_errors:
         warnings.warn(
             'The input array does not have location errors.'
             'Visualization of location errors is disabled.'
-- 
2.43.0


From 3a697d643e34f20e21f52bc5a6f4c51e6c46a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 21/33] fix: plot_spectrum_1d does not draw on the specified
 axes

---
 doatools/plotting/plot_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 2d6829f..3743bde 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -92,9 +92,9 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
             plot_containers.append(container_sp)
         else:
             if use_log_scale:
-                plot_containers.append(plt.semilogy(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.semilogy(x, y, '-', label=label, color=color))
             else:
-                plot_containers.append(plt.plot(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.plot(x, y, '-', label=label, color=color))
     # Plot estimates
     if estimates is not None:
         if estimates.units != grid.units:
@@ -122,7 +122,7 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
     ax.margins(x=0)
     # Set up y-axis
     if not use_log_scale:
-        ax.set_ylim((0, plt.ylim()[1]))
+        ax.set_ylim((0, ax.get_ylim()[1]))
     ax.set_ylabel('Normalized spectrum')
     # Show the legend.
     if has_legend:
-- 
2.43.0


From bedcc7419a825b5720789ce1e95e809b55a09627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 22/33] fix: ArrayDesign.output_size does not consider vector
 sensors

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 612ced0..b1d2b3b 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -105,7 +105,7 @@ class ArrayDesign:
         In generate, the output size should be equal to ``size``. However, for
         vector sensor arrays, the output size is greater than the array size.
         """
-        return self.size
+        return self.size * self._element.output_size
     
     @property
     def element_locations(self):
-- 
2.43.0


From e5c5dccc109baf37ac6f0233768b3559552336a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 23/33] fix: spatial_smooth does not support integer covariance
 matrices

---
 doatools/estimation/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index d8002b7..befa811 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -32,7 +32,7 @@ def spatial_smooth(R, l, fb=False):
     Rf = R[:m-l+1, :m-l+1].copy()
     for i in range(1, l):
         Rf += R[i:i+m-l+1, i:i+m-l+1]
-    Rf /= l
+    Rf = Rf / l
     if not fb:
         return Rf
     
-- 
2.43.0


From 9de7b8f01c4c5fc66c998df0f8ef45d94997cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 24/33] fix: f_nll_stouc rejects covariance matrices whose
 determinants are below one

The log-determinant of a valid covariance matrix can be negative, and the
negative log-likelihood should be a real number.
---
 doatools/estimation/ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/ml.py b/doatools/estimation/ml.py
index ac7bfcd..638b18c 100644
--- a/doatools/estimation/ml.py
+++ b/doatools/estimation/ml.py
@@ -11,9 +11,9 @@ def f_nll_stouc(R, array, sources, wavelength, p, sigma):
     A = array.steering_matrix(sources, wavelength)
     S = (A * p) @ A.conj().T + sigma * np.eye(array.size)
     sgn, logdet = np.linalg.slogdet(S)
-    if sgn < 0 or logdet < 0:
+    if sgn.real <= 0:
         return np.Inf
-    return logdet + np.trace(np.linalg.solve(S, R))
+    return logdet + np.trace(np.linalg.solve(S, R)).real
 
 class CovarianceBasedMLEstimator(ABC):
     """Abstract base class for covariance based maximum-likelihood estimators.
-- 
2.43.0


From d8d437b450d4a2244bf942932dde04c16b8915ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 25/33] fix: unique_rows returns an index matrix of floats for
 empty input

---
 doatools/utils/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/utils/math.py b/doatools/utils/math.py
index 56c298f..646738a 100644
--- a/doatools/utils/math.py
+++ b/doatools/utils/math.py
@@ -125,7 +125,7 @@ def unique_rows(x, atol=0.0, rtol=1e-8, return_index=False, sort=False):
     n, m = x.shape
     # Handle the empty case
     if n == 0:
-        return (x.copy(), np.zeros((0, m))) if return_index else x.copy()
+        return (x.copy(), np.zeros((0,), dtype=np.int32)) if return_index else x.copy()
     # Scale the relative tolerance according to the maximum absolute value in x.
     xmin, xmax = np.nanmin(x), np.nanmax(x)
     tol = atol + rtol * max(abs(xmin), abs(xmax))
-- 
2.43.0


From 3ff60d08b3e8d5e14a44f90b66bd67c741ec3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 26/33] fix: elements of 3D arrays away from the origin are
 drawn outside of the view

---
 doatools/plotting/plot_array.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 0591ec3..ead63a4 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -32,10 +32,8 @@ def _fix_3d_aspect(ax):
         return
     # Force similar ranges and re-scales the view.
     for i in range(3):
-        if ranges[i] == 0:
-            limits[i] = [-max_range / 2.0, max_range / 2.0]
-        else:
-            limits[i] = [limits[i][0] * max_range / ranges[i], limits[i][1] * max_range / ranges[i]]
+        center = (limits[i][0] + limits[i][1]) / 2.0
+        limits[i] = [center - max_range / 2.0, center + max_range / 2.0]
     # This method is not documented but judging from its source it should do
     # the job for us.
     ax.auto_scale_xyz(limits[0], limits[1], limits[2])
-- 
2.43.0


From 22cc9e25834e2245ad0474d81b55501cde0b797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 27/33] fix: root-MUSIC prefers a root far outside of the unit
 circle left without a counterpart

---
 doatools/estimation/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index fc945bb..3f0ec1c 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -173,7 +173,7 @@ class RootMUSIC1D:
                     i = j
             inside.append(i)
         z = z[inside]
-        sorted_indices = np.argsort(1.0 - np.abs(z))
+        sorted_indices = np.argsort(np.abs(1.0 - np.abs(z)))
         if len(z) < k:
             return False, None
         else:
-- 
2.43.0


From 77959a2c4c44d6b4f008a5eca88fe2baceb2970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:14 +0000
Subject: [PATCH 28/33] fix: root-MUSIC is inaccurate when leading polynomial
 coefficients vanish

---
 doatools/estimation/music.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index 3f0ec1c..10ba484 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -154,6 +154,10 @@ class RootMUSIC1D:
         for i in range(1, m):
             coeff[i - 1] += np.sum(np.diag(C, i))
         coeff = np.hstack((coeff[::-1], np.sum(np.diag(C)), coeff.conj()))
+        # Leading coefficients consisting of rounding errors only lead to huge
+        # roots that ruin the accuracy of the remaining ones.
+        tol = m * np.finfo(np.float_).eps * np.max(np.abs(coeff))
+        coeff[np.abs(coeff) <= tol] = 0.0
         # Find the roots of the polynomial.
         z = np.roots(coeff)
         # Find k points inside the unit circle that are also closest to the unit
-- 
2.43.0


From 654fbea44f13c20257be943f8213b665792075d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 29/33] fix: modifying the actual element locations changes the
 array and its copies

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index b1d2b3b..8f4f18f 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -128,7 +128,7 @@ class ArrayDesign:
             1. number of dimensions of the nominal array;
             2. number of dimensions of the sensor location errors.
         """
-        locations = self._locations
+        locations = self._locations.copy()
         for p in self._perturbations.values():
             locations = p.perturb_sensor_locations(locations)
         return locations
-- 
2.43.0


From f3d1fc7b70b74e588287c9f19e12538594d3bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:33 +0000
Subject: [PATCH 30/33] fix: keep end-fire directions of from_z() in range
 despite rounding errors

---
 doatools/model/sources.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 8441e96..a344e5d 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -226,6 +226,9 @@ class FarField1DSourcePlacement(SourcePlacement):
         """
         c = 2 * np.pi * d0 / wavelength
         sin_vals = np.angle(z) / c
+        # End-fire directions may leave [-1, 1] because of rounding errors.
+        rounding = np.abs(np.abs(sin_vals) - 1.0) < 1e-12
+        sin_vals[rounding] = np.sign(sin_vals[rounding])
         if unit == 'sin':
             sin_vals.sort()
             return FarField1DSourcePlacement(sin_vals, 'sin')
-- 
2.43.0


From 7dff955589873bb938779df2ef953b073fb3b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:38 +0000
Subject: [PATCH 31/33] fix: get_virtual_ula() failed for arrays without a name

---
 doatools/estimation/coarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/coarray.py b/doatools/estimation/coarray.py
index ee9d3e5..fde2eeb 100644
--- a/doatools/estimation/coarray.py
+++ b/doatools/estimation/coarray.py
@@ -50,7 +50,7 @@ class CoarrayACMBuilder1D:
             ~doatools.model.arrays.UniformLinearArray: A uniform linear array
             corresponding to the augmented covariance matrix.
         """
-        if name is None:
+        if name is None and self._array.name is not None:
             name = 'Virtual ULA of ' + self._array.name
         return UniformLinearArray(self.output_size, self._array.d0, name)
 
-- 
2.43.0


From 7502205fbad832d30aba302c27d9479966eb5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:42 +0000
Subject: [PATCH 32/33] fix: virtual arrays of 1D grids with a negative basis
 vector were mirrored

---
 doatools/estimation/coarray.py | 2 +-
 doatools/performance/mse.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/coarray.py b/doatools/estimation/coarray.py
index fde2eeb..781d584 100644
--- a/doatools/estimation/coarray.py
+++ b/doatools/estimation/coarray.py
@@ -52,7 +52,7 @@ class CoarrayACMBuilder1D:
         """
         if name is None and self._array.name is not None:
             name = 'Virtual ULA of ' + self._array.name
-        return UniformLinearArray(self.output_size, self._array.d0, name)
+        return UniformLinearArray(self.output_size, self._array.bases[0], name)
 
     def transform(self, R, method='ss'):
         """Transforms the input sample covariance matrix.
diff --git a/doatools/performance/mse.py b/doatools/performance/mse.py
index bdb080c..fe28a5a 100644
--- a/doatools/performance/mse.py
+++ b/doatools/performance/mse.py
@@ -133,7 +133,7 @@ def ecov_coarray_music_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     A = array.steering_matrix(sources, wavelength)
     R_ideal = (A * p) @ A.conj().T + sigma * np.eye(m)
     # Compute virtual array related variable.
-    arr_virtual = UniformLinearArray(m_v, array.d0)
+    arr_virtual = UniformLinearArray(m_v, array.bases[0])
     Av, DAv = arr_virtual.steering_matrix(sources, wavelength, True)
     Rss_ideal = (Av * p) @ Av.conj().T + sigma * np.eye(m_v)
     # Construct the subarray selection matrices.
-- 
2.43.0


From c3c546a64e688649aa7e610b2c6ab77da25c11e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:31 +0000
Subject: [PATCH 33/33] fix: ComplexStochasticSignal emits wrong signals for
 singular covariance matrices

---
 doatools/model/signals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index 946d4a0..4d9a297 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -1,6 +1,5 @@
 from abc import ABC, abstractmethod
 import numpy as np
-from scipy.linalg import sqrtm
 from ..utils.math import randcn
 
 class SignalGenerator(ABC):
@@ -60,7 +59,9 @@ class ComplexStochasticSignal(SignalGenerator):
             # Matrix
             if C.shape[0] != dim or C.shape[1] != dim:
                 raise ValueError('The shape of C must be ({0}, {0}).'.format(dim))
-            self._C2 = sqrtm(C)
+            # sqrtm is unreliable for singular matrices (coherent sources).
+            w, V = np.linalg.eigh(C)
+            self._C2 = (V * np.sqrt(np.maximum(w, 0.0))) @ V.conj().T
             self._generator = lambda n: self._C2 @ randcn((self._dim, n))
         else:
             raise ValueError(
-- 
2.43.0

