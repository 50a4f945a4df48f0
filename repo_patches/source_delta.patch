From 3b215ee654e1dc6c2a69f09de72139f8a28fd154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 01/28] fix: SWMF header states the number of coefficient lines
 that follow

---
 starwinds_magnetogram/reader_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 6a4d09b..07c193e 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -112,7 +112,7 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
 
 
     if write_swmf_header:
-        header_lines = create_swmf_header(file_name, len(coefficient_data_lines[0]), degree_max,
+        header_lines = create_swmf_header(file_name, len(coefficient_data_lines), degree_max,
                                     carrington_rotation_number=0, dlon=0.0)
     else:
         header_lines = ["Output of %s" % __file__, "Order:%d" % degree_max]
-- 
2.43.0


From 06a432d94578e738a0e83b9268f59613bebc0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 02/28] fix: energy of a magnetogram without an axisymmetric
 dipole coefficient

---
 starwinds_magnetogram/zdi_magnetogram.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 18b37cd..c1e6b59 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -449,10 +449,9 @@ class ZdiMagnetogram:
             dict_['magnetogram.total.energy.toroidal.axisymmetric.fraction'] = toroidal_axisym / total_energy_toroidal
 
             
-            symdipfrac_numerator = (energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)]
+            symdipfrac_numerator = np.sum(
+                (energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)])
             symdipfrac_denominator = np.sum((energy_alpha + energy_beta)[self.degrees_l == 1])
-            assert len(symdipfrac_numerator) == 1
-            symdipfrac_numerator = symdipfrac_numerator[0]
             symdipfrac = symdipfrac_numerator / symdipfrac_denominator 
 
             dict_['magnetogram.total.energy.dipole.axisymmetric.fraction'] = symdipfrac
-- 
2.43.0


From b1c9d6728911ab60669e9b351e1925bef1bbf917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 03/28] fix: energies are real also when the coefficients are
 large

---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index c1e6b59..7fe7687 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -510,7 +510,7 @@ class ZdiMagnetogram:
         if require_l_term:
             result *= self.degrees_l / (self.degrees_l + 1)
 
-        return np.real_if_close(result)
+        return np.real(result)  # The imaginary parts cancel up to rounding errors.
 
     def _dplm(self, p_lm, points_polar):
         """
-- 
2.43.0


From 46307cef828b7f24ff0c22e6f790e6eadaa2b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 04/28] fix: Parker speed and density do not overwrite the
 caller's radii

---
 starwinds_magnetogram/parker_solution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 0051dd6..3e8eb85 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -99,8 +99,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds_dimensionless = self.find_parker_analytic(radii / self.radius_sonic)
         speeds = speeds_dimensionless * self.speed_sonic
@@ -112,8 +111,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds = self.speed(radii)
         densities = self.base_density * \
-- 
2.43.0


From b3bfc312952a7abfc6078da473b13913248d03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 05/28] fix: longitudinal field values are not truncated for
 integer azimuths

---
 starwinds_magnetogram/longitudinal_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/longitudinal_field.py b/starwinds_magnetogram/longitudinal_field.py
index 569a3e9..0a72668 100644
--- a/starwinds_magnetogram/longitudinal_field.py
+++ b/starwinds_magnetogram/longitudinal_field.py
@@ -21,7 +21,7 @@ def get_longitudinal_field_curve(zdi_geometry, zdi_magnetogram, observer_polar,
     if observer_azimuths is None:
         observer_azimuths = np.deg2rad(np.linspace(0, 360, zdi_geometry.shape[0]))
 
-    longitudinal_fields = np.empty_like(observer_azimuths)
+    longitudinal_fields = np.empty_like(observer_azimuths, dtype=float)
 
     areas = zdi_geometry.areas()
 
-- 
2.43.0


From 8a70b6256c15a56e0e34cb8db829ef5fdbdc76ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 06/28] fix: polar and azimuthal labels were swapped in
 sw-plot-magnetogram

---
 starwinds_magnetogram/bin/plot_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/bin/plot_magnetogram.py b/starwinds_magnetogram/bin/plot_magnetogram.py
index 955d3e8..9682ef2 100644
--- a/starwinds_magnetogram/bin/plot_magnetogram.py
+++ b/starwinds_magnetogram/bin/plot_magnetogram.py
@@ -43,8 +43,8 @@ def main():
     _star_name = guess_star_name_from_filename(args.input_file)
 
     _getters = {'radial': (lz.get_radial_field, 'B_r'),
-                'polar': (lz.get_polar_field, r'B_\phi'),
-                'azimuthal': (lz.get_azimuthal_field, r'B_\theta'),
+                'polar': (lz.get_polar_field, r'B_\theta'),
+                'azimuthal': (lz.get_azimuthal_field, r'B_\phi'),
                 'strength': (lz.get_field_strength, '|B|')}
     _getters['azimuth'] = _getters['azimuthal']
 
-- 
2.43.0


From b72638fe0f0fa0b072518a5d6cd83faf1751bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 07/28] fix: wavelength intervals contain each sample exactly
 once

---
 starwinds_magnetogram/plot_lsd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index d27ac0b..7a1f1ef 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -39,10 +39,8 @@ def wl_intervals(wavelengths, threshold=0.2):
     abs_diffs = np.abs(np.diff(wavelengths))
     skips = np.where(abs_diffs > threshold)[0]
     print(skips)
-    interval_starts = np.concatenate(([0],skips))
-    interval_ends = np.concatenate(
-        (skips + 1,
-         np.array([len(wavelengths)-1])))
+    interval_starts = np.concatenate(([0], skips + 1))
+    interval_ends = np.concatenate((skips + 1, [len(wavelengths)]))
     return zip(interval_starts, interval_ends)
 
 
-- 
2.43.0


From a731b2ad88efbecaee0207a8ed9c7d1286942cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 08/28] fix: LSD plots with a single panel

---
 starwinds_magnetogram/bin/plot_lsd.py | 2 +-
 starwinds_magnetogram/plot_lsd.py     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/plot_lsd.py b/starwinds_magnetogram/bin/plot_lsd.py
index 172e915..d396398 100644
--- a/starwinds_magnetogram/bin/plot_lsd.py
+++ b/starwinds_magnetogram/bin/plot_lsd.py
@@ -29,7 +29,7 @@ def main():
     parameters = args.params
     _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True)
     plot_lsd.plot_lsd_profile(base_data, parameters=parameters)
-    axs[0].set_title('Data in %s' % args.input_file)
+    np.atleast_1d(axs)[0].set_title('Data in %s' % args.input_file)
 
     if args.output_file is None:
         plt.show()
diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index 7a1f1ef..a92ec21 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -109,6 +109,7 @@ def plot_lsd_stack(data_stack, name_stack, y_lim=None):
     if len(fig.axes) != len(data_stack):
         log.debug('Create new plot with %d subplots' % len(data_stack))
         fig, axs = plt.subplots(len(data_stack), figsize=(12, len(data_stack)), sharex=True)
+        axs = np.atleast_1d(axs)
     else:
         log.debug('Reuse existing plot (with 3 subplots).')
 
-- 
2.43.0


From dd22dc02b5446abd48743fa99ebf1397a18f25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 09/28] fix: refuse to overwrite the input file when it is
 given by another path

---
 starwinds_magnetogram/bin/convert_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index 4b563fd..c07cd47 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -104,7 +104,7 @@ def _make_output_filename(input_file, output_name, postfix):
         if os.path.exists(output_name):
             raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
 
-    if input_file == output_name:
+    if os.path.realpath(input_file) == os.path.realpath(output_name):
         raise ValueError("Input and output file names are the same. Please provide a (different) output file name.")
 
     return output_name
-- 
2.43.0


From 033b815a36af91317a9e770954a47cf4c4494292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 10/28] fix: energy matrix plot of magnetograms with small
 energies

---
 starwinds_magnetogram/plot_zdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 4218e53..41afa51 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -169,7 +169,7 @@ def _plot_energy(zc, name="total", negative_orders=False, ax=None):
         vmax = 1
     else:
         vmax = energy.max()
-        vmin = (energy[energy > 0]).max()**-1
+        vmin = energy[energy > 0].min()
     img = ax.imshow(energy,
                     # cmap='Greys',
                     norm=colors.LogNorm(vmin=vmin, vmax=vmax,))
-- 
2.43.0


From 6aa14a03eb034b9c8005024624f095e78000f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 11/28] fix: refuse to overwrite the input file also through a
 hard link

---
 starwinds_magnetogram/bin/convert_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index c07cd47..eeff332 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -104,7 +104,7 @@ def _make_output_filename(input_file, output_name, postfix):
         if os.path.exists(output_name):
             raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
 
-    if os.path.realpath(input_file) == os.path.realpath(output_name):
+    if input_file == output_name or (os.path.exists(output_name) and os.path.samefile(input_file, output_name)):
         raise ValueError("Input and output file names are the same. Please provide a (different) output file name.")
 
     return output_name
-- 
2.43.0


From c695eaa6e8594ddcee5606082fd05a761e696e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 12/28] fix: default coefficients do not share memory with
 arrays of the caller

---
 starwinds_magnetogram/coefficients.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index d282542..52b4f0b 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -13,7 +13,7 @@ class Coefficients(object):
     def __init__(self, default_coefficients=0j):
         """Create an empty set of coefficients"""
         self.coefficients = {}
-        self._default_coefficients = np.atleast_1d(default_coefficients)
+        self._default_coefficients = np.array(default_coefficients, ndmin=1)  # Always a copy.
         self._degree_max = 0
         self._order_min = 0
 
@@ -53,7 +53,9 @@ class Coefficients(object):
         assert type(degree) == int, "Degree index must be integer"
         assert type(order) == int, "Order index must be integer"
 
-        return self.coefficients.get((degree, order), self._default_coefficients)
+        if (degree, order) not in self.coefficients:
+            return self.default_coefficients  # This is a copy.
+        return self.coefficients[(degree, order)]
 
     @property
     def degree_max(self):
-- 
2.43.0


From 7ff9873b9eb452a6a6d9014ff36f02ba5caf2764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 13/28] fix: comparison of empty coefficient sets

---
 starwinds_magnetogram/coefficients.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 52b4f0b..40aff13 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -222,24 +222,18 @@ def allclose(shc0,
         return False
 
     bool_coeffs = isclose(shc0, shc1, **kwargs)
-    bool_values = np.stack([v for k, v in bool_coeffs.contents()])
 
-    return np.all(bool_values)
+    return all(np.all(v) for k, v in bool_coeffs.contents())
 
 
 def isclose(shc0, shc1, **kwargs):
 
     keys = set.union(*[set(a.coefficients) for a in (shc0, shc1)])
 
-    c0 = np.vstack([shc0.get(degree, order) for degree, order in keys])
-    c1 = np.vstack([shc1.get(degree, order) for degree, order in keys])
-
-    bools = np.isclose(c0, c1, **kwargs)
-
     # Use a boolean array as the default coefficient
     coeffs = Coefficients(default_coefficients=np.empty_like(shc0.default_coefficients, dtype=bool))
-    for (degree, order), bool_ in zip(keys, bools):
-        coeffs.append(degree, order, bool_)
+    for degree, order in keys:
+        coeffs.append(degree, order, np.isclose(shc0.get(degree, order), shc1.get(degree, order), **kwargs))
     return coeffs
 
 
-- 
2.43.0


From 66938db1bf9745089f5f8f31668652e3fb5faea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 14/28] fix: from_arrays refuses arrays of different lengths
 instead of dropping elements

---
 starwinds_magnetogram/coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 40aff13..8570bbd 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -183,7 +183,7 @@ def from_arrays(degrees_l,
     if len(coeffs_lm.shape) == 1:
         coeffs_lm = coeffs_lm[:, np.newaxis]
 
-    if degrees_l.shape[0] != coeffs_lm.shape[0]:
+    if not degrees_l.shape[0] == orders_m.shape[0] == coeffs_lm.shape[0]:
         raise IndexError("First index must match.")
 
     coeffs_obj = Coefficients(0 * coeffs_lm[0])
-- 
2.43.0


From 5ee3a6337f2a61e91c23ab0f906de615356e31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 15/28] fix: Parker solution is real and finite at the sonic
 point

---
 starwinds_magnetogram/parker_solution.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 3e8eb85..43d4d00 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -45,12 +45,19 @@ class AnalyticBase:
             else:
                 return branches[1]
 
+        def _real_lambertw(_x, _k):
+            # Both real branches meet with the value -1 at x = -1/e (the sonic point). Close to that point rounding
+            # errors make lambertw return complex values or nan.
+            branch_point = -np.exp(-1)
+            if _x <= branch_point * (1 - 4 * np.finfo(float).eps):
+                return -np.ones(np.shape(_k))
+            return np.real(lambertw(_x, _k))
+
         if not all_sols:
-            w = np.sqrt(-lambertw(-np.exp(-_parker_rhs - 1), _branch(radius_dimensionless)))
-            return np.real_if_close(w)
+            w = np.sqrt(-_real_lambertw(-np.exp(-_parker_rhs - 1), _branch(radius_dimensionless)))
+            return w
         else:
-            w = np.sqrt(-lambertw(-np.exp(-_parker_rhs - 1), branches))
-            w = np.real_if_close(w)
+            w = np.sqrt(-_real_lambertw(-np.exp(-_parker_rhs - 1), branches))
             return w[0], w[1]
 
 
-- 
2.43.0


From be86e6ae229a7ab9c50e9a5f66e57a2520e41630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 16/28] fix: associated Legendre functions of negative order
 used the values of unrelated orders

---
 starwinds_magnetogram/associated_legendre.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index a702eba..7245305 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -9,8 +9,16 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
     :param points_polar: point polar angle values
     :return: tuple of values and derivative values. The last index corresponds to the order and degree.
     """
+    # The negative orders are obtained from the positive orders by rescaling.
+    abs_orders_m = np.abs(orders_m)
+    negative_order_factor = np.where(np.asarray(orders_m) < 0,
+                                     (-1.0) ** abs_orders_m
+                                     * scipy.special.factorial(degrees_l - abs_orders_m)
+                                     / scipy.special.factorial(degrees_l + abs_orders_m),
+                                     1.0)
+
     max_degree = np.max(degrees_l)
-    max_order = np.max(orders_m)
+    max_order = np.max(abs_orders_m)
     Pmn_cos_theta_result = np.empty(points_polar.shape + (max_order + 1, max_degree + 1))
     Pmn_d_cos_theta_result = np.empty_like(Pmn_cos_theta_result)
 
@@ -24,7 +32,7 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
         with np.errstate(invalid='ignore'):
             Pmn_d_cos_theta_result[ndindex] = b * -np.sin(points_polar[ndindex])
 
-    Pmn_cos_theta_result = Pmn_cos_theta_result[..., orders_m, degrees_l]
-    Pmn_d_cos_theta_result = Pmn_d_cos_theta_result[..., orders_m, degrees_l]
+    Pmn_cos_theta_result = Pmn_cos_theta_result[..., abs_orders_m, degrees_l] * negative_order_factor
+    Pmn_d_cos_theta_result = Pmn_d_cos_theta_result[..., abs_orders_m, degrees_l] * negative_order_factor
 
-    return Pmn_cos_theta_result, Pmn_d_cos_theta_result
\ No newline at end of file
+    return Pmn_cos_theta_result, Pmn_d_cos_theta_result
-- 
2.43.0


From 9eb441a9887ccbd72a4f4b48e435181c67a18823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 17/28] fix: fields are finite and consistent on the rotation
 axis

---
 starwinds_magnetogram/associated_legendre.py | 39 ++++++++++++++++++++
 starwinds_magnetogram/pfss_magnetogram.py    |  9 ++++-
 starwinds_magnetogram/zdi_magnetogram.py     | 10 ++---
 3 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index 7245305..848aa61 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -23,6 +23,12 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
     Pmn_d_cos_theta_result = np.empty_like(Pmn_cos_theta_result)
 
     for ndindex in np.ndindex(points_polar.shape):
+        if np.abs(np.cos(points_polar[ndindex])) == 1:
+            # On the axis lpmn is unreliable, and some of its derivatives are infinite; use the limits.
+            Pmn_cos_theta_result[ndindex], Pmn_d_cos_theta_result[ndindex] = \
+                _limits_on_axis(max_order, max_degree, np.cos(points_polar[ndindex]))
+            continue
+
         a, b = scipy.special.lpmn(m=max_order,
                                   n=max_degree,
                                   z=np.cos(points_polar[ndindex]))
@@ -36,3 +42,36 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
     Pmn_d_cos_theta_result = Pmn_d_cos_theta_result[..., abs_orders_m, degrees_l] * negative_order_factor
 
     return Pmn_cos_theta_result, Pmn_d_cos_theta_result
+
+
+def _limits_on_axis(max_order, max_degree, cos_theta):
+    r"""
+    Limits of $P(\cos\theta)$ and $\partial \theta P(\cos \theta)$ where $\cos\theta$ is 1 or -1. Only the $m=0$ values and
+    the $m=1$ derivatives differ from zero.
+    """
+    degrees = np.arange(max_degree + 1)
+    values = np.zeros((max_order + 1, max_degree + 1))
+    derivatives = np.zeros_like(values)
+    values[0] = cos_theta ** degrees
+    if max_order > 0:
+        derivatives[1] = -0.5 * degrees * (degrees + 1) * cos_theta ** degrees
+
+    return values, derivatives
+
+
+def lpmv_over_sin(order_m, degree_l, points_polar):
+    r"""
+    Calculate $P(\cos\theta) / \sin\theta$, using the limit on the axis. There is no such limit for $m=0$, where zero
+    is used on the axis (the value is always multiplied by $m$).
+    """
+    cos_theta = np.cos(points_polar)
+    on_axis = np.abs(cos_theta) == 1
+
+    limit = 0.0 * cos_theta
+    if order_m == 1:
+        limit = -0.5 * degree_l * (degree_l + 1) * cos_theta ** (degree_l + 1)
+    elif order_m == -1:
+        limit = 0.5 * cos_theta ** (degree_l + 1)
+
+    return np.where(on_axis, limit, scipy.special.lpmv(order_m, degree_l, cos_theta)
+                    / np.where(on_axis, 1.0, np.sin(points_polar)))
diff --git a/starwinds_magnetogram/pfss_magnetogram.py b/starwinds_magnetogram/pfss_magnetogram.py
index 3ff5e0a..d254379 100644
--- a/starwinds_magnetogram/pfss_magnetogram.py
+++ b/starwinds_magnetogram/pfss_magnetogram.py
@@ -197,6 +197,11 @@ def evaluate_spherical(
 
     buffered_theta, buffered_dtheta = calculate_all_theta(degree_l, order_m, points_polar)
 
+    # On the axis the azimuthal field $\Theta / \sin\theta$ is replaced by its limit $\Theta' / \cos\theta$.
+    on_axis = np.abs(np.cos(points_polar)) == 1
+    azimuthal_theta = np.where(on_axis[..., np.newaxis], buffered_dtheta, buffered_theta)
+    azimuthal_divisor = np.where(on_axis, np.cos(points_polar), np.sin(points_polar))
+
     # Loop over magnetogram coefficient lines
     for coeff_id, (deg_l, ord_m, g_lm, h_lm) in enumerate(zip(degree_l,
                                                        order_m,
@@ -214,11 +219,11 @@ def evaluate_spherical(
 
         unscaled_radial    = _r_l[1] * buffered_theta[..., coeff_id]  * _phi_lm[0]
         unscaled_polar     = _r_l[0] * buffered_dtheta[..., coeff_id] * _phi_lm[0]
-        unscaled_azimuthal = _r_l[0] * buffered_theta[..., coeff_id]  * _phi_lm[1]
+        unscaled_azimuthal = _r_l[0] * azimuthal_theta[..., coeff_id] * _phi_lm[1]
 
         field_radial    -= unscaled_radial
         field_polar     -= unscaled_polar / points_radial
-        field_azimuthal -= np.divide(unscaled_azimuthal, points_radial * np.sin(points_polar),
+        field_azimuthal -= np.divide(unscaled_azimuthal, points_radial * azimuthal_divisor,
                                      out=np.zeros_like(field_azimuthal),
                                      where=unscaled_azimuthal != 0)
 
diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 7fe7687..0d15940 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -137,13 +137,12 @@ class ZdiMagnetogram:
         field_azimuthal_poloidal = np.zeros_like(points_azimuth, dtype=complex)
 
         for deg_l, ord_m, b_lm, c_lm in zip(self.degrees_l, self.orders_m, self.beta, self.c_lm):
-            p_lm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
+            p_lm_over_sin = associated_legendre.lpmv_over_sin(ord_m, deg_l, points_polar)
             field_azimuthal_poloidal -= (b_lm
                                      * c_lm
-                                     * p_lm
+                                     * p_lm_over_sin
                                      * 1.0j * ord_m * np.exp(1.0j * ord_m * points_azimuth)
                                      / (deg_l + 1)
-                                     / np.sin(points_polar)
                                      )
 
         return np.real(field_azimuthal_poloidal)
@@ -255,13 +254,12 @@ class ZdiMagnetogram:
         field_polar_toroidal = np.zeros_like(points_azimuth, dtype=complex)
 
         for deg_l, ord_m, g_lm, c_lm in zip(self.degrees_l, self.orders_m, self.gamma, self.c_lm):
-            p_lm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
+            p_lm_over_sin = associated_legendre.lpmv_over_sin(ord_m, deg_l, points_polar)
             field_polar_toroidal += (g_lm
                                          * c_lm
-                                         * p_lm
+                                         * p_lm_over_sin
                                          * 1.0j * ord_m * np.exp(1.0j * ord_m * points_azimuth)
                                          / (deg_l + 1)
-                                         / np.sin(points_polar)
                                          )
 
         return np.real(field_polar_toroidal)
-- 
2.43.0


From 63c2edd52b58843aefdddf614fc9fc1c45e9148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 18/28] fix: cartesian poloidal and toroidal fields

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 0d15940..ab9cafb 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -557,7 +557,7 @@ class ZdiMagnetogram:
         """
         # Field components in spherical coordinates
         frpa = [self.get_radial_poloidal_field(points_polar, points_azimuth),
-                self.get_polar_poloidal_field(points_polar, points_azimuth),
+                self.get_polar_poloidal_field_new(points_polar, points_azimuth),
                 self.get_azimuthal_poloidal_field(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
@@ -569,7 +569,7 @@ class ZdiMagnetogram:
         # Field components in spherical coordinates
         frpa = [self.get_radial_toroidal_field(points_polar, points_azimuth),
                 self.get_polar_toroidal_field(points_polar, points_azimuth),
-                self.get_azimuthal_toroidal_field(points_polar, points_azimuth)]
+                self.get_azimuthal_toroidal_field_new(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
 
-- 
2.43.0


From 8a331fa8e10136cc9a2674b3dfc57b4c4cc9c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 19/28] fix: spherical harmonic cache cannot be changed by the
 caller

---
 starwinds_magnetogram/image_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/image_converter.py b/starwinds_magnetogram/image_converter.py
index bf39932..eb9e810 100644
--- a/starwinds_magnetogram/image_converter.py
+++ b/starwinds_magnetogram/image_converter.py
@@ -94,7 +94,7 @@ def spherical_harmonic(ord_m, deg_l, azimuth, polar, use_cache=True):
 
         ylm = _cached_spherical_harmonic(ord_m, deg_l, azimuth_tuple, polar_tuple)
 
-        return ylm
+        return ylm.copy()  # The caller should not be able to change the cached array.
     else:
         return sph_harm(ord_m, deg_l, azimuth, polar)
 
-- 
2.43.0


From 7f44ffdc564b12f35424e1009a2000c3a913aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 20/28] fix: PFSS slice plots in planes normal to y and z

---
 starwinds_magnetogram/plot_pfss.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_pfss.py b/starwinds_magnetogram/plot_pfss.py
index 4e9b187..50ed97e 100644
--- a/starwinds_magnetogram/plot_pfss.py
+++ b/starwinds_magnetogram/plot_pfss.py
@@ -78,15 +78,17 @@ def plot_slice(coefficients, normal="x", rmax=5,
     fig.colorbar(im).set_label('Radial field strength')
 
     ax.set_aspect('equal')
-    ax.set_xlabel(r'Distance $x/r_{\star}$')
-    ax.set_ylabel(r'Distance $z/r_{\star}$')
+    # The coordinates and field components in the slice plane.
+    (name1, f1), (name2, f2) = [(n, f) for n, f in zip("xyz", (fx, fy, fz)) if n != normal]
+    ax.set_xlabel(r'Distance $%s/r_{\star}$' % name1)
+    ax.set_ylabel(r'Distance $%s/r_{\star}$' % name2)
 
     # Add star and source surface.
     radial_distance = np.squeeze((px**2 + py**2 + pz**2)**.5)
     ax.contour(p1[:, :], p2[:, :], radial_distance, levels=[radius_star, radius_source_surface], colors='k')
 
     # Add field lines:
-    ax.streamplot(py[..., 0], pz[..., 0], fy[..., 0], fz[..., 0], color='k')
+    ax.streamplot(p1, p2, f1[..., 0], f2[..., 0], color='k')
 
     return fig, ax
 
-- 
2.43.0


From c5933937c028bc8d2e1b4530ee11a06416e5ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 21/28] fix: manual colorbar tick marks are placed at the
 values of their labels

---
 .../colorbar_manual_tickmarks.py              | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/starwinds_magnetogram/colorbar_manual_tickmarks.py b/starwinds_magnetogram/colorbar_manual_tickmarks.py
index 2f0cbf7..f843012 100644
--- a/starwinds_magnetogram/colorbar_manual_tickmarks.py
+++ b/starwinds_magnetogram/colorbar_manual_tickmarks.py
@@ -48,21 +48,15 @@ def fully_manual_tickmarks(axis, norm, major_values, major_labels, minor_values)
     :param minor_values:
     :return:
     """
-    ax = axis.axes
-    xlim = ax.get_xlim()
-    xmin = xlim[0]
-    xrange = xlim[1] - xlim[0]
+    # The colorbar axis has the same scale as the norm, so that the values are also the positions.
+    def inside(value):
+        return norm.vmin <= value <= norm.vmax
 
-    xticks_major = xrange * norm(major_values) + xmin
-    axis.set_ticks(xticks_major)
-    axis.set_ticklabels(major_labels)
+    major = [(value, label) for value, label in zip(major_values, major_labels) if inside(value)]
+    axis.set_ticks([value for value, _ in major])
+    axis.set_ticklabels([label for _, label in major])
 
-    xticks_minor = xrange * norm(minor_values) + xmin
-
-    xticks_minor = xticks_minor[xticks_minor >= xlim[0]]
-    xticks_minor = xticks_minor[xticks_minor <= xlim[1]]
-
-    axis.set_ticks(xticks_minor, minor=True)
+    axis.set_ticks([value for value in minor_values if inside(value)], minor=True)
 
 
 def generate_major(log10_min, log10_max, log10_step):
-- 
2.43.0


From 4059754a0f1a11fd40af5597460bce2b2cd13578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 22/28] fix: energy summary shows the fractions instead of
 filling each pie

---
 starwinds_magnetogram/plot_zdi.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 41afa51..b840d3e 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -10,6 +10,17 @@ import starwinds_magnetogram.geometry
 import starwinds_magnetogram.plots
 
 
+def _pie(ax, fractions, **kwargs):
+    """Pie chart of fractions of a whole; the part of the circle that is not accounted for remains empty.
+    Undefined fractions (fractions of zero energy) are drawn as zero."""
+    fractions = np.nan_to_num(fractions)
+    remainder = max(0.0, 1.0 - np.sum(fractions))
+    wedges, *texts = ax.pie([*fractions, remainder], **kwargs)
+    for artists in (wedges, *texts):
+        artists[-1].remove()
+    return wedges[:-1]
+
+
 def plot_energy_summary(zc, axs=None):
 
     if axs is None:
@@ -22,7 +33,7 @@ def plot_energy_summary(zc, axs=None):
     ax = axs[0]
     ax.set_title("Total energy")
 
-    w, *_ = ax.pie([results['magnetogram.poloidal.energy.fraction'],
+    w = _pie(ax, [results['magnetogram.poloidal.energy.fraction'],
                     results['magnetogram.toroidal.energy.fraction'],],
                        radius=2,
                        autopct='%1.0f%%',
@@ -35,7 +46,7 @@ def plot_energy_summary(zc, axs=None):
     wedges = list(w)
     wlabels = ["poloidal", "toroidal"]
 
-    w, *_ = ax.pie([results['magnetogram.radial.energy.fraction'],],
+    w = _pie(ax, [results['magnetogram.radial.energy.fraction'],],
                    radius=2,
                    autopct='%1.0f%%',
                    pctdistance=1,
@@ -48,7 +59,7 @@ def plot_energy_summary(zc, axs=None):
     wedges.extend(w)
     wlabels.append("radial")
 
-    w, *_ = ax.pie([results['magnetogram.total.energy.axisymmetric.fraction'],],
+    w = _pie(ax, [results['magnetogram.total.energy.axisymmetric.fraction'],],
                    radius=1,
                    # labels=("axisymmetric",),
                    autopct='%1.0f%%',
@@ -65,7 +76,7 @@ def plot_energy_summary(zc, axs=None):
     ax = axs[1]
     ax.set_title("Poloidal energy")
     labels = ("dipole", "quadrupole", "octopole")
-    w, *_ = ax.pie([results[f'magnetogram.total.energy.{c}.fraction'] for c in labels],
+    w = _pie(ax, [results[f'magnetogram.total.energy.{c}.fraction'] for c in labels],
            # labels=labels,
            radius=2,
            autopct='%1.1f%%',
@@ -78,7 +89,7 @@ def plot_energy_summary(zc, axs=None):
     wedges = list(w)
     wlabels = ["dipole", "quadrupole", "octopole"]
 
-    w, *_ = ax.pie([results['magnetogram.total.energy.poloidal.axisymmetric.fraction'],],
+    w = _pie(ax, [results['magnetogram.total.energy.poloidal.axisymmetric.fraction'],],
            radius=1,
            # labels=("axisymmetric",),
            autopct='%1.0f%%',
@@ -96,7 +107,7 @@ def plot_energy_summary(zc, axs=None):
         ax = axs[2]
         ax.set_title("Toroidal energy")
         labels = ("l1", "l2", "l3")
-        w, *_ = ax.pie([results[f'magnetogram.total.energy.toroidal.{c}.fraction'] for c in labels],
+        w = _pie(ax, [results[f'magnetogram.total.energy.toroidal.{c}.fraction'] for c in labels],
                # labels=labels,
                radius=2,
                autopct='%1.1f%%',
@@ -109,7 +120,7 @@ def plot_energy_summary(zc, axs=None):
         wedges = list(w)
         wlabels = ["$l1$", "$l2$", "$l3$"]
 
-        w, *_ = ax.pie([results['magnetogram.total.energy.toroidal.axisymmetric.fraction'],],
+        w = _pie(ax, [results['magnetogram.total.energy.toroidal.axisymmetric.fraction'],],
                radius=1,
                # labels=("axisymmetric",),
                autopct='%1.0f%%',
-- 
2.43.0


From 7ba231c6b2cabe21d6f73ba555f512e5c83aa094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 23/28] fix: division of coefficients by a numpy integer

An integer of numpy cannot be raised to the power -1, use a floating-point exponent.
---
 starwinds_magnetogram/coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 8570bbd..696edf3 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -156,7 +156,7 @@ class Coefficients(object):
             output.append(degree, order, coeffs**power)
         return output
 
-    def __truediv__(self, value): return multiply(self, value**-1)
+    def __truediv__(self, value): return multiply(self, value**-1.0)
 
     def truncated(self, degree_max): return truncated(self, degree_max)
 
-- 
2.43.0


From 648ac8be60c5be069dda2d2258f8e1054c6847ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 24/28] fix: polar angle of the origin is zero as documented

---
 starwinds_magnetogram/coordinate_transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coordinate_transforms.py b/starwinds_magnetogram/coordinate_transforms.py
index 695cd6b..eaf7a33 100644
--- a/starwinds_magnetogram/coordinate_transforms.py
+++ b/starwinds_magnetogram/coordinate_transforms.py
@@ -18,7 +18,7 @@ def spherical_coordinates_from_rectangular(px, py, pz):
     :return: radial, polar and azimuth coordinates
     """
     pr = (px**2 + py**2 + pz**2)**(1/2)
-    pp = np.arccos(np.divide(pz, pr, out=np.zeros_like(pr), where=pr != 0))
+    pp = np.arccos(np.divide(pz, pr, out=np.ones_like(pr), where=pr != 0))
     pa = np.arctan2(py, px)
 
     assert not np.any(np.isnan(pp))
-- 
2.43.0


From 55d0b8f4b695de246c66ff090fedb5594726c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 25/28] fix: energy matrix plot does not treat small energies
 as zero

---
 starwinds_magnetogram/plot_zdi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index b840d3e..64da9a3 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -169,12 +169,12 @@ def _plot_energy(zc, name="total", negative_orders=False, ax=None):
         def remove_negative(values):
             split_id = values.shape[1] // 2
             values_neg, values_nonneg = np.split(values, [split_id], axis=1)
-            assert np.allclose(values_neg, 0), "Negative orders not accepted."
+            assert not np.any(values_neg), "Negative orders not accepted."
             return values_nonneg
 
         energy = remove_negative(energy)
 
-    if np.allclose(energy, 0):
+    if not np.any(energy > 0):
         # If values are all zero use scale colorscale 0-1
         vmin = .1
         vmax = 1
-- 
2.43.0


From 308f895888b9d6c4ea0f86bfb019ec2ee4d81e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 26/28] fix: order labels of energy matrices with negative
 orders

---
 starwinds_magnetogram/plot_zdi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 64da9a3..6eef18d 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -3,7 +3,7 @@ log = logging.getLogger(__name__)
 
 import numpy as np
 from matplotlib import pyplot as plt, colors
-from matplotlib.ticker import IndexLocator
+from matplotlib.ticker import IndexLocator, MaxNLocator
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 
 import starwinds_magnetogram.geometry
@@ -195,7 +195,8 @@ def _plot_energy(zc, name="total", negative_orders=False, ax=None):
 
     if energy.shape[0] != energy.shape[1]:
         # This means that negative orders are included.
-        ax.set_xticklabels(np.array(ax.get_xticks() - energy.shape[1]//2, dtype=int))
+        ax.xaxis.set_major_locator(MaxNLocator(integer=True))
+        ax.xaxis.set_major_formatter(lambda x, pos: "%d" % (x - energy.shape[1]//2))
     ax.grid(which='minor', axis='both')
 
     divider = make_axes_locatable(ax)
-- 
2.43.0


From d0969afffd7e4207844889ae69083e026ef46911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 27/28] fix: default of isclose is not uninitialised memory

---
 starwinds_magnetogram/coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 696edf3..0e4cf24 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -231,7 +231,7 @@ def isclose(shc0, shc1, **kwargs):
     keys = set.union(*[set(a.coefficients) for a in (shc0, shc1)])
 
     # Use a boolean array as the default coefficient
-    coeffs = Coefficients(default_coefficients=np.empty_like(shc0.default_coefficients, dtype=bool))
+    coeffs = Coefficients(default_coefficients=np.isclose(shc0.default_coefficients, shc1.default_coefficients, **kwargs))
     for degree, order in keys:
         coeffs.append(degree, order, np.isclose(shc0.get(degree, order), shc1.get(degree, order), **kwargs))
     return coeffs
-- 
2.43.0


From 49620d7d45c21a24aed9f58932ac6678e695674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 28/28] fix: arithmetic of integer or real coefficient sets
 keeps fractions and imaginary parts

---
 starwinds_magnetogram/coefficients.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 0e4cf24..4a28490 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -151,7 +151,7 @@ class Coefficients(object):
 
     def __pow__(self, power, modulo=None):
         assert modulo is None, "Modulo is not supported."
-        output = empty_like(self)
+        output = _empty_result(self, power)
         for (degree, order), coeffs in self.contents():
             output.append(degree, order, coeffs**power)
         return output
@@ -244,6 +244,14 @@ def empty_like(shc):
     return Coefficients(shc.default_coefficients)
 
 
+def _empty_result(shc, value):
+    """
+    Get empty set of spherical harmonics coefficients whose data type can hold the result of combining with the value.
+    """
+    dtype = np.result_type(shc.default_coefficients, value if np.isscalar(value) else np.asarray(value))
+    return Coefficients(shc.default_coefficients.astype(dtype))
+
+
 def zeros_like(shc):
     """
     Get zero-filled set of spherical harmonics coefficients with same type of coefficients.
@@ -307,7 +315,7 @@ def add(shc0, shc1):
     # Get all degree, order pairs from the objects
     keys = set.union(*[set(a.coefficients) for a in (shc0, shc1)])
 
-    shc = empty_like(shc0)
+    shc = _empty_result(shc0, shc1.default_coefficients)
     for degree, order in keys:
         v = shc0.get(degree, order) + shc1.get(degree, order)
         shc.append(degree, order, v)
@@ -324,7 +332,7 @@ def multiply(shc, value):
     """
     if type(value) != Coefficients:
         # Assume scalar
-        output = empty_like(shc)
+        output = _empty_result(shc, value)
         for (degree, order), coeffs in shc.contents():
             output.append(degree, order, coeffs * value)
 
@@ -333,7 +341,7 @@ def multiply(shc, value):
     # Multiply coefficients of two objects.
     assert shc.default_coefficients.shape == value.default_coefficients.shape, "Incompatible coefficients."
 
-    result = empty_like(shc)
+    result = _empty_result(shc, value.default_coefficients)
     keys = set.union(*[set(a.coefficients) for a in (shc, value)])  # Get all degree, order pairs from the object
     for degree, order in keys:
         v = shc.get(degree, order) * value.get(degree, order)
-- 
2.43.0

