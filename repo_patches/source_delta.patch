From 14a6f49f4a1b33550589185254ed587f985cef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:35 +0000
Subject: [PATCH 01/14] fix: read isotope properties without uncertainty or
 final newline

---
 ries/constituents/natural_element_data.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index cd1d01a..dbeb398 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -144,10 +144,7 @@ class NISTElementDataReader:
 
         - value of type `property_type` or `default`.
         """
-        prop = line[
-            len(prefix) : -1
-        ]  # Take all characters except the last two, which are the newline
-        # escape sequence '\n'.
+        prop = line[len(prefix) :].strip()
         if prop != "":
             return property_type(prop)
         return default
@@ -175,7 +172,7 @@ class NISTElementDataReader:
         - float, value
         """
         return self.read_nist_element_property(
-            line[0 : line.find("(") + 1], prefix, float, default
+            line.split("(")[0], prefix, float, default
         )
 
     def read_nist_element_symbols(self):
-- 
2.43.0


From 263e85b8441bd6470043087032dfb1c2e64d4176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:44 +0000
Subject: [PATCH 02/14] fix: match the whole element symbol when looking up a
 density

---
 ries/constituents/natural_element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index dbeb398..04f56e3 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -256,7 +256,7 @@ class Geant4DensityDataReader:
 
         with open(self.density_data_file_name, "r") as file:
             for line in file:
-                if X in line[0:2]:
+                if line[0:2].strip() == X:
                     return self.density_conversion(float(line[2:]))
 
             return None
-- 
2.43.0


From 5370ea08f4574ee00b46847e056a076f5e3b7a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:55 +0000
Subject: [PATCH 03/14] fix: return zero instead of a negative lower coverage
 limit

---
 ries/resonance/resonance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index cf9ff52..d14e69e 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -295,10 +295,17 @@ class Resonance(CrossSection):
         if limits[0] < 0.0:
             warnings.warn(
                 "Unphysical negative lower limit of coverage interval encountered. Returning zero instead. The maximum coverage that can be reached with positive energies for this cross section is {:f} %.".format(
-                    100.0 * (1.0 - self.probability_distribution.cdf(0.0))
+                    100.0
+                    * (
+                        1.0
+                        - self.probability_distribution.cdf(
+                            0.0, *self.probability_distribution_parameters
+                        )
+                    )
                 ),
                 UserWarning,
             )
+            limits[0] = 0.0
         if np.isinf(limits[1]):
             warnings.warn(
                 "Infinite upper limit of coverage interval encountered.", UserWarning
-- 
2.43.0


From ab46e9839bbabf7e06cf5c290839bef21a9dab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:05 +0000
Subject: [PATCH 04/14] fix: keep equal-probability grids inside the requested
 limits

---
 ries/resonance/resonance.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index d14e69e..f6afd9a 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -350,26 +350,24 @@ class Resonance(CrossSection):
         - ndarray, array of grid points
         """
         if isinstance(coverage_or_limits, (int, float)):
-            limits = (
-                0.5 * (1.0 - coverage_or_limits),
-                0.5 * (1.0 + coverage_or_limits),
-            )
-        else:
-            limits = self.probability_distribution.cdf(
-                coverage_or_limits, *self.probability_distribution_parameters
-            )
+            coverage_or_limits = self.coverage_interval(coverage_or_limits)
+        limits = self.probability_distribution.cdf(
+            coverage_or_limits, *self.probability_distribution_parameters
+        )
         equ_dis_pro_grid = self.probability_distribution.ppf(
             np.linspace(limits[0], limits[1], n_points),
             *self.probability_distribution_parameters,
         )
-        # This last if clause prevents rounding errors.
+        # These last lines prevent rounding errors.
         # For finite limits that are very far away from the resonance energy,
         # probability_distribution.cdf() may return 0 or 1 instead of 0.000... or 0.999...,
-        # which would then cause probability_distribution.ppf to return -np.inf or np.inf as
-        # limits of the grid instead of the given values.
-        if not isinstance(coverage_or_limits, (int, float)):
-            equ_dis_pro_grid[0] = coverage_or_limits[0]
-            equ_dis_pro_grid[-1] = coverage_or_limits[1]
+        # which would then cause probability_distribution.ppf to return -np.inf or np.inf
+        # instead of values inside the given limits.
+        equ_dis_pro_grid = np.clip(
+            equ_dis_pro_grid, coverage_or_limits[0], coverage_or_limits[1]
+        )
+        equ_dis_pro_grid[0] = coverage_or_limits[0]
+        equ_dis_pro_grid[-1] = coverage_or_limits[1]
         return equ_dis_pro_grid
 
     def get_energy_integrated_cross_section(self):
-- 
2.43.0


From 1296ae2d70267619ff1722b1fe623fb441036357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:14 +0000
Subject: [PATCH 05/14] fix: allow an empty weighted sum of cross sections

---
 ries/cross_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index 38ad450..fa62b58 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -222,7 +222,7 @@ class CrossSectionWeightedSum:
         """
         self.reactions = reactions or []
         if scale_factors is None:
-            scale_factors = [1.0] * len(reactions)
+            scale_factors = [1.0] * len(self.reactions)
         self.scale_factors = scale_factors
 
     def __add__(self, other):
-- 
2.43.0


From 60c14659080ccc75c847fc5528e374c18f3be23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:24 +0000
Subject: [PATCH 06/14] fix: accept integration limits given as an array

---
 ries/integration/quad_partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ries/integration/quad_partition.py b/ries/integration/quad_partition.py
index d850830..94e78a9 100644
--- a/ries/integration/quad_partition.py
+++ b/ries/integration/quad_partition.py
@@ -67,7 +67,8 @@ def quad_partition(f, x0, x1_to_xn_minus_1=None):
     """
     integral = 0.0
     uncertainty_estimate = 0.0
-    x1_to_xn_minus_1 = x1_to_xn_minus_1 or []
+    if x1_to_xn_minus_1 is None:
+        x1_to_xn_minus_1 = []
 
     for i in range(len(x0) - 1):
         nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])
-- 
2.43.0


From 003deb9677be2fca05837587ff26c6dc5eeb8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:33 +0000
Subject: [PATCH 07/14] fix: use the fallback when some pseudo-Voigt quantiles
 do not converge

---
 ries/resonance/pseudo_voigt.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index b43ad74..c59c913 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -238,13 +238,14 @@ class PseudoVoigtDistribution:
                     return newton_result[0]
             elif False not in newton_result[1]:
                 return newton_result[0]
-
         except RuntimeError:
-            warnings.warn(
-                "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
-                UserWarning,
-            )
-            return self.pseudo_voigt_expression(quantile, "ppf")
+            pass
+
+        warnings.warn(
+            "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
+            UserWarning,
+        )
+        return self.pseudo_voigt_expression(quantile, "ppf")
 
     def get_Gamma(self):
         """Calculate Gamma parameter
-- 
2.43.0


From 6f01a7033401832bea24c548a4d6690f076343d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:43 +0000
Subject: [PATCH 08/14] fix: use half the FWHM as scale of the pseudo-Voigt
 Cauchy component

---
 ries/resonance/pseudo_voigt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index c59c913..8a3452d 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -166,7 +166,7 @@ class PseudoVoigtDistribution:
             """(1.0 - self.eta) * norm.{}(
             x, loc=self.resonance_energy, scale=self.gamma_G / np.sqrt(2.0)
         ) + self.eta * cauchy.{}(
-            x, loc=self.resonance_energy, scale=0.5 * self.gamma_L
+            x, loc=self.resonance_energy, scale=self.gamma_L
         )""".format(
                 method, method
             )
-- 
2.43.0


From 97caf2adeadb958a9fcf9e911397290fa63d31bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:52 +0000
Subject: [PATCH 09/14] fix: bind the proton number in the per-atom attenuation
 conversion

---
 ries/nonresonant/xrmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index 969d9a4..278a9a0 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -238,7 +238,7 @@ for Z in range(1, 93):
     xrmac_cm2_per_g[X[Z]] = XRMAC(str(xrmac_data_dir / "{:02d}.txt".format(Z)))
     xrmac_fm2_per_atom[X[Z]] = XRMAC(
         str(xrmac_data_dir / "{:02d}.txt".format(Z)),
-        xrmac_conversion=lambda xrmac: xrmac
+        xrmac_conversion=lambda xrmac, Z=Z: xrmac
         * cm_to_fm ** 2
         * natural_elements[X[Z]].amu
         * physical_constants["atomic mass constant"][0]
-- 
2.43.0


From 25c72fc058d3559ddd8a784bb67fd55da4970e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:02 +0000
Subject: [PATCH 10/14] fix: parse the last line of an attenuation table
 without final newline

---
 ries/nonresonant/xrmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index 278a9a0..06d8e75 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -214,7 +214,7 @@ class XRMAC(Nonresonant):
                 skip = 3
         with open(xrmac_file_name, "r") as file:
             for line in file:
-                line = line[skip:-2].split(sep="  ")
+                line = line[skip:].split()
                 data.append(
                     [
                         self.energy_conversion(float(line[0])),
-- 
2.43.0


From 703fed7f4641b828c961ba475551f06d7226b7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:11 +0000
Subject: [PATCH 11/14] fix: read an attenuation table in a single pass

---
 ries/nonresonant/xrmac.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index 06d8e75..82811a3 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -205,23 +205,22 @@ class XRMAC(Nonresonant):
         """
         data = []
         skip = 0
+        with open(xrmac_file_name, "r") as file:
+            lines = file.readlines()
         # Some data files have a three-character column that indicates the label of the atomic
         # resonance.
-        # Open the file a first time to find out whether this is the case.
-        # If yes, skip this column when reading.
-        with open(xrmac_file_name, "r") as file:
-            if not file.readline()[0].isdigit():
-                skip = 3
-        with open(xrmac_file_name, "r") as file:
-            for line in file:
-                line = line[skip:].split()
-                data.append(
-                    [
-                        self.energy_conversion(float(line[0])),
-                        self.xrmac_conversion(float(line[1])),
-                        self.xrmac_conversion(float(line[2])),
-                    ]
-                )
+        # If this is the case, skip this column when reading.
+        if not lines[0][0].isdigit():
+            skip = 3
+        for line in lines:
+            line = line[skip:].split()
+            data.append(
+                [
+                    self.energy_conversion(float(line[0])),
+                    self.xrmac_conversion(float(line[1])),
+                    self.xrmac_conversion(float(line[2])),
+                ]
+            )
         return np.array(data)
 
 
-- 
2.43.0


From 8b4db37ab0fc26fb3d858679140ed119ce2de952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:21 +0000
Subject: [PATCH 12/14] fix: use the symbols of manganese and vanadium as Debye
 temperature keys

---
 ries/resonance/debye_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ries/resonance/debye_model.py b/ries/resonance/debye_model.py
index f0bcd91..a15684e 100644
--- a/ries/resonance/debye_model.py
+++ b/ries/resonance/debye_model.py
@@ -132,7 +132,7 @@ room_temperature_T_D = {
     "Li": 448.0,
     "Lu": 116.0,
     "Mg": 330.0,
-    "Ma": 363.0,
+    "Mn": 363.0,
     "Hg": 92.0,
     "Mo": 377.0,
     "Nd": 148.0,
@@ -172,7 +172,7 @@ room_temperature_T_D = {
     "Ti": 380.0,
     "W": 312.0,
     "U": 300.0,
-    "Va": 390.0,
+    "V": 390.0,
     "Xe": None,
     "Yb": None,
     "Y": 214.0,
-- 
2.43.0


From aec564c083a5bef737957d0d18f546f9be4dc59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:30 +0000
Subject: [PATCH 13/14] fix: use the mass of the scattering particle in Compton
 kinematics

---
 ries/nonresonant/klein_nishina.py | 38 ++++++++++++++-----------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index ba57256..ed73ae1 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -153,47 +153,43 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, energy of the Compton edge in MeV.
         """
 
-        return self.Ep_over_E(E, np.pi) * E
+        return self.Ep_over_E(E, np.pi, self.mc2) * E
 
     @staticmethod
-    def theta(E, Ep):
+    def theta(
+        E, Ep, mc2=physical_constants["electron mass energy equivalent in MeV"][0]
+    ):
         """Scattering angle for a given scattered energy
 
         Parameters:
 
         - E: array_like or scalar, initial energy of the photon in MeV.
         - Ep: array_like or scalar, energy of the photon after the scattering process in MeV.
+        - mc2: float, mass energy equivalent of the charged particle in MeV (default: electron).
 
         Returns
 
         - array_like or scalar, scattering angle of the photon in radians.
         """
-        return np.arccos(
-            1
-            - (E / Ep - 1)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
-            / E
-        )
+        return np.arccos(1 - (E / Ep - 1) * mc2 / E)
 
     @staticmethod
-    def Ep_over_E(E, theta):
+    def Ep_over_E(
+        E, theta, mc2=physical_constants["electron mass energy equivalent in MeV"][0]
+    ):
         """Ratio of final and initial photon energy for a given scattering angle
 
         Parameters:
 
         - E: array_like or scalar, initial energy of the photon in MeV.
         - theta: array_like or scalar, scattering angle of the photon in radians.
+        - mc2: float, mass energy equivalent of the charged particle in MeV (default: electron).
 
         Returns:
 
         - array_like or scalar, ratio of the energy of the scattered photon and its initial energy.
         """
-        return 1.0 / (
-            1.0
-            + E
-            / physical_constants["electron mass energy equivalent in MeV"][0]
-            * (1.0 - np.cos(theta))
-        )
+        return 1.0 / (1.0 + E / mc2 * (1.0 - np.cos(theta)))
 
     def cs_diff_dOmega(self, E, theta, phi):
         """Differential cross section w.r.t. the solid-angle
@@ -208,7 +204,7 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, solid-angle differential cross section in fm**2.
         """
-        relative_energy_change = self.Ep_over_E(E, theta)
+        relative_energy_change = self.Ep_over_E(E, theta, self.mc2)
         return (
             0.5
             * self.scale_factor
@@ -234,7 +230,7 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, solid-angle differential cross section in fm**2.
         """
 
-        relative_energy_change = self.Ep_over_E(E, theta)
+        relative_energy_change = self.Ep_over_E(E, theta, self.mc2)
         return (
             np.pi
             * self.scale_factor
@@ -261,8 +257,8 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, energy-differential cross section in :math:`\mathrm{fm}^2 \mathrm{MeV}^{-1}`.
         """
         return (
-            self.cs_diff_dOmega(E, self.theta(E, Ep), phi)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            self.cs_diff_dOmega(E, self.theta(E, Ep, self.mc2), phi)
+            * self.mc2
             / (Ep * Ep)
         )
 
@@ -279,8 +275,8 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, energy-differential cross section in :math:`\mathrm{fm}^2 \mathrm{MeV}^{-1}`.
         """
         return (
-            self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep, self.mc2))
+            * self.mc2
             / (Ep * Ep)
         )
 
-- 
2.43.0


From 9fad6c316194612c11d98a250a2d30d72fb8ef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:50 +0000
Subject: [PATCH 14/14] fix: add numbers of any real type to a cross section

---
 ries/cross_section.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index fa62b58..fe2e592 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -62,6 +62,7 @@ This may lead to runtime `TypeError`s.*
 """
 
 from itertools import chain
+from numbers import Real
 
 import numpy as np
 
@@ -81,7 +82,7 @@ class CrossSection:
 
         See `CrossSectionWeightedSum.__add__()`.
         """
-        if isinstance(other, (int, float)):
+        if isinstance(other, Real):
             return CrossSectionWeightedSum([self, ConstantCrossSection(other)])
         return CrossSectionWeightedSum([self, other])
 
@@ -253,7 +254,7 @@ class CrossSectionWeightedSum:
             reactions.append(reaction)
             scale_factors.append(self.scale_factors[i])
 
-        if isinstance(other, (int, float)):
+        if isinstance(other, Real):
             reactions.append(ConstantCrossSection(other))
             scale_factors.append(1.0)
         elif isinstance(other, CrossSection):
-- 
2.43.0

