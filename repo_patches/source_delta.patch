From 79af837e517c6564e96d5bc094ab8a832895469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 01/25] fix: compute touchdown collapse height from the current
 inclination

set_tc needs the slab inclination but ran before set_phi, so the collapse
height depended on the inclination of the previous calc_segments call.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b83f9dc..112ebda 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -776,8 +776,8 @@ class SlabContactMixin:
         """Set class attributes for touchdown consideration"""
         self.set_columnlength(L)
         self.set_cracklength(a)
-        self.set_tc(cf)
         self.set_phi(phi)
+        self.set_tc(cf)
         self.set_stiffness_ratio(ratio)
 
     def calc_touchdown_mode(self):
-- 
2.43.0


From 66408b04aa5688895256de3c73a1486e8d801df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 02/25] fix: weak-layer shear strain has the sign of the
 weak-layer shear stress

The opposite sign made the mode II crack opening integral (and with it the
total incremental energy release rate) negative on slopes.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 112ebda..b58faff 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -267,7 +267,7 @@ class FieldQuantitiesMixin:
         float
             Weak-layer shear strain gamma.
         """
-        return self.dw_dx(Z) / 2 - self.u(Z, z0=self.h / 2) / self.t
+        return self.u(Z, z0=self.h / 2) / self.t - self.dw_dx(Z) / 2
 
     def Gi(self, Ztip, unit="kJ/m^2"):
         """
-- 
2.43.0


From b546ac4e82fad6de026193a841f7c35856da6663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 03/25] fix: surface load in particular integral of free
 segments

The tangential surface load lacked the bending-extension coupling term, so
unsupported segments of unsymmetric layerings violated moment equilibrium.
---
 weac/eigensystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index e94a682..f50653b 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -579,7 +579,7 @@ class Eigensystem:
                 [-A11*(qn + pn)*x**4/(24*K0)],
                 [-A11*(qn + pn)*x**3/(6*K0)],
                 [A11*(qn + pn)*x**3/(6*K0)
-                 + ((zs - B11/A11)*qt - h*pt/2 - (qn + pn)*x)/kA55],
+                 + ((zs - B11/A11)*qt - (h/2 + B11/A11)*pt - (qn + pn)*x)/kA55],
                 [(qn + pn)*(A11*x**2/(2*K0) - 1/kA55)]])
 
         return zp
-- 
2.43.0


From 9edf0cd5c9f7f29691ea3c058e9e013c45a3c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 04/25] fix: horizontal center of gravity of triangular slab
 segments

---
 weac/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/tools.py b/weac/tools.py
index 1092959..7ef33f4 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -158,7 +158,7 @@ def calc_vertical_bc_center_of_gravity(slab, phi):
         # Center of gravity in vertical direction
         zs = sum(zsi * rho * Ai) / sum(rho * Ai)
         # Center of gravity in horizontal direction
-        xs = (H / 2 - zs) * np.tan(phi / 2)
+        xs = (H / 2 - zs) * np.tan(phi) / 2
         # Weight of added or cut off slab segments (t)
         w = sum(Ai * rho)
 
-- 
2.43.0


From 2e9c331855b1c5c0496e5aa2d064d2bb47d07552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 05/25] fix: apply touchdown loads only to systems with
 touchdown conditions

For vpst systems the touchdown displacement overwrote a shear force boundary
condition.
---
 weac/mixins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index b58faff..2fd6f28 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1215,6 +1215,9 @@ class SolutionMixin:
 
         # Loop through segments to set touchdown conditions at rhs
         for i in range(nS):
+            # Only implemented for PSTs with slope-normal faces
+            if self.system not in ["pst-", "-pst"]:
+                break
             # Length, foundation and position of segment i
             l, k, pos = li[i], ki[i], pi[i]
             # Set displacement BC in stage B
-- 
2.43.0


From df44d826282bf96eaf476095b4cdf63fc55ca3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 06/25] fix: normalize weak-layer principal stress in
 consistent units

---
 weac/mixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 2fd6f28..e2fa3cc 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1766,7 +1766,8 @@ class AnalysisMixin:
 
         # Normalize compressive stresses to compressive strength
         if normalize and val == "min":
-            return ps / sc
+            # Strength is given in kPa
+            return ps / (sc * {"kPa": 1, "MPa": 1e-3}[unit])
 
         # Return absolute principal stresses
         return ps
-- 
2.43.0


From 49f5171a4b42c472ab3ec5d42de66c8e5abe9be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 07/25] fix: account for surface load in slab shear and normal
 stresses

---
 weac/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index e2fa3cc..b8b4f78 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1592,6 +1592,8 @@ class AnalysisMixin:
         # to obtain shear stress Txz in MPa
         Txz = cumulative_trapezoid(dsxx_dx, zi, axis=0, initial=0)
         Txz += cumulative_trapezoid(qt, zi, initial=0)[:, None]
+        # Add shear traction of the surface load
+        Txz += self.get_surface_load(phi)[1]
 
         # Return shear stress Txz in specified unit
         return convert[unit] * Txz
@@ -1649,6 +1651,8 @@ class AnalysisMixin:
         integrand = cumulative_trapezoid(dsxx_dxdx, zi, axis=0, initial=0)
         Szz = cumulative_trapezoid(integrand, zi, axis=0, initial=0)
         Szz += cumulative_trapezoid(-qn, zi, initial=0)[:, None]
+        # Add normal traction of the surface load
+        Szz -= self.get_surface_load(phi)[0]
 
         # Return shear stress txz in specified unit
         return convert[unit] * Szz
-- 
2.43.0


From 5355a7388900e9c7533ed40c3afeb54ab270794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 08/25] fix: solve systems of a single segment

The dummy segment was appended to the caller's lists, failed for arrays, and
left a spurious column in the returned constants.
---
 weac/mixins.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b8b4f78..92bdb1c 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1145,14 +1145,15 @@ class SolutionMixin:
 
         # Determine size of linear system of equations
         nS = len(li)  # Number of beam segments
+        nC = nS  # Number of segments to return constants for
 
         nDOF = 6  # Number of free constants per segment
 
         # Add dummy segment if only one segment provided
         if nS == 1:
-            li.append(0)
-            ki.append(True)
-            mi.append(0)
+            li = np.append(li, 0)
+            ki = np.append(ki, True)
+            mi = np.append(mi, 0)
             nS = 2
 
         # Assemble position vector
@@ -1249,7 +1250,7 @@ class SolutionMixin:
         # Solve z0 = zh0*C + zp0 = rhs for constants, i.e. zh0*C = rhs - zp0
         C = np.linalg.solve(zh0, rhs - zp0)
         # Sort (nDOF = 6) constants for each segment into columns of a matrix
-        return C.reshape([-1, nDOF]).T
+        return C.reshape([-1, nDOF]).T[:, :nC]
 
 
 class AnalysisMixin:
-- 
2.43.0


From 834b4583b83c28e32ad44d367fb89b9a9efdbf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 09/25] fix: make Inverse usable with calc_segments and default
 layers

---
 weac/inverse.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 3542c3c..ab33381 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -3,14 +3,15 @@
 
 # Project imports
 from weac.mixins import FieldQuantitiesMixin
+from weac.mixins import SlabContactMixin
 from weac.mixins import SolutionMixin
 from weac.mixins import AnalysisMixin
 from weac.mixins import OutputMixin
 from weac.eigensystem import Eigensystem
 
 
-class Inverse(FieldQuantitiesMixin, SolutionMixin, AnalysisMixin,
-              OutputMixin, Eigensystem):
+class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
+              AnalysisMixin, OutputMixin, Eigensystem):
     """
     Fit the elastic properties of the layers of a snowpack.
 
@@ -49,6 +50,8 @@ class Inverse(FieldQuantitiesMixin, SolutionMixin, AnalysisMixin,
         C0, C1, Eweak = parameters
 
         # Set material properties and set up model
-        self.set_beam_properties(layers=layers, C0=C0, C1=C1)
+        self.set_beam_properties(
+            layers=layers if layers is not None and len(layers)
+            else [[240, 200], ], C0=C0, C1=C1)
         self.set_foundation_properties(E=Eweak)
         self.calc_fundamental_system()
-- 
2.43.0


From 0c6cd74c5d2a0a4bfac1466ccb277039d6cc910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 10/25] fix: accept arrays as slab layering

---
 weac/layered.py | 2 +-
 weac/tools.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/weac/layered.py b/weac/layered.py
index 9f4076f..f5a1910 100755
--- a/weac/layered.py
+++ b/weac/layered.py
@@ -44,6 +44,6 @@ class Layered(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         super().__init__(system=system, touchdown=touchdown)
 
         # Set material properties and set up model
-        self.set_beam_properties(layers if layers else [[240, 200], ])
+        self.set_beam_properties(layers if layers is not None and len(layers) else [[240, 200], ])
         self.set_foundation_properties()
         self.calc_fundamental_system()
diff --git a/weac/tools.py b/weac/tools.py
index 7ef33f4..ce1436e 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -301,7 +301,7 @@ def touchdown_distance(
     # Check if layering is defined
     layers = (
         layers
-        if layers
+        if layers is not None and len(layers)
         else [
             [240, 200],
         ]
-- 
2.43.0


From 5bf7e91174585ef635b8cdfbc13bb8d694d634ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 11/25] fix: accept lists of segments in rasterize_solution and
 gdif

---
 weac/mixins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 92bdb1c..f1a18ee 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1302,7 +1302,7 @@ class AnalysisMixin:
         _ = kwargs
 
         # Drop zero-length segments
-        li = abs(li)
+        li, ki = np.abs(li), np.array(ki)
         isnonzero = li > 0
         C, ki, li = C[:, isnonzero], ki[isnonzero], li[isnonzero]
 
@@ -1426,6 +1426,9 @@ class AnalysisMixin:
         # Unused arguments
         _ = kwargs
 
+        # Make sure inputs are np.arrays
+        li, ki = np.array(li), np.array(ki)
+
         # Get number and indices of segment transitions
         ntr = len(li) - 1
         itr = np.arange(ntr)
-- 
2.43.0


From dcd9c8bc3c5adfd1ac953cce1849ad7f7ad4ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 12/25] fix: restore the system after a failed substitute
 stiffness computation

An exception or interrupt left the instance with the substitute system and
the stiffness of the collapsed weak layer.
---
 weac/mixins.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index f1a18ee..baddba1 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -576,6 +576,20 @@ class SlabContactMixin:
         return self.get_weight_load(self.phi)[1] + self.get_surface_load(self.phi)[1]
 
     def substitute_stiffness(self, L, support="rested", dof="rot"):
+        """
+        Calc substitute stiffness and leave the system as it was.
+
+        See _substitute_stiffness for arguments.
+        """
+        # Keep the actual system and eigensystem
+        state = self.__dict__.copy()
+        try:
+            return self._substitute_stiffness(L, support, dof)
+        finally:
+            # Reset to previous system and eigensystem, also on failure
+            self.__dict__.update(state)
+
+    def _substitute_stiffness(self, L, support="rested", dof="rot"):
         """
         Calc substitute stiffness for beam on elastic foundation.
 
-- 
2.43.0


From 1f4cacf410ac9e376c3030c5788b62cdd0c39aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 13/25] fix: external potential uses its inclination and
 surface load position

The inclination argument was ignored in favor of the one of the last
calc_segments call and the surface load was moved to the center of gravity.
---
 weac/mixins.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index baddba1..c6ea262 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1832,9 +1832,11 @@ class OutputMixin:
         # Compute displacements where weight loads are applied
         w0 = self.w(zq)
         us = self.u(zq, z0=self.zs)
-        # Get weight loads
-        qn = self.calc_qn()
-        qt = self.calc_qt()
+        # Get weight loads and surface loads (which act on the top surface)
+        qn = self.get_weight_load(phi)[0] + self.get_surface_load(phi)[0]
+        qt = self.get_weight_load(phi)[1]
+        pt = self.get_surface_load(phi)[1]
+        ut = self.u(zq, z0=-self.h / 2)
         # use +/- and us[0]/us[-1] according to system and phi
         # compute total external potential
         Pi_ext = (
@@ -1843,12 +1845,12 @@ class OutputMixin:
         )
         # Ensure
         if self.system in ["pst-"]:
-            ub = us[-1]
+            ub, utb = us[-1], ut[-1]
         elif self.system in ["-pst"]:
-            ub = us[0]
+            ub, utb = us[0], ut[0]
         Pi_ext += (
-            -qt * (segments["li"][0] + segments["li"][1]) * np.average(us)
-            - qt * (L - (segments["li"][0] + segments["li"][1])) * ub
+            -(segments["li"][0] + segments["li"][1]) * np.average(qt * us + pt * ut)
+            - (L - (segments["li"][0] + segments["li"][1])) * (qt * ub + pt * utb)
         )
         if self.system not in ["pst-", "-pst"]:
             print("Input error: Only pst-setup implemented at the moment.")
-- 
2.43.0


From 1bd1bb7a90574e17daec82241b67058469a1a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 14/25] fix: internal potential of slab, weak layer, and
 substitute spring

Slab and weak-layer energies were integrated over the total column length
instead of the deforming and the supported length, bending-extension coupling
and the rotation of the weak layer were ignored, and the spring energy M*psi/2
was computed as M*psi**2/2.
---
 weac/mixins.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index c6ea262..cacdb19 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1892,28 +1892,27 @@ class OutputMixin:
 
         # Compute weak layer displacements
         wweak = self.w(zweak)
-        uweak = self.u(zweak, z0=self.h / 2)
+        uweak = self.tau(zweak) / self.kt
+
+        # Deforming length of the slab and supported length of the weak layer
+        l = np.sum(segments["li"])
+        lweak = np.sum(np.array(segments["li"])[np.array(segments["ki"])])
 
         # Compute stored energy of the slab (monte-carlo integration)
         n = len(xq)
         nweak = len(xweak)
         # energy share from moment, shear force, wl normal and tangential springs
         Pi_int = (
-            L / 2 / n / self.A11 * np.sum([Ni**2 for Ni in N])
-            + L
-            / 2
-            / n
-            / (self.D11 - self.B11**2 / self.A11)
-            * np.sum([Mi**2 for Mi in M])
-            + L / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
-            + L * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
-            + L * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
+            l / 2 / n * np.sum(N * self.du_dx(zq, z0=0) + M * self.dpsi_dx(zq))
+            + l / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
+            + lweak * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
+            + lweak * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
         )
         # energy share from substitute rotation spring
         if self.system in ["pst-"]:
-            Pi_int += 1 / 2 * M[-1] * (self.psi(zq)[-1]) ** 2
+            Pi_int += 1 / 2 * np.abs(M[-1] * self.psi(zq)[-1])
         elif self.system in ["-pst"]:
-            Pi_int += 1 / 2 * M[0] * (self.psi(zq)[0]) ** 2
+            Pi_int += 1 / 2 * np.abs(M[0] * self.psi(zq)[0])
         else:
             print("Input error: Only pst-setup implemented at the moment.")
 
-- 
2.43.0


From 50cea287a4a4bf83babf26bf312b8154a5c50866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 15/25] fix: substitute stiffness does not depend on the slab
 weight

The deflection under a unit force included the settlement owing to the weight
and surface loads, i.e. the translational spring stiffness was load dependent.
---
 weac/mixins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index cacdb19..8de794a 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -633,6 +633,8 @@ class SlabContactMixin:
         constants = self.assemble_and_solve(phi=0, **segments)
         # calculate stiffness
         _, z_pst, _ = self.rasterize_solution(C=constants, phi=0, num=1, **segments)
+        # subtract displacements owing to the weight of the slab
+        z_pst = z_pst - self.zp(x=0, phi=0, bed=True)
         if dof in ["rot"]:
             k = abs(1 / self.psi(z_pst)[0])
         if dof in ["trans"]:
-- 
2.43.0


From b4c3a27758fbca9a4f9b160fe560424295d79213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 16/25] fix: unsupported PST ends are free before a touchdown
 mode is known

assemble_and_solve failed with an UnboundLocalError unless calc_segments had
been called on the instance.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 8de794a..97c7d7a 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -865,7 +865,7 @@ class SolutionMixin:
         # Set boundary conditions for PST-systems
         if self.system in ["pst-", "-pst"]:
             if not k:
-                if self.mode in ["A"]:
+                if self.mode not in ["B", "C"]:
                     # Free end
                     bc = np.array([self.N(z), self.M(z), self.V(z)])
                 elif self.mode in ["B"] and pos in ["r", "right"]:
-- 
2.43.0


From 04a575e5430a642d9f90e96a2f995db2cdc2ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 17/25] fix: find touchdown lengths of cracks just beyond stage
 B

---
 weac/mixins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 97c7d7a..af00b5a 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -581,6 +581,9 @@ class SlabContactMixin:
 
         See _substitute_stiffness for arguments.
         """
+        # Segments of (almost) no length provide no resistance
+        if L < 1e-3:
+            return 0.0
         # Keep the actual system and eigensystem
         state = self.__dict__.copy()
         try:
@@ -784,7 +787,7 @@ class SlabContactMixin:
             )
 
         # Find root
-        lC = brentq(polynomial, a / 1000, 999 / 1000 * a)
+        lC = brentq(polynomial, a / 1000, a)
 
         return lC
 
-- 
2.43.0


From 9b3e069102d2d69f1de6b2ee62ce65118d6b44f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 18/25] fix: evaluate energy release rates on the supported
 side of crack tips

---
 weac/mixins.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index af00b5a..ef07dc2 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1464,8 +1464,11 @@ class AnalysisMixin:
 
         # Compute energy relase rate of all crack tips
         for j, idx in enumerate(ict):
-            # Solution at crack tip
-            z = self.z(li[idx], C[:, [idx]], li[idx], phi, bed=ki[idx])
+            # Solution at the supported side of the crack tip
+            if ki[idx]:
+                z = self.z(li[idx], C[:, [idx]], li[idx], phi, bed=True)
+            else:
+                z = self.z(0, C[:, [idx + 1]], li[idx + 1], phi, bed=True)
             # Mode I and II differential energy release rates
             Gdif[1:, j] = np.concatenate(
                 (self.Gi(z, unit=unit), self.Gii(z, unit=unit))
-- 
2.43.0


From 49115e0b8343dcce6c9cd4af95df8573f61eae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 19/25] fix: no integer overflow in solutions of free segments

Powers of integer coordinates (e.g. segment lengths given as int32 arrays)
overflowed silently in the complementary and particular solutions.
---
 weac/eigensystem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index f50653b..2bb7cc3 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -496,6 +496,9 @@ class Eigensystem:
         zh : ndarray
             Complementary solution matrix (6x6) at position x.
         """
+        # Powers of integer coordinates overflow
+        x = np.float64(x)
+
         if bed:
             zh = np.concatenate([
                 # Real
@@ -543,6 +546,9 @@ class Eigensystem:
         zp : ndarray
             Particular integral vector (6x1) at position x.
         """
+        # Powers of integer coordinates overflow
+        x = np.float64(x)
+
         # Get weight and surface loads
         qn, qt = self.get_weight_load(phi)
         pn, pt = self.get_surface_load(phi)
-- 
2.43.0


From 0507e4cf93948a14a16b1b23407ba8a7e060d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 20/25] fix: plots without segment lists (fea_disp, fea_stress)
 do not fail

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index 7c753d3..e7e9e3f 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -406,7 +406,7 @@ def plot_data(
         name, ax1data, ax1label,
         ax2data=None, ax2label=None,
         labelpos=None, vlines=True,
-        li=False, mi=False, ki=False,
+        li=(), mi=(), ki=(),
         xlabel=r'Horizontal position $x$ (cm)'):
     """Plot data. Base function."""
     # Figure setup
-- 
2.43.0


From 2302d1cac36fb1d6f406ab3670ba783d941fe853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 21/25] fix: draw deformed contours of vanishing fields

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index e7e9e3f..3337e45 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -336,7 +336,7 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
 
     # Normalize colormap
     absmax = np.nanmax(np.abs([slab.min(), slab.max(), weak.min(), weak.max()]))
-    clim = np.round(absmax, significant_digits(absmax))
+    clim = np.round(absmax, significant_digits(absmax)) if absmax > 0 else 1
     levels = np.linspace(-clim, clim, num=levels+1, endpoint=True)
     # nanmax = np.nanmax([slab.max(), weak.max()])
     # nanmin = np.nanmin([slab.min(), weak.min()])
-- 
2.43.0


From 60e326a6b4f9b3b8742123249e8cbb3dd59418dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 22/25] fix: plot labels of curves with few supported points

---
 weac/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index 3337e45..2d03000 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -470,8 +470,10 @@ def plot_data(
             # Line label
             x, y = x[~np.isnan(x)], y[~np.isnan(x)]
             if len(x) > 0:
-                xtx = (x[labelpos - 10*i - 1] + x[labelpos - 10*i])/2
-                ytx = (y[labelpos - 10*i - 1] + y[labelpos - 10*i])/2
+                # Keep label position within data
+                thislabelpos = max(labelpos - 10*i, 1 - len(x))
+                xtx = (x[thislabelpos - 1] + x[thislabelpos])/2
+                ytx = (y[thislabelpos - 1] + y[thislabelpos])/2
                 ax1.text(xtx, ytx, label, color=line.get_color(),
                          **labelstyle)
 
-- 
2.43.0


From f58c6fb8de5bf8c6545acb5dd2f65c1a35560474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 23/25] fix: pass scalar integrands to quad in the incremental
 energy release rate

ginc() handed one-element arrays to scipy's quad, which relies on the implicit
conversion of arrays to scalars that NumPy deprecates (a warning on every call,
an error in future versions).
---
 weac/mixins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index ef07dc2..2bbf96e 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1412,8 +1412,9 @@ class AnalysisMixin:
             z1 = partial(self.z, C=C1[:, [j]], l=l, phi=phi, bed=False)
 
             # Mode I (1) and II (2) integrands at integration points
-            int1 = partial(self.int1, z0=z0, z1=z1)
-            int2 = partial(self.int2, z0=z0, z1=z1)
+            # (quad requires scalar-valued functions)
+            int1 = lambda x, z0=z0, z1=z1: self.int1(x, z0, z1).item()
+            int2 = lambda x, z0=z0, z1=z1: self.int2(x, z0, z1).item()
 
             # Segement contributions to total crack opening integral
             Ginc1 += quad(int1, 0, l, epsabs=self.tol, epsrel=self.tol)[0] / (2 * da)
-- 
2.43.0


From d00447dbee21dca60aee5e7a197b8b410ebb290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:02 +0000
Subject: [PATCH 24/25] fix: README and demo refer to the variables and folder
 that exist

---
 README.md       | 4 ++--
 demo/demo.ipynb | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 05f19ed..7f19bdd 100644
--- a/README.md
+++ b/README.md
@@ -164,8 +164,8 @@ xsl, z, xwl = skier.rasterize_solution(C=C, phi=38, **segments)
 Visualize the results.
 ```python
 # Visualize deformations as a contour plot
-weac.plot.deformed(skier, xsl=xsl_skier, xwl=xwl_skier, z=z_skier,
-                   phi=inclination, window=200, scale=200,
+weac.plot.deformed(skier, xsl=xsl, xwl=xwl, z=z,
+                   phi=38, window=200, scale=200,
                    field='principal')
 
 # Plot slab displacements (using x-coordinates of all segments, xsl)
diff --git a/demo/demo.ipynb b/demo/demo.ipynb
index de119b2..4a1714a 100644
--- a/demo/demo.ipynb
+++ b/demo/demo.ipynb
@@ -854,7 +854,7 @@
    "outputs": [],
    "source": [
     "import sys\n",
-    "sys.path.append('../weac')  # Adds the 'weac' folder to the Python path"
+    "sys.path.append('../examples')  # Adds the 'examples' folder to the Python path"
    ]
   },
   {
-- 
2.43.0


From ce04aa3cb4823556de0fb0d3cdd0739f2d831cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:15 +0000
Subject: [PATCH 25/25] fix: no singular matrix for very short touchdown
 segments

---
 weac/mixins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 2bbf96e..96b30ab 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -588,6 +588,11 @@ class SlabContactMixin:
         state = self.__dict__.copy()
         try:
             return self._substitute_stiffness(L, support, dof)
+        except np.linalg.LinAlgError:
+            # Rigid-body motion of very short segments can be singular, too
+            if L < 1:
+                return 0.0
+            raise
         finally:
             # Reset to previous system and eigensystem, also on failure
             self.__dict__.update(state)
-- 
2.43.0

