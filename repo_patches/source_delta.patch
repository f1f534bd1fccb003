From 8db2101bf5ede25f5c024dde347a2aa5bd890784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 01/65] fix: scisparse solver crashed when no input is
 connected to any output

---
 phasor/matrix/scisparse_algorithm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phasor/matrix/scisparse_algorithm.py b/phasor/matrix/scisparse_algorithm.py
index 46e59ed..1ea6b2f 100644
--- a/phasor/matrix/scisparse_algorithm.py
+++ b/phasor/matrix/scisparse_algorithm.py
@@ -138,6 +138,11 @@ def mgraph_simplify_inplace(
     #print(keys_alpha)
     sortkeys_inplace_split(keys_alpha)
 
+    if not keys or not keys_alpha:
+        #nothing connects the inputs to the outputs, so there is nothing to solve
+        edge_map.clear()
+        return
+
     keys_inv = dict()
     for idx, k in enumerate(keys):
         keys_inv[k] = idx
-- 
2.43.0


From 14492d324576c792383d018384094bffd536d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 02/65] fix: LUQ row reduction lost the pivot to roundoff when
 all candidate rows have equal magnitude

---
 phasor/matrix/DAG_algorithm_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/matrix/DAG_algorithm_impl.py b/phasor/matrix/DAG_algorithm_impl.py
index 69ab2f3..5459109 100644
--- a/phasor/matrix/DAG_algorithm_impl.py
+++ b/phasor/matrix/DAG_algorithm_impl.py
@@ -71,7 +71,8 @@ def reduceLUQ_row(
     if not np.all(np.isfinite(rvec)):
         print("NORMR: ", normr)
         assert(False)
-    bignodes_r = np.array(rvec) >= 1./(len(req[node]))**.5
+    #the tolerance prevents roundoff in normr from excluding every row when all have equal magnitude
+    bignodes_r = np.array(rvec) >= (1 - 1e-10)/(len(req[node]))**.5
     rcount = np.count_nonzero(bignodes_r)
     vprint("R: ", np.count_nonzero(bignodes_r), len(req[node]), bignodes_r[rvec_self_idx])
 
-- 
2.43.0


From b60c114cd698c3644ba019c4dcdf40170f162e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 03/65] fix: electrical Cable called a nonexistent exp and
 ignored that its length is in ns

---
 phasor/electronics/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/electronics/elements.py b/phasor/electronics/elements.py
index b99769c..1b25c1e 100644
--- a/phasor/electronics/elements.py
+++ b/phasor/electronics/elements.py
@@ -163,7 +163,7 @@ class Cable(Electrical2PortBase):
         return val
 
     def phase_advance(self, F):
-        return self.symbols.exp(-2 * self.symbols.i * self.symbols.pi * F * self.length_ns)
+        return self.symbols.math.exp(-2 * self.symbols.i * self.symbols.pi * F * self.length_ns * 1e-9)
 
     def system_setup_ports(self, ports_algorithm):
         #TODO could reduce these with more information about used S-matrix elements
-- 
2.43.0


From 0ed9580509756180d6df99e8d2d7b9ba845df527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 04/65] fix: VAmp port setup treated port keys as ports and
 crashed every system using it

---
 phasor/electronics/opamps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/electronics/opamps.py b/phasor/electronics/opamps.py
index 24ae1be..b2fdec9 100644
--- a/phasor/electronics/opamps.py
+++ b/phasor/electronics/opamps.py
@@ -119,10 +119,10 @@ class VAmp(elements.ElectricalElementBase):
             (self.in_n.i, self.in_n.o),
             (self.out.i, self.out.o),
         ):
-            for kfrom in ports_algorithm.port_update_get(port1.i):
-                ports_algorithm.port_coupling_needed(port2.o, kfrom)
-            for kto in ports_algorithm.port_update_get(port2.o):
-                ports_algorithm.port_coupling_needed(port1.i, kto)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(port2, kfrom)
+            for kto in ports_algorithm.port_update_get(port2):
+                ports_algorithm.port_coupling_needed(port1, kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-- 
2.43.0


From 82e75b172180eb76ccc27f0b52875db890970827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 05/65] fix: current and force readouts (and N terminals) mixed
 inner and outer waves at ports carrying a fluctuation

---
 phasor/electronics/multimeter.py | 8 ++++----
 phasor/mechanical/multimeter.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/phasor/electronics/multimeter.py b/phasor/electronics/multimeter.py
index ed3aa11..98f83f4 100644
--- a/phasor/electronics/multimeter.py
+++ b/phasor/electronics/multimeter.py
@@ -51,8 +51,8 @@ class VoltageReadout(readouts.DCReadout, elements.ElectricalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.terminal_N.i] = -1
-            pcplgs[self.terminal_N.o] = -1
+            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
+            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
@@ -102,8 +102,8 @@ class CurrentReadout(readouts.DCReadout, elements.ElectricalElementBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
         pcplgs = {
-            self.terminal.i :  1 / self.Ze_termination,
-            self.terminal.o : -1 / self.Ze_termination,
+            self.system.ports_pre_get(self.terminal.i) :  1 / self.Ze_termination,
+            self.system.ports_post_get(self.terminal.o) : -1 / self.Ze_termination,
         }
         direction_cplg = {'in' : 1, 'out' : -1}[self.direction]
         for port, pcplg in pcplgs.items():
diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index dd8f778..e2d3c8d 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -54,8 +54,8 @@ class DisplacementReadout(readouts.DCReadout, elements.MechanicalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.terminal_N.i] = -1
-            pcplgs[self.terminal_N.o] = -1
+            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
+            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
@@ -100,8 +100,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
     def system_setup_coupling(self, matrix_algorithm):
         #TODO, not sure about the 1/2 everywhere
         pcplgs = {
-            self.terminal.i :  1 / self.Zm_termination,
-            self.terminal.o : -1 / self.Zm_termination,
+            self.system.ports_pre_get(self.terminal.i) :  1 / self.Zm_termination,
+            self.system.ports_post_get(self.terminal.o) : -1 / self.Zm_termination,
         }
         direction_cplg = {'in' : 1, 'out' : -1}[self.direction]
         for port, pcplg in pcplgs.items():
-- 
2.43.0


From c240b4958b6ac5deb785991250094c057aa600cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 06/65] fix: mirror backscatter used the reflection phase
 instead of its own backscatter phase

---
 phasor/optics/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index 4f7f865..a926f8c 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -453,8 +453,8 @@ class Mirror(
                     R_cplgC  = R_cplg
 
                     if np.any(self.backscatter_phase_rad.val != 0):
-                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.phase_rad.val)
-                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.phase_rad.val)
+                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.backscatter_phase_rad.val)
+                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.backscatter_phase_rad.val)
 
                     modulations_fill_2optical_2classical(
                         system             = self.system,
-- 
2.43.0


From fcaf1dcc3067437f287123c95423bf63aae3f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 07/65] fix: mirror reflection phase was not reversed on the
 back, so overlapping beams did not conserve energy

---
 phasor/optics/mirror.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index a926f8c..f9f8343 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -426,8 +426,9 @@ class Mirror(
                 R_cplgC  = R_cplg
 
                 if np.any(self.phase_rad.val != 0):
-                    R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.phase_rad.val)
-                    R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.phase_rad.val)
+                    #the phase reverses on the back, as for a displacement, to keep the mirror unitary
+                    R_cplg   = R_cplg * self.symbols.math.exp(mod_sign * self.symbols.i * self.phase_rad.val)
+                    R_cplgC  = R_cplgC * self.symbols.math.exp(-mod_sign * self.symbols.i * self.phase_rad.val)
 
                 #everything scales with Stdcplg, so don't run if there are no reflections
                 if R_nonzero:
-- 
2.43.0


From e1a6bfa9e017eefc35d0504748b5ce7cde680ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 08/65] fix: MagicPD dropped the vacuum fluctuations travelling
 backwards through it

---
 phasor/optics/photodiode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/optics/photodiode.py b/phasor/optics/photodiode.py
index 0c9b1ab..d50bc99 100644
--- a/phasor/optics/photodiode.py
+++ b/phasor/optics/photodiode.py
@@ -153,6 +153,8 @@ class MagicPD(
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.i][0], kfrom)
         for kto in ports_algorithm.port_update_get(self.po_Bk.o):
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.o][0], kto)
+        for kto in ports_algorithm.port_update_get(self.po_Fr.o):
+            ports_algorithm.port_coupling_needed(pmap[self.po_Fr.o][0], kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-- 
2.43.0


From 77ade24f8ecf3e27156050825ebfa6df3864db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 09/65] fix: LUQ Householder steps gave NaN when the pivot
 vanishes at one point of a sweep

---
 phasor/matrix/DAG_algorithm_impl.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/phasor/matrix/DAG_algorithm_impl.py b/phasor/matrix/DAG_algorithm_impl.py
index 5459109..9c130df 100644
--- a/phasor/matrix/DAG_algorithm_impl.py
+++ b/phasor/matrix/DAG_algorithm_impl.py
@@ -15,6 +15,15 @@ def abssq(arr):
     return arr.real**2 + arr.imag**2
 
 
+def unit_phase(arr):
+    """
+    arr / |arr|, or 1 where arr vanishes (such as at a single point of a sweep)
+    """
+    mag = abs(arr)
+    zeros = (mag == 0)
+    return np.where(zeros, 1, arr / np.where(zeros, 1, mag))[()]
+
+
 def enorm(arr):
     return np.max(abssq(arr))
 
@@ -370,7 +379,7 @@ def householderREFL_ROW_OP(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    u_mod_edge = edge + norm_orig * unit_phase(edge)
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
@@ -495,7 +504,7 @@ def householderREFL_ROW_OP_SYM(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    u_mod_edge = edge + norm_orig * unit_phase(edge)
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
@@ -1056,7 +1065,7 @@ def householderREFL_COL_OP(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    u_mod_edge = edge + norm_orig * unit_phase(edge)
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
-- 
2.43.0


From cfd8a5e3d66e552b5350029c1343a7e3cfd2d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 10/65] fix: PolSelector coupled light entering Bk_S from the
 Bk_P port

---
 phasor/optics/selectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/selectors.py b/phasor/optics/selectors.py
index c77821e..24476f3 100644
--- a/phasor/optics/selectors.py
+++ b/phasor/optics/selectors.py
@@ -60,7 +60,7 @@ class PolSelector(
         for kfrom in matrix_algorithm.port_set_get(self.Bk_P.i):
             matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
         for kfrom in matrix_algorithm.port_set_get(self.Bk_S.i):
-            matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
+            matrix_algorithm.port_coupling_insert(self.Bk_S.i, kfrom, self.po_Fr.o, kfrom, 1)
         return
 
 
-- 
2.43.0


From 6217d8fecb2544a654994343462592c9f9f69cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 11/65] fix: PolarizingBeamsplitter could not be constructed
 (called a method that does not exist)

---
 phasor/optics/polarization.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/phasor/optics/polarization.py b/phasor/optics/polarization.py
index dc86ada..5caea6d 100644
--- a/phasor/optics/polarization.py
+++ b/phasor/optics/polarization.py
@@ -465,39 +465,34 @@ class PolarizingBeamsplitter(PolarizingMirror):
         AOI_deg           = 45,
         **kwargs
     ):
-        self.__init_ctree__(**kwargs)
-        bases.PTREE_ASSIGN(self).pass_polarization = pass_polarization
-        bases.PTREE_ASSIGN(self).selection_defect  = selection_defect
-        bases.PTREE_ASSIGN(self).rejection_defect  = rejection_defect
-        bases.PTREE_ASSIGN(self).select_loss       = select_loss
-        bases.PTREE_ASSIGN(self).reject_loss       = reject_loss
-
         select_mirror = Mirror(
-            T_hr = 1 - self.selection_defect,
-            L_hr = self.reject_loss,
-            L_t  = self.select_loss,
+            T_hr = 1 - selection_defect,
+            L_hr = reject_loss,
+            L_t  = select_loss,
         )
 
         reject_mirror = Mirror(
-            T_hr = self.rejection_defect,
-            L_hr = self.reject_loss,
-            L_t  = self.select_loss,
+            T_hr = rejection_defect,
+            L_hr = reject_loss,
+            L_t  = select_loss,
         )
 
-        if self.pass_polarization.upper() == 'P':
+        if pass_polarization.upper() == 'P':
             super().__init__(
                 mirror_P = select_mirror,
                 mirror_S = reject_mirror,
                 AOI_deg  = AOI_deg,
                 **kwargs
             )
-        elif self.pass_polarization.upper() == 'S':
+        elif pass_polarization.upper() == 'S':
             super().__init__(
                 mirror_S = select_mirror,
                 mirror_P = reject_mirror,
                 AOI_deg  = AOI_deg,
                 **kwargs
             )
+        else:
+            raise RuntimeError("pass_polarization must be 'S' or 'P'")
 
 
 def polarization_opposite(pol_str):
-- 
2.43.0


From 1ebba12322ce7e18241311da1fded190694e15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 12/65] fix: arrays of rotation angles crashed rotators and
 wave plates

---
 phasor/optics/polarization.py | 40 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/phasor/optics/polarization.py b/phasor/optics/polarization.py
index 5caea6d..c3fe416 100644
--- a/phasor/optics/polarization.py
+++ b/phasor/optics/polarization.py
@@ -3,6 +3,7 @@
 """
 from __future__ import division, print_function, unicode_literals
 import declarative as decl
+import numpy as np
 
 from ..utilities.future_from_2 import super
 
@@ -14,6 +15,11 @@ from .selective_mirrors import PolarizingMirror
 from . import standard_attrs
 
 
+def angle_in(angle_deg, special):
+    # arrays of angles (sweeps) always use the general couplings
+    return np.ndim(angle_deg) == 0 and angle_deg in special
+
+
 class BaseRotator(
         bases.OpticalCouplerBase,
         bases.SystemElementBase
@@ -44,13 +50,13 @@ class BaseRotator(
         }
 
     def system_setup_ports(self, ports_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if angle_in(self.rotate_deg.val, (0, 180, -180)):
             for port in self.ports_optical:
                 for kfrom in ports_algorithm.port_update_get(port.i):
                     ports_algorithm.port_coupling_needed(self.pmap[port].o, kfrom)
                 for kto in ports_algorithm.port_update_get(port.o):
                     ports_algorithm.port_coupling_needed(self.pmap[port].i, kto)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
+        elif angle_in(self.rotate_deg.val, (90, -90, 270, -270)):
             for port in self.ports_optical:
                 for kfrom in ports_algorithm.port_update_get(port.i):
                     if kfrom & ports.PolS:
@@ -73,18 +79,18 @@ class BaseRotator(
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if angle_in(self.rotate_deg.val, (0, 180, -180)):
             if self.rotate_deg.val == 0:
                 cplg = 1
-            elif self.rotate_deg.val in (180, -180):
+            elif angle_in(self.rotate_deg.val, (180, -180)):
                 cplg = -1
             for port in self.ports_optical:
                 for kfrom in matrix_algorithm.port_set_get(port.i):
                     matrix_algorithm.port_coupling_insert(port.i, kfrom, self.pmap[port].o, kfrom, cplg)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
-            if self.rotate_deg.val in (90, -270):
+        elif angle_in(self.rotate_deg.val, (90, -90, 270, -270)):
+            if angle_in(self.rotate_deg.val, (90, -270)):
                 cplg_O = 1
-            elif self.rotate_deg.val in (-90, 270):
+            elif angle_in(self.rotate_deg.val, (-90, 270)):
                 cplg_O = -1
             for port in self.ports_optical:
                 if port is self.po_Fr:
@@ -154,18 +160,18 @@ class PolarizationRotator(
         BaseRotator
 ):
     def system_setup_coupling(self, matrix_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if angle_in(self.rotate_deg.val, (0, 180, -180)):
             if self.rotate_deg.val == 0:
                 cplg = 1
-            elif self.rotate_deg.val in (180, -180):
+            elif angle_in(self.rotate_deg.val, (180, -180)):
                 cplg = -1
             for port in self.ports_optical:
                 for kfrom in matrix_algorithm.port_set_get(port.i):
                     matrix_algorithm.port_coupling_insert(port.i, kfrom, self.pmap[port].o, kfrom, cplg)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
-            if self.rotate_deg.val in (90, -270):
+        elif angle_in(self.rotate_deg.val, (90, -90, 270, -270)):
+            if angle_in(self.rotate_deg.val, (90, -270)):
                 cplg_O = 1
-            elif self.rotate_deg.val in (-90, 270):
+            elif angle_in(self.rotate_deg.val, (-90, 270)):
                 cplg_O = -1
             for port in self.ports_optical:
                 if port is self.po_Fr:
@@ -235,18 +241,18 @@ class FaradayRotator(
         BaseRotator
 ):
     def system_setup_coupling(self, matrix_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if angle_in(self.rotate_deg.val, (0, 180, -180)):
             if self.rotate_deg.val == 0:
                 cplg = 1
-            elif self.rotate_deg.val in (180, -180):
+            elif angle_in(self.rotate_deg.val, (180, -180)):
                 cplg = -1
             for port in self.ports_optical:
                 for kfrom in matrix_algorithm.port_set_get(port.i):
                     matrix_algorithm.port_coupling_insert(port.i, kfrom, self.pmap[port].o, kfrom, cplg)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
-            if self.rotate_deg.val in (90, -270):
+        elif angle_in(self.rotate_deg.val, (90, -90, 270, -270)):
+            if angle_in(self.rotate_deg.val, (90, -270)):
                 cplg = 1
-            elif self.rotate_deg.val in (-90, 270):
+            elif angle_in(self.rotate_deg.val, (-90, 270)):
                 cplg = -1
             for port in self.ports_optical:
                 for kfrom in matrix_algorithm.port_set_get(port.i):
-- 
2.43.0


From 32ce1ccbac9d4bbfc7ec18f9c38ffee47b42ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 13/65] fix: piezo actuator pushed the mechanics with the wrong
 sign and had a negative stiffness reaction

---
 phasor/transducers/PZT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/transducers/PZT.py b/phasor/transducers/PZT.py
index 773431f..65bdb00 100644
--- a/phasor/transducers/PZT.py
+++ b/phasor/transducers/PZT.py
@@ -73,11 +73,11 @@ class PZTMountedGrounded(
 
         def Smm_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return ((Z_e*Z_m*d**2*k*s - (Z_m - k)*(C*Z_e*s + 1))/(-Z_e*Z_m*d**2*k*s + Z_m*(C*Z_e*s + 1) + k*(C*Z_e*s + 1)))
+            return (((Z_m - k)*(C*Z_e*s + 1) - Z_e*Z_m*d**2*k*s)/(-Z_e*Z_m*d**2*k*s + Z_m*(C*Z_e*s + 1) + k*(C*Z_e*s + 1)))
 
         def Sem_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return (2*Z_m*d*k/(-C*Z_e*Z_m*s - C*Z_e*k*s + Z_e*Z_m*d**2*k*s - Z_m - k))
+            return (2*Z_m*d*k/(C*Z_e*Z_m*s + C*Z_e*k*s - Z_e*Z_m*d**2*k*s + Z_m + k))
 
         def Sme_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-- 
2.43.0


From 60ed93bdae499d698a78195fc23b82b67a7ff267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 14/65] fix: string impedance converter multiplied both sides
 by frequency, so the impedance mismatch was wrong

---
 phasor/mechanical/string.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/mechanical/string.py b/phasor/mechanical/string.py
index 0749be0..91ff4e0 100644
--- a/phasor/mechanical/string.py
+++ b/phasor/mechanical/string.py
@@ -101,22 +101,22 @@ class ZConverter(smatrix.SMatrix2PortBase):
         return val
 
     def S11_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
+        Y1 = 1/self.Zm_termination
         Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
         return (Y1 - Y2) / (Y1 + Y2)
 
     def S12_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
+        Y1 = 1/self.Zm_termination
         Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
         return 2 * Y1/(Y1 + Y2)
 
     def S21_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
+        Y1 = 1/self.Zm_termination
         Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
         return 2 * Y2/(Y1 + Y2)
 
     def S22_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
+        Y1 = 1/self.Zm_termination
         Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
         return (Y2 - Y1) / (Y1 + Y2)
 
-- 
2.43.0


From b4cd43644f5c95ec5d103c0df9da22480be32f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 15/65] fix: spring loss angle was not odd in frequency and its
 thermal noise disagreed with fluctuation-dissipation

---
 phasor/mechanical/passive.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/phasor/mechanical/passive.py b/phasor/mechanical/passive.py
index d6697ce..fcc59df 100644
--- a/phasor/mechanical/passive.py
+++ b/phasor/mechanical/passive.py
@@ -59,7 +59,7 @@ class SpringBase(object):
                 #this formula is the conversion of loss angle to equivalent viscous damping
                 return noise.DisplacementFluctuation(
                     port = self.pm_A,
-                    dsq_Hz_by_freq = lambda F : 4 * self.symbols.temp_K * self.symbols.kB_J_K * self.loss_angle_by_freq(F)  / ((2 * self.symbols.pi * F) * self.elasticity_N_m),
+                    dsq_Hz_by_freq = self._johnson_dsq_Hz_by_freq,
                     sided = 'one-sided',
                 )
         return None
@@ -67,10 +67,16 @@ class SpringBase(object):
     def mobility_by_freq(self, F):
         #TODO
         if self.loss_angle_by_freq is not None:
-            return self.elasticity_N_m * (1 + self.symbols.i * self.loss_angle_by_freq(F))
+            #the response must be conjugate symmetric in frequency, so the angle is odd in F (and the DC stiffness is real)
+            return self.elasticity_N_m * (1 + self.symbols.i * np.sign(F) * self.loss_angle_by_freq(abs(F)))
         else:
             return self.elasticity_N_m
 
+    def _johnson_dsq_Hz_by_freq(self, F):
+        F = abs(F)
+        phi = self.loss_angle_by_freq(F)
+        return 4 * self.symbols.temp_K * self.symbols.kB_J_K * phi / (2 * self.symbols.pi * F * self.elasticity_N_m * (1 + phi**2))
+
 
 class MassBase(object):
     @decl.dproperty
-- 
2.43.0


From f8c8a013053fab6414907c5b1c3dac244599ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 16/65] fix: arrays of DC values crashed electrical and
 mechanical sources

---
 phasor/electronics/sources.py     | 15 ++++++++-------
 phasor/mechanical/ports_driven.py |  5 +++--
 phasor/mechanical/sources.py      | 15 ++++++++-------
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/phasor/electronics/sources.py b/phasor/electronics/sources.py
index 94bd3a1..e2074a3 100644
--- a/phasor/electronics/sources.py
+++ b/phasor/electronics/sources.py
@@ -3,6 +3,7 @@
 """
 from __future__ import division, print_function, unicode_literals
 
+import numpy as np
 import declarative as decl
 
 from ..utilities.future_from_2 import super
@@ -30,7 +31,7 @@ class VoltageSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.V_DC != 0:
+        if np.any(self.V_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pe_A.o, self.fkey)
         return
 
@@ -46,7 +47,7 @@ class VoltageSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.V_DC != 0:
+        if np.any(self.V_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
@@ -84,7 +85,7 @@ class CurrentSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.I_DC != 0:
+        if np.any(self.I_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pe_A.o, self.fkey)
         return
 
@@ -100,7 +101,7 @@ class CurrentSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.I_DC != 0:
+        if np.any(self.I_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
@@ -157,7 +158,7 @@ class VoltageSourceBalanced(smatrix.SMatrix2PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.I_DC != 0 or self.V_DC != 0:
+        if np.any(self.I_DC != 0) or np.any(self.V_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pe_A.o, self.fkey)
             ports_algorithm.coherent_sources_needed(self.pe_B.o, self.fkey)
         return
@@ -181,7 +182,7 @@ class VoltageSourceBalanced(smatrix.SMatrix2PortBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
 
-        if self.V_DC != 0:
+        if np.any(self.V_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
@@ -194,7 +195,7 @@ class VoltageSourceBalanced(smatrix.SMatrix2PortBase):
                 -self.V_DC / _2,
             )
 
-        if self.I_DC != 0:
+        if np.any(self.I_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
diff --git a/phasor/mechanical/ports_driven.py b/phasor/mechanical/ports_driven.py
index d94a847..8a75a2c 100644
--- a/phasor/mechanical/ports_driven.py
+++ b/phasor/mechanical/ports_driven.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 from __future__ import division, print_function, unicode_literals
 
+import numpy as np
 import declarative
 
 from ..utilities.future_from_2 import super
@@ -34,7 +35,7 @@ class ForceToDisplacementBase(elements.MechanicalElementBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             ports_algorithm.coherent_sources_needed(self._port.o, self.fkey)
         return
 
@@ -57,7 +58,7 @@ class ForceToDisplacementBase(elements.MechanicalElementBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self._port.o,
                 self.fkey,
diff --git a/phasor/mechanical/sources.py b/phasor/mechanical/sources.py
index 3e60096..d996970 100644
--- a/phasor/mechanical/sources.py
+++ b/phasor/mechanical/sources.py
@@ -3,6 +3,7 @@
 """
 from __future__ import division, print_function, unicode_literals
 
+import numpy as np
 import declarative
 
 from ..utilities.future_from_2 import str, super
@@ -30,7 +31,7 @@ class DisplacementSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.d_DC != 0:
+        if np.any(self.d_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pm_A.o, self.fkey)
         return
 
@@ -46,7 +47,7 @@ class DisplacementSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.d_DC != 0:
+        if np.any(self.d_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
@@ -84,7 +85,7 @@ class ForceSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pm_A.o, self.fkey)
         return
 
@@ -100,7 +101,7 @@ class ForceSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
@@ -157,7 +158,7 @@ class DisplacementSourceBalanced(smatrix.SMatrix2PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.d_DC != 0 or self.F_DC != 0:
+        if np.any(self.d_DC != 0) or np.any(self.F_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pm_A.o, self.fkey)
             ports_algorithm.coherent_sources_needed(self.pm_B.o, self.fkey)
         return
@@ -181,7 +182,7 @@ class DisplacementSourceBalanced(smatrix.SMatrix2PortBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
 
-        if self.d_DC != 0:
+        if np.any(self.d_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
@@ -194,7 +195,7 @@ class DisplacementSourceBalanced(smatrix.SMatrix2PortBase):
                 -self.d_DC / _2,
             )
 
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
-- 
2.43.0


From fe71a31c4f639dcf7c6ea9b5c414aca94faf0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 17/65] fix: noise totals accumulated in place, failing when
 sources have different sweep shapes

---
 phasor/readouts/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/readouts/noise.py b/phasor/readouts/noise.py
index b170aaa..8493e0c 100644
--- a/phasor/readouts/noise.py
+++ b/phasor/readouts/noise.py
@@ -141,7 +141,7 @@ class NoiseReadout(base.SystemElementBase):
                             if not np.all(np.isfinite(pspec_tot)):
                                 print("BADNESS: ", nobj.name_system, pspec_tot)
                             else:
-                                nsum += pspec_tot
+                                nsum = nsum + pspec_tot
                                 ncollect[nobj][pnameP, pnameN] = ncollect[nobj][pnameP, pnameN] + pspec_tot
                 nsums[pnameP, pnameN] = nsum
         return declarative.Bunch(
-- 
2.43.0


From 0fb8dabc81c7fc8f498c965cebec66489027d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 18/65] fix: array displacements crashed Moment1D

---
 phasor/mechanical/xyz.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/phasor/mechanical/xyz.py b/phasor/mechanical/xyz.py
index d1cbc55..35ccf40 100644
--- a/phasor/mechanical/xyz.py
+++ b/phasor/mechanical/xyz.py
@@ -523,17 +523,18 @@ class Moment1D(elements.Mechanical1PortBase):
         d = self.displacement
         ports = [self.pm_A, self.pm_B, self.L]
         den = d**2 + 2
-        matrix = 1/den * np.array([
-            [d**2, 2   , +2*d],
-            [2   , d**2, -2*d],
-            [2*d , -2*d, -d**2 + 2],
-        ])
+        #not a numpy array, since the displacement may itself be an array
+        matrix = [
+            [d**2 / den, 2    / den, +2*d        / den],
+            [2    / den, d**2 / den, -2*d        / den],
+            [2*d  / den, -2*d / den, (2 - d**2)  / den],
+        ]
 
         def matrix_inject(ports1, ports2, matrix):
             for idx1, port1 in enumerate(ports1):
                 for idx2, port2 in enumerate(ports2):
                     for kfrom in matrix_algorithm.port_set_get(port1.i):
-                        cplg = matrix[idx1, idx2]
+                        cplg = matrix[idx1][idx2]
                         if np.any(cplg != 0):
                             matrix_algorithm.port_coupling_insert(
                                 port1.i,
-- 
2.43.0


From a75fe21349f309645d1095a14169237b435d3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 19/65] fix: arrays of resistances crashed resistors, inductors
 and transformers

---
 phasor/electronics/passive.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/phasor/electronics/passive.py b/phasor/electronics/passive.py
index f6e5700..3e757b7 100644
--- a/phasor/electronics/passive.py
+++ b/phasor/electronics/passive.py
@@ -54,7 +54,7 @@ class InductorBase(object):
 
     @decl.dproperty
     def johnson_noise(self):
-        if self.system.include_johnson_noise and self.resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_A,
                 Vsq_Hz_by_freq = lambda F : 4 * self.resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -251,7 +251,7 @@ class TransformerSeries(smatrix.SMatrix2PortBase):
 
     @decl.dproperty
     def L1_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L1_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L1_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_A,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L1_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -265,7 +265,7 @@ class TransformerSeries(smatrix.SMatrix2PortBase):
 
     @decl.dproperty
     def L2_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L2_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L2_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_C,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L2_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -309,7 +309,7 @@ class Transformer(Z2x2To4Port):
 
     @decl.dproperty
     def L1_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L1_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L1_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_A,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L1_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -323,7 +323,7 @@ class Transformer(Z2x2To4Port):
 
     @decl.dproperty
     def L2_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L2_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L2_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_C,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L2_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
-- 
2.43.0


From cdf723dddd03c71eb9a1a7f91f4ceee1ad3d43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 20/65] fix: objects at the same location crashed the layout
 sort

---
 phasor/alm/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 23569b3..7ccc4f0 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -78,7 +78,8 @@ class System(
             if isinstance(ch, bases.MatrixAtsBase):
                 if ch.loc_m.ref is not None:
                     loc_ch_list.append((ch.loc_m.ref, ch))
-        loc_ch_list.sort()
+        #only by location, objects at the same place stay in the order they were added
+        loc_ch_list.sort(key = lambda loc_ch : loc_ch[0])
         #print(loc_ch_list)
         clist = [ch for loc, ch in loc_ch_list]
         return clist
-- 
2.43.0


From 495173b547496a9fdf9e7774e26319f947a2e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 21/65] fix: lens interfaces used real angles while spaces use
 reduced ones, so glass counted as L/n^2

---
 phasor/alm/bases.py | 68 +++++++++++++--------------------------------
 1 file changed, 19 insertions(+), 49 deletions(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index 6406e6e..a1e57af 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -248,66 +248,36 @@ class ThinLens(ThinBase):
 
 
 class LensInterface(ThinBase):
+    """
+    Uses the reduced slope (n * angle), like Space, so the matrix has unit determinant
+    """
     substrate_from = substrate_environment
     substrate_to   = substrate_environment
 
     R_m = attrs.generate_R_m()
 
     @declarative.mproperty
-    def matrix(self):
+    def _power(self):
+        if self.R_m.val is None:
+            return 0
+        #reversing exchanges the substrates and flips the radius, so the power is the same
         n_from = self.substrate_from.n(self)
         n_to   = self.substrate_to.n(self)
-        if self.R_m.val is not None:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_from/n_to - 1)/self.R_m.val, n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_to/n_from - 1)/-self.R_m.val, n_to / n_from],
-                ])
-        else:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_to / n_from],
-                ])
-        return mat
+        return (n_to - n_from) / self.R_m.val
+
+    @declarative.mproperty
+    def matrix(self):
+        return np.matrix([
+            [1, 0],
+            [-self._power, 1],
+        ])
 
     @declarative.mproperty
     def matrix_inv(self):
-        n_to = self.substrate_from.n(self)
-        n_from = self.substrate_to.n(self)
-        if self.R_m.val is not None:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_from/n_to - 1)/self.R_m.val, n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_to/n_from - 1)/-self.R_m.val, n_to / n_from],
-                ])
-        else:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_to / n_from],
-                ])
-        return mat
+        return np.matrix([
+            [1, 0],
+            [self._power, 1],
+        ])
 
 
 class Mirror(ThinBase):
-- 
2.43.0


From 692f91f6b6e0f9fc45a937441712159bcd3cd632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 22/65] fix: reversed ABCDGeneric did not exchange A and D

---
 phasor/alm/bases.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index a1e57af..79a1cf7 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -373,5 +373,8 @@ class ABCDGeneric(ThinBase):
 
     @declarative.mproperty
     def matrix(self):
+        if self.env_reversed:
+            #the beam enters from the other side
+            return np.matrix([[self.D, self.B.val], [self.C.val, self.A.val]])
         return np.matrix([[self.A.val, self.B.val], [self.C.val, self.D]])
 
-- 
2.43.0


From f4ff558b88da116e458453bd6e97a68175799385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 23/65] fix: positions in any order or shape returned None or
 the left end

---
 phasor/alm/bases.py        | 17 +++--------------
 phasor/alm/measurements.py |  6 +++++-
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index 79a1cf7..b8346c4 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -101,21 +101,10 @@ class MatrixAtsBase(Element):
     def matrix_target_to_z(self, tidx1, z_m, fill, invert = False):
         z_m = np.asarray(z_m)
         if len(z_m.shape) > 0:
-            if len(z_m.shape) == 1 and np_check_sorted(z_m):
-                return self.matrix_target_to_z_linsorted(tidx1, z_m, fill, invert = invert)
-
-            fill_reshape = fill.reshape(2, 2, -1)
-            idx_remux = np.indices(z_m.shape)
-            idx_remux = idx_remux.reshape(len(z_m.shape), -1)
-            z_m = z_m.reshape(-1)
-            sidx = np.argsort(z_m)
-            z_m = z_m[sidx]
-            idx_remux = idx_remux[:, sidx]
-            self.matrix_target_to_z_linsorted(tidx1, z_m, fill_reshape, invert = invert)
-            fill = fill_reshape[(slice(None), slice(None)) + tuple(idx_remux[i] for i in range(idx_remux.shape[0]))]
-            return
+            #every position is looked up individually, so neither the order nor the shape matter
+            return self.matrix_target_to_z_linsorted(tidx1, z_m, fill, invert = invert)
         else:
-            return self.matrix_target_to_z_single(z_m)
+            return self.matrix_target_to_z_single(tidx1, z_m, invert = invert)
 
     def matrix_target_to_z_linsorted(self, tidx1, z_m, fill, invert = False):
         it = np.nditer(z_m, flags = ['multi_index'])
diff --git a/phasor/alm/measurements.py b/phasor/alm/measurements.py
index 7ab75bd..15d7d77 100644
--- a/phasor/alm/measurements.py
+++ b/phasor/alm/measurements.py
@@ -182,7 +182,8 @@ class Measurements(Element):
             fill = np.empty((2, 2) + z_m.shape)
             mat = self.layout.matrix_target_to_z_linsorted(tidx_beam, z_m, fill)
         else:
-            mat = self.matrix_at(z_m)
+            fill = np.empty((2, 2) + z_m.shape)
+            mat = self.layout.matrix_target_to_z(tidx_beam, z_m, fill)
         target_obj = self.layout.target_obj(tidx_beam)
         q_in = target_obj.beam_q
         q = q_in.propagate_matrix(mat)
@@ -196,6 +197,9 @@ class Measurements(Element):
         elif np_check_sorted(z_m):
             fill = np.empty((2, 2) + z_m.shape)
             mat = self.layout.matrix_target_to_z_linsorted(tidx, z_m, fill)
+        else:
+            fill = np.empty((2, 2) + z_m.shape)
+            mat = self.layout.matrix_target_to_z(tidx, z_m, fill)
         return mat
 
     def mat_target_between(self, tname1, tname2):
-- 
2.43.0


From 1e7bfe192a4d9346c634b58b854a2ba3f0dcc9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 24/65] fix: lengths printed in cm were multiplied by 100 the
 wrong way

---
 phasor/alm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/alm/utils.py b/phasor/alm/utils.py
index 0988785..ed20390 100644
--- a/phasor/alm/utils.py
+++ b/phasor/alm/utils.py
@@ -113,7 +113,7 @@ def unit_str(val, unit, d=3, use_c = False):
         div = 1
     elif v > 1e-2 and use_c:
         prefix = 'c'
-        div = 1e2
+        div = 1e-2
     elif v > 1e-3:
         prefix = 'm'
         div = 1e-3
-- 
2.43.0


From da55a13d9ebed5f1715d68a270b7df9c855cc360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 25/65] fix: unit definitions could not be divided on python 3

---
 phasor/base/simple_units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phasor/base/simple_units.py b/phasor/base/simple_units.py
index c323e22..f1e0bbb 100644
--- a/phasor/base/simple_units.py
+++ b/phasor/base/simple_units.py
@@ -82,13 +82,16 @@ class SimpleUnitfulGroup(declarative.OverridableObject):
             units = self.units,
         )
 
-    def __div__(self, other):
+    def __truediv__(self, other):
         return SimpleUnitfulGroup(
             val = self.val / other,
             ref = self.ref / other,
             units = self.units,
         )
 
+    #for python 2
+    __div__ = __truediv__
+
 
 class ElementRefValue(SimpleUnitfulGroup, Element):
     ##Inherited from SimpleUnitfulGroup
-- 
2.43.0


From 572498084a01545baaedd82d3b01188f444340f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 26/65] fix: the inverse trigonometric functions were not found
 for floats and arrays

---
 phasor/math/dispatched.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/phasor/math/dispatched.py b/phasor/math/dispatched.py
index a3691fc..db8337f 100644
--- a/phasor/math/dispatched.py
+++ b/phasor/math/dispatched.py
@@ -37,6 +37,17 @@ module_by_type = {
 module_by_typemodule = {
 }
 
+#numpy names the inverse functions differently than math and cmath do
+numpy_names = {
+    'acos'  : 'arccos',
+    'acosh' : 'arccosh',
+    'asin'  : 'arcsin',
+    'asinh' : 'arcsinh',
+    'atan'  : 'arctan',
+    'atan2' : 'arctan2',
+    'atanh' : 'arctanh',
+}
+
 
 def generate_dispatched(func_name):
     def func(arg, **kwargs):
@@ -54,7 +65,10 @@ def generate_dispatched(func_name):
             mod_list = []
         for mod in mod_list + [dispatch_defaults]:
             try:
-                act_func = getattr(mod, func_name)
+                if mod is np:
+                    act_func = getattr(mod, numpy_names.get(func_name, func_name))
+                else:
+                    act_func = getattr(mod, func_name)
                 break
             except AttributeError:
                 pass
-- 
2.43.0


From f9214a5ea2e973df073238ba7cc1ca958911b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 27/65] fix: Complex powers, comparison and conversion to a
 python complex

---
 phasor/alm/beam_param.py |  2 +-
 phasor/math/complex.py   | 25 ++++++++++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/phasor/alm/beam_param.py b/phasor/alm/beam_param.py
index 977280c..1a13158 100644
--- a/phasor/alm/beam_param.py
+++ b/phasor/alm/beam_param.py
@@ -200,7 +200,7 @@ class ComplexBeamParam(object):
         )
 
     def __complex__(self):
-        return self.value
+        return complex(self.value.real, self.value.imag)
 
     def overlap_with(self, other):
         return (
diff --git a/phasor/math/complex.py b/phasor/math/complex.py
index 8f79300..cdcb34a 100644
--- a/phasor/math/complex.py
+++ b/phasor/math/complex.py
@@ -200,8 +200,8 @@ class Complex(ReprMixin):
             o_real = other
             o_imag = 0
         return (
-            (self.real != other.real) or
-            (self.imag != other.imag)
+            (self.real != o_real) or
+            (self.imag != o_imag)
         )
 
     def __pow__(self, other):
@@ -216,11 +216,15 @@ class Complex(ReprMixin):
             val = self
             if isinstance(o_real, int) or (isinstance(o_real, float) and (int(o_real) == o_real)):
                 o_real = int(o_real)
-                while o_real % 2 == 0:
-                    o_real = (o_real / 2)
-                    val = val * val
-                for _ in range(o_real - 1):
-                    val = val * self
+                if o_real < 0:
+                    return 1 / (self**(-o_real))
+                #binary powers
+                val = self.__class__(1., 0.)
+                while o_real > 0:
+                    if o_real % 2 == 1:
+                        val = val * self
+                    self = self * self
+                    o_real = o_real // 2
                 return val
             if isinstance(o_real, float) and o_real == .5:
                 aval = abs(self)
@@ -252,8 +256,8 @@ class Complex(ReprMixin):
 
         aval = aval ** o_real
         phase = phase * o_real
-        if o_imag is None:
-            return Complex(aval * cos(phase), -aval * sin(phase))
+        if o_imag is None or o_imag == 0:
+            return Complex(aval * cos(phase), aval * sin(phase))
         return NotImplemented
 
     def __rpow__(self, other):
@@ -279,6 +283,9 @@ class Complex(ReprMixin):
     def abs_sq(self):
         return (self.real * self.real + self.imag * self.imag)
 
+    def __complex__(self):
+        return complex(self.real, self.imag)
+
     def __hash__(self):
         return hash(self.real) ^ hash(self.imag)
 
-- 
2.43.0


From c925d48ed2da2e1004e90f05103a63d6b0873f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 28/65] fix: TransferFunctionSISO kept the builtin filter
 instead of its argument

---
 phasor/signals/siso_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 92c10fa..4331bbb 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -103,7 +103,7 @@ class TransferFunctionSISO(TransferFunctionSISOBase):
             **kwargs
     ):
         super().__init__(**kwargs)
-        PTREE_ASSIGN(self).filter = filter
+        PTREE_ASSIGN(self).filter = filter_func
         return
 
     def filter_func(self, freq):
-- 
2.43.0


From 519258d82f6e8c47d308a3c95e684a557ad09601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 29/65] fix: Gain had no default gain

---
 phasor/signals/siso_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 4331bbb..1c9ab57 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -124,6 +124,7 @@ class Integrator(TransferFunctionSISOBase):
 
 
 class Gain(TransferFunctionSISOBase):
+    @declarative.dproperty
     def gain(self, val = 1):
         return val
 
-- 
2.43.0


From b3db61aa9a9258948fbc0745e27a20c8e3a02db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 30/65] fix: contradictory q_factor and FWHM_Hz were accepted

---
 phasor/signals/siso_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 1c9ab57..aff5178 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -159,7 +159,7 @@ class TransferFunctionSISOMechSingleResonance(TransferFunctionSISOBase):
             raise RuntimeError("Must specify at least q_factor or FWHM_Hz")
 
         _FWHM = self.center_Hz / self.q_factor
-        assert(((_FWHM / self.FWHM_Hz) - 1) < 1e-8)
+        assert(abs((_FWHM / self.FWHM_Hz) - 1) < 1e-8)
 
         return
 
-- 
2.43.0


From 97e2106baef16fb8637171167bdde234f7f8c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 31/65] fix: matrix amplifiers and MIMO filters never inserted
 their ports

---
 phasor/signals/amplifiers.py  | 4 ++--
 phasor/signals/mimo_filter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/signals/amplifiers.py b/phasor/signals/amplifiers.py
index c3fdda5..c8baa99 100644
--- a/phasor/signals/amplifiers.py
+++ b/phasor/signals/amplifiers.py
@@ -101,9 +101,9 @@ class MatrixAmplifier(bases.CouplerBase, bases.SystemElementBase):
 
         for (iname, oname), xfer in list(self.port_pair_gains.items()):
             if iname not in self.ps_In:
-                self.ps_In[iname] = ports.SignalInPort(sname = iname)
+                self.ps_In[iname] = self.insert(ports.SignalInPort(), 'ps_In_{0}'.format(iname))
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                self.O[oname] = self.insert(ports.SignalOutPort(), 'O_{0}'.format(oname))
         return
 
     def system_setup_ports(self, ports_algorithm):
diff --git a/phasor/signals/mimo_filter.py b/phasor/signals/mimo_filter.py
index 8775bad..272a5bf 100644
--- a/phasor/signals/mimo_filter.py
+++ b/phasor/signals/mimo_filter.py
@@ -35,9 +35,9 @@ class TransferFunctionMIMO(CouplerBase, SystemElementBase):
 
         for (iname, oname), xfer in list(self.port_pair_xfers.items()):
             if iname not in self.ps_In:
-                self.ps_In[iname] = ports.SignalInPort(sname = iname)
+                self.ps_In[iname] = self.insert(ports.SignalInPort(), 'ps_In_{0}'.format(iname))
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                self.O[oname] = self.insert(ports.SignalOutPort(), 'O_{0}'.format(oname))
         return
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From b0556cf42806fb50154d0d6ad4f9a6e292eb5135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 32/65] fix: maximum frequencies could not be tested, and
 ignored negative frequencies

---
 phasor/system/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index f837310..068b68f 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -291,8 +291,8 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz
-        if np.any(freq_Hz < max_freq):
+            freq_Hz += n * F.F_Hz.val
+        if np.any(abs(freq_Hz) < max_freq):
             return False
         return True
 
-- 
2.43.0


From eea484961dea539c2eabebbb8c6588db3c57d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 33/65] fix: the direct term of a state space model was sent to
 its states

---
 phasor/signals/state_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/state_space.py b/phasor/signals/state_space.py
index e39890c..1da5a56 100644
--- a/phasor/signals/state_space.py
+++ b/phasor/signals/state_space.py
@@ -104,7 +104,7 @@ class StateSpaceModel(
                         ports_algorithm.port_coupling_needed(p_state.node, kfrom)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         ports_algorithm.port_coupling_needed(p_out.o, kfrom)
@@ -179,7 +179,7 @@ class StateSpaceModel(
                         matrix_algorithm.port_coupling_insert(p_in.i, kfrom, p_state.node, kfrom, D_cplg)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         #print("    ", p_out)
-- 
2.43.0


From aa0d2dd5942d2759c2cc8dbff1fc085f44cc65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 34/65] fix: nodes placed directly in the system lost their
 field keys

---
 phasor/system/ports_algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/system/ports_algorithm.py b/phasor/system/ports_algorithm.py
index 7475694..452d0cb 100644
--- a/phasor/system/ports_algorithm.py
+++ b/phasor/system/ports_algorithm.py
@@ -60,14 +60,14 @@ class PortUpdatesAlgorithm(object):
         while self.owners_update:
             el = self.owners_update.pop()
             #print("Updating owner: ", el)
+            self._current_element = el
             try:
                 ssp = el.system_setup_ports
             except AttributeError:
                 pass
             else:
-                self._current_element = el
                 ssp(self)
-                self.resolve_port_updates()
+            self.resolve_port_updates()
 
         return
 
-- 
2.43.0


From 373333e2f714874d7353c4c0dd00df4561468cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 35/65] fix: mixing with the DC part of a signal gave half of
 the product

---
 phasor/signals/mixer.py | 97 +++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 56 deletions(-)

diff --git a/phasor/signals/mixer.py b/phasor/signals/mixer.py
index c228f24..7f04b27 100644
--- a/phasor/signals/mixer.py
+++ b/phasor/signals/mixer.py
@@ -12,6 +12,21 @@ from . import ports
 from . import standard_attrs
 
 
+def product_coefficient(f1, f2, f_new):
+    """
+    Amplitudes away from DC are carried half by the positive and half by the negative
+    frequency, while those at DC are carried whole.
+    """
+    cplg = 1
+    if not f1.DC_is():
+        cplg = cplg / 2
+    if not f2.DC_is():
+        cplg = cplg / 2
+    if not f_new.DC_is():
+        cplg = cplg * 2
+    return cplg
+
+
 class Mixer(bases.SignalElementBase):
 
     @declarative.dproperty
@@ -71,34 +86,20 @@ class Mixer(bases.SignalElementBase):
                 freq_LO = self.system.classical_frequency_extract(kfrom1)
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
-                if not f_new.DC_is():
-                    #TODO add inhomogenous term
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.LO.i,  kfrom1),
-                        (self.ps_In.i,   kfrom2),
-                        (self.ps_R_I.o, kto),
-                        1 / 2,
-                    )
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.LO.i,  kfrom1),
-                        (self.ps_In.i,   kfrom2),
-                        (self.ps_R_Q.o, kto),
-                        self.symbols.i * np.sign(freq_LO) / 2,
-                    )
-                else:
-                    #TODO add inhomogenous term
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.LO.i,  kfrom1),
-                        (self.ps_In.i,   kfrom2),
-                        (self.ps_R_I.o, kto),
-                        1 / 4,
-                    )
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.LO.i,  kfrom1),
-                        (self.ps_In.i,   kfrom2),
-                        (self.ps_R_Q.o, kto),
-                        self.symbols.i * np.sign(freq_LO) / 4,
-                    )
+                pcplg = product_coefficient(f1, f2, f_new)
+                #TODO add inhomogenous term
+                matrix_algorithm.nonlinear_triplet_insert(
+                    (self.LO.i,  kfrom1),
+                    (self.ps_In.i,   kfrom2),
+                    (self.ps_R_I.o, kto),
+                    pcplg,
+                )
+                matrix_algorithm.nonlinear_triplet_insert(
+                    (self.LO.i,  kfrom1),
+                    (self.ps_In.i,   kfrom2),
+                    (self.ps_R_Q.o, kto),
+                    self.symbols.i * np.sign(freq_LO) * pcplg,
+                )
         return
 
 
@@ -194,20 +195,12 @@ class Modulator(bases.SignalElementBase):
 
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
-                if not f_new.DC_is():
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.ps_In.i,  kfrom1),
-                        (self.Mod_amp.i,   kfrom2),
-                        (self.ps_Out.o, kto),
-                        cplg / 2,
-                    )
-                else:
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.ps_In.i,  kfrom1),
-                        (self.Mod_amp.i,   kfrom2),
-                        (self.ps_Out.o, kto),
-                        cplg / 4,
-                    )
+                matrix_algorithm.nonlinear_triplet_insert(
+                    (self.ps_In.i,  kfrom1),
+                    (self.Mod_amp.i,   kfrom2),
+                    (self.ps_Out.o, kto),
+                    cplg * product_coefficient(f1, f2, f_new),
+                )
             for kfrom2 in matrix_algorithm.port_set_get(self.Mod_phase.i):
                 f1 = kfrom1[ports.ClassicalFreqKey]
                 f2 = kfrom2[ports.ClassicalFreqKey]
@@ -217,20 +210,12 @@ class Modulator(bases.SignalElementBase):
 
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
-                if not f_new.DC_is():
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.ps_In.i,  kfrom1),
-                        (self.Mod_phase.i,   kfrom2),
-                        (self.ps_Out.o, kto),
-                        cplg * self.symbols.i * np.sign(freq_In) / 2,
-                    )
-                else:
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.ps_In.i,  kfrom1),
-                        (self.Mod_phase.i,   kfrom2),
-                        (self.ps_Out.o, kto),
-                        cplg * self.symbols.i * np.sign(freq_In) / 4,
-                    )
+                matrix_algorithm.nonlinear_triplet_insert(
+                    (self.ps_In.i,  kfrom1),
+                    (self.Mod_phase.i,   kfrom2),
+                    (self.ps_Out.o, kto),
+                    cplg * self.symbols.i * np.sign(freq_In) * product_coefficient(f1, f2, f_new),
+                )
         return
 
 
-- 
2.43.0


From 991d3427b45ee81ec70e5bc01c030d72287f4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 36/65] fix: the noise ellipse was not a number for
 uncorrelated quadratures of equal noise

---
 phasor/readouts/homodyne_AC.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index e08b0f5..2830360 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -167,7 +167,9 @@ class HomodyneACReadoutBase(base.SystemElementBase):
     @declarative.mproperty
     def AC_CSD_ellipse(self):
         NIQ            = np.real(self.AC_CSD_IQ)
-        rtDisc         = np.sqrt((NIQ[0, 0] - NIQ[1, 1])**2 + 4*(NIQ[0, 1]*NIQ[1, 0]))
+        #the two are equal but for rounding, which must not make the product negative
+        cross          = (NIQ[0, 1] + NIQ[1, 0]) / 2
+        rtDisc         = np.sqrt((NIQ[0, 0] - NIQ[1, 1])**2 + 4*cross**2)
         min_eig        = (NIQ[0, 0] + NIQ[1, 1] - rtDisc)/2
         max_eig        = (NIQ[0, 0] + NIQ[1, 1] + rtDisc)/2
         disc           = np.asarray(NIQ[0, 0] - min_eig)
-- 
2.43.0


From e3f726e913e264c52dd2f69636eb01cff5270ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 37/65] fix: homodyne readouts failed when only one quadrature
 depends on the sweep

---
 phasor/readouts/homodyne_AC.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index 2830360..eeb489f 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -25,6 +25,13 @@ def np_roll_2D_mat_front(arr_mat, N = 2):
     return arr_mat
 
 
+def array_broadcast(vals):
+    """
+    Stacks values of which some may depend on the sweeps while others do not
+    """
+    return np.array(np.broadcast_arrays(*vals))
+
+
 class HomodyneACReadoutBase(base.SystemElementBase):
     noise = None
     _AC_sensitivity = None
@@ -90,13 +97,8 @@ class HomodyneACReadoutBase(base.SystemElementBase):
             IQ = subCSD['ps_In', 'Q']
             QI = subCSD['Q', 'ps_In']
             QQ = subCSD['Q', 'Q']
-            arr = np_roll_2D_mat_back(
-                np.array(
-                    [[II, IQ], [QI, QQ]]
-                )
-            )
-            print(arr)
-            print(arr.dtype)
+            arr = array_broadcast([II, IQ, QI, QQ])
+            arr = np_roll_2D_mat_back(arr.reshape((2, 2) + arr.shape[1:]))
             arr = np.einsum('...ij,...jk->...ik', self.rotation_matrix_back, arr)
             #this builds the transpose into the sum
             arr = np.einsum('...ij,...kj->...ik', arr, self.rotation_matrix_back)
@@ -121,11 +123,8 @@ class HomodyneACReadoutBase(base.SystemElementBase):
         IQ = self.noise.CSD['ps_In', 'Q']
         QI = self.noise.CSD['Q', 'ps_In']
         QQ = self.noise.CSD['Q', 'Q']
-        arr = np_roll_2D_mat_back(
-            np.array(
-                [[II, IQ], [QI, QQ]]
-            )
-        )
+        arr = array_broadcast([II, IQ, QI, QQ])
+        arr = np_roll_2D_mat_back(arr.reshape((2, 2) + arr.shape[1:]))
         #Normal dot product doesn't work here
         arr = np.einsum('...ij,...jk->...ik', self.rotation_matrix_back, arr)
         #this builds the transpose into the sum
@@ -312,7 +311,7 @@ class HomodyneACReadoutBase(base.SystemElementBase):
         phase_rad = self.phase_deg * np.pi / 180
         ps_In = self._AC_sensitivity(self.portNI)
         Q = self._AC_sensitivity(self.portNQ)
-        return np.array([
+        return array_broadcast([
             np.cos(phase_rad) * ps_In + np.sin(phase_rad) * Q,
             -np.sin(phase_rad) * ps_In + np.cos(phase_rad) * Q,
         ])
-- 
2.43.0


From c590da9250715cd9ce23cbe3e199e53be0d4ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:43 +0000
Subject: [PATCH 38/65] fix: sum generation between sidebands in nonlinear
 crystals was counted twice

---
 phasor/optics/nonlinear_crystal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index cdef936..997a280 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -202,8 +202,9 @@ class NonlinearCrystal(
                         if len(F_list) > 1:
                             raise RuntimeError("Can't Currently do nonlinear optics on multiply composite wavelengths")
                         F, n = F_list[0]
-                        #factor of two since this injects twice
-                        if kfrom == kfrom2:
+                        #factor of two since sum generation injects twice (once per
+                        #ordering of the pair) and squares carry a half anyway
+                        if qkey == qkey2:
                             dLt[(port.i, kto)].append(
                                 (n * G / 2, (port.i, kfrom2), (port.i, kfrom))
                             )
-- 
2.43.0


From 6be12ab53c25eceae6172ccd47456688b323ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:43 +0000
Subject: [PATCH 39/65] fix: light at a frequency that mixes with nothing was
 stopped by nonlinear crystals

---
 phasor/optics/nonlinear_crystal.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index 997a280..1b1f72c 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -250,6 +250,13 @@ class NonlinearCrystal(
                     N_ode       = self.N_ode,
                 )
             )
+
+            #light which mixes with nothing is not a state of the ODE, but still passes
+            for kfrom in matrix_algorithm.port_set_get(port.i):
+                if (port.i, kfrom) not in in_map:
+                    matrix_algorithm.port_coupling_insert(
+                        port.i, kfrom, portO.o, kfrom, 1
+                    )
         return
 
 
-- 
2.43.0


From e4d15af332e14342c3e5d19d1eec10332e5e2735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 40/65] fix: light that mixes with none of the drive was
 stopped by acousto-optic modulators

---
 phasor/optics/AOM.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/phasor/optics/AOM.py b/phasor/optics/AOM.py
index 9a363e0..30b0e31 100644
--- a/phasor/optics/AOM.py
+++ b/phasor/optics/AOM.py
@@ -257,15 +257,11 @@ class AOM(
                             dLt[(portO.i, kto)].append(
                                 (G, (port.i, kfrom), (self.Drv.i, kfrom2))
                             )
-                            in_map[(port.i, kto)] = (port.i, kto)
                             in_map[(port.i, kfrom)] = (port.i, kfrom)
                             in_map[(portO.i, kto)] = (portO.i, kto)
-                            in_map[(portO.i, kfrom)] = (portO.i, kfrom)
                             in_map[(self.Drv.i, kfrom2)] = (self.Drv.i, kfrom2)
-                            out_map[(port.i, kto)] = (omap[port].o, kto)
                             out_map[(port.i, kfrom)] = (omap[port].o, kfrom)
                             out_map[(portO.i, kto)] = (omap[portO].o, kto)
-                            out_map[(portO.i, kfrom)] = (omap[portO].o, kfrom)
                             out_map[(self.Drv.i, kfrom2)] = None
                             #print("JOIN: ", kfrom, kfrom2, kto)
 
@@ -278,4 +274,12 @@ class AOM(
                     N_ode   = self.N_ode,
                 )
             )
+
+            #light mixing with none of the drive goes straight through
+            for port in portset:
+                for kfrom in matrix_algorithm.port_set_get(port.i):
+                    if (port.i, kfrom) not in in_map:
+                        matrix_algorithm.port_coupling_insert(
+                            port.i, kfrom, omap[port].o, kfrom, 1,
+                        )
         return
-- 
2.43.0


From 00bd0cdc910f7cae145da935953eb3ae94897224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 41/65] fix: optical bonds were lost when regenerating a
 regenerated system

---
 phasor/optics/ports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/optics/ports.py b/phasor/optics/ports.py
index 05e2a65..bc5f0d9 100644
--- a/phasor/optics/ports.py
+++ b/phasor/optics/ports.py
@@ -68,6 +68,8 @@ class OpticalPort(OpticalPortRaw, bases.SystemElementBase):
                     #auto-insert bond partner as it was inserted during building
                     getnew = self.root[prein._bond_partner.name_system]
                     self._bond_partner = getnew
+                    #so that the next incarnation inherits it as well
+                    self._building_bonded = False
                     assert(self.root is getnew.root)
         return
 
-- 
2.43.0


From 7fd38239cce6a513193abf32e0e666decb19a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 42/65] fix: parameters could not be given as quantities with
 units

---
 phasor/base/multi_unit_args.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/phasor/base/multi_unit_args.py b/phasor/base/multi_unit_args.py
index 207f4aa..ff7d4a4 100644
--- a/phasor/base/multi_unit_args.py
+++ b/phasor/base/multi_unit_args.py
@@ -77,8 +77,6 @@ def generate_refval_attribute(
                         ooa.setdefault("units", pint.mag1_units(v.units))
                     elif isinstance(v, pint.ureg.Quantity):
                         ooa.setdefault("val",   v.magnitude)
-                        if v.val is not v.ref:
-                            ooa.setdefault("ref",   v.ref)
                         ooa.setdefault("units", pint.mag1_units(v.units))
                     elif isinstance(v, pint.ureg.Unit):
                         ooa.setdefault("units", pint.mag1_units(v))
-- 
2.43.0


From e4ca3126372c0118a2f1fa20130c4a48bc9c5f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 43/65] fix: systems regenerated from a regenerated system lost
 their elements

---
 phasor/base/autograft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index ca1e63a..cb8dca3 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -543,6 +543,8 @@ class RootElement(Element):
     _overridable_object_kwargs = None
 
     def regenerate(self, ctree = None, **kwargs):
+        #this incarnation must have inherited everything before passing it on
+        self._complete()
         usekwargs = dict(self._overridable_object_kwargs)
         if ctree is not None:
             usekwargs['ctree'] = ctree
-- 
2.43.0


From 13807db54697db572144859689b1c8d833765c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 44/65] fix: systems with three-way bonds could not be
 regenerated after being solved

---
 phasor/system/system.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index 068b68f..0ca6a43 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -314,14 +314,16 @@ class BGSystem(RootElement):
                 if no_delegates:
                     break
 
-        while self._include_lst:
-            self.do_includes()
-            #print("INCLUDE LST: ", self._include_lst)
-            self._autoterminate()
+        #what is made here is made again by the next incarnation, so it must not inherit it
+        with self.building:
+            while self._include_lst:
+                self.do_includes()
+                #print("INCLUDE LST: ", self._include_lst)
+                self._autoterminate()
 
-        for element in self.targets_recurse(VISIT.bond_completion):
-            #print("Bond Completion", element)
-            pass
+            for element in self.targets_recurse(VISIT.bond_completion):
+                #print("Bond Completion", element)
+                pass
 
         bad_completions = dict()
         while self._bond_completions_raw:
-- 
2.43.0


From 2284504b7225cdcc8648656bc3e85ccb462e7c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 45/65] fix: phases of mirrors and lasers could not be read as
 a quantity

---
 phasor/optics/standard_attrs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phasor/optics/standard_attrs.py b/phasor/optics/standard_attrs.py
index 8a46660..559f4d8 100644
--- a/phasor/optics/standard_attrs.py
+++ b/phasor/optics/standard_attrs.py
@@ -62,6 +62,7 @@ def generate_length():
 def generate_rotate(name = 'rotate', default = True):
     @decl.group_dproperty
     def rotate(desc):
+        desc.name_change(name)
         return generate_refval_attribute(
             desc,
             ubunch = units.rotation_deg,
-- 
2.43.0


From 6f8fbf53af88bff73f9615b66c0751f1b89f9d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 46/65] fix: nonlinear crystals without a given length could
 not be made

---
 phasor/optics/nonlinear_crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index 1b1f72c..173f780 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -49,7 +49,7 @@ class NonlinearCrystal(
     #    val = self.ctree.setdefault('length_mm', val)
     #    return val
 
-    _length_default = '10mm'
+    _length_default = ('length_mm', 10)
     length = standard_attrs.generate_length()
 
     @declarative.dproperty
-- 
2.43.0


From 92caa17508676030eb51c2dd2b07c72876bae3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 47/65] fix: replicas of replicas could not be generated

---
 phasor/base/autograft.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index cb8dca3..a5f2876 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -454,6 +454,9 @@ class Element(
         #must delete these so that the constructor is called
         del kwargs_gen['name_child']
         del kwargs_gen['parent']
+        #a replica is generated from this object even if it is a replica itself
+        kwargs_gen.pop('inst_prototype', None)
+        kwargs_gen.pop('inst_prototype_t', None)
         return self.__class__(
             inst_prototype = self.name_system,
             inst_prototype_t = 'base',
-- 
2.43.0


From 8ca0c4c222ebea20e2d1b98c1cfb4a8b451ceb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 48/65] fix: the order of coincident elements was reversed when
 regenerating a layout

---
 phasor/base/autograft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index a5f2876..3204778 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -337,7 +337,9 @@ class Element(
         self._is_completed = True
         registry = self._registry_inserted_pre
         while registry:
-            k, v = registry.popitem()
+            #in the order of the original insertions
+            k = next(iter(registry))
+            v = registry.pop(k)
             if k not in self._registry_children:
                 #insert to registry regardless of if building
                 self._registry_inserted[k] = v
-- 
2.43.0


From 8cdbea1b2588ea8fa6c570298403d64bdd2d1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:27 +0000
Subject: [PATCH 49/65] fix: the position of the first element of a layout
 could not be fitted

---
 phasor/alm/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 7ccc4f0..f26dd4a 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -217,7 +217,7 @@ class System(
                     )
                 )
             pos_list.append(loc_m)
-            pos_list = np.asarray(pos_list) - pos_list[0]
+            pos_list = np.asarray([pos - pos_list[0] for pos in pos_list])
             return declarative.Bunch(
                 positions   = pos_list,
                 filled      = components_filled,
@@ -483,7 +483,7 @@ class SystemStack(System):
                     #print comp, loc_m
                     loc_m += comp.width_m
                 pos_list.append(loc_m)
-                pos_list = np.asarray(pos_list) - pos_list[0]
+                pos_list = np.asarray([pos - pos_list[0] for pos in pos_list])
                 return declarative.Bunch(
                     positions   = pos_list,
                     filled      = components_filled,
-- 
2.43.0


From 8545cc7d4dddc0f09002e22922df9b9d99d27fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:27 +0000
Subject: [PATCH 50/65] fix: layouts with fitted parameters could not be
 followed backwards

---
 phasor/alm/bases.py  | 3 ++-
 phasor/alm/system.py | 2 +-
 phasor/alm/utils.py  | 9 +++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index b8346c4..bff08c3 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -22,6 +22,7 @@ from .utils import (
     TargetRight,
     TargetIdx,
     matrix_focus,
+    matrix_invert,
     np_check_sorted,
     str_m,
 )
@@ -74,7 +75,7 @@ class MatrixAtsBase(Element):
     def matrix_inv(self):
         #print(self.__class__)
         #print(self.matrix)
-        return self.matrix**(-1)
+        return matrix_invert(self.matrix)
 
     def matrix_between(self, tidx1, tidx2):
         if tidx1 == TargetLeft:
diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index f26dd4a..896c73e 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -282,7 +282,7 @@ class System(
                 mat = self.filled_list[tidx2_outer].matrix_between(TargetLeft, tidx2_inner) * mat
         elif tidx1 == TargetRight:
             if tidx2 == TargetLeft:
-                mat = self.matrix**(-1)
+                mat = self.matrix_inv
             elif tidx2 == TargetRight:
                 mat = np.eye(2)
             else:
diff --git a/phasor/alm/utils.py b/phasor/alm/utils.py
index ed20390..df3d082 100644
--- a/phasor/alm/utils.py
+++ b/phasor/alm/utils.py
@@ -15,6 +15,15 @@ TargetLeft  = TargetIdx(['left'])
 TargetRight = TargetIdx(['right'])
 
 
+def matrix_invert(mat):
+    #explicit as the elements may be symbolic
+    det = mat[0, 0] * mat[1, 1] - mat[0, 1] * mat[1, 0]
+    return np.matrix([
+        [mat[1, 1] / det, -mat[0, 1] / det],
+        [-mat[1, 0] / det, mat[0, 0] / det],
+    ])
+
+
 def matrix_array_invert(mat):
     oshape = mat.shape
     if len(oshape) == 2:
-- 
2.43.0


From 071593e56b413d2772be97d031a83bde128e907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 51/65] fix: fitters could not be extended after a fit

---
 phasor/fitting/casadi/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/fitting/casadi/fitter.py b/phasor/fitting/casadi/fitter.py
index 4333988..bb10ef2 100644
--- a/phasor/fitting/casadi/fitter.py
+++ b/phasor/fitting/casadi/fitter.py
@@ -116,7 +116,7 @@ class FitterRoot(RootElement, FitterBase):
             systems[name] = new_obj
         return systems
 
-    @declarative.mproperty
+    @declarative.mproperty(simple_delete = True)
     @invalidate_auto
     def constraints(self):
         constraints = []
-- 
2.43.0


From 3e8ec513d784508516507a6a1894f5053ac571ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:46 +0000
Subject: [PATCH 52/65] fix: a fit could not be continued from a fitted system

---
 phasor/fitting/casadi/fitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phasor/fitting/casadi/fitter.py b/phasor/fitting/casadi/fitter.py
index bb10ef2..fab0d57 100644
--- a/phasor/fitting/casadi/fitter.py
+++ b/phasor/fitting/casadi/fitter.py
@@ -89,6 +89,9 @@ class FitterRoot(RootElement, FitterBase):
         #allow this to be replaced
         assert(value is declarative.NOARG)
 
+        #the parameters may still have to be inherited from the previous incarnation
+        self._complete()
+
         ctree_meta = declarative.Bunch()
         for sysname in list(self.systems.keys()):
             ctree = bunch.DeepBunch(vpath=True)
@@ -244,6 +247,7 @@ class FitterRoot(RootElement, FitterBase):
     @declarative.mproperty(simple_delete = True)
     @invalidate_auto
     def symbol_map(self):
+        self._complete()
         smappers   = self.targets_recurse(VISIT.symbol_map)
         sym_list   = []
         ival_list  = []
-- 
2.43.0


From 2fdfc4d1e087bbd8af2236c637f8594dbf4df9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 53/65] fix: pairs of jittered parameters moved one of them
 twice

---
 phasor/fitting/casadi/expressions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/fitting/casadi/expressions.py b/phasor/fitting/casadi/expressions.py
index 345659f..a03152e 100644
--- a/phasor/fitting/casadi/expressions.py
+++ b/phasor/fitting/casadi/expressions.py
@@ -125,10 +125,10 @@ class FitterExpression(FitterBase):
                     val = sbunch_val(sbunch)
                     expr2 = t_eval(expr, transform, val)
                     expr_combine.append(expr2)
-                    for sbunch2 in enumerate(sbunches_w_trans[idx+1:]):
-                        for transform in sbunch.transforms:
-                            val = sbunch_val(sbunch)
-                            expr3 = t_eval(expr2, transform, val)
+                    for sbunch2 in sbunches_w_trans[idx+1:]:
+                        for transform2 in sbunch2.transforms:
+                            val2 = sbunch_val(sbunch2)
+                            expr3 = t_eval(expr2, transform2, val2)
                             expr_combine.append(expr3)
             pass
         else:
-- 
2.43.0


From f0688b2c695ba8b4f4bef3af27dd38d6c0219354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 54/65] fix: a frequency key holding a zero multiple is the key
 without it

---
 phasor/base/dictionary_keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/base/dictionary_keys.py b/phasor/base/dictionary_keys.py
index c173af6..b4c6327 100644
--- a/phasor/base/dictionary_keys.py
+++ b/phasor/base/dictionary_keys.py
@@ -146,7 +146,8 @@ class DictKey(MappingABC):
 class FrequencyKey(object):
     __slots__ = ('F_dict', 'prev_hash', 'prev_tup')
     def __init__(self, F_dict):
-        self.F_dict = F_dict
+        #a multiple of zero is the same key as the absent frequency
+        self.F_dict = dict((F, n) for F, n in F_dict.items() if n != 0)
 
     def DC_is(self):
         return not self.F_dict
-- 
2.43.0


From 99999385cab334277c528ee2aace1cea138175ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 55/65] fix: the sum of keyed matrices keeps the entries only
 the second one has

---
 phasor/math/key_matrix/keymatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index ccdfabd..f896704 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -463,7 +463,7 @@ class KeyMatrix(KeyMatrixBase):
                 v = premap[key_pair]
                 premap[key_pair] = v + value
             except KeyError:
-                premap = value
+                premap[key_pair] = value
         return KeyMatrix(self.vspace_from, self.vspace_to, _premap = premap)
 
     def __sub__(self, other):
-- 
2.43.0


From 7102e5c3a3da4ee9f3c50ce7dc051505cd10692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 56/65] fix: keyed matrices read arrays back in the order they
 write them

---
 phasor/math/key_matrix/keymatrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index f896704..e3f749e 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -408,16 +408,16 @@ class KeyMatrix(KeyMatrixBase):
             array_2d = np.any(array, axis = 0)
             while len(array_2d.shape) > 2:
                 array_2d = np.any(array_2d, axis = 0)
-            nz_idx_from, nz_idx_to = array_2d.nonzero()
+            nz_idx_to, nz_idx_from = array_2d.nonzero()
         else:
-            nz_idx_from, nz_idx_to = array.nonzero()
+            nz_idx_to, nz_idx_from = array.nonzero()
         matrix_map = {}
         for idx_count in range(len(nz_idx_from)):
             idx_from = nz_idx_from[idx_count]
             idx_to = nz_idx_to[idx_count]
             key_from = vspace_from.idx_map(idx_from)
             key_to = vspace_to.idx_map(idx_to)
-            value = array[..., idx_from, idx_to]
+            value = array[..., idx_to, idx_from]
             matrix_map[key_from, key_to] = value
         new_keymat = self.__class__(
             vspace_from = vspace_from,
-- 
2.43.0


From f8386d59ce1e22f98f7ebcb2d0e095011d226864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 57/65] fix: pushpop of the threadsafe priority queue

---
 phasor/utilities/priority_queue/heap_priority_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/utilities/priority_queue/heap_priority_queue.py b/phasor/utilities/priority_queue/heap_priority_queue.py
index b04d654..077fd1e 100644
--- a/phasor/utilities/priority_queue/heap_priority_queue.py
+++ b/phasor/utilities/priority_queue/heap_priority_queue.py
@@ -178,6 +178,6 @@ class HeapPriorityQueueThreadsafe(object):
         add item into the Queue then return the smallest
         """
         with self.lock:
-            return heapq.pushpop(self.heap, item)
+            return heapq.heappushpop(self.heap, item)
 
 
-- 
2.43.0


From c58254e745327e1aa78ef75de30330c263f5c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 58/65] fix: inverses of keyed matrices are read back in the
 order of their arrays

---
 phasor/math/key_matrix/keymatrix.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index e3f749e..b08b13f 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -430,18 +430,20 @@ class KeyMatrix(KeyMatrixBase):
         vspace_from = self.vspace_to
         vspace_to   = self.vspace_from
         array = np.asarray(array)
-        if len(array.shape) == 3:
-            array_2d = np.any(array, axis = 2)
-            nz_idx_from, nz_idx_to = array_2d.nonzero()
+        if len(array.shape) > 2:
+            array_2d = np.any(array, axis = 0)
+            while len(array_2d.shape) > 2:
+                array_2d = np.any(array_2d, axis = 0)
+            nz_idx_to, nz_idx_from = array_2d.nonzero()
         else:
-            nz_idx_from, nz_idx_to = array.nonzero()
+            nz_idx_to, nz_idx_from = array.nonzero()
         matrix_map = {}
         for idx_count in range(len(nz_idx_from)):
             idx_from = nz_idx_from[idx_count]
             idx_to = nz_idx_to[idx_count]
             key_from = vspace_from.idx_map(idx_from)
             key_to = vspace_to.idx_map(idx_to)
-            value = array[..., idx_from, idx_to]
+            value = array[..., idx_to, idx_from]
             matrix_map[key_from, key_to] = value
         new_keymat = self.__class__(
             vspace_from = vspace_from,
-- 
2.43.0


From 4b92ceca8d366e6ea24171af4ef5b1c6dae4cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 59/65] fix: roots at the origin were dropped from the
 real-coefficient form of controllers

---
 phasor/signals/power_loops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/power_loops.py b/phasor/signals/power_loops.py
index 75ad8d9..d7c78e3 100644
--- a/phasor/signals/power_loops.py
+++ b/phasor/signals/power_loops.py
@@ -205,9 +205,9 @@ def sort_roots(rootlist):
     cplx_pos_roots = []
     cplx_neg_roots = []
     for root in rootlist:
-        Q_ratio = root.imag / root.real
         #then the imaginary part is not resolved, so drop it
-        if abs(Q_ratio) < 1e-8:
+        #(<= so that roots at the origin are real)
+        if abs(root.imag) <= 1e-8 * abs(root.real):
             real_roots.append(root.real)
         elif root.imag > 0:
             cplx_pos_roots.append(root)
-- 
2.43.0


From c5553a5883e17a26b62aa03e40ed320633f4740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 60/65] fix: cheby_boost_7 lacked the conjugates of its
 resonant roots

---
 phasor/signals/power_loops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/signals/power_loops.py b/phasor/signals/power_loops.py
index d7c78e3..b30aec0 100644
--- a/phasor/signals/power_loops.py
+++ b/phasor/signals/power_loops.py
@@ -25,6 +25,8 @@ def cheby_boost_7(
 
     z.append(-1 + 1j)
     p.append(-.1 + 1j)
+    z.append(-1 - 1j)
+    p.append(-.1 - 1j)
 
     p.extend([-.01] * N)
 
-- 
2.43.0


From 8c026978842595340b93ab8c6e0a909514b8e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 61/65] fix: optimum filters of order 12 and above did not
 converge

---
 phasor/signals/filters/legendre_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/signals/filters/legendre_filters.py b/phasor/signals/filters/legendre_filters.py
index b28e2c2..47969ec 100644
--- a/phasor/signals/filters/legendre_filters.py
+++ b/phasor/signals/filters/legendre_filters.py
@@ -114,7 +114,7 @@ def _roots(a):
         TODO: How many digits are necessary for float equivalence?  Does it
         vary with order?
         """
-        p = mp.polyroots(a, maxsteps=1000, error=False)
+        p = mp.polyroots(a, maxsteps=1000, error=False, extraprec=10*N)
         #p, err = mp.polyroots(a, maxsteps=1000, error=True)
         #if err > 1e-32:
         #    raise ValueError("Legendre filter cannot be accurately computed "
-- 
2.43.0


From 3566597dbcd282900101733edba2efa0efb50355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 62/65] fix: continuous_phase indexed its median with a float

---
 phasor/utilities/np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/utilities/np.py b/phasor/utilities/np.py
index b216500..93b31fa 100644
--- a/phasor/utilities/np.py
+++ b/phasor/utilities/np.py
@@ -89,7 +89,7 @@ def continuous_phase(data, op_idx= 0, sep = (1.01) * np.pi, deg = False, shiftmo
     while raw_angle[op_idx] > np.pi:
         raw_angle -= 2*np.pi
 
-    median = np.sort(raw_angle)[len(raw_angle)/2]
+    median = np.sort(raw_angle)[len(raw_angle)//2]
     if median < -np.pi/4:
         raw_angle += np.pi * 2
 
-- 
2.43.0


From a9d639df9af98bafc7b3e55fdc598009815cf659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 63/65] fix: stacked linear solves of unlike depth took the
 wrong matrices

---
 phasor/matrix/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/phasor/matrix/linalg.py b/phasor/matrix/linalg.py
index 3a6788b..6c9348e 100644
--- a/phasor/matrix/linalg.py
+++ b/phasor/matrix/linalg.py
@@ -46,12 +46,13 @@ def linalg_solve_bcast(M, V):
         return np.linalg.solve(M, V)
     else:
         b = np.broadcast(M[..., 0, 0], V[..., 0])
-        rtype = np.find_common_type([], [M.dtype, V.dtype])
+        rtype = np.result_type(M.dtype, V.dtype)
         rvec = np.empty(b.shape + M.shape[-1:], dtype = rtype)
         idx = 0
         for idx in stackrange(b.shape):
-            idxM = tuple((0 if iM == 1 else iB) for iM, iB in zip(M.shape[:-2], idx))
-            idxV = tuple((0 if iV == 1 else iB) for iV, iB in zip(V.shape[:-1], idx))
+            #shapes are aligned at their ends, as for any broadcast
+            idxM = tuple((0 if iM == 1 else iB) for iM, iB in zip(M.shape[:-2], idx[len(idx) - len(M.shape[:-2]):]))
+            idxV = tuple((0 if iV == 1 else iB) for iV, iB in zip(V.shape[:-1], idx[len(idx) - len(V.shape[:-1]):]))
             Mred = M[idxM + (slice(None), slice(None))]
             Vred = V[idxV + (slice(None),)]
             Vsol = np.linalg.solve(Mred, Vred)
-- 
2.43.0


From a916f80215c26a0c669737a35888298fe1e56058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:13 +0000
Subject: [PATCH 64/65] fix: noise ellipse in shot noise units needs the
 constants of the system

---
 phasor/readouts/homodyne_AC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index eeb489f..36fa3ef 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -205,7 +205,7 @@ class HomodyneACReadoutBase(base.SystemElementBase):
     def AC_CSD_ellipse_normSN(self):
         ellipse = self.AC_CSD_ellipse
         #TODO, get appropriate wavelength rather than assuming 1064nm
-        qmag = self.system.adjust_PSD * self.symbols.h_Js * self.symbols.c_m_s / 1064e-9  # * iwavelen_m
+        qmag = self.system.adjust_PSD * self.system.symbols.h_Js * self.system.symbols.c_m_s / 1064e-9  # * iwavelen_m
         return declarative.Bunch(
             min = ellipse.min / qmag,
             max = ellipse.max / qmag,
-- 
2.43.0


From 03c4b0fc1901f4c7da21d21e3fd1f2ce5d333454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:13 +0000
Subject: [PATCH 65/65] fix: optimal homodyne angle lost the relative sign of
 the quadratures

---
 phasor/readouts/homodyne_AC.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index 36fa3ef..6ab0a81 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -282,8 +282,9 @@ class HomodyneACReadoutBase(base.SystemElementBase):
 
     @declarative.mproperty
     def AC_optimal_readout_deg(self):
-        SIQ = np.einsum('ij...,j...->i...', self.AC_CSD_IQ_inv, self.AC_sensitivity_IQ)
-        ang_lin = np.arctan2(np.abs(SIQ[1]), np.abs(SIQ[0]))
+        SIQ = np.einsum('ij...,j...->i...', self.AC_CSD_IQ_re_inv, self.AC_sensitivity_IQ)
+        #the direction of the vector regardless of its phase, but with the relative sign of its quadratures
+        ang_lin = np.arctan2(2*np.real(SIQ[1] * SIQ[0].conjugate()), np.abs(SIQ[0])**2 - np.abs(SIQ[1])**2) / 2
         return ang_lin * 180 / np.pi
 
     @declarative.mproperty
-- 
2.43.0

