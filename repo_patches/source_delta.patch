From 11dc3614019beeb4c5e8f9711c6038c948925324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 001/161] fix: rotated steel section: assigning a y/z property
 sets only that axis

---
 metku/sections/steel/steel_section.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index 5898d3f..e83f679 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -181,7 +181,8 @@ class SteelSection(metaclass=ABCMeta):
     def Iy(self, val):
         if self.rotate:
             self.I[1] = val
-        self.I[0] = val
+        else:
+            self.I[0] = val
 
     @property
     def Iz(self):
@@ -193,7 +194,8 @@ class SteelSection(metaclass=ABCMeta):
     def Iz(self, val):
         if self.rotate:
             self.I[0] = val
-        self.I[1] = val
+        else:
+            self.I[1] = val
 
     @property
     def Wply(self):
@@ -205,7 +207,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wply(self, val):
         if self.rotate:
             self.Wpl[1] = val
-        self.Wpl[0] = val
+        else:
+            self.Wpl[0] = val
 
     @property
     def Wplz(self):
@@ -217,7 +220,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wplz(self, val):
         if self.rotate:
             self.Wpl[0] = val
-        self.Wpl[1] = val
+        else:
+            self.Wpl[1] = val
 
     @property
     def Wely(self):
@@ -229,7 +233,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wely(self, val):
         if self.rotate:
             self.Wel[1] = val
-        self.Wel[0] = val
+        else:
+            self.Wel[0] = val
 
     @property
     def Welz(self):
@@ -241,7 +246,8 @@ class SteelSection(metaclass=ABCMeta):
     def Welz(self, val):
         if self.rotate:
             self.Wel[0] = val
-        self.Wel[1] = val
+        else:
+            self.Wel[1] = val
 
     @property
     def section_factor(self):
-- 
2.43.0


From b72a13c7e62e5d8373284c538c4c3c9c4ab274e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 002/161] fix: welded I section: depth ratio of the compressed
 web uses the weld throat

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 951f2d5..c674522 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -533,7 +533,7 @@ class WISection(SteelSection):
             alpha = 0  # TODO tarkista tämä
         else:
             alpha = (self.h - self.tt - math.sqrt(2) * self.weld_throat - dpl) \
-                    / (self.h - self.tt - self.tb - 2 * math.sqrt(2))
+                    / self.cw
 
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, alpha, psi)
 
-- 
2.43.0


From 9aad1d74e17a4c77150de5416756d807f94cad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 003/161] fix: CHS gives per-axis properties and the steel
 section interface (bending axis, N-M interaction)

---
 metku/sections/steel/CHS.py | 65 ++++++++++---------------------------
 1 file changed, 17 insertions(+), 48 deletions(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index c025439..c6ed355 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -16,8 +16,6 @@ import math
 from metku.eurocodes.en1993 import en1993_1_1
 from metku.sections.steel.steel_section import SteelSection
 
-import warnings
-warnings.simplefilter("once", UserWarning)
 class CHS(SteelSection):
     """ Circular hollow sections """
 
@@ -32,10 +30,10 @@ class CHS(SteelSection):
         
         A = self.area()
         Au = self.paint_area()
-        I = self.second_moment()
-        Ashear = self.shear_area()
-        Wel = self.elastic_modulus()
-        Wpl = self.plastic_modulus()
+        I = 2*[self.second_moment()]
+        Ashear = 2*[self.shear_area()]
+        Wel = 2*[self.elastic_modulus()]
+        Wpl = 2*[self.plastic_modulus()]
         self.It = self.torsion_modulus()
         self.Iw = 0.0
 
@@ -89,7 +87,7 @@ class CHS(SteelSection):
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
         
-    def web_class_comp_bend(self, verb=False):
+    def web_class_comp_bend(self, Ned, verb=False):
         r = self.D/self.T
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
@@ -97,43 +95,17 @@ class CHS(SteelSection):
     def flange_class(self, verb=False):
         return 1
     
-    def bending_resistance(self, C=0, verb=False):
-        # Bending resistance, Nmm
-        if C == 0:
-            C = self.section_class()
-
-        if C < 3:
-            WRd = self.Wpl
-        elif C == 3:
-            WRd = self.Wel
-        else:
-            #raise NotImplementedError(f"Cross-section class 4 not implemented in: {self}")
-            warnings.warn(f"!Cross-section class 4 not implemented for CHS profiles! "
-                  f"\nUsing elastic bending resistance, check results accordingly!", UserWarning, stacklevel=2)
-
-            WRd = self.Wel
-
-        MRd = self.code.bending_resistance(WRd, self.fy)
-
-        if verb:
-            print("MRd = {0:4.2f} kNm".format(MRd * 1e-6))
-
-        return MRd, C
-    
-    def MomentAxialForceInteract(self):
-        """ This interaction formula is only for plastic design """
-        MRd = self.BendingResistance(1);
-        NRd = self.AxialForceResistance;
+    def moment_axial_force_interact(self, UN, MRd):
+        """ This interaction formula is only for plastic design
+            EN 1993-1-1: 6.2.9.1(5)
             
-        """ EN 1993-1-1: 6.2.9.1(5)
-            In class 1 or 2 use plastic design
+            input: UN .. NEd/NRd
+                  MRd .. moment resistance
         """
-        n = abs(self.Ned)/NRd;
-
-        if n > 1.0:
-            MNRd = 0
+        if UN > 1.0:
+            MNRd = 0.0
         else:
-            MNRd = MRd*min(1-n**1.7,1)
+            MNRd = MRd*min(1-UN**1.7,1)
 
         return MNRd
     
@@ -191,16 +163,13 @@ class CustomCHS(CHS):
                 
             return self.area()
         elif name == "I":
-            I = self.second_moment()
-            #if I[1] < 0:
-            #    print(self.h, self.b, self.tt, self.tb, self.tw)
-            return self.second_moment()
+            return 2*[self.second_moment()]
         elif name == "Wel":
-            return self.section_modulus()
+            return 2*[self.elastic_modulus()]
         elif name == "Wpl":
-            return self.plastic_section_modulus()
+            return 2*[self.plastic_modulus()]
         elif name == "Ashear":
-            return self.shear_area()
+            return 2*[self.shear_area()]
         elif name == "Au":
             return self.paint_area()
         elif name == "It":
-- 
2.43.0


From a42903c10e0a9ed7d0a889ef4c4c07b64fcda1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 004/161] fix: welded I section: web area in the N-M
 interaction is the section minus both flanges

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index c674522..6f74667 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -579,7 +579,7 @@ class WISection(SteelSection):
                   MRd .. moment resistance           
             TODO tarkista tämä
         """
-        aw = min((self.A - (self.bt * self.tt - self.bb * self.tb))
+        aw = min((self.A - (self.bt * self.tt + self.bb * self.tb))
                  / self.A, 0.5)
 
         if UN > 1.0:
-- 
2.43.0


From 10d05e6fe71733ece0f945ce95ca1617b7653ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 005/161] fix: equivalent moment factor: zero mid-span moment
 with end moments belongs to the alpha_s case of Table B.3

---
 metku/eurocodes/en1993/en1993_1_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 9a19777..f3a6745 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -366,7 +366,7 @@ def equivalent_moment_factor(Mend, Mspan=None, load="uniform"):
             else:
                 alpha = Mspan / Mh
 
-            if abs(alpha) > 1.0 or alpha == 0:
+            if abs(alpha) > 1.0 or abs(Mh) < 1e-6:
                 # Moment in the span is larger than the maximum end moment
                 if abs(alpha) > 1.0:
                     alpha = 1 / alpha
-- 
2.43.0


From d74b92b45312e736faa7ed7aaf31fab1a22b3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 006/161] fix: beam-column check of members susceptible to
 lateral-torsional buckling used a missing CmLT and ignored chi_LT

---
 metku/structures/steel/steel_member.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 0b5d561..e5b1f3f 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -560,6 +560,8 @@ class SteelMember:
             print("Ncr_z = {0:4.2f} kN".format(Ncrz * 1e-3))
             print("Mcr = {0:6.4f} kNm".format(Mcr * 1e-6))
 
+        return Mcr
+
     def add_section(self, ned=0.0, myed=0.0, mzed=0.0, vyed=0.0, vzed=0.0,
                     ted=0.0, loc=0.0):
         """ Adds new section with internal forces and location """
@@ -704,8 +706,9 @@ class SteelMember:
 
         if self.LTB:
             # Member is susceptible to lateral-torsional buckling
-            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.CmLT,
-                                 section_class=cross_section_class)
+            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.__CmLT,
+                                 section_class=cross_section_class,
+                                 susceptible_to_torsion=True)
         else:
             MzEd = self.MEdZ
 
@@ -732,7 +735,11 @@ class SteelMember:
         # MzEd = max(MzEd1, MzEd2)
 
         # MRd = self.profile.bending_resistance(C=cross_section_class)
-        MRd = self.profile.MRd
+        if self.LTB:
+            # Eqs. (6.61) and (6.62): chi_LT*MRd
+            MRd = self.LT_buckling_strength(self.mcrit())
+        else:
+            MRd = self.profile.MRd
 
         com_comp_bend_y = -NEd / NbRd[0] + kyy * MyEd / MRd
         com_comp_bend_z = -NEd / NbRd[1] + kzy * MyEd / MRd
-- 
2.43.0


From 1aad1b2dfdde407d89a18cc6d5afffd71e58103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 007/161] fix: RHS shear area for a force along the width uses
 the height, not the width twice

---
 metku/sections/steel/RHS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 0675623..15d2352 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -138,7 +138,7 @@ class RHS(SteelSection):
             I[0] = RHS_second_moment(self.H, self.B, self.T, self.R)
             I[1] = RHS_second_moment(self.B, self.H, self.T, self.R)
             self.I = np.asarray(I)
-            self.Ashear = [RHS_shear_area(self.A, self.B, self.B),RHS_shear_area(self.A, self.H, self.B)]
+            self.Ashear = [RHS_shear_area(self.A, self.B, self.H),RHS_shear_area(self.A, self.H, self.B)]
             self.Au = RHS_paint_area(self.H, self.B, self.R)
             Wel = [0.0, 0.0]
             Wel[0] = RHS_elastic_modulus(self.H, I[0])
-- 
2.43.0


From bc1c16cedb91b8829dd2ef7bed60ef789a530e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 008/161] fix: perimeter of a rolled I section counts the web
 thickness once on each flange

---
 metku/sections/steel/ISection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 049a40c..0e813e6 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -716,7 +716,7 @@ def cross_section_properties(b, h, tf, tw, r):
     A = 2.0 * tf * b + (h - 2.0 * tf) * tw + (4.0 - math.pi) * r ** 2.0
 
     # Perimeter of cross-section
-    Au = 4 * (b - 2 * r) + 2 * (h - 2 * tw) + 2 * math.pi * r
+    Au = 4 * (b - 2 * r) + 2 * (h - tw) + 2 * math.pi * r
 
     # Shear area [mm^2]    
     Ashear = A - 2.0 * b * tf + (tw + 2.0 * r) * tf
-- 
2.43.0


From 0f23af4de22fa114601ac6f221564e700dfa535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 009/161] fix: rolled I section built with a material name
 chooses its buckling curve by the yield strength

---
 metku/sections/steel/ISection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 0e813e6..79c38bd 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -44,6 +44,9 @@ class ISection(SteelSection):
         self.It = It
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
 
+        # 'fy' can also be the name of the material
+        fy = self.fy
+
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
         if H / B > 1.2:
             if tf <= 40:
-- 
2.43.0


From 7ab770a657f3e05ec54b3f4ccfcb15238c2726e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 010/161] fix: circumference of a welded I section includes the
 outer face of the top flange

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 6f74667..53b323c 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -604,7 +604,7 @@ class WISection(SteelSection):
 
     def paint_area(self):
         """ Area to be painted (circumference of the section) """
-        return 2 * self.tt + self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
+        return 2 * self.tt + 2 * self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
                - 2 * self.tw
 
     def elastic_neutral_axis(self):
-- 
2.43.0


From 8b833c26ed3f6c71c6b634faea00b1a12c675ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:28 +0000
Subject: [PATCH 011/161] fix: Wagner factor of a welded I section measures the
 plates from the centroid

---
 metku/sections/steel/wi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 53b323c..c70e00c 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -467,9 +467,11 @@ class WISection(SteelSection):
             Book 2, 7.1.2 Mono-symmetrical I cross-sections
         """
 
-        zf1 = self.zt
-        zf2 = self.zb
-        zw = self.zw
+        # distances of the plates from the centroid of the section
+        zG = self.elastic_neutral_axis()
+        zf1 = self.zt - zG
+        zf2 = self.zb - zG
+        zw = self.zw - zG
         Izf1 = self.Izt
         Izf2 = self.Izb
         Izw = self.Izw
-- 
2.43.0


From e2301b0f762aeb29ef1f0d30a51bd6aff762980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 012/161] fix: bolt not available in the requested length is
 reported, also after resizing, instead of a TypeError

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 2e3c7f5..d19ad99 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -121,7 +121,8 @@ class Bolt:
         bolt_type = 'Full thread'
         bolt_available = False
         for key, value in bolt_unit_cost_part_thread.items():
-            if key >= length:
+            # 'max' is not a bolt length
+            if key != 'max' and key >= length:
                 if value[size] != 'N/A':
                     length = key                    
                     bolt_available = True
@@ -133,7 +134,7 @@ class Bolt:
         """
         if not bolt_available:
             for key, value in bolt_unit_cost_full_thread.items():
-                if key >= length:
+                if key != 'max' and key >= length:
                     if value[size] != 'N/A':
                         length = key                    
                         bolt_available = True                        
@@ -207,9 +208,11 @@ class Bolt:
         self.washer_t = washer_size[val]["h"]
         self.washer_d = washer_size[val]["d2"]
         
+        length = self._length
+        bolt_type = 'Full thread'
         bolt_available = False
         for key, value in bolt_unit_cost_part_thread.items():
-            if key >= self._length:
+            if key != 'max' and key >= self._length:
                 if value[val] != 'N/A':
                     length = key                    
                     bolt_available = True
@@ -221,13 +224,16 @@ class Bolt:
         """
         if not bolt_available:
             for key, value in bolt_unit_cost_full_thread.items():
-                if key >= self._length:
+                if key != 'max' and key >= self._length:
                     if value[val] != 'N/A':
                         length = key                    
                         bolt_available = True
                         bolt_type = 'Full thread'
                         break
         
+        if not bolt_available:
+            print("Warning: Bolt of size {0:2.0f} is not available with minimum length of {1:4.2f} mm".format(val,length))
+        
         self.length = length
         self.bolt_type = bolt_type
     
-- 
2.43.0


From a2070e8c9d5823a7fd77e6730897575abe108988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:22 +0000
Subject: [PATCH 013/161] fix: updating a custom I section keeps h, b, shear
 area and buckling curves in step with its dimensions

---
 metku/sections/steel/ISection.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 79c38bd..1213251 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -44,35 +44,35 @@ class ISection(SteelSection):
         self.It = It
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
 
-        # 'fy' can also be the name of the material
-        fy = self.fy
+        self.buckling_curves()
 
+    def buckling_curves(self):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
-        if H / B > 1.2:
-            if tf <= 40:
-                if fy <= 420:
+        if self.h / self.b > 1.2:
+            if self.tf <= 40:
+                if self.fy <= 420:
                     buck_y = "a"
                     buck_z = "b"
                 else:
                     buck_y = "a0"
                     buck_z = "a0"
             else:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
                 else:
                     buck_y = "a"
                     buck_z = "a"
         else:
-            if tf <= 100:
-                if fy <= 420:
+            if self.tf <= 100:
+                if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
                 else:
                     buck_y = "a"
                     buck_z = "a"
             else:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "d"
                     buck_z = "d"
                 else:
@@ -83,7 +83,7 @@ class ISection(SteelSection):
                            en1993_1_1.buckling_curve[buck_z]]
         
         
-        if H/B <= 2.0:
+        if self.h/self.b <= 2.0:
             self.imp_factor_LT_gen = en1993_1_1.buckling_curve["a"]
             self.imp_factor_LT = en1993_1_1.buckling_curve["b"]
         else:
@@ -705,8 +705,15 @@ class CustomISection(ISection):
         ISection.__init__(self, H, B, tf, tw, r, fy=fy)
 
     def cross_section_properties(self):
+        self.h = self.H
+        self.b = self.B
         args = cross_section_properties(self.B, self.H, self.tf, self.tw, self.r)
-        self.A, self.Au, self.Ashear, self.I, self.It, self.Iw, self.Wpl, self.Wel = args
+        self.A, self.Au, Ashear, I, self.It, self.Iw, Wpl, Wel = args
+        self.Ashear = [0.0, Ashear]
+        self.I = np.asarray(I)
+        self.Wpl = np.asarray(Wpl)
+        self.Wel = np.asarray(Wel)
+        self.buckling_curves()
 
 
 def cross_section_properties(b, h, tf, tw, r):
-- 
2.43.0


From 377700eb04f5134172d33e70d58fffc1272fa290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 014/161] fix: buckling curves of a welded I section follow its
 current dimensions

---
 metku/sections/steel/wi.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index c70e00c..f8db8af 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -79,20 +79,21 @@ class WISection(SteelSection):
 
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
 
+    def buckling_curves(self):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
-        if max(tf) <= 40:
-            self.imp_factor = [en1993_1_1.buckling_curve["b"],
-                               en1993_1_1.buckling_curve["c"]]
+        if max(self.tf) <= 40:
+            return [en1993_1_1.buckling_curve["b"],
+                    en1993_1_1.buckling_curve["c"]]
         else:
-            self.imp_factor = [en1993_1_1.buckling_curve["c"],
-                               en1993_1_1.buckling_curve["d"]]
+            return [en1993_1_1.buckling_curve["c"],
+                    en1993_1_1.buckling_curve["d"]]
 
-        if h / min(b) <= 2.0:
-            self.imp_factor_LT_gen = en1993_1_1.buckling_curve["c"]
-            self.imp_factor_LT = en1993_1_1.buckling_curve["c"]
+    def LT_buckling_curve(self):
+        """ Buckling curve for lateral-torsional buckling """
+        if self.h / min(self.b) <= 2.0:
+            return en1993_1_1.buckling_curve["c"]
         else:
-            self.imp_factor_LT_gen = en1993_1_1.buckling_curve["d"]
-            self.imp_factor_LT = en1993_1_1.buckling_curve["d"]
+            return en1993_1_1.buckling_curve["d"]
 
     def __repr__(self):
         s = f'WI{self.h:.0f}-{self.tw:.0f}-'
@@ -134,6 +135,10 @@ class WISection(SteelSection):
             return self.torsional_constant()
         elif name == "Iw":
             return self.warping_constant()
+        elif name == "imp_factor":
+            return self.buckling_curves()
+        elif name == "imp_factor_LT_gen" or name == "imp_factor_LT":
+            return self.LT_buckling_curve()
         elif name == "zs":
             return self.shear_centre()
         elif name == "zj":
-- 
2.43.0


From 657c7578235628426b1d46d1b9ee645aa6337130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:58 +0000
Subject: [PATCH 015/161] fix: ineffective part of a welded I section's web is
 the compressed width less the effective width

---
 metku/sections/steel/wi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index f8db8af..d6130fc 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -818,9 +818,7 @@ class WISection(SteelSection):
         else:
             self.eff_web['bc'] = cw
 
-        ec = self.h - self.effective_neutral_axis()
-        self.eff_web['bneg'] = ec - self.tb - np.sqrt(2) * self.weld_throat - beff
-        # self.eff_web['bneg'] = (1 - rho) * cw / 2
+        self.eff_web['bneg'] = self.eff_web['bc'] - beff
 
         if verb:
             print("Effective Web:")
-- 
2.43.0


From c8cd7c28bfa564c989ad7d2caa031e35fa724b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 016/161] fix: effective second moment of a welded I section
 deducts the ineffective parts of the compressed flange

---
 metku/sections/steel/wi.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index d6130fc..ed4ad04 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -378,10 +378,15 @@ class WISection(SteelSection):
         return MRd, C
 
     def effective_second_moment_area_y(self, psi_init: float = -1) -> float:
+        # Only the compressed flange is reduced
         if psi_init < 0:
             self.effective_flange('top')
+            self.eff_bottom = {'rho': 1.0, 'bneg': 0.0}
         else:
             self.effective_flange('bottom')
+            self.eff_top = {'rho': 1.0, 'bneg': 0.0}
+        b_t = self.bt - 2 * self.eff_top['bneg']
+        b_b = self.bb - 2 * self.eff_bottom['bneg']
         psi = psi_init
         # For -loop range(5) is a conservative guess for neutral axis convergence
         for i in range(5):
@@ -396,8 +401,8 @@ class WISection(SteelSection):
             h_e2 = self.cw + weld_h - self.eff_web['bneg'] - e1
             h_all = [h_t, h_b, h_e1, h_e2]
             # Areas
-            A_t = self.bt * self.tt
-            A_b = self.bb * self.tb
+            A_t = b_t * self.tt
+            A_b = b_b * self.tb
             A_e1 = h_e1 * self.tw
             A_e2 = h_e2 * self.tw
             A_all = [A_t, A_b, A_e1, A_e2]
@@ -408,8 +413,8 @@ class WISection(SteelSection):
             z_e2 = self.tb + h_e2 / 2
             z_all = [z_t, z_b, z_e1, z_e2]
             # Second moment of areas
-            I_t = self.bt * h_t ** 3 / 12
-            I_b = self.bb * h_b ** 3 / 12
+            I_t = b_t * h_t ** 3 / 12
+            I_b = b_b * h_b ** 3 / 12
             I_e1 = self.tw * h_e1 ** 3 / 12
             I_e2 = self.tw * h_e2 ** 3 / 12
             I_all = [I_t, I_b, I_e1, I_e2]
-- 
2.43.0


From 1ae7e473dc9bf5863b071ae68f8cf2db828e0251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 017/161] fix: shear buckling resistance of a welded I section
 is limited by Eq. (5.1) of EN 1993-1-5

---
 metku/sections/steel/wi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index ed4ad04..5d0088f 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -903,7 +903,9 @@ class WISection(SteelSection):
             else:
                 raise NotImplementedError("shear_buckling_resistance rM >= 1 not implemented")
 
-            VbRd = Vbw_Rd + Vbf_Rd
+            # EN 1993-1-5, Eq. (5.1)
+            VbRd = min(Vbw_Rd + Vbf_Rd,
+                       eta * fyw * hw * tw / math.sqrt(3) / constants.gammaM1)
 
         return VbRd
 
-- 
2.43.0


From a4e87206f06faae61c5b0a39619c068ad5521619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 018/161] fix: plate buckling factors of EN 1993-1-5 Tables 4.1
 and 4.2 at psi = -3 and for uniform compression of a supported edge

---
 metku/eurocodes/en1993/en1993_1_5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_5.py b/metku/eurocodes/en1993/en1993_1_5.py
index 58115e9..f45ed30 100644
--- a/metku/eurocodes/en1993/en1993_1_5.py
+++ b/metku/eurocodes/en1993/en1993_1_5.py
@@ -83,7 +83,7 @@ def buckling_factor_internal(psi=1.0):
         ksigma = 7.81 - 6.29 * psi + 9.78 * psi ** 2
     elif psi == -1.0:
         ksigma = 23.9
-    elif psi > -3:
+    elif psi >= -3:
         ksigma = 5.98 * (1 - psi) ** 2
 
     return ksigma
@@ -109,7 +109,7 @@ def buckling_factor_outstand(psi=1.0, sigma1="tip"):
     else:
         if psi == 1.0:
             ksigma = 0.43
-        if psi < 1.0 and psi > 0.0:
+        elif psi < 1.0 and psi > 0.0:
             ksigma = 0.578 / (psi + 0.34)
         elif psi == 0.0:
             ksigma = 1.7
-- 
2.43.0


From e7cfe2d0f845727b1859b4ba3629286205bd9d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:52 +0000
Subject: [PATCH 019/161] fix: reduction factors at elevated temperature
 between 100 and 200 degrees and for bolts above 1000 degrees

---
 metku/eurocodes/en1993/en1993_1_2.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 5e958a8..3c4cfac 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -61,6 +61,8 @@ REDUCTION_FACTORS_BOLTS = {20:{'kb':1.0},
                            800:{'kb':0.067},
                            900:{'kb':0.033},
                            1000:{'kb':0.0},
+                           1100:{'kb':0.0},
+                           1200:{'kb':0.0},
                            }
 
 SPECIAL_TEMPS = np.array([20,100,150,200,300,400,500,600,700,800,900,1000,1100,1200])
@@ -109,8 +111,10 @@ def reduce_property(t,prop,steel='carbon'):
         of property 'prop'
     """
     rf = 1.0
+    # Only the table of bolts has a row for 150 degrees
+    temps = SPECIAL_TEMPS if steel == 'bolts' else SPECIAL_TEMPS[SPECIAL_TEMPS != 150]
     # Check if 't' matches any of the special temperatures
-    if any(SPECIAL_TEMPS == t):
+    if any(temps == t):
         if steel == 'carbon':
             rf = REDUCTION_FACTORS_CS[t][prop]
         elif steel =='1.4301':
@@ -126,8 +130,8 @@ def reduce_property(t,prop,steel='carbon'):
         """ Find the largest smaller and smallest larger
             temperatures and the corresponding reduction factors
         """
-        t_smaller = np.max(SPECIAL_TEMPS[SPECIAL_TEMPS < t])
-        t_larger = np.min(SPECIAL_TEMPS[SPECIAL_TEMPS > t])
+        t_smaller = np.max(temps[temps < t])
+        t_larger = np.min(temps[temps > t])
         
         if steel == 'carbon':
             p_smaller = REDUCTION_FACTORS_CS[t_smaller][prop]
-- 
2.43.0


From 5d4d6148fd94753ea1b874e4dccf9ee98e901506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:52 +0000
Subject: [PATCH 020/161] fix: k2% factor of stainless steel 1.4301 from 1000
 degrees is 0.40 (EN 1993-1-2 Table C.1)

---
 metku/eurocodes/en1993/en1993_1_2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 3c4cfac..5ee69ec 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -43,9 +43,9 @@ REDUCTION_FACTORS_14301 = {20:{'ky':0.26,'k02':1.0,'ku':1.0,'kE':1.0,'kEct':0.11
                            700:{'ky':0.26,'k02':0.40,'ku':0.43,'kE':0.71,'kEct':0.02,'epsU': 0.30},
                            800:{'ky':0.35,'k02':0.27,'ku':0.27,'kE':0.63,'kEct':0.02,'epsU': 0.20},
                            900:{'ky':0.38,'k02':0.14,'ku':0.15,'kE':0.45,'kEct':0.02,'epsU': 0.20},
-                           1000:{'ky':0.040,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
-                           1100:{'ky':0.040,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
-                           1200:{'ky':0.040,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
+                           1000:{'ky':0.40,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
+                           1100:{'ky':0.40,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
+                           1200:{'ky':0.40,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
                            }
 
 # EN 1993-1-2, Table D.1
-- 
2.43.0


From 12f7a33650ef43c33bac407ce2a720373437ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 021/161] fix: bolt_shear_resistance reduces the shear
 resistance when the threads, not the shank, are in the shear plane

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index d19ad99..87e463a 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2124,7 +2124,7 @@ def bolt_shear_resistance(fub,A,bolt_class=8.8,threads_in_plane=False):
             FvRd .. bolt shear resistance [N]
     """
     
-    if threads_in_plane:
+    if not threads_in_plane:
         av = 0.6
     else:
         if bolt_class in {10.9,6.8,5.8,4.8}:
-- 
2.43.0


From eb7efe88bb155ef2a70c3ab6a15b9c36f3458ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 022/161] fix: bolt_bearing_resistance divides by gammaM2 and
 limits k1 of edge bolts by the pitch p2, like Bolt.bearing_resistance

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 87e463a..681dfda 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2163,14 +2163,14 @@ def bolt_bearing_resistance(fub,fu,d,t,e,p,d0,pos_perp="edge",pos_load="edge"):
         ad = p1/3/d0 - 0.25    
 
     if pos_perp == "edge":
-        k1 = min(2.8*e2/d0-1.7,2.5)
+        k1 = min(2.8*e2/d0-1.7,1.4*p2/d0-1.7,2.5)
     else:
         k1 = min(1.4*p2/d0-1.7,2.5)
         
     
     ab = min(ad,fub/fu,1.0)
     
-    FbRd = k1*ab*fu*d*t    
+    FbRd = k1*ab*fu*d*t/gammaM2
     
     return FbRd
 
-- 
2.43.0


From 719be1626cc826918b29030c4fb4ac94bdea0c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 023/161] fix: correlation factor of fillet welds for the steel
 grades S460M and S460Q of the material data

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 681dfda..2cf4ebc 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -79,7 +79,9 @@ correlation_coefficient = {"S235": 0.8,
                            "S275": 0.85,
                            "S355": 0.9,
                            "S420": 1.0,
-                           "S460": 1.0}
+                           "S460": 1.0,
+                           "S460M": 1.0,
+                           "S460Q": 1.0}
 
 """ Bolt row types """
 TENSION_ROW = 'tension row'
-- 
2.43.0


From a6515a9a95d885262797c976b9baa91184ce71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 024/161] fix: reduction factor for shear in the column web
 panel, Table 6.3 of EN 1993-1-8, for 1 < beta < 2

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 73eb1e0..2623947 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -31,7 +31,7 @@ def min_coeff_w(beta, b_eff_c_wc, t_wc, A_vc):
     elif beta == 1.0:
         w = w_1
     elif 1.0 < beta < 2.0:
-        w = w_1 + 2.0 * (beta - 1.0) * (1.0 - w_1)
+        w = w_1 + (beta - 1.0) * (w_2 - w_1)
     elif beta == 2.0:
         w = w_2
     else:
-- 
2.43.0


From 52529b9da2f4317423b4480cbc1114adcbf3e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:58 +0000
Subject: [PATCH 025/161] fix: transverse stiffeners of end plate joints (plate
 attributes were renamed, T-stub m2 is a property, outstand and depth were
 swapped)

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py |  2 +-
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py       | 10 +++++-----
 metku/structures/steel/column_base_joint.py           |  4 ++--
 metku/structures/steel/end_plate_joint.py             |  4 +---
 4 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 2623947..e87e21b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -234,7 +234,7 @@ def col_web_trv_comp_stiffened(column, plate):
     e = column.eps
     tw = column.tw
     bsg = plate.b
-    ts = plate.khp
+    ts = plate.t
     
     fy = plate.material.fy
     As_eff = (30*e*tw+ts)*tw + 2*bsg*ts
diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 2cf4ebc..e0bba62 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -579,13 +579,13 @@ class BoltRow:
         if self.z > zbeam:
             """ Row is above the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    + 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    + 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     + 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             return self.z-zweld
         else:
             """ Row is below the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    - 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    - 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     - 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             
             return zweld-self.z
@@ -625,6 +625,9 @@ class BoltRow:
                 'self' will get the effective lengths of this bolt row
                 appearing in the given group. Then, take the minimum of those values.
             """
+            if group.row_loc[0]['flange'] == END_ROW_ADJACENT_TO_STIFFENER:
+                # The stiffener prevents yield lines around the whole group
+                continue
             #leff_g = min(group.Tstub_col_flange._leff_rows[self].values())
             leff_g = min(group.Tstub_col_flange.leff_cp_row(self),group.Tstub_col_flange.leff_nc_row(self))
             if leff_g > 0.0:
@@ -800,8 +803,6 @@ class BoltRow:
         #self.Tstub_col_flange.emin = self.emin_flange
         #self.Tstub_col_flange.m = self.col_flange_m
         #self.Tstub_col_flange.e = self.col_flange_e
-        if self.joint.stiffeners['col_top_flange'] is not None:
-            self.Tstub_col_flange.m2 = self.top_flange_stiffener_m2
         """ Determine effective length 
             The 'leff_1' and 'leff_2' methods store the
             effective length of each failure mode to the T-stub,
@@ -1512,7 +1513,6 @@ class TStubColumnFlange(TStub):
             except:
                 alpha = cm.new_alpha(self.e, self.m, self.m2)                            
                 #print(alpha)
-            print(self.p,alpha,self.m,self.e)
             leff = 0.5*self.p + alpha*self.m - (2*self.m + 0.625*self.e)
             
             
diff --git a/metku/structures/steel/column_base_joint.py b/metku/structures/steel/column_base_joint.py
index a92ddb4..3356a2d 100644
--- a/metku/structures/steel/column_base_joint.py
+++ b/metku/structures/steel/column_base_joint.py
@@ -305,13 +305,13 @@ class AnchorBoltRow:
         if self.z > zbeam:
             """ Row is above the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    + 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    + 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     + 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             return self.z-zweld
         else:
             """ Row is below the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    - 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    - 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     - 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             
             return zweld-self.z
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 6d302b2..bbdc2ce 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -341,7 +341,7 @@ class EndPlateJoint:
                     hp = self.beam.h
                     bp = self.col.hw
                 tp = value
-                plate = RectPlate(hp,bp,tp,material=self.col.material.name)
+                plate = RectPlate(bp,hp,tp,material=self.col.material.name)
             elif key == 'plate':
                 plate = value
             
@@ -369,9 +369,7 @@ class EndPlateJoint:
                         self.bolt_rows[0].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
                     else:
                         self.bolt_rows[0].loc_col_flange = END_ROW_ADJACENT_TO_STIFFENER
-                    self.bolt_rows[0].Tstub_col_flange.m2 = self.bolt_rows[0].top_flange_stiffener_m2
                     self.bolt_rows[1].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
-                    self.bolt_rows[1].Tstub_col_flange.m2 = self.bolt_rows[1].top_flange_stiffener_m2
                     
                     for group in self.row_groups:
                         for i, row in enumerate(group.rows):
-- 
2.43.0


From 68d73c98e3bb8155b4fe3e2be3e21f26d4d3ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 026/161] fix: bolt pitch of rows next to a stiffener or in a
 group of a stiffened column is set before their effective lengths are
 evaluated

---
 .../eurocodes/en1993/en1993_1_8/en1993_1_8.py | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index e0bba62..4b2b457 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1820,7 +1820,7 @@ class TStubGroup:
             
         return FRd
     
-    def FT_Rd(self,verb):
+    def FT_Rd(self,verb=False):
         """ Design tension resistance """
         
         FT_Rd = np.array([0.0,0.0,0.0])
@@ -1876,12 +1876,12 @@ class TStubGroupColumnFlange(TStubGroup):
         for i, row in enumerate(self.group.rows):
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
+            if position in (END_ROW, OTHER_END_ROW, ADJACENT_TO_STIFFENER_ROW):
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
                     row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position in (INNER_ROW, OTHER_INNER_ROW):
                 row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
             
             #print("p = ",row.Tstub_col_flange.p)
@@ -1901,12 +1901,12 @@ class TStubGroupColumnFlange(TStubGroup):
         for i, row in enumerate(self.group.rows):
             position = self.group.row_loc[i]['flange']
             
-            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
+            if position in (END_ROW, OTHER_END_ROW, ADJACENT_TO_STIFFENER_ROW):
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
                     row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position in (INNER_ROW, OTHER_INNER_ROW):
                 row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
         
             self._leff_rows[row]['leff_cp'] = row.Tstub_col_flange.leff_cp_as_group(position)
@@ -1923,12 +1923,12 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
+            if position in (END_ROW, OTHER_END_ROW, ADJACENT_TO_STIFFENER_ROW):
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
                     row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position in (INNER_ROW, OTHER_INNER_ROW):
                 row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
             
             self._leff_rows[row]['leff_nc'] = row.Tstub_col_flange.leff_nc_as_group(position)
@@ -1946,12 +1946,12 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
+            if position in (END_ROW, OTHER_END_ROW, ADJACENT_TO_STIFFENER_ROW):
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
                     row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position in (INNER_ROW, OTHER_INNER_ROW):
                 row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
             
             self._leff_rows[row]['leff_cp'] = row.Tstub_col_flange.leff_cp_as_group(position)
@@ -2030,12 +2030,12 @@ class TStubGroupEndPlate(TStubGroup):
         for i, row in enumerate(self.group.rows):
             position = self.group.row_loc[i]['plate']
             
-            if position == END_ROW:
+            if position in (FIRST_ROW_BELOW_BEAM_TENSION_FLANGE, OTHER_END_ROW):
                 if i == 0:
                     row.Tstub_end_plate.p = self.group.p[i]
                 else:
                     row.Tstub_end_plate.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position == OTHER_INNER_ROW:
                 row.Tstub_end_plate.p = 0.5*(self.group.p[i-1]+self.group.p[i])
             
             self._leff_rows[row]['leff_cp'] = row.Tstub_end_plate.leff_cp_as_group(position)
-- 
2.43.0


From b70ea007b3d9bef4e09f978e3ccaac9651bea48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 027/161] fix: additional shear resistance of a stiffened
 column web, first term of EN 1993-1-8 (6.8) divided by ds

---
 metku/structures/steel/end_plate_joint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index bbdc2ce..bf7d5bd 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -399,7 +399,7 @@ class EndPlateJoint:
                 beam flanges (this may not be true for top stiffener for flushed end-plat)
             """
             ds = self.beam.h-self.beam.tf            
-            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()
+            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()/ds
             fyt = self.stiffeners['col_top_flange'].fy
             tst = self.stiffeners['col_top_flange'].t
             fyb = self.stiffeners['col_bottom_flange'].fy
-- 
2.43.0


From 1d53bf845f6ed8116af493c7c54d233cc20b96c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 028/161] fix: bolt rows in shear only take no part in the
 moment resistance of an end plate joint

---
 metku/structures/steel/end_plate_joint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index bf7d5bd..a888fe3 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -593,7 +593,8 @@ class EndPlateJoint:
         
         MjRd = 0.0
         for row in self.bolt_rows:
-            MjRd += row.FtRd * row.h
+            if row.type != SHEAR_ROW:
+                MjRd += row.FtRd * row.h
         
         if verb:
             print("MjRd = {0:4.2f} kNm".format(MjRd*1e-6))
-- 
2.43.0


From 86959288b2181b7935cbcdd310404ded63ab250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 029/161] fix: initial stiffness of an end plate joint with a
 single tension row

---
 metku/structures/steel/end_plate_joint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index a888fe3..5803b0b 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -690,6 +690,7 @@ class EndPlateJoint:
                 between bottom 
             """
             z = self.moment_arm()
+            k_eq = self.zeq_and_keq()[1]
         else:
             z, k_eq = self.zeq_and_keq(verb)
         
-- 
2.43.0


From e14340b72ead491f5e51e1ec947df0b49d106184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 030/161] fix: chord stress factor kn of T, Y and X joints was
 an exponent of the strength reduction factor

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 metku/raami/raami_plane_truss.py                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 6d8d763..0dfb927 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -832,7 +832,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -854,7 +854,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2399d9b..60edfcc 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2860,7 +2860,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -2873,7 +2873,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
-- 
2.43.0


From 0f3cc573902d91bb2128f0fec6bc4cae488d37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 031/161] fix: buckling factor of the chord side wall of T and
 Y joints exceeded 1 for stocky walls

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 2 +-
 metku/raami/raami_plane_truss.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 0dfb927..fbd8d16 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -812,7 +812,7 @@ class RHSYJoint(RHSJoint):
             alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 60edfcc..90bd82d 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2834,7 +2834,7 @@ class TubularYJoint(TubularJoint):
             alpha = self.chords[0].cross_section.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             fb = chi * self.fy0
             #print(chi,fb)
-- 
2.43.0


From 30c7fc557a6eb5636f75a2bd4660a19c0c5aba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 032/161] fix: side wall strength of an X joint in compression:
 imperfection factor of the profile, buckling factor at most 1

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index fbd8d16..64de1bc 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -1014,10 +1014,10 @@ class RHSXJoint(RHSYJoint):
                 
                 
         if self.N1 < 0.0:            
-            alpha = self.chord.imp_factor[0]
+            alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0)
             
             res = 0.8*chi * self.fy0*np.sin(np.radians(self.angle))            
         else:
-- 
2.43.0


From 9fd362fc9fb238dea50caad704ea332b77e1360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 033/161] fix: chord shear of an X joint reads the shear area
 of the chord profile

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 64de1bc..eefdd36 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -1035,7 +1035,7 @@ class RHSXJoint(RHSYJoint):
             # Take the minimium of chord web buckling for X joints
             # and chord shear for K and N joints
             # 
-            Nshear = self.fy0*self.chord.Ashear/np.sqrt(3)/np.sin(np.radians(self.angle))
+            Nshear = self.fy0*self.chord.profile.Ashear[1]/np.sqrt(3)/np.sin(np.radians(self.angle))
             # The strength reduction factor is already taken into account
             # for the chord web buckling of the Y joint class method.
             # It must be applied for the chord shear.
-- 
2.43.0


From 5dabdbef99b9378991f592ed729c4f7e401f62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 034/161] fix: design of a K gap joint raised TypeError instead
 of giving the utilization of the braces and the chord

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 2 +-
 metku/raami/raami_plane_truss.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index eefdd36..e68da49 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -730,7 +730,7 @@ class RHSKGapJoint(RHSJoint):
             N_ps_Rd = self.punching_shear()        
             NjRd = np.minimum(NjRd,N_ps_Rd)
 
-        res = np.array(abs(self.NEd)/NjRd,abs(self.N0/N0Rd))
+        res = np.append(abs(self.NEd)/NjRd,abs(self.N0)/N0Rd if N0Rd > 0 else np.inf)
 
         return res
 
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 90bd82d..1e18edf 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3482,7 +3482,7 @@ class TubularKGapJoint(TubularJoint):
             NjRd = np.minimum(NjRd,N_ps_Rd)
         
         #NjRd = N_cff_Rd
-        r = np.array(abs(NEd)/NjRd,abs(self.N0/N0Rd))
+        r = np.append(abs(NEd)/NjRd,abs(self.N0)/N0Rd if N0Rd > 0 else np.inf)
         
         self.utilization[load_id] = max(r)
         
-- 
2.43.0


From 55c17b6837042adc8093c5ddc8a94d06ee3d6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 035/161] fix: force and angle of the tension brace of a K gap
 joint

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index e68da49..f1fed98 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -330,15 +330,15 @@ class RHSKGapJoint(RHSJoint):
     @property
     def N2(self):
         """ Axial force in the tension member """
-        if self.braces[0].NcEd <= 0.0:
-            return abs(self.braces[1].NcEd)
+        if self.braces[0].NcEd < 0.0:
+            return self.braces[1].NEd
         else:
             return self.braces[0].NEd
     
     @property
     def angle2(self):
         """ Angle of the tension member """
-        if self.braces[0].Ned <= 0.0:
+        if self.braces[0].NcEd < 0.0:
             return self.angles[1]
         else:
             return self.angles[0]
-- 
2.43.0


From 9dab689bf6a6b556d654df560e29cce684e6a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 036/161] fix: axial force in the gap of a K joint with the
 chord in tension, sign of the compression brace

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index f1fed98..5042de2 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -359,7 +359,7 @@ class RHSKGapJoint(RHSJoint):
             N0gap = self.N0+self.N2*np.cos(np.radians(self.angle2))
         else: 
             # Chord in tension            
-            N0gap = self.N0+self.N1*np.cos(np.radians(self.angle1))
+            N0gap = self.N0-self.N1*np.cos(np.radians(self.angle1))
     
         return N0gap
     
-- 
2.43.0


From f1f102e4f4a08f7a17657662cdb000b8f07016b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 037/161] fix: T, Y and X joints with beta > 0.85 interpolate
 from chord face failure at beta = 0.85

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 7 ++++---
 metku/raami/raami_plane_truss.py                | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 5042de2..e5601c4 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -821,9 +821,10 @@ class RHSYJoint(RHSJoint):
         
         return fb
             
-    def chord_face_failure(self,verb=False):
+    def chord_face_failure(self,verb=False,b=None):
                         
-        b = self.beta()
+        if b is None:
+            b = self.beta()
         if b >= 1:
             # If beta is grater than 1, artificially reduce it to "nearly 1".
             b = 0.99
@@ -983,7 +984,7 @@ class RHSYJoint(RHSJoint):
             NjRd = self.chord_face_failure()
             
         else:
-            N_cff_Rd = self.chord_face_failure()
+            N_cff_Rd = self.chord_face_failure(b=0.85)
             N_csw_Rd = self.chord_web_buckling()
             N_bf_Rd = self.brace_failure()
             
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 1e18edf..2018144 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2849,9 +2849,10 @@ class TubularYJoint(TubularJoint):
         sl = sl / (np.pi * np.sqrt(E / self.fy0))
         return sl
     
-    def chord_face_failure(self,verb=False):
+    def chord_face_failure(self,verb=False,b=None):
                         
-        b = self.beta()
+        if b is None:
+            b = self.beta()
         if b >= 1:
             # If beta is grater than 1, artificially reduce it to "nearly 1".
             b = 0.99
@@ -2941,7 +2942,7 @@ class TubularYJoint(TubularJoint):
             if verb:
                 print('Chord face failure: NjRd = {0:4.2f} kN'.format(NjRd*1e-3))
         else:
-            N_cff_Rd = self.chord_face_failure()
+            N_cff_Rd = self.chord_face_failure(b=0.85)
             N_csw_Rd = self.chord_web_buckling()
             N_bf_Rd = self.brace_failure()
             
-- 
2.43.0


From 747a5f3749f3565e1da4a71fbf39230dbf437737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 038/161] fix: design of a truss Y joint with beta >= 0.85
 raised TypeError, side wall failure needs the load case

---
 metku/raami/raami_plane_truss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2018144..a2ca296 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2867,9 +2867,9 @@ class TubularYJoint(TubularJoint):
 
         return NRd
     
-    def chord_web_buckling(self):
+    def chord_web_buckling(self,load_id):
         
-        fb = self.fb()
+        fb = self.fb(load_id)
         kn = self.eval_KN()
         r = self.strength_reduction()
         t0 = self.t0
@@ -2943,7 +2943,7 @@ class TubularYJoint(TubularJoint):
                 print('Chord face failure: NjRd = {0:4.2f} kN'.format(NjRd*1e-3))
         else:
             N_cff_Rd = self.chord_face_failure(b=0.85)
-            N_csw_Rd = self.chord_web_buckling()
+            N_csw_Rd = self.chord_web_buckling(load_id)
             N_bf_Rd = self.brace_failure()
             
             # Linear interpolation between chord face failure at b = 0.85
-- 
2.43.0


From 65831dba112146cba2a44365319532c8c8756194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 039/161] fix: design of a truss K joint took the smaller of
 the two chord forces

---
 metku/raami/raami_plane_truss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index a2ca296..ccba765 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3433,7 +3433,7 @@ class TubularKGapJoint(TubularJoint):
         #    joint_brace.Ned = brace.NEd[load_id]
         
         """ Load in the chord """
-        if abs(self.chords[0].NEd[load_id]) < abs(self.chords[1].NEd[load_id]):
+        if abs(self.chords[0].NEd[load_id]) > abs(self.chords[1].NEd[load_id]):
             N0 = self.chords[0].NEd[load_id]
         else:
             N0 = self.chords[1].NEd[load_id]
-- 
2.43.0


From e174fa5b14b4e31052d8af06125d7e0b81e133ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 040/161] fix: element length was rounded to three decimals, so
 direction cosines were not a unit vector and rigid body motions caused forces

---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 16b4e91..0a71cd8 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1648,7 +1648,7 @@ class Element(metaclass=ABCMeta):
         #X = self.__x
         X = self.coord(initial)
         L = np.linalg.norm(X[1] - X[0])        
-        return round(L, 3)
+        return L
         #return round(np.linalg.norm(self.x[1]-self.x[0]),3)
 
     @abstractclassmethod
-- 
2.43.0


From abc7e7562f196c4e37c643f393e31d685d9c74d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 041/161] fix: cached local stiffness matrix of beam elements
 ignored later releases and changed rotational stiffness

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 1 -
 metku/framefem/elements/ebbeam.py             | 1 -
 2 files changed, 2 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index abfdf1c..0668007 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -127,7 +127,6 @@ class EBSemiRigidBeam(EBBeam):
         return np.append(self.nodes[0].dofs, self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Stiffness matrix in local coordinates """
 
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 1bc43eb..11ce5d1 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -93,7 +93,6 @@ class EBBeam(Element):
         return np.append(self.nodes[0].dofs,self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Generates stiffness matrix in local coordinates
 
-- 
2.43.0


From 17d00956cc7294f4726f6dfe2503c254cdc90693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 042/161] fix: internal forces of semi-rigid beams, linear
 springs and 3D beams raised TypeError, local displacements pass the
 configuration

---
 metku/framefem/elements/eb_semi_rigid_beam.py |  4 ++--
 metku/framefem/elements/ebbeam.py             | 10 +++++-----
 metku/framefem/elements/springs.py            | 10 ++++++----
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 0668007..018c815 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -72,9 +72,9 @@ class EBSemiRigidBeam(EBBeam):
         # print(rot_stiff)
         self.rot_stiff = rot_stiff
 
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ From local to global coordinates """
-        c = self.direction_cosines()
+        c = self.direction_cosines(initial)
         L = np.zeros((6, 6))
         L[0, 0:2] = c[0:2]
         L[1, 0] = -L[0, 1]
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 11ce5d1..e192b3c 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -715,13 +715,13 @@ class EBBeam3D(Element):
         
         return super().direction_cosines()
             
-    def direction_cosines(self):
+    def direction_cosines(self, initial=True):
         """ Calculates direction cosines for a 3D-beam element """
         
         l0 = np.zeros((3,3))
         
-        X = self.coord()
-        L = self.length()
+        X = self.coord(initial)
+        L = self.length(initial)
         dX = X[1, :] - X[0, :]        
         # direction cosines along the local x axis
         l0[0,:] = dX / L
@@ -748,7 +748,7 @@ class EBBeam3D(Element):
         
         return l0
         
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ Calculates transformation matrix from local to global coordinates
 
             Returns:
@@ -757,7 +757,7 @@ class EBBeam3D(Element):
             :rtype: np.array
 
          """
-        l0 = self.direction_cosines()
+        l0 = self.direction_cosines(initial)
         L = np.zeros((12, 12))
         L[0:3, 0:3] = l0
         L[3:6, 3:6] = l0
diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index d0f6222..f97d14a 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -36,9 +36,9 @@ class LinearSpring(Element):
         # Dimension of the element
         self.dim = len(n1.coord)
 
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ From local to global coordinates """
-        c = self.direction_cosines()
+        c = self.direction_cosines(initial)
         L1 = np.hstack((c, np.zeros(len(c))))
         L2 = np.hstack((np.zeros(len(c)), c))
         L = np.vstack((L1, L2))
@@ -132,11 +132,13 @@ class LinearSpring(Element):
         self.fint[lcase]['fx'][1] = self.fint[lcase]['fx'][0]
 
 
-    def nodal_displacements(self,lcase=0):
+    def nodal_displacements(self,lcase=0, order=1):
         """ Get nodal displacements of an element
             Requires previously performed structural analysis such
             that nodal displacements are available.
         """
 
         d = self.dim
-        return np.hstack((self.nodes[0].u[lcase][:d], self.nodes[1].u[lcase][:d]))
+        if order == 1:
+            return np.hstack((self.nodes[0].u[lcase][:d], self.nodes[1].u[lcase][:d]))
+        return np.hstack((self.nodes[0].u2[lcase][:d], self.nodes[1].u2[lcase][:d]))
-- 
2.43.0


From 2baa7558247164e138950fbadf84e23b0f5fa519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 043/161] fix: 3D beam without a reference node raised
 NameError

---
 metku/framefem/elements/ebbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index e192b3c..010f185 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -20,7 +20,7 @@ CACHE_BOUND = 2**10
 #except:
 #    from framefem import Element, LineLoad
 
-from ..framefem import Element, LineLoad
+from ..framefem import Element, FEMNode, LineLoad
 
 class EBBeam(Element):
     """ Euler-Bernoulli beam element
-- 
2.43.0


From 2eafd8f424468c2cb4aca68d7ff7efd051d25674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 044/161] fix: bending moment about the local z axis of a 3D
 beam was not recovered

---
 metku/framefem/elements/ebbeam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 010f185..1eded98 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -1055,4 +1055,5 @@ class EBBeam3D(Element):
             self.fint[lcase]['fz'] = [R[2], -R[8]]
             self.fint[lcase]['mx'] = [-R[3], R[9]]
             self.fint[lcase]['my'] = [-R[4], R[10]]
+            self.fint[lcase]['mz'] = [-R[5], R[11]]
             self.fint[lcase]['mz'] = [R[5], -R[11]]
\ No newline at end of file
-- 
2.43.0


From 9303c8de52d51fbbeec5251f643b2a17c791ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 045/161] fix: geometric stiffness of rods and springs raised
 AttributeError

---
 metku/framefem/elements/rod.py     | 5 +++--
 metku/framefem/elements/springs.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/elements/rod.py b/metku/framefem/elements/rod.py
index 91b65ad..6e6caa1 100644
--- a/metku/framefem/elements/rod.py
+++ b/metku/framefem/elements/rod.py
@@ -96,7 +96,7 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -112,7 +112,8 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0],
+                      [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index f97d14a..ba98be3 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -94,7 +94,7 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -110,7 +110,8 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0],
+                      [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
-- 
2.43.0


From 15a4a2e764af8f9e8d2be7612708ca83d2d13ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 046/161] fix: load factor of a line load in global coordinates
 was applied twice

---
 metku/framefem/elements/ebbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 1eded98..6d62081 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -422,7 +422,7 @@ class EBBeam(Element):
                     #q = np.array([0, q1, 0])
                     q = np.array([0, 1, 0])
                 # Load vector transformed into element local coordinate system
-                qloc = load.f*T[:3, :3].dot(q)
+                qloc = T[:3, :3].dot(q)
                                 
                 if order == 1:
                     """ Loads perpendicular to the axis of the element """
-- 
2.43.0


From 31931cc36cdbfae355450f425a67f247c41a1112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 047/161] fix: axial line load in local coordinates of a beam
 element was ignored

---
 metku/framefem/elements/ebbeam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 6d62081..5012e62 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -383,6 +383,8 @@ class EBBeam(Element):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5*L*(0.5*(q1+q2)-1/6*(q2-q1))
+                    floc[3] = 0.5*L*(0.5*(q1+q2)+1/6*(q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     if order == 1:
-- 
2.43.0


From 0fcd234f9cbc83d5fd5834dc542448962be835d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 048/161] fix: second-order fixed end moments of a local line
 load had the wrong sign and the angle of the whole length

---
 metku/framefem/elements/ebbeam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 5012e62..a589d06 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -405,13 +405,13 @@ class EBBeam(Element):
                             k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
                             a = 0.5*L
                             lam = k*a
-                            s = np.sin(k*L)
-                            c = np.cos(k*L)
+                            s = np.sin(lam)
+                            c = np.cos(lam)
                             
                             floc[1] = 0.5*q1*L
                             floc[4] = 0.5*q1*L                    
-                            floc[2] = q1*a**2*(lam*c-s)/lam**2/s
-                            floc[5] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[2] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[5] = q1*a**2*(lam*c-s)/lam**2/s
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
-- 
2.43.0


From 6931c3f5055a31d539c93a17500229202ef38947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 049/161] fix: second-order line loads read the modulus of the
 section instead of the material of the element

---
 metku/framefem/elements/ebbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index a589d06..a65feec 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -402,7 +402,7 @@ class EBBeam(Element):
                             floc[2] = L**2*(1/20*q1+1/30*q2)
                             floc[5] = -L**2*(1/30*q1+1/20*q2)
                         else:
-                            k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                            k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                             a = 0.5*L
                             lam = k*a
                             s = np.sin(lam)
@@ -459,7 +459,7 @@ class EBBeam(Element):
                         floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
                         floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                     else:
-                        k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                        k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                         a = 0.5*L
                         lam = k*a
                         s = np.sin(lam)
-- 
2.43.0


From 6fa5cafdd48d0552f6355dc6bd489379517081a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 050/161] fix: line load on an element with releases used the
 stiffness of an earlier call, or raised if there was none

---
 metku/framefem/elements/ebbeam.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index a65feec..85cb275 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -505,6 +505,13 @@ class EBBeam(Element):
             # nrel is the list of non-released forces
             nrel = np.setdiff1d(np.arange(6),rel)            
             
+            # stiffness partition of the present releases
+            if order == 1:
+                self.local_stiffness_matrix(self.material.young, self.section.A,
+                                            self.section.I[0], L)
+            else:
+                self.local_second_order_stiffness_matrix(load.sid)
+            
             #print(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0            
-- 
2.43.0


From 6780a08f4ff3d205631ae2425f3ccb8bc3142913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 051/161] fix: internal forces of an element with several line
 loads in a load case took only the last load into account

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 2 +-
 metku/framefem/elements/ebbeam.py             | 4 ++--
 metku/framefem/framefem.py                    | 4 ++++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 018c815..9b6eea0 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -312,7 +312,7 @@ class EBSemiRigidBeam(EBBeam):
             floc[rel] = 0
 
             # Store local loads
-        self.floc[load.sid] = floc
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 85cb275..2fc617f 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -517,7 +517,7 @@ class EBBeam(Element):
             floc[rel] = 0            
 
         # Store local loads
-        self.floc[load.sid] = floc
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
@@ -975,7 +975,7 @@ class EBBeam3D(Element):
             floc[rel] = 0            
 
         # Store local loads
-        self.floc[load.sid] = floc
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 0a71cd8..f927e84 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -512,6 +512,10 @@ class FrameFEM:
         """ Initialize load vector """
         global_load = np.zeros(self.dofs)
 
+        """ Local loads of the elements are collected anew """
+        for elem in self.elements:
+            elem.floc.pop(sid, None)
+
         for load in self.loads:
             """ Get the loads to be added to the vector 
                 and the global degrees of freedom of these loads
-- 
2.43.0


From e451a79fc2e6eb164d03f8c92107a41ff1317ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 052/161] fix: line loads on a semi-rigid beam raised TypeError
 and ignored the load factor

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 9b6eea0..6b503fd 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -227,7 +227,7 @@ class EBSemiRigidBeam(EBBeam):
 
         return kG
 
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load
 
             'load' is a Load type object. By default, it is assumed that
@@ -240,12 +240,12 @@ class EBSemiRigidBeam(EBBeam):
         """
         floc = np.zeros(6)
 
-        T = self.transformation_matrix()
-        L = self.length()
+        T = self.transformation_matrix(initial)
+        L = self.length(initial)
 
         if isinstance(load, LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
+            q1 = load.f * load.qval[0]
+            q2 = load.f * load.qval[1]
             # print(q1,q2)
             if load.coords == 'local':
                 # print('local coordinates')
-- 
2.43.0


From d96be3120ec3b76f8715b873f880678455c721ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 053/161] fix: axial line load in local coordinates of a
 semi-rigid beam was ignored

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index 6b503fd..ce60709 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -252,6 +252,8 @@ class EBSemiRigidBeam(EBBeam):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5*L*(0.5*(q1+q2)-1/6*(q2-q1))
+                    floc[3] = 0.5*L*(0.5*(q1+q2)+1/6*(q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     floc[1] = 7 / 20 * q1 * L + 3 / 20 * q2 * L
-- 
2.43.0


From 547f9b3690b6041b63277a7b9b5fe8073a25763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 054/161] fix: fixed end forces of a line load on a semi-rigid
 beam were those of rigid ends

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index ce60709..bd7d25b 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -301,6 +301,10 @@ class EBSemiRigidBeam(EBBeam):
 
                 # print(floc)
 
+        # fixed end forces of the beam with its rotational springs
+        q = [1, 2, 4, 5]
+        floc[q] += 1 / self.delta() * self.matrix_S().transpose().dot(floc[q])
+
         if len(self.releases) > 0:
             """ There are releases in the element, so the local load vector
                 is modified.
-- 
2.43.0


From e7aab2260c9cb4ac140be707b0c36aac1797c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 055/161] fix: line loads on a 3D beam raised TypeError and
 ignored the load factor

---
 metku/framefem/elements/ebbeam.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 2fc617f..d90fd47 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -866,7 +866,7 @@ class EBBeam3D(Element):
 
         return ke
     
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load 
         
             'load' is a Load type object. By default, it is assumed that
@@ -898,12 +898,12 @@ class EBBeam3D(Element):
         """
         floc = np.zeros(12)
 
-        T = self.transformation_matrix()
-        L = self.length()
+        T = self.transformation_matrix(initial)
+        L = self.length(initial)
 
         if isinstance(load,LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
+            q1 = load.f*load.qval[0]
+            q2 = load.f*load.qval[1]
             #print(q1,q2)
             if load.coords == 'local':
                 #print('local coordinates')
-- 
2.43.0


From f3d103b04ba55cb6e401ce988cef47a87c95d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 056/161] fix: local line loads on a 3D beam: axial load
 ignored, sign of the end moments of a load in the z direction

---
 metku/framefem/elements/ebbeam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index d90fd47..75feea4 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -910,6 +910,8 @@ class EBBeam3D(Element):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = 0.5*L*(0.5*(q1+q2)-1/6*(q2-q1))
+                    floc[6] = 0.5*L*(0.5*(q1+q2)+1/6*(q2-q1))
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     floc[1] = 7/20*q1*L + 3/20*q2*L
@@ -919,8 +921,8 @@ class EBBeam3D(Element):
                 elif load.dir == 'z':
                     floc[2] = 7/20*q1*L + 3/20*q2*L
                     floc[8] = 3/20*q1*L + 7/20*q2*L                    
-                    floc[4] = L**2*(1/20*q1+1/30*q2)
-                    floc[10] = -L**2*(1/30*q1+1/20*q2)
+                    floc[4] = -L**2*(1/20*q1+1/30*q2)
+                    floc[10] = L**2*(1/30*q1+1/20*q2)
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
-- 
2.43.0


From f2c18a3e731779dd1cca14e5839a4d7c101abbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 057/161] fix: global line load on a 3D beam was placed on the
 degrees of freedom of the plane beam

---
 metku/framefem/elements/ebbeam.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 75feea4..1d1551c 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -929,11 +929,11 @@ class EBBeam3D(Element):
                     first into local coordinates.
                 """
                 if load.dir == "x":                    
-                    q = np.array([1, 0, 0,0,0,0])
+                    q = np.array([1, 0, 0])
                 elif load.dir == 'y':                    
-                    q = np.array([0, 1, 0,0,0,0])
+                    q = np.array([0, 1, 0])
                 elif load.dir == 'z':                    
-                    q = np.array([0, 0, 1,0,0,0])
+                    q = np.array([0, 0, 1])
                 # Load vector transformed into element local coordinate system
                 qloc = T[:3, :3].dot(q)
                 
@@ -941,15 +941,22 @@ class EBBeam3D(Element):
                 qy1 = q1*qloc[1]
                 qy2 = q2*qloc[1]
                 floc[1] = 7/20*qy1*L + 3/20*qy2*L
-                floc[4] = 3/20*qy1*L + 7/20*qy2*L
-                floc[2] = L**2*(1/20*qy1+1/30*qy2)
-                floc[5] = -L**2*(1/30*qy1+1/20*qy2)
+                floc[7] = 3/20*qy1*L + 7/20*qy2*L
+                floc[5] = L**2*(1/20*qy1+1/30*qy2)
+                floc[11] = -L**2*(1/30*qy1+1/20*qy2)
+                
+                qz1 = q1*qloc[2]
+                qz2 = q2*qloc[2]
+                floc[2] = 7/20*qz1*L + 3/20*qz2*L
+                floc[8] = 3/20*qz1*L + 7/20*qz2*L
+                floc[4] = -L**2*(1/20*qz1+1/30*qz2)
+                floc[10] = L**2*(1/30*qz1+1/20*qz2)
                 
                 """ Loads parallel to the axis of the element """
                 qx1 = q1*qloc[0]
                 qx2 = q2*qloc[0]
                 floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
-                floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
+                floc[6] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                 
                 # Construct nodal load in local coordinates
                 # qloc[0,1,2] = axial, shear, moment of node 1
-- 
2.43.0


From 50d5a23a843b61dc9012d29b983482489b50e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 058/161] fix: linear statics with zeroed support rows (the
 default) raised AttributeError

---
 metku/framefem/framefem.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index f927e84..ca31da5 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -639,9 +639,12 @@ class FrameFEM:
             #print(rem_dofs)
             #print(K)
             #print(p)
-            self.K = K
-            self.p = np.column_stack(LOADS)
             #print(glob_dofs)
+        else:
+            LOADS = loads
+
+        self.K = K
+        self.p = np.column_stack(LOADS)
                         
         """ Solve global displacement vector """
 
@@ -667,7 +670,8 @@ class FrameFEM:
                 # Substitute free dofs from global displacement vector                        
                 for i, free_dof in enumerate(free_dofs):
                     if free_dof:
-                        node.u[lcase][i] = u[dofs[i]]
+                        for j, lc in enumerate(lcase):
+                            node.u[lc][i] = u[dofs[i], j]
 
             """
             This substition did not work !!!
-- 
2.43.0


From 361ddbdf03010b738e0b64eae29b1e7f014604f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 059/161] fix: supported degrees of freedom were not kept when
 support rows are zeroed, and counted twice when supported twice

---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index ca31da5..7c321f8 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -619,7 +619,7 @@ class FrameFEM:
                             K[i,i] = 1
                             for p in loads:
                                 p[i] = 0
-                        elif support_method == 'REM':
+                        if i not in rem_dofs:
                             rem_dofs.append(i)
         
         self.supp_dofs = rem_dofs
-- 
2.43.0


From 12d5d5e23727f5af187edd5a8b071d8d53541230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 060/161] fix: a support added after an analysis kept the
 displacement of the earlier analysis

---
 metku/framefem/framefem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 7c321f8..1c6a1f3 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -659,6 +659,10 @@ class FrameFEM:
         #print(u)
 
         """ Substitute obtained displacements to nodes """
+        for node in self.nodes:
+            for lc in lcase:
+                node.u[lc] = np.zeros(len(node.dofs))
+
         if support_method == 'ZERO':
             """ Distribute displacements to nodes """
             for node in self.nodes:
-- 
2.43.0


From fb26f7f52ef1b95c1437ce11677b0c42602d1fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 061/161] fix: degrees of freedom of a 3D node were floats,
 which cannot index the matrices of the model

---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 1c6a1f3..d1b3095 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1484,7 +1484,7 @@ class FEMNode:
             self.X = np.array([x, y, z])
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
-            self.dofs = -np.ones(6)
+            self.dofs = -np.ones(6, dtype=int)
             # Nodal displacements
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
-- 
2.43.0


From b567931236fdabf7fe30130b93cd39707c054bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 062/161] fix: elements added after the degrees of freedom were
 numbered took no part in the analysis

---
 metku/framefem/framefem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index d1b3095..7217fbb 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -252,6 +252,8 @@ class FrameFEM:
             new_elem.add_loadcase(lcase)
         
         self.elements.append(new_elem)
+        # degrees of freedom have to be numbered again
+        self.dofs = 0
         
 
     def add_support(self, sid, nid, dof, val=0):
-- 
2.43.0


From a0590478d05b455f6863155df13bc330f146aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 063/161] fix: a support added after a second order analysis
 kept the displacement of the earlier analysis

---
 metku/framefem/framefem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 7217fbb..8f918ee 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -741,6 +741,9 @@ class FrameFEM:
         self.u2 = u2
         
         """ Substitute obtained displacements to nodes """
+        for node in self.nodes:
+            node.u2[lcase] = np.zeros(len(node.dofs))
+
         if support_method == 'ZERO':
             """ Distribute displacements to nodes """
             for node in self.nodes:
-- 
2.43.0


From 039d832e03829dd9f21c26b72cae67a232d67fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 064/161] fix: buckling modes at the nodes had the wrong size
 after a second buckling analysis

---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 8f918ee..a1040a3 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -904,7 +904,7 @@ class FrameFEM:
         """
         
         for node in self.nodes:
-            node.v = np.zeros((buckling_modes.shape[1],len(node.v)))
+            node.v = np.zeros((buckling_modes.shape[1],len(node.dofs)))
         
         
         glob_dofs = self.global_free_dofs()
-- 
2.43.0


From 26625d805424b83949a495a354ff89a7334f4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 065/161] fix: a variable scaled twice lost its first scaling
 factor although its bounds kept it

---
 metku/optimization/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 3a87151..878df60 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -142,7 +142,7 @@ class Variable:
             'scaling_factor'
         """
 
-        self.scaling = scaling_factor
+        self.scaling *= scaling_factor
         self.lb = self.lb / scaling_factor
         self.ub = self.ub / scaling_factor
 
-- 
2.43.0


From 3905538b9f40cf4ec60f675224d21ecb4fe1e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 066/161] fix: the scaling of a design variable was not applied
 to lists of target properties

---
 metku/optimization/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 878df60..b46459c 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -177,8 +177,10 @@ class Variable:
                                     new_val = new_value * self.scaling
 
                                 obj.__setattr__(p, new_val)
-                            else:
+                            elif isinstance(self, IndexVariable):
                                 obj.__setattr__(p, new_value)
+                            else:
+                                obj.__setattr__(p, new_value * self.scaling)
 
                     elif isinstance(self, IndexVariable):
                         obj.__setattr__(prop, new_value)
@@ -453,7 +455,7 @@ class CrossSectionVariable(Variable):
 
                             obj.__setattr__(p, new_val)
                         else:
-                            obj.__setattr__(p, new_value)
+                            obj.__setattr__(p, new_value * self.scaling)
                 else:
                     obj.cross_section.__setattr__(prop, new_value * self.scaling)
 
-- 
2.43.0


From a6b3d8585cc6c684f1fc4b208e2b21bb4e2b8366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 067/161] fix: a member switched off by its existence variable
 was never switched on again

---
 metku/optimization/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index b46459c..bc437d4 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -192,6 +192,8 @@ class Variable:
                         if new_value == 1:
                             if prop == 'profile' or prop == 'cross_section':
                                 obj.__setattr__(prop, self.section)
+                            elif prop == 'member':
+                                obj.__setattr__('active', True)
                         else:
                             """ If the target of a binary variable is a member,
                                 the binary variable is a member existence variable
-- 
2.43.0


From 5afddac32c8bb963484e2f02fbe1fb06696ae2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 068/161] fix: a locked index variable still changed its value

---
 metku/optimization/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index bc437d4..f6190cf 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -335,7 +335,8 @@ class IndexVariable(IntegerVariable):
                 " index or a value from the given list!\n"
                 f"Values: {self.values}")
 
-        self.value = new_value
+        if not self.locked:
+            self.value = new_value
 
     # @property
     # def idx(self):
-- 
2.43.0


From eb0a8e94ecbf333df58556238d79d5cd5ffe234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 069/161] fix: the value and profiles of a cross-section
 variable were taken for its target properties

---
 metku/optimization/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index f6190cf..39962dc 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -425,7 +425,7 @@ class CrossSectionVariable(Variable):
 
     def __init__(self, name, lb=XLB, ub=XUB, target=None, profiles=None, value=None, target_fun=None):
 
-        super().__init__(name, lb, ub, target, profiles, value, target_fun=target_fun)
+        super().__init__(name, lb, ub, target, profiles=profiles, value=value, target_fun=target_fun)
 
     def substitute(self, new_value):
         """
-- 
2.43.0


From 206bea81bf14e196f16a85c8bf334bff83ac8b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 070/161] fix: add_variable and add_variables did not add the
 variables

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8d054c0..b0e7947 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -657,12 +657,12 @@ class OptimizationProblem:
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-        self.vars.append(var)
+        self.add(var)
 
     def add_variables(self, variables):
         """ Adds new variables to the problem """
         for var in variables:
-            self.vars.append(var)
+            self.add(var)
 
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
-- 
2.43.0


From ee26e03fa495f9125d81ecda7cd6896aba24920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 071/161] fix: evaluating the objective assigned values to the
 wrong variables when some were locked

---
 metku/optimization/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index 5e0f042..e67c172 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -65,7 +65,7 @@ class ObjectiveFunction:
                 """
                 break
 
-        self.problem.substitute_variables(fixed_vals)
+        self.problem.substitute_variables(x)
 
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
-- 
2.43.0


From 627e79d84152332f6aed1990174824021d66f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 072/161] fix: constraints and objectives given to the
 constructor or add_constraint did not know their problem

---
 metku/optimization/structopt.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index b0e7947..ba5a86b 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -86,11 +86,12 @@ class OptimizationProblem:
             self.vars = variables
         else:
             self.__vars = []
+        self.cons = []
         if constraints:
-            self.cons = constraints
-        else:
-            self.cons = []
+            self.add_constraints(constraints)
         self.obj = objective
+        if isinstance(objective, ObjectiveFunction):
+            objective.problem = self
         # Gradient and Hessian of the objective function
         # should also include the possibility that some of the variables
         # can be fixed!
@@ -666,12 +667,12 @@ class OptimizationProblem:
 
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
-        self.cons.append(con)
+        self.add(con)
 
     def add_constraints(self, constraints):
         """ Adds new constraints to the problem """
         for con in constraints:
-            self.cons.append(con)
+            self.add(con)
 
     def add_structure(self, structure):
         """ Add structure to the problem """
-- 
2.43.0


From 429ac020b60d4c7fe34b7820bd6426ed4437edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 073/161] fix: eval_eq_con and eval_ineq_con returned nothing

---
 metku/optimization/structopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index ba5a86b..5a38a21 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -629,6 +629,8 @@ class OptimizationProblem:
             if con.type == "=":
                 geq.append(con(x))
 
+        return np.asarray(geq)
+
     def eval_ineq_con(self, x):
         """ Evaluate inequality constriants
             All constraints are evaluated in the form g(x) >= 0
@@ -642,6 +644,8 @@ class OptimizationProblem:
             elif con.type == "<":
                 g.append(-con(x))
 
+        return np.asarray(g)
+
     def nvars(self):
         """ Return number of variables """
         return len(self.vars)
-- 
2.43.0


From 24de36b54c2cc63e74f031566f9a631fb5452a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 074/161] fix: linear constraints and linearisation of index
 variables raised AttributeError

---
 metku/optimization/constraints.py | 6 ++----
 metku/optimization/structopt.py   | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index e11955c..aa26f83 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -136,10 +136,8 @@ class LinearConstraint(Constraint):
             are included in the function evaluation.
         """
         for var in self.problem.all_vars:
-            if isinstance(var, IndexVariable):
-                X.append(var.idx)
-            else:
-                X.append(var.value)
+            # the value of an index variable is its index
+            X.append(var.value)
 
         if isinstance(self.b, Variable):
             b = self.b.value
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 5a38a21..fd0c98f 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -378,9 +378,9 @@ class OptimizationProblem:
                 h = 1
             elif isinstance(var, IndexVariable):
                 h = 1
-                if var.idx + h > var.ub:
+                if var.value + h > var.ub:
                     h = -1
-                var.substitute(var.idx + h)
+                var.substitute(var.value + h)
             else:
                 x[i] = var.value
                 """ Step length """
-- 
2.43.0


From 9f04883547937fa1e578ed6bdd987c9e28120809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 075/161] fix: linearisation took the wrong coefficients of
 linear constraints when variables were locked

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index fd0c98f..f30f844 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -407,7 +407,7 @@ class OptimizationProblem:
             dg = np.zeros(m)
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
-                    dg[j] = con.a[i]
+                    dg[j] = con.a[self.all_vars.index(var)]
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
-- 
2.43.0


From bfc620e8d61af5bbb03d3c901f1fef614e75c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 076/161] fix: exact penalty function rewarded violated
 constraints of type '>'

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index f30f844..b6dc3c7 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -893,7 +893,7 @@ class OptimizationProblem:
                     """ For geq type constraints, the penalty term is
                          min(0,val)
                     """
-                    F += R*min(0,val)
+                    F -= R*min(0,val)
             
             """ Variable bounds are treated separately """
             for (i,var) in enumerate(self.vars):                
-- 
2.43.0


From b66e820ca3b76fd93f2217c8af6a2273b94edda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 077/161] fix: multiplier of the upper bound was updated from
 that of the lower bound

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index b6dc3c7..7b970bb 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -1078,7 +1078,7 @@ class OptimizationProblem:
                                 
             if var.ub < XUB:                    
                 val = x[i] - var.ub
-                var.ub_mult = max(var.lb_mult + 2*Rineq*val,0)
+                var.ub_mult = max(var.ub_mult + 2*Rineq*val,0)
             
 
 
-- 
2.43.0


From af4686f1a2b7a06ae2378628484008bfc125e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 078/161] fix: linear constraints of a problem were taken over
 by its approximation

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 7b970bb..bf71151 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -464,7 +464,7 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pconlin.add(con)
+                Pconlin.add(copy.copy(con))
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
@@ -514,7 +514,7 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pmma.add(con)
+                Pmma.add(copy.copy(con))
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-- 
2.43.0


From 7c7a008fdb207a4c9f460bf1ecb3a466614e5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 079/161] fix: numerical gradients and MMA approximations used
 np.float and an extra argument, both of which raise errors

---
 metku/optimization/opt_functions.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 65847bd..dab0c14 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -28,12 +28,12 @@ def NumGrad(fun, x):
     # if isinstance(h, float):
     #    h = h * np.ones(n)
 
-    df = np.zeros(n, dtype=np.float)
+    df = np.zeros(n, dtype=float)
     #    
     for i in range(len(x)):
         # print("Täällä")
         # xh = deepcopy(x)
-        xh = np.asarray([val for val in x], dtype=np.float)
+        xh = np.asarray([val for val in x], dtype=float)
         h = max(1e-6 * abs(xh[i]), 1e-8)
         xh[i] += h
 
@@ -105,8 +105,8 @@ def mma_fun(xk, fk, dfk, L, U):
     n = len(xk)
 
     """ Initialize 'p' and 'q' as zeros. """
-    p = np.zeros(n, dtype=np.float)
-    q = np.zeros(n, dtype=np.float)
+    p = np.zeros(n, dtype=float)
+    q = np.zeros(n, dtype=float)
     for i, (Xk, Lk, Uk) in enumerate(zip(xk, L, U)):
         # Determine the constants p and q
         if dfk[i] >= 0:
@@ -194,9 +194,7 @@ def Linearize(fun, x, grad=None):
     b = fun(x)
 
     if grad == None:
-        h = 0.01 * x  # check if this is OK
-        # h = np.ones_like(x) * 1e-2
-        a = NumGrad(fun, x, h)
+        a = NumGrad(fun, x)
     else:
         a = grad(x)
 
-- 
2.43.0


From 849dec3328745de9d999b0a75848f6b80afbad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 080/161] fix: an objective that needs structural analysis used
 the analysis of an earlier design

---
 metku/optimization/objective.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index e67c172..505d9ba 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -39,9 +39,6 @@ class ObjectiveFunction:
             Read values from 'x' and reverse them.
             Reversing is done so that 'pop' method can be employed.
         """
-        if self.fea_required and not self.problem.fea_done:
-            self.problem.fea()
-
         X = [val for val in x]
         X.reverse()
 
@@ -67,6 +64,9 @@ class ObjectiveFunction:
 
         self.problem.substitute_variables(x)
 
+        if self.fea_required and not self.problem.fea_done.get("ALL"):
+            self.problem.fea()
+
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
         elif self.obj_type == ObjectiveTypeEnum.MAX:
-- 
2.43.0


From e5002a1a7625e05e81965d15b2862401c107c4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 081/161] fix: linearisation used the structural analysis of
 another design, and left that of the last perturbed design behind

---
 metku/optimization/structopt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index bf71151..f2ca69e 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -391,6 +391,8 @@ class OptimizationProblem:
                 
             """ Get variable values """
             xh = [var.value for var in self.vars]
+            # the structural analysis of x does not hold for xh
+            self.substitute_variables(xh)
             #print(x,xh)
             if not isinstance(var,BinaryVariable) and np.linalg.norm(x-xh) == 0:
                 print("Linearize: error with variable substitution - too small step size.")
@@ -417,7 +419,8 @@ class OptimizationProblem:
                 
             """ Substitute the original value x[i] to current variable """
             var.substitute(prev_val)            
-            
+
+        self.substitute_variables(x)
 
         #B = A @ x.T - b
         B = A.dot(x) - b
-- 
2.43.0


From feb1855556f555e62ce65733fc48aaeb4c2eccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 082/161] fix: constraints could not be evaluated before every
 variable had a value

---
 metku/optimization/constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index aa26f83..6226cd0 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -69,7 +69,7 @@ class Constraint:
                 optimization variable to X
             """
             
-            X = np.array([var.value for var in self.problem.vars])            
+            X = np.array([var.value for var in self.problem.vars], dtype=float)
             x = np.asarray(x)
             
             """ If the new values deviate from the old values
@@ -78,7 +78,7 @@ class Constraint:
 
                 NOTE: X_TOL should be small
             """
-            if np.linalg.norm(X - x) > X_TOL:
+            if not np.linalg.norm(X - x) <= X_TOL:
                 # print('variablet asetettiin')
                 self.problem.substitute_variables(x)
 
-- 
2.43.0


From ebcf4176cd16ad4fc2647dab32e053a1603dd9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 083/161] fix: gradients and approximations of constraints on
 the structure were taken without updating the structure

---
 metku/optimization/constraints.py | 2 +-
 metku/optimization/structopt.py   | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index 6226cd0..9128fc4 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -223,7 +223,7 @@ class NonLinearConstraint(Constraint):
         
         if self.grad is None:
             # Evaluate gradient numerically
-            df = opt_funs.NumGrad(self.con,x)
+            df = opt_funs.NumGrad(self,x)
         else:
             df = self.grad(x)
         
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index f2ca69e..cd90c05 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -471,9 +471,10 @@ class OptimizationProblem:
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 conlin_con.con = conlin_fun(x,gx,dgx)
+                conlin_con.fea_required = False
                 
                 Pconlin.add(conlin_con)
         
@@ -521,9 +522,10 @@ class OptimizationProblem:
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 mma_con.con = mma_fun(x,gx,dgx,L,U)
+                mma_con.fea_required = False
                 
                 Pmma.add(mma_con)
         
-- 
2.43.0


From 2c8aa1c4f97cede11036539bb36c0352e43e1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 084/161] fix: lower move limit of the MMA sub-problem lay
 beyond a negative asymptote

---
 metku/optimization/solvers/mma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 3bfff3e..1a7d0de 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -54,7 +54,7 @@ class MMAProblem(OptimizationProblem):
         for i, var in enumerate(P.vars):
             # Create variables for the mma problem
             # Rules for variable bounds are from Svanberg (2007)
-            lb = max(var.lb, L[i] + 0.1 * (x[i] - abs(L[i])), x[i] - 0.5 * (var.ub - var.lb))
+            lb = max(var.lb, L[i] + 0.1 * (x[i] - L[i]), x[i] - 0.5 * (var.ub - var.lb))
             ub = min(var.ub, U[i] - 0.1 * (U[i] - x[i]), x[i] + 0.5 * (var.ub - var.lb))
             self.add(Variable(name=var.name,
                               lb=lb,
-- 
2.43.0


From a003e8512e9bb293ec17d274c0623d50f6920c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 085/161] fix: linear constraints did not fit the approximation
 of a problem with locked variables, and were taken over by MMA sub-problems

---
 metku/optimization/solvers/mma.py |  2 +-
 metku/optimization/structopt.py   | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 1a7d0de..5a19764 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -74,7 +74,7 @@ class MMAProblem(OptimizationProblem):
         for con in P.cons:
             if isinstance(con, cons.LinearConstraint):
                 # Linear constraints are simply added
-                self.add(con)
+                self.add(P.free_linear_constraint(con))
             else:
                 # For nonlinear constraints, MMA approximation is made                
                 mma_con = copy(con)
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index cd90c05..6e009c9 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -467,7 +467,7 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pconlin.add(copy.copy(con))
+                Pconlin.add(self.free_linear_constraint(con))
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
@@ -518,7 +518,7 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pmma.add(copy.copy(con))
+                Pmma.add(self.free_linear_constraint(con))
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
@@ -531,6 +531,18 @@ class OptimizationProblem:
         
         return Pmma
         
+    def free_linear_constraint(self, con):
+        """ Copy of the linear constraint 'con' for a problem that has
+            only the unlocked variables of this problem
+        """
+        new_con = copy.copy(con)
+        b = con.b.value if isinstance(con.b, Variable) else con.b
+        fixed = [ai*var.value for ai, var in zip(con.a, self.all_vars) if var.locked]
+        new_con.a = np.array([ai for ai, var in zip(con.a, self.all_vars) if not var.locked])
+        new_con.b = b - sum(fixed)
+
+        return new_con
+
     def nnonlincons(self):
         """ Returns number of non linear constraints"""
         non_lin_cons = [con for con in self.cons if
-- 
2.43.0


From a95df75595a2ce9fffd6cfe5d839c0de72d76e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 086/161] fix: the governing characteristic combination was
 chosen with the quasi-permanent factors of the other loads

---
 metku/eurocodes/en1991/en1991.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1991/en1991.py b/metku/eurocodes/en1991/en1991.py
index 70a633e..0645e30 100644
--- a/metku/eurocodes/en1991/en1991.py
+++ b/metku/eurocodes/en1991/en1991.py
@@ -373,7 +373,7 @@ class SLSCombiner(Combiner):
                 if l is not lo:
                     case2qi.append({'load': lo, 'factor': lo[0].comb_factors[0]})
                     case3qi.append({'load': lo, 'factor': lo[0].comb_factors[2]})
-            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 2),
+            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 0),
                                                'combination': {'G': case1, 'Q1': case2q1, 'Qi': case2qi}})
             frequent_combination.append({'value': self.sum_G_k() + l[0].combined(1) + self.sum_Q_k_excluding(l[0], 2),
                                          'combination': {'G': case1, 'Q1': case3q1, 'Qi': case3qi}})
-- 
2.43.0


From f1a62ce73860b8297ff2e67848eb17ec6e8b1927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 087/161] fix: the scaling factor of a load was lost in load
 combinations

---
 metku/raami/frame_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 6171533..91f587f 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -206,7 +206,7 @@ class Load:
             if comb_type == 'ULS':
                 factor = 1.15
         
-        self.f = factor
+        self.f *= factor
             
 
 class PointLoad(Load):
-- 
2.43.0


From 6acea3dee9630e296ea9b31c347a623e7828ebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 088/161] fix: a load case without loads was taken for the
 leading variable load of a combination

---
 metku/raami/frame_loads.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 91f587f..e39595d 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -117,14 +117,19 @@ class LoadCombination:
         self.load_cases = load_cases
         self.lead_variable_load = None
 
-        # The first non-dead load is the leading variable load case.
-        for lc in load_cases:
-            if not lc.load_type == 'DEAD':
-                self.lead_variable_load = lc
-                break
+        self.find_lead_variable_load()
         
         self.frame = None
 
+    def find_lead_variable_load(self):
+        """ The first non-dead load is the leading variable load case.
+            Load cases that have no loads yet are neither.
+        """
+        for lc in self.load_cases:
+            if not lc.load_type in ('DEAD', None):
+                self.lead_variable_load = lc
+                break
+
     def clear_loads(self):
         """
         Clear loads with comb_id from frame
@@ -141,6 +146,8 @@ class LoadCombination:
         """
         # Clear loads with same comb_id to prevent adding same load multiple times
         self.clear_loads()
+        if self.lead_variable_load is None:
+            self.find_lead_variable_load()
         for lc in self.load_cases:
             # Do the load factorization for given load case
             # combo_loads is a list of factored loads.
-- 
2.43.0


From 6fa5110ed6c2db8cdb842ff43111183c076eb0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 089/161] fix: the load case of a repeated load combination
 kept the loads of earlier combinations

---
 metku/raami/frame_loads.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index e39595d..b7b9185 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -139,6 +139,9 @@ class LoadCombination:
         for key in keys_to_delete:
             del self.frame.loads[key]
 
+        if self.comb_id in self.frame.load_cases:
+            self.frame.load_cases[self.comb_id].loads.clear()
+
     def combine_loads(self):
         """ Does the actual load combination:
             Each load in each load case is multiplied by its corresponding
-- 
2.43.0


From 52fc81bd8a2152117ec3e92ee68f8afcb9f91f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 090/161] fix: loads with the same name were dropped from the
 frame or replaced each other

---
 metku/raami/raami.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index f535a59..f011982 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -136,7 +136,7 @@ class Raami:
             self.load_ids.append(loadcase.load_id)
 
         for load in loadcase.loads:
-            if load.name not in self.loads:
+            if load not in self.loads.values():
                 self.add(load)
 
     def add_loadcombination(self, loadcombination: LoadCombination) -> None:
@@ -145,6 +145,15 @@ class Raami:
         self.load_combs[loadcombination.comb_id] = loadcombination
         loadcombination.combine_loads()
 
+    def name_load(self, load) -> None:
+        """ Adds a number to the end of the name of a new load, if the frame
+            has a load of that name already
+        """
+        name, i = load.name, len(self.loads)
+        while load.name in self.loads:
+            load.name = name + str(i)
+            i += 1
+
     def add_pointload(self, pointload:PointLoad) -> None:
         """ If a point load with same 'name' is already included
                         in the frame, add a number to the end of the name
@@ -157,10 +166,8 @@ class Raami:
                     """
 
 
-        if pointload.name in self.loads.keys():
-            pointload.name += str(len(self.loads))
-
         if pointload not in self.loads.values():
+            self.name_load(pointload)
             self.loads[pointload.name] = pointload
 
         if not (pointload.load_id in self.load_ids):
@@ -186,10 +193,9 @@ class Raami:
 
     def add_lineload(self, lineload: LineLoad | PWLineLoad) -> None:
 
-        if lineload.name in self.loads.keys():
-            lineload.name += str(len(self.loads))
-
-        self.loads[lineload.name] = lineload
+        if lineload not in self.loads.values():
+            self.name_load(lineload)
+            self.loads[lineload.name] = lineload
 
 
         if not (lineload.load_id in self.load_ids):
-- 
2.43.0


From bec14e9222afb947e6898628014ff2f2e0357010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 091/161] fix: identifiers of load cases were listed twice, and
 a load with a listed identifier but no load case raised KeyError

---
 metku/raami/raami.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index f011982..ff08e80 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -170,12 +170,11 @@ class Raami:
             self.name_load(pointload)
             self.loads[pointload.name] = pointload
 
-        if not (pointload.load_id in self.load_ids):
+        if not (pointload.load_id in self.load_cases):
             # There is no load case for the new load.
             # Add a new load case for this load
             NewLoadCase = LoadCase(load_id=pointload.load_id, loads=[pointload])
             self.add(NewLoadCase)
-            self.load_ids.append(pointload.load_id)
         else:
             # If a load case with this.load_id exists, add the new
             # load to that load case
@@ -198,12 +197,11 @@ class Raami:
             self.loads[lineload.name] = lineload
 
 
-        if not (lineload.load_id in self.load_ids):
+        if not (lineload.load_id in self.load_cases):
 
             NewLoadCase = LoadCase(load_id=lineload.load_id, loads=[lineload])
 
             self.add(NewLoadCase)
-            self.load_ids.append(lineload.load_id)
         else:
             # If a load case with this.load_id exists, add the new
             # load to that load case
-- 
2.43.0


From bec99ce65af948dd19c4275e35073e34ac40d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 092/161] fix: self-weight was counted twice when added again,
 and removing it left the loads in the frame

---
 metku/raami/frame_member.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b452861..54f6a36 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -323,14 +323,19 @@ class FrameMember:
             
             # Default units: N/mm
             value = -self.cross_section.self_weight()
-            self.frame.add(LineLoad(self, [value, value], 'y',load_id,ltype='dead',
-                                    name='self-weight'))
+            self.self_weight_load = LineLoad(self, [value, value], 'y',load_id,ltype='dead',
+                                             name='self-weight')
+            self.frame.add(self.self_weight_load)
 
     def remove_self_weight(self):
         """ Removes self-weight from loads
         """
         if self.self_weight:
             self.self_weight = False
+            load = self.self_weight_load
+            self.loads.remove(load)
+            self.frame.loads.pop(load.name)
+            self.frame.load_cases[load.load_id].loads.remove(load)
         
     def recalculate_coordinates(self):
         """ Clear global node coordinates and recalculate those """
-- 
2.43.0


From 81d895f01f05b537ed74071ac244dec5143a5f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 093/161] fix: walls with an area of at most 10 m2 were given
 no wind pressure

---
 metku/eurocodes/en1991/en1991_1_4.py | 67 ++++++++++++++++------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index f21cdb4..2d5ffdd 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -152,6 +152,18 @@ class ExternalPressureMonoRoof:
             self.I = 0.0
 
 
+def cpe_of_area(cpe,A):
+    """ EN 1991-1-4, Figure 7.2: external pressure coefficient for loaded area A (m2)
+    
+        :param cpe: dict with the coefficients "cpe10" and "cpe1"
+    """
+    if A >= 10:
+        return cpe["cpe10"]
+    elif A <= 1:
+        return cpe["cpe1"]
+    else:
+        return cpe["cpe1"] - (cpe["cpe1"]-cpe["cpe10"])*math.log10(A)
+
 def basic_wind_velocity(vb0=21.0,cdir=1.0,cseason=1.0):
     """ EN 1991-1-4, Eq. (4.1) """
     return vb0*cdir*cseason
@@ -281,35 +293,34 @@ def rect_building_wall_pressure(length,width,h,qp,wind_dir="long"):
     print("e = {0:4.2f} m".format(e))
     print("h/d = {0:4.2f} ".format(hd_ratio))
     
-    if A > 10:
-        zones["A"]['cpe'] = ext_pressure_walls["A"][5]["cpe10"]
-        zones["B"]['cpe'] = ext_pressure_walls["B"][5]["cpe10"]
-        zones["C"]['cpe'] = ext_pressure_walls["C"][5]["cpe10"]
+    zones["A"]['cpe'] = cpe_of_area(ext_pressure_walls["A"][5],A)
+    zones["B"]['cpe'] = cpe_of_area(ext_pressure_walls["B"][5],A)
+    zones["C"]['cpe'] = cpe_of_area(ext_pressure_walls["C"][5],A)
 
-        if hd_ratio >= 5:
-            zones["D"]['cpe'] = ext_pressure_walls["D"][5]["cpe10"]
-            zones["E"]['cpe'] = ext_pressure_walls["E"][5]["cpe10"]
-        elif hd_ratio >= 1:
-            """ Linear interpolation for E """
-            zones["D"]['cpe'] = ext_pressure_walls["D"][1]["cpe10"]
-            Y = [ext_pressure_walls["E"][1]["cpe10"],
-                 ext_pressure_walls["E"][5]["cpe10"]]
-            X = [1,5]            
-            zones["E"]['cpe'] = interpolate(X,Y,hd_ratio)
-        elif hd_ratio >= 0.25:
-            """ Linear interpolation for D and E """            
-            X = [0.25,1]                        
-            YD = [ext_pressure_walls["D"][0.25]["cpe10"],
-                 ext_pressure_walls["D"][1]["cpe10"]]            
-            YE = [ext_pressure_walls["E"][0.25]["cpe10"],
-                 ext_pressure_walls["E"][1]["cpe10"]]            
-            zones["D"]['cpe'] = interpolate(X,YD,hd_ratio)
-            zones["E"]['cpe'] = interpolate(X,YE,hd_ratio)
-            
-            #zones["E"]['cpe'] = ext_pressure_walls["E"][1]["cpe10"]
-        else:
-            zones["D"]['cpe'] = ext_pressure_walls["D"][0.25]["cpe10"]
-            zones["E"]['cpe'] = ext_pressure_walls["E"][0.25]["cpe10"]
+    if hd_ratio >= 5:
+        zones["D"]['cpe'] = cpe_of_area(ext_pressure_walls["D"][5],A)
+        zones["E"]['cpe'] = cpe_of_area(ext_pressure_walls["E"][5],A)
+    elif hd_ratio >= 1:
+        """ Linear interpolation for E """
+        zones["D"]['cpe'] = cpe_of_area(ext_pressure_walls["D"][1],A)
+        Y = [cpe_of_area(ext_pressure_walls["E"][1],A),
+             cpe_of_area(ext_pressure_walls["E"][5],A)]
+        X = [1,5]            
+        zones["E"]['cpe'] = interpolate(X,Y,hd_ratio)
+    elif hd_ratio >= 0.25:
+        """ Linear interpolation for D and E """            
+        X = [0.25,1]                        
+        YD = [cpe_of_area(ext_pressure_walls["D"][0.25],A),
+             cpe_of_area(ext_pressure_walls["D"][1],A)]            
+        YE = [cpe_of_area(ext_pressure_walls["E"][0.25],A),
+             cpe_of_area(ext_pressure_walls["E"][1],A)]            
+        zones["D"]['cpe'] = interpolate(X,YD,hd_ratio)
+        zones["E"]['cpe'] = interpolate(X,YE,hd_ratio)
+        
+        #zones["E"]['cpe'] = cpe_of_area(ext_pressure_walls["E"][1],A)
+    else:
+        zones["D"]['cpe'] = cpe_of_area(ext_pressure_walls["D"][0.25],A)
+        zones["E"]['cpe'] = cpe_of_area(ext_pressure_walls["E"][0.25],A)
 
     for key, value in zones.items():
         value['we'] = qp*value['cpe']
-- 
2.43.0


From dfc83cbece09da9d3049ea1a0159112e46706932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 094/161] fix: pressure coefficients of monopitch roofs between
 5 and 15 degrees were extrapolated from those of steeper roofs

---
 metku/eurocodes/en1991/en1991_1_4.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index 2d5ffdd..df8a250 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -132,15 +132,16 @@ class ExternalPressureMonoRoof:
                 self.H = {'cpe10': interpolate([15,30],[-0.9,-0.8],angle), 'cpe1':interpolate([15,30],[-1.2,-0.8],angle)}
         elif angle >= 5:
             if wind_direction == 0:
-                cneg10 = interpolate([15,30],[-0.9,-0.5],angle)
-                cneg1 = interpolate([15,30],[-2.0,-1.5],angle)
-                cpos = interpolate([15,30],[0.2,0.7],angle)
+                cneg10 = interpolate([5,15],[-1.7,-0.9],angle)
+                cneg1 = interpolate([5,15],[-2.5,-2.0],angle)
+                cpos = interpolate([5,15],[0.0,0.2],angle)
                 self.F = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
-                cneg10 = interpolate([15,30],[-0.8,-0.5],angle)
-                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[-1.5,cpos]} 
-                cpos = interpolate([15,30],[0.2,0.4],angle)
-                cneg = interpolate([15,30],[-0.3,-0.2],angle)
-                self.H = {'cpe10': [cneg,cpos], 'cpe1':[cneg,cpos]} 
+                cneg10 = interpolate([5,15],[-1.2,-0.8],angle)
+                cneg1 = interpolate([5,15],[-2.0,-1.5],angle)
+                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
+                cneg10 = interpolate([5,15],[-0.6,-0.3],angle)
+                cneg1 = interpolate([5,15],[-1.2,-0.3],angle)
+                self.H = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
             elif wind_direction == 180:
                 self.F = {'cpe10': interpolate([5,15],[-2.3,-2.5],angle), 'cpe1':interpolate([5,15],[-2.5,-2.8],angle)} 
                 self.G = {'cpe10': -1.3, 'cpe1':-2.0}
-- 
2.43.0


From 32af14617293157717e8a19713306437cb5a350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 095/161] fix: roof zones of short flat roofs had negative
 widths or reached beyond the roof

---
 metku/eurocodes/en1991/en1991_1_4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index df8a250..0122b8d 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -418,8 +418,8 @@ def flat_roof_pressure(d,b,h,qp,hp=0):
     """
     zones = {"F":{"length":0.25*e,'width':0.1*e,'cpe':0.0,'we':0.0},
              "G":{"length":b-0.5*e,'width':0.1*e,'cpe':0.0,'we':0.0},
-             "H":{"length":b,'width':0.4*e,'cpe':0.0,'we':0.0},
-             "I":{"length":b,'width':d-0.5*e,'cpe':0.0,'we':0.0}
+             "H":{"length":b,'width':min(0.4*e,max(d-0.1*e,0.0)),'cpe':0.0,'we':0.0},
+             "I":{"length":b,'width':max(d-0.5*e,0.0),'cpe':0.0,'we':0.0}
              }
     
     hd_ratio = h/d
-- 
2.43.0


From 014f143dda5668f94a5f5d69b3658b07cfa4fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 096/161] fix: hardwood with a density between 290 and 450
 kg/m3 had no charring rate unless it was exactly 290

---
 metku/eurocodes/en1995/en1995_1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 31d2e42..bd99777 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -42,7 +42,7 @@ def charring_speed(rhok: (int, float), type: str, hardness: str, h_p: (int, floa
                 if rhok >= 290:
                     beta = [0.65, 0.7]
         elif hardness == 'hardwood':
-            if rhok == 290:
+            if rhok >= 290:
                 beta = [0.65, 0.7]
             if rhok >= 450:
                 beta = [0.5, 0.55]
-- 
2.43.0


From da8c23eb1a01d11e1a472d586a680c7bef899783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 097/161] fix: layer without strength was left out of protected
 sides until charring starts

---
 metku/eurocodes/en1995/en1995_1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index bd99777..d931ff1 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -89,7 +89,7 @@ def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
         return t * beta_n + k0 * d0
     # RIL-205-2-2009 kuvat 3.3 - 3.5
     if t < fp.t_ch:
-        return 0
+        return k0 * d0
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-- 
2.43.0


From 30435186aee2795e551e23bdd6194d2c47978ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 098/161] fix: charring depth at the very failure time of the
 protection was too large

---
 metku/eurocodes/en1995/en1995_1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index d931ff1..54afa0e 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -93,7 +93,7 @@ def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-        elif fp.t_f < t < fp.t_a:
+        elif t < fp.t_a:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (t - fp.t_f) * 2 * beta_n + k0 * d0
         else:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (fp.t_a - fp.t_f) * 2 * beta_n + (t - fp.t_a) * beta_n + k0 * d0
-- 
2.43.0


From e15e95c511e12c1def3af185e64b9c51f4de516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 099/161] fix: charring at double rate did not end at 25 mm
 where it had started behind the protection

---
 metku/eurocodes/en1995/fire_protection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1995/fire_protection.py b/metku/eurocodes/en1995/fire_protection.py
index 1353923..0e515f4 100644
--- a/metku/eurocodes/en1995/fire_protection.py
+++ b/metku/eurocodes/en1995/fire_protection.py
@@ -39,8 +39,12 @@ class FireProtection:
         self.prot_mat_beta_n = beta_n
 
     def set_ta(self):
-        # RIL-205-2-2009 kaava 3.8
-        t_a = min(2 * self.t_f, 25 / (2 * self.prot_mat_beta_n) + self.t_f)
+        if self.t_ch < self.t_f:
+            # EN 1995-1-2 (3.9): charring has started behind the protection already
+            t_a = (25 - (self.t_f - self.t_ch) * 0.73 * self.prot_mat_beta_n) / (2 * self.prot_mat_beta_n) + self.t_f
+        else:
+            # RIL-205-2-2009 kaava 3.8
+            t_a = min(2 * self.t_f, 25 / (2 * self.prot_mat_beta_n) + self.t_f)
         self.t_a = t_a
 
     def set_tf_for_gypsumF(self):
-- 
2.43.0


From 777b954c89036adc313852ff1834149d35551435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 100/161] fix: failure times of a fire protection given to
 several sections were those of the last section

---
 metku/sections/timber/timber_section.py | 39 +++++++++++--------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index 1cd68a1..ed4ef8a 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -8,6 +8,7 @@ Timber section parameters, including timber fire design calculations (simple met
 @author: Viktor Haimi
 """
 
+import copy
 from abc import ABC, abstractmethod
 import numpy as np
 from scipy import integrate
@@ -98,28 +99,22 @@ class TimberSection:
             self.__material.direction = self.lvldir
         self.set_beta_0_and_n()
 
-        # RIL-205-2-2009 3.4.3
-        # Asetetaan palosuojille millainen materiaali suojataan jotta voidaan laskea ta ja tf
-        if self.fire_protection_right:
-            self.fire_protection_right.protected_material(self.material)
-            if isinstance(self.fire_protection_right, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_right.set_tf_for_gypsumF()
-            self.fire_protection_right.set_ta()
-        if self.fire_protection_left:
-            self.fire_protection_left.protected_material(self.material)
-            if isinstance(self.fire_protection_left, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_left.set_tf_for_gypsumF()
-            self.fire_protection_left.set_ta()
-        if self.fire_protection_bottom:
-            self.fire_protection_bottom.protected_material(self.material)
-            if isinstance(self.fire_protection_bottom, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_bottom.set_tf_for_gypsumF()
-            self.fire_protection_bottom.set_ta()
-        if self.fire_protection_top:
-            self.fire_protection_top.protected_material(self.material)
-            if isinstance(self.fire_protection_top, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
-                self.fire_protection_top.set_tf_for_gypsumF()
-            self.fire_protection_top.set_ta()
+        self.set_protected_material()
+
+    def set_protected_material(self):
+        """
+        RIL-205-2-2009 3.4.3
+        Asetetaan palosuojille millainen materiaali suojataan jotta voidaan laskea ta ja tf.
+        Sama palosuoja voi olla annettu usealle poikkileikkaukselle, joten ajat lasketaan sen kopioon.
+        """
+        for side in ('right', 'left', 'bottom', 'top'):
+            fp = copy.copy(getattr(self, 'fire_protection_' + side))
+            if fp:
+                fp.protected_material(self.material)
+                if isinstance(fp, (GypsumPlasterboardF, GypsumPlasterboardFF, GypsumPlasterboardAF)):
+                    fp.set_tf_for_gypsumF()
+                fp.set_ta()
+                setattr(self, 'fire_protection_' + side, fp)
 
     @property
     def H(self) -> float:
-- 
2.43.0


From 788e1e3bfef5deb62bc25e1bff578ce874adbc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 101/161] fix: fire protection set after a section was made had
 no failure time

---
 metku/sections/timber/timber_section.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index ed4ef8a..33bf3a1 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -226,6 +226,7 @@ class TimberSection:
             self.fire_protection_left = val
             self.fire_protection_bottom = val
             self.fire_protection_top = val
+        self.set_protected_material()
 
     def get_R(self) -> (int, float):
         return self.R
-- 
2.43.0


From 66a990f484fa75b5705678ff5016223392943c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 102/161] fix: cost of saw blades was divided by the sawing
 time, so the slower cut paid less for its blade

---
 metku/cost/workshop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/cost/workshop.py b/metku/cost/workshop.py
index 89363d9..68475a0 100644
--- a/metku/cost/workshop.py
+++ b/metku/cost/workshop.py
@@ -750,7 +750,7 @@ class SawingCost(CostCentre):
             print(f'TP = {TP:.2f}')
             print(f'Saw blade = {self.blade_cost:.2f}')
         
-        return At/St/TP*self.blade_cost
+        return At/St*self.blade_cost
         
         #return self.consumables_cost
     
-- 
2.43.0


From 85881c2120015a3c64061655852c4372c3f0bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 103/161] fix: plate kept paying for welds and holes it no
 longer has

---
 metku/structures/steel/plates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/plates.py b/metku/structures/steel/plates.py
index ca9948b..6c83de8 100644
--- a/metku/structures/steel/plates.py
+++ b/metku/structures/steel/plates.py
@@ -101,10 +101,12 @@ class RectPlate:
         self._cost['cutting'] = workshop.cost_centres['cutting'].cost(self.t,self.circumference())
         self._cost['painting'] = workshop.cost_centres['painting'].cost(self.paint_area())
         self._cost['blasting'] = workshop.cost_centres['blasting'].cost(max(self.b,self.h))
+        self._cost['welding'] = 0.0
         if self.weld_size > 0:
             self._cost['welding'] = workshop.cost_centres['assembly_welding'].cost(self.weld_size,self.circumference())
         
         
+        self._cost['holes'] = 0.0
         if len(self.holes) > 0:
             total_holes = sum([d*math.pi for d in self.holes]) 
             self._cost['holes'] = workshop.cost_centres['cutting'].cost(self.t,total_holes)
-- 
2.43.0


From 54044b8200859c93490c1b0b2c299c3d39be31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 104/161] fix: torsion constants of timber sections: misprinted
 polynomial and table rows, and wrong for sections wider than high

---
 metku/structures/timber/timber_member.py | 62 ++++--------------------
 1 file changed, 10 insertions(+), 52 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 45daaef..197d107 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -631,65 +631,23 @@ class TimberMember:
         EN-1995-1-1 6-1-8
         Alpha and beta are based on the theoretical tables given in: T. Salmi 2000, Lujuusopin perusteet, p. 258
         """
-        section_height_to_width_ratio = self.section.get_H(self.loc[n]) / self.section.B
-        if section_height_to_width_ratio < 1:
-            section_height_to_width_ratio = 1 / section_height_to_width_ratio
-        if 0.95 < section_height_to_width_ratio < 1.05:
-            beta = 0.208
-        elif 1.45 < section_height_to_width_ratio < 1.55:
-            beta = 0.231
-        elif 1.95 < section_height_to_width_ratio < 2.05:
-            beta = 0.246
-        elif 2.45 < section_height_to_width_ratio < 2.55:
-            beta = 0.258
-        elif 2.95 < section_height_to_width_ratio < 3.05:
-            beta = 0.267
-        elif 3.95 < section_height_to_width_ratio < 4.05:
-            beta = 0.282
-        elif 4.95 < section_height_to_width_ratio < 5.05:
-            beta = 0.299
-        elif 5.95 < section_height_to_width_ratio < 6.05:
-            beta = 0.307
-        elif 7.95 < section_height_to_width_ratio < 8.05:
-            beta = 0.313
-        elif 9 < section_height_to_width_ratio < np.inf:
-            beta = 0.333
-        else:
-            beta = -0.0007 * section_height_to_width_ratio ** 2 + 0.0193 * section_height_to_width_ratio + 0.1923
-        Wv = beta * self.section.get_H(self.loc[n]) * self.section.B ** 2
+        h = max(self.section.get_H(self.loc[n]), self.section.B)
+        b = min(self.section.get_H(self.loc[n]), self.section.B)
+        beta = np.interp(h / b, [1, 1.5, 2, 2.5, 3, 4, 5, 6, 8, 10],
+                         [0.208, 0.231, 0.246, 0.258, 0.267, 0.282, 0.291, 0.299, 0.307, 0.313])
+        Wv = beta * h * b ** 2
         return self.ted[n] / Wv
 
     def I_tor(self, loc: float) -> float:
         """
         @return: torsional constant for rectangular cross sections
         """
-        ratio = self.section.get_H(loc) / self.section.B
-        if ratio < 1:
-            ratio = 1 / ratio
-        if 1 < ratio < 1.05:
-            alpha = 0.141
-        elif 1.45 < ratio < 1.55:
-            alpha = 0.196
-        elif 1.95 < ratio < 2.05:
-            alpha = 0.229
-        elif 2.45 < ratio < 2.55:
-            alpha = 0.249
-        elif 2.95 < ratio < 3.05:
-            alpha = 0.263
-        elif 3.95 < ratio < 4.05:
-            alpha = 0.281
-        elif 4.95 < ratio < 5.05:
-            alpha = 0.299
-        elif 5.95 < ratio < 6.05:
-            alpha = 0.307
-        elif 7.95 < ratio < 8.05:
-            alpha = 0.313
-        elif 9 < ratio < np.inf:
-            alpha = 0.333
-        else:
-            alpha = -0.0022 * ratio ** 2 + 0.425 * ratio + 0.1116
+        h = max(self.section.get_H(loc), self.section.B)
+        b = min(self.section.get_H(loc), self.section.B)
+        alpha = np.interp(h / b, [1, 1.5, 2, 2.5, 3, 4, 5, 6, 8, 10],
+                          [0.141, 0.196, 0.229, 0.249, 0.263, 0.281, 0.291, 0.299, 0.307, 0.313])
 
-        return alpha * self.section.get_H(loc) * self.section.B ** 3
+        return alpha * h * b ** 3
 
     def k_shape(self, n: int) -> float:
         """
-- 
2.43.0


From 55159af7920663a02b6d411960a66fe39b4d2f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 105/161] fix: shape factor for torsion was that of the other
 side for timber sections wider than high

---
 metku/structures/timber/timber_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 197d107..0d81253 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -654,7 +654,8 @@ class TimberMember:
         SFS EN 1995-1-1 §6.1.8(6.15)
         @return: cross section factor for rectangular cross sections (circular sections not included)
         """
-        return min(1.3, 1 + 0.05 * self.section.get_H(self.loc[n]) / self.section.B)
+        h = self.section.get_H(self.loc[n])
+        return min(1.3, 1 + 0.05 * max(h, self.section.B) / min(h, self.section.B))
 
     def beta_c(self) -> float:
         """
-- 
2.43.0


From 798372afd362ebf9ee9251f997cbefd34f3f9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 106/161] fix: negative torsion gave a negative utilization of
 timber members

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 0d81253..953a185 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1074,7 +1074,7 @@ class TimberMember:
 
     def check_torsion(self, n: int) -> float:
         # Torsion utilization ratio:                                SFS-EN 1995-1-1 § 6.1.8
-        UTx = self.tau_tord(n) / (self.k_shape(n) * self.fvd)
+        UTx = abs(self.tau_tord(n)) / (self.k_shape(n) * self.fvd)
         r = UTx
         return r
 
-- 
2.43.0


From f5067297ecd233a088121b2d1bb184507fe68f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 107/161] fix: bending about the two axes of timber members
 with opposite signs cancelled

---
 metku/structures/timber/timber_member.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 953a185..79486dd 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1067,8 +1067,8 @@ class TimberMember:
 
     def check_bending_moment(self, n: int) -> float:
         # Bending moment utilization ratio:                         SFS-EN 1995-1-1 § 6.1.6
-        UM1 = abs(self.sigma_md(n)[0] / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd)
-        UM2 = abs(self.sigma_md(n)[1] / self.fmd + k_m * self.sigma_md(n)[0] / self.fmd)
+        UM1 = abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = abs(self.sigma_md(n)[1]) / self.fmd + k_m * abs(self.sigma_md(n)[0]) / self.fmd
         r = max(UM1, UM2)
         return r
 
@@ -1081,16 +1081,16 @@ class TimberMember:
     def check_bending_tension(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.3
         # TODO z-suuntainen taivutusjännitys tarkistettava merkkien osalta (deplanaatiota ei ole otettu huomioon)
-        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
     def check_bending_compression(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.4
         # TODO katso ylemää
-        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
@@ -1133,8 +1133,8 @@ class TimberMember:
         mz0 = np.array(sigma_mzd_list[0])
         mz1 = np.array(sigma_mzd_list[1])
 
-        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * mz0 / self.fmd),
-              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + mz1 / self.fmd)]
+        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * abs(mz0) / self.fmd),
+              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + abs(mz1) / self.fmd)]
         UB_fixed = [UB[0] * (sc0 < 0), UB[1] * (sc1 < 0)]
 
         return [max(UB_fixed[0]), max(UB_fixed[1])]
-- 
2.43.0


From 8097731d68d17c1695bcb419bd70212c6117645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 108/161] fix: lateral-torsional buckling of timber members
 under negative moments was not checked

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 79486dd..60a3916 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1150,7 +1150,7 @@ class TimberMember:
             for loc in self.loc:
                 if supp[i] <= loc <= supp[i + 1]:
                     if max(self.myed, key=abs) != 0 and abs(max(self.ned, key=abs)) <= 0.1:
-                        ULT_list.append({'r': self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
+                        ULT_list.append({'r': abs(self.sigma_md(self.loc.index(loc))[0]) / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
                     else:
                         ULT_list.append({
                             'r': ((self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd)) ** 2) +
-- 
2.43.0


From 2935ab56b61c1059f629c4399dac2fbdfc64eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 109/161] fix: buckling strength of stocky timber members
 exceeded their compression strength

---
 metku/structures/timber/timber_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 60a3916..216bffb 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -868,7 +868,8 @@ class TimberMember:
         l_rel = self.lamda_rel()
         r = [np.power(k[0] + np.power(np.power(k[0], 2) - np.power(l_rel[0], 2), 0.5), -1),
              np.power(k[1] + np.power(np.power(k[1], 2) - np.power(l_rel[1], 2), 0.5), -1)]
-        return r
+        # SFS-EN 1995-1-1 § 6.3.2 (2): stocky members are not reduced (nor strengthened)
+        return [np.minimum(r[0], 1.0), np.minimum(r[1], 1.0)]
 
     def l_ef(self, i: int, yz: int, loc: float) -> float:
         # SFS-EN 1995-1-1 § 6.3.3 (6.1)
-- 
2.43.0


From 9a1fc0875f3b9b775c57852e10c188558e01d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 110/161] fix: factor k2 of the apex stress of curved timber
 beams was misprinted

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 216bffb..b887c55 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -438,7 +438,7 @@ class TimberMember:
             return 1 + 0.35 * (self.section.hap / r) + 0.6 * (self.section.hap / r) ** 2
         elif isinstance(self.section, KaarevaHarjaPalkki):
             r = self.section.r_in + 0.5 * self.section.hap
-            k2 = 0.35 * - 8 * np.tan(self.alfa())
+            k2 = 0.35 - 8 * np.tan(self.alfa())
             k3 = 0.6 + 8.3 * np.tan(self.alfa()) - 7.8 * np.tan(self.alfa()) ** 2
             k4 = 6 * np.tan(self.alfa()) ** 2
             return k1 + k2 * (self.section.hap / r) + k3 * (
-- 
2.43.0


From e5ed19908210c63cc122d4ad252c7148cdfc343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 111/161] fix: volume factor was applied to solid timber

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index b887c55..e2ff2dc 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -399,7 +399,7 @@ class TimberMember:
         # SFS 1995-1-1 (6.51)
         if self.perm_k_vol is not None:
             return self.perm_k_vol
-        if self.material.type == 'solid timber':
+        if self.material.type == 'solid_timber':
             return 1.0
         v = self.V()
         if v > (2 / 3) * self.V_tot():
-- 
2.43.0


From 91da4371c7b377c107194a542099c0e6cbf22f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 112/161] fix: bracing of timber beams: stiffness without its
 factor, span in metres, moments without sign

---
 metku/structures/timber/timber_member.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index e2ff2dc..e6c8a73 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1187,18 +1187,18 @@ class TimberMember:
             for loc in self.loc:
                 if supp[i] <= loc <= supp[i + 1]:
                     Md = self.myed[self.loc.index(loc)]
-                    Nd_temp = (1 - self.k_crit(i, 1, loc)) * (Md / self.section.get_H(loc))
+                    Nd_temp = (1 - self.k_crit(i, 1, loc)) * (abs(Md) / self.section.get_H(loc))
                     Nd_list.append(Nd_temp)
 
         Nd = max(Nd_list)
-        C = Nd / a
+        C = ks * Nd / a
         if self.material.type == 'solid_timber':
             Fd = Nd / 50
         else:
             Fd = Nd / 80
 
         if n is not None:
-            qd = min([1, sqrt(15/self.parent.length)]) * ((n * Nd) / (50 * self.parent.length))
+            qd = min([1, sqrt(15e3/self.parent.length)]) * ((n * Nd) / (50 * self.parent.length))
             return C, Fd, qd
         return C, Fd
 
-- 
2.43.0


From 71d96a2f21067902cb978efaf7c2bf8a6ae9dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 113/161] fix: radius of curved timber beams was taken in
 metres by k_r and in millimetres elsewhere

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index e6c8a73..71775f1 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -344,10 +344,10 @@ class TimberMember:
         if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
             return 1
         elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
-            if self.section.r_in * 1000 / self.section.t >= 240:
+            if self.section.r_in / self.section.t >= 240:
                 return 1
             else:
-                return 0.76 + 0.001 * (self.section.r_in * 1000 / self.section.t)
+                return 0.76 + 0.001 * (self.section.r_in / self.section.t)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From bb52767c6fc91fd476344a55e65e195199e551a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 114/161] fix: compression at the tapered edge gave a negative
 utilization

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 71775f1..10bc9c2 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -915,7 +915,7 @@ class TimberMember:
 
     def check_single_tapered_beam_bending_tension(self) -> float:
         # SFS 1995-1-1 (6.38)
-        return self.sigma_m_alpha_d() / (self.k_m_alpha() * self.fmd)
+        return abs(self.sigma_m_alpha_d()) / (self.k_m_alpha() * self.fmd)
 
     def check_tapered_beam_bending_tension(self) -> float:
         """
-- 
2.43.0


From e3064989d37735f65dd45389a8ea8d9e07fc9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 115/161] fix: tension at the tapered edge was reduced with the
 compression strength across the grain

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 10bc9c2..153fe50 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -450,14 +450,14 @@ class TimberMember:
         if not self.section.flipped:
             if sigma_malphad >= 0:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.ft90d, 2), -1 / 2)
             else:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
                                np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
         else:
             if sigma_malphad <= 0:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.ft90d, 2), -1 / 2)
             else:
                 kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
                                np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
-- 
2.43.0


From e30b53ddfe93cde90b8b7c97351b488cb457dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 116/161] fix: step of a two-zone line load on members that are
 not drawn from left to right

---
 metku/raami/frame_loads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index b7b9185..fd7e565 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -376,10 +376,11 @@ class PWLineLoad(Load):
         """ Add the load to the FEM model """
         #k = self.calc_k()
         qval = self.f*self.values
-        xdiv = self.member.local_to_global(self.xdiv)[0]
+        xdiv = self.xdiv
         
         for elem in self.member.fem_elements:
-            X = [elem.nodes[0].x,elem.nodes[1].x]
+            # places of the nodes along the member
+            X = [self.member.global_to_local(node.coord) for node in elem.nodes]
             X.sort()
             if X[1] <= xdiv:
                 q = qval[0]
-- 
2.43.0


From 043c83337df71070213765e0583e59a658cd5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 117/161] fix: piecewise uniform load of a truss loaded members
 beyond the second boundary twice

---
 metku/raami/raami_plane_truss.py | 7 +++++--
 metku/raami/raami_vierendeel.py  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index ccba765..dcb00f8 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1106,7 +1106,7 @@ class SlopedTruss(PlaneTruss):
                 vals = [q[0],q[0]]
                 load_name = load_name0 + '_line'
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
+            elif mem.nodes[0].x >= xzones[-1]:
                 # Member is in the last zone
                 vals = [q[-1],q[-1]]
                 load_name = load_name0 + '_line'
@@ -1121,18 +1121,21 @@ class SlopedTruss(PlaneTruss):
                         #xdiv = x1
                         load_name = load_name0 + '_pw_line'
                         self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
+                        break
+                    elif x1 <= mem.nodes[0].x < x2 and mem.nodes[1].x > x2:
                         # member is partially outside
                         vals = [q[i+1],q[i+2]]
                         xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
                         #xdiv = x2
                         load_name = load_name0 + '_pw_line'
                         self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
+                        break
                     elif mem.nodes[0].x >= x1 and mem.nodes[1].x <= x2:
                         # member is totally inside
                         vals = [q[i+1],q[i+1]]
                         load_name = load_name0 + '_line'
                         self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
+                        break
     
     def generate_joints(self):
         """ Creates joints for the truss. These are welded tubular joints by default. """
diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 0705f19..34aed21 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -1143,7 +1143,7 @@ class SlopedTruss(PlaneTruss):
                 vals = [q[0],q[0]]
                 load_name = load_name0 + '_line'
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
+            elif mem.nodes[0].x >= xzones[-1]:
                 # Member is in the last zone
                 vals = [q[-1],q[-1]]
                 load_name = load_name0 + '_line'
@@ -1158,18 +1158,21 @@ class SlopedTruss(PlaneTruss):
                         #xdiv = x1
                         load_name = load_name0 + '_pw_line'
                         self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
+                        break
+                    elif x1 <= mem.nodes[0].x < x2 and mem.nodes[1].x > x2:
                         # member is partially outside
                         vals = [q[i+1],q[i+2]]
                         xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
                         #xdiv = x2
                         load_name = load_name0 + '_pw_line'
                         self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
+                        break
                     elif mem.nodes[0].x >= x1 and mem.nodes[1].x <= x2:
                         # member is totally inside
                         vals = [q[i+1],q[i+1]]
                         load_name = load_name0 + '_line'
                         self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
+                        break
     
     def generate_joints(self):
         """ Creates joints for the truss. These are welded tubular joints by default. """
-- 
2.43.0


From 6583738d00a7c3b1f2198a2c59cf4cf922059e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 118/161] fix: exterior penalty with an odd exponent rewarded
 the violation of an equality constraint

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 6e009c9..2461754 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -940,7 +940,7 @@ class OptimizationProblem:
                     """ For equality constraints, the penalty term
                         is simply the value of the constraint squared
                     """
-                    F += val**p
+                    F += abs(val)**p
                 elif con.type == '<':
                     """ For less than or equal constraints, the penalty
                         term is square of max(0,val)
-- 
2.43.0


From c44c02dc913cfaef7b65f622f9a441b6754202a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 119/161] fix: timber columns that can sway took the effective
 length of non-sway columns

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 153fe50..71e5498 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -745,8 +745,8 @@ class TimberMember:
                         beta[index] = 0.7
                     elif isinstance(startsupp, frame2d.XYHingedSupport) and isinstance(endsupp, frame2d.XYHingedSupport):
                         beta[index] = 1
-                    elif (isinstance(startsupp, frame2d.FixedSupport) or isinstance(endsupp, frame2d.FixedSupport) and
-                          isinstance(startsupp, frame2d.XYHingedSupport) or isinstance(endsupp, frame2d.XYHingedSupport)):
+                    elif ((isinstance(startsupp, frame2d.FixedSupport) or isinstance(endsupp, frame2d.FixedSupport)) and
+                          (isinstance(startsupp, frame2d.XYHingedSupport) or isinstance(endsupp, frame2d.XYHingedSupport))):
                         beta[index] = 0.85
                     elif isinstance(startsupp, frame2d.YHingedSupport) or isinstance(endsupp, frame2d.YHingedSupport):
                         if isinstance(startsupp, frame2d.FixedSupport) or isinstance(endsupp, frame2d.FixedSupport):
-- 
2.43.0


From cff83a50ea45841c21fb836bef8100f1010d13d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 120/161] fix: iterative solvers logged designs that later
 steps overwrote, and moved the given starting point

---
 metku/optimization/solvers/optsolver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index bb74e12..0cc0fb0 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -214,14 +214,15 @@ class OptSolver:
         self.problem = problem
         # If initial starting point is/isn't defined        
         if x0 is not None:
-            self.X = np.asarray(x0, dtype=float)
+            # a copy: steps are taken in place
+            self.X = np.array(x0, dtype=float)
             problem.substitute_variables(x0)
         else:
             self.X = self.random_feasible_point()
             problem.substitute_variables(self.X)
 
         # Store initial point
-        self.xvals.append(np.array(x0))
+        self.xvals.append(np.array(self.X))
         self.fvals.append(problem.obj(x0))
 
 
@@ -303,7 +304,7 @@ class OptSolver:
                 problem.states.append(list(state))
                 problem.gvals.append(list(self.constr_vals).copy())
                 self.fvals.append(problem.obj(self.X))
-                self.xvals.append(self.X)
+                self.xvals.append(self.X.copy())
             end = time.time()
 
             if verb:
-- 
2.43.0


From f2298b216e3c0e4ad06d61dfd370477614afd686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 121/161] fix: iterative solvers failed when no starting point
 was given

---
 metku/optimization/solvers/optsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index 0cc0fb0..aabcdee 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -223,7 +223,7 @@ class OptSolver:
 
         # Store initial point
         self.xvals.append(np.array(self.X))
-        self.fvals.append(problem.obj(x0))
+        self.fvals.append(problem.obj(self.X))
 
 
         if plot:
-- 
2.43.0


From 45355f9b1d5f7061142e0de4d002a2ced189b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 122/161] fix: SLP took every constraint for one of type '<'

---
 metku/optimization/solvers/slp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/slp.py b/metku/optimization/solvers/slp.py
index 4a316f2..c57c6d5 100644
--- a/metku/optimization/solvers/slp.py
+++ b/metku/optimization/solvers/slp.py
@@ -90,10 +90,12 @@ class SLP(OptSolver):
             beta = solver.NumVar(0, self.beta, 'beta')
         # Constraints
         for i in range(n):
-            if self.include_beta:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i] + beta)
-            else:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i])
+            con_type = self.problem.cons[i].type
+            slack = beta if self.include_beta else 0
+            if con_type != '>':
+                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i] + slack)
+            if con_type in ('>', '='):
+                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) >= B[i] - slack)
 
         # Objective
         if self.include_beta:
-- 
2.43.0


From 73d4cf895e18f6edf766f846cc361028bc56b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 123/161] fix: MISLP left out constraints of type '>'

---
 metku/optimization/solvers/mislp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index e537d70..8d15e3f 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -110,6 +110,9 @@ class MISLP(OptSolver):
             if act_cons[i].type == '<':                
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) <= B[i] + beta)
+            elif act_cons[i].type == '>':
+                CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
+                                               for j in range(m)]) >= B[i] - beta)
             elif act_cons[i].type == '=':
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) == B[i])
-- 
2.43.0


From 434937a710154c1832000daacdbfa1622f6975d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 124/161] fix: MISLP rounded designs to three decimals, out of
 the bounds and off the lists of allowed values

---
 metku/optimization/solvers/mislp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index 8d15e3f..bc9312d 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -176,7 +176,13 @@ class MISLP(OptSolver):
         # for i in discrete_ids:
         #     print(int(X[i]))
         #     X[i] = discrete_vars[i].values[int(X[i])]
-        X = np.asarray([round(var.solution_value(), 3) for var in x.values()])
+        X = np.asarray([var.solution_value() for var in x.values()])
+        # discrete variables take the value of their list exactly
+        for i, var in enumerate(self.problem.vars):
+            if isinstance(var, DiscreteVariable):
+                X[i] = min(var.values, key=lambda val: abs(val - X[i]))
+            elif isinstance(var, BinaryVariable):
+                X[i] = round(X[i])
         return X - self.X
 
     def step(self, action):
-- 
2.43.0


From 214d4341b8bf9aa0190b0f1e3814a8d228dc3c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 125/161] fix: bounds tightening took linear constraints of
 type '>' for '<', cutting off feasible designs

---
 metku/optimization/solvers/bnb.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 3830fb3..5e5b173 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -527,12 +527,17 @@ class BnB(OptSolver):
         """ Do bounds tightening for linear constraints """
         for con in self.problem.cons:
             if isinstance(con,LinearConstraint):
-                ax_min = np.minimum(con.a*xub,con.a*xlb)
+                # constraints of type '>' read -a'x <= -b
+                sgn = -1 if con.type == '>' else 1
+                a = sgn*con.a
+                b = sgn*con.b
+                ax_min = np.minimum(a*xub,a*xlb)
                 #axL = con.a*xlb
                 for i, var in enumerate(self.problem.vars):
-                    if abs(con.a[i]) > 1e-9:
-                        bnd = 1/con.a[i]*(con.b-(sum(ax_min)-ax_min[i]))
-                    if con.a[i] > 0:                        
+                    if abs(a[i]) <= 1e-9:
+                        continue
+                    bnd = 1/a[i]*(b-(sum(ax_min)-ax_min[i]))
+                    if a[i] > 0:                        
                         """ x[i] <= 1/a[i]*(b[j] - sum min(a[i,j]xub[j],a[i,j]xlb[j])) """
                         var.ub = min(var.ub,bnd)
                         
@@ -540,7 +545,7 @@ class BnB(OptSolver):
                             var.ub = np.floor(var.ub)
                         elif isinstance(var,DiscreteVariable):
                             var.ub = max(np.array(var.values)[np.array(var.values)<=var.ub])
-                    elif con.a[i] < 0:
+                    else:
                         var.lb = max(var.lb,bnd)
                 
                         if isinstance(var,IntegerVariable):
-- 
2.43.0


From c8068ac35464e4e8d81cb8c078d3afb056d8a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 126/161] fix: bounds tightening cut off allowed values by
 rounding errors, and crashed when none was left

---
 metku/optimization/solvers/bnb.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 5e5b173..2d00d4e 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -18,6 +18,7 @@ Data structures:
 
 from copy import deepcopy
 import numpy as np
+from metku.optimization.constants import INT_TOL
 from treelib import Tree, Node
 
 from metku.optimization.solvers.optsolver import OptSolver
@@ -542,16 +543,20 @@ class BnB(OptSolver):
                         var.ub = min(var.ub,bnd)
                         
                         if isinstance(var,IntegerVariable):
-                            var.ub = np.floor(var.ub)
+                            # bounds are exact only up to rounding errors
+                            var.ub = np.floor(var.ub + INT_TOL)
                         elif isinstance(var,DiscreteVariable):
-                            var.ub = max(np.array(var.values)[np.array(var.values)<=var.ub])
+                            allowed = [val for val in var.values if val <= var.ub + INT_TOL]
+                            # without allowed values the bounds become contradictory
+                            var.ub = max(allowed) if allowed else var.ub
                     else:
                         var.lb = max(var.lb,bnd)
                 
                         if isinstance(var,IntegerVariable):
-                            var.lb = np.ceil(var.lb)
+                            var.lb = np.ceil(var.lb - INT_TOL)
                         elif isinstance(var,DiscreteVariable):
-                            var.lb = min(np.array(var.values)[np.array(var.values)>=var.lb])
+                            allowed = [val for val in var.values if val >= var.lb - INT_TOL]
+                            var.lb = min(allowed) if allowed else var.lb
         
         xlb, xub = self.problem.var_bounds()
         #print(xlb,xub)
-- 
2.43.0


From b713951c974a6f69b3dabcb85d0a9f160dd1bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 127/161] fix: branch and bound took designs violating '>' and
 '=' constraints for feasible

---
 metku/optimization/solvers/bnb.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 2d00d4e..b5931b2 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -419,9 +419,7 @@ class BnB(OptSolver):
         f_new = None        
         for xi in N:
             
-            gxi = self.problem.eval_cons(xi)            
-            
-            if all(gxi<=self.problem.con_tol):
+            if self.is_feasible(xi):
                 #print("Upper bounding found feasible solution")
                 #print(self.problem.eval_cons(xi))
                 """ Feasible point found """
-- 
2.43.0


From 4d37c61fa86f40148a2b1f37cd43b47a69484ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 128/161] fix: branch and bound could not branch on integer
 variables

---
 metku/optimization/variables.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 39962dc..2289b9f 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -259,6 +259,14 @@ class IntegerVariable(Variable):
 
         return violation
 
+    def smaller_discrete_value(self, x):
+        """ Returns the largest integer smaller than 'x' """
+        return math.ceil(x) - 1
+
+    def larger_discrete_value(self, x):
+        """ Returns the smallest integer larger than 'x' """
+        return math.floor(x) + 1
+
 
 class BooleanVariable(IntegerVariable):
     """ Class for boolean variables
-- 
2.43.0


From 991d1e447cdcfc706c62f3133188fefc3fb829e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 129/161] fix: PSO rounded all discrete variables to the list
 of the first, and integer variables not at all

---
 metku/optimization/solvers/pso.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/solvers/pso.py b/metku/optimization/solvers/pso.py
index 56fc7d9..c93375e 100644
--- a/metku/optimization/solvers/pso.py
+++ b/metku/optimization/solvers/pso.py
@@ -15,6 +15,7 @@ from deap import base, creator, tools
 
 
 from metku.optimization.solvers.optsolver import OptSolver, G_TOL
+from metku.optimization.variables import DiscreteVariable, IntegerVariable
 
 
 class PSO(OptSolver):
@@ -385,13 +386,13 @@ class Particle:
         # (Perhaps the velocity should be changed instead?)
 
         self.x = np.minimum(np.maximum(xnew,xlb),xub)
-        type_of_problem = problem.type_of_vars()
 
-        if type_of_problem == "DiscreteVariable":
-            possible_values = problem.vars[0].values
-            # Round values
-            self.x = np.array([min(possible_values, key=lambda x: abs(x - var))
-                      for var in self.x])
+        # Round the values of discrete variables, each to its own list
+        for i, var in enumerate(problem.vars):
+            if isinstance(var, DiscreteVariable):
+                self.x[i] = min(var.values, key=lambda val: abs(val - self.x[i]))
+            elif isinstance(var, IntegerVariable):
+                self.x[i] = np.round(self.x[i])
     
     def update_best(self):
         """ Updates the best value found so far """
-- 
2.43.0


From a881590abd1c22a1eb43257a80d05bf4fc4c879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 130/161] fix: DiscreteVNS kept every variable within the
 bounds of the first one, and steps moved the point they started from

---
 metku/optimization/solvers/vns.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/solvers/vns.py b/metku/optimization/solvers/vns.py
index 7acc9d1..ba71787 100644
--- a/metku/optimization/solvers/vns.py
+++ b/metku/optimization/solvers/vns.py
@@ -192,7 +192,7 @@ class DiscreteVNS(OptSolver):
 
     def shake(self):
         action = np.random.randint(-self.step_length, self.step_length + 1, len(self.X))
-        x = np.clip(self.X.copy() + action, 0, self.problem.vars[0].ub)
+        x = np.clip(self.X.copy() + action, self.problem.xlb(), self.problem.xub())
         return x
 
     def first_improvement(self, x):
@@ -208,7 +208,7 @@ class DiscreteVNS(OptSolver):
             print(f"DONE! Obj.val: {self.best_fval}")
             print(x)
 
-        return x
+        return s
 
 
     def neighbourhood_change(self, x):
@@ -244,10 +244,9 @@ class DiscreteVNS(OptSolver):
         """
 
         if not len(X):
-            X = self.X.copy()
+            X = self.X
         prev_cons_vals = self.constr_vals.copy()
-        X += action
-        X = np.clip(X, 0, self.problem.vars[0].ub)
+        X = np.clip(np.asarray(X) + action, self.problem.xlb(), self.problem.xub())
 
         for x, var in zip(X, self.problem.vars):
             var.substitute(int(x))
@@ -318,7 +317,7 @@ class DiscreteVNS(OptSolver):
             self.X = np.zeros(len(problem.vars), dtype=int)
             self.X += problem.vars[0].ub
         else:
-            self.X = x0
+            self.X = np.array(x0)
         problem.substitute_variables(self.X)
         self.constr_vals = np.zeros(len(self.problem.cons))
         self.calc_constraints()
-- 
2.43.0


From ab950e802799fde2571774a7b343793b02088ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 131/161] fix: DiscreteVNS took every constraint for one of
 type '<'

---
 metku/optimization/solvers/vns.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/metku/optimization/solvers/vns.py b/metku/optimization/solvers/vns.py
index ba71787..bccb725 100644
--- a/metku/optimization/solvers/vns.py
+++ b/metku/optimization/solvers/vns.py
@@ -245,7 +245,6 @@ class DiscreteVNS(OptSolver):
 
         if not len(X):
             X = self.X
-        prev_cons_vals = self.constr_vals.copy()
         X = np.clip(np.asarray(X) + action, self.problem.xlb(), self.problem.xub())
 
         for x, var in zip(X, self.problem.vars):
@@ -253,17 +252,11 @@ class DiscreteVNS(OptSolver):
 
         # Calculate objective
         fval = self.problem.obj(X)
-        dfval = self.best_fval - fval
         self.fval = fval
 
         self.calc_constraints(X)
 
-        prev_val = sum(np.clip(prev_cons_vals, 0, 100)**2)
-        cur_val = sum(np.clip(self.constr_vals, 0, 100)**2)
-
-        d_cons_vals = prev_val - cur_val
-
-        if dfval > 0 and d_cons_vals >= 0 and np.all(self.constr_vals <= 0):
+        if fval < self.best_fval and self.is_feasible():
             self.best_fval = fval
             reward = 1
         #
-- 
2.43.0


From 77c3a64bd259900690c3a0b58782994b6253eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 132/161] fix: DiscreteVNS returned the design in place of its
 value when time ran out

---
 metku/optimization/solvers/vns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/vns.py b/metku/optimization/solvers/vns.py
index bccb725..ef3dd11 100644
--- a/metku/optimization/solvers/vns.py
+++ b/metku/optimization/solvers/vns.py
@@ -325,7 +325,7 @@ class DiscreteVNS(OptSolver):
                 if time.time() - start_time >= maxtime:
                     print("MAXTIME")
                     i = maxiter
-                    return self.X, problem.obj(self.X)
+                    return problem.obj(self.X), self.X
                 if r != 1:
                     action = np.random.randint(-self.step_length,
                                                self.step_length + 1,
-- 
2.43.0


From 48a8938cdddcb95dcd49fe6e8ee14813c9a776b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 133/161] fix: DiscreteVNS never ended at a local optimum or
 where the objective exceeds 10000, and replaced better starting points

---
 metku/optimization/solvers/vns.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/optimization/solvers/vns.py b/metku/optimization/solvers/vns.py
index ef3dd11..8d37d46 100644
--- a/metku/optimization/solvers/vns.py
+++ b/metku/optimization/solvers/vns.py
@@ -314,6 +314,8 @@ class DiscreteVNS(OptSolver):
         problem.substitute_variables(self.X)
         self.constr_vals = np.zeros(len(self.problem.cons))
         self.calc_constraints()
+        # The incumbent is the starting point, if feasible
+        self.best_fval = problem.obj(self.X) if self.is_feasible() else np.inf
 
         start_time = time.time()
         
@@ -322,6 +324,9 @@ class DiscreteVNS(OptSolver):
             actions = []
             while r <= 0:
 
+                if len(actions) == (2 * self.step_length + 1) ** len(self.X):
+                    print("No better design in the neighbourhood")
+                    return problem.obj(self.X), self.X
                 if time.time() - start_time >= maxtime:
                     print("MAXTIME")
                     i = maxiter
-- 
2.43.0


From b459be64394601d0ec5c5449aa6af0ab9c10c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 134/161] fix: the genetic algorithm penalised designs
 satisfying '>' constraints, not those violating them

---
 metku/optimization/solvers/ga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index e5d1cff..8711f6e 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -114,6 +114,9 @@ class GA(OptSolver):
         obj_val = self.problem.obj(X)
         """ Evaluate constraints """
         constr_vals = self.problem.eval_cons(X)
+        # as violations: positive where the constraint does not hold
+        constr_vals = np.asarray([-g if con.type == '>' else abs(g) if con.type == '=' else g
+                                  for g, con in zip(constr_vals, self.problem.cons)])
         """ Apply penalty on constraints """
         penalty_val = self.penalty(constr_vals)
 
-- 
2.43.0


From caff49316b287eec9adb2b50b0994e7321f30668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 135/161] fix: iterative solvers returned worse designs than a
 feasible starting point

---
 metku/optimization/solvers/optsolver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index aabcdee..191b6ac 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -225,6 +225,10 @@ class OptSolver:
         self.xvals.append(np.array(self.X))
         self.fvals.append(problem.obj(self.X))
 
+        # The starting point is a design, too
+        if self.fvals[-1] < self.best_f and self.is_feasible(self.X):
+            self.best_f = self.fvals[-1]
+            self.best_x = self.X.copy()
 
         if plot:
             fig = plt.figure()
-- 
2.43.0


From 88753a26f654fffaeeb5d67effaf3f04017a5e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 136/161] fix: nodes given whole numbers could only be moved to
 whole numbers, and frame nodes shared the array they were made from

---
 metku/framefem/framefem.py | 4 ++--
 metku/raami/frame_node.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index a1040a3..8f5dbb4 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1485,7 +1485,7 @@ class FEMNode:
         
         """ Nodal coordinates"""
         if z is not None:
-            self.coord = np.array([x, y, z])
+            self.coord = np.array([x, y, z], dtype=float)
             self.X = np.array([x, y, z])
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
@@ -1494,7 +1494,7 @@ class FEMNode:
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
         else:
-            self.coord = np.array([x, y])
+            self.coord = np.array([x, y], dtype=float)
             self.X = np.array([x, y])
             self.dofs = np.array([-1, -1, -1])
             # [Ux, Uy, Uz]
diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 5019de1..852c38a 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -33,7 +33,7 @@ class FrameNode:
             coordinates = coordinates[0]
         
         self.node_id = ""
-        self.coords = np.asarray(coordinates)
+        self.coords = np.array(coordinates, dtype=float)
         self.fem_node = None
         
         self.members = [] # List of members to which the node is connected
-- 
2.43.0


From e7e04979c2fd3021a172d4551820834c3208ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 137/161] fix: moving a frame node failed when a member had no
 member to design

---
 metku/raami/frame_node.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 852c38a..a06a95f 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -61,7 +61,8 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if not mem.member is None:
+                mem.member.length = mem.length()
         
     @property
     def y(self):
@@ -79,7 +80,8 @@ class FrameNode:
         # Update connected member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if not mem.member is None:
+                mem.member.length = mem.length()
     
     @property
     def z(self):
@@ -98,7 +100,8 @@ class FrameNode:
         # Update member lengths
         for mem in self.members:
             mem.recalculate_coordinates()
-            mem.member.length = mem.length()
+            if not mem.member is None:
+                mem.member.length = mem.length()
     
     def plot(self, print_text=True, marker='ok', axes=None):
         """ Plots the node """
-- 
2.43.0


From 965088ebe6eff67e6bca32ec4a758f72f0cd6922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 138/161] fix: moving a frame node left the internal FE nodes
 of its members where they were

---
 metku/raami/frame_member.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 54f6a36..760838a 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -341,6 +341,13 @@ class FrameMember:
         """ Clear global node coordinates and recalculate those """
         self.global_node_coords.clear()
         self.calc_nodal_coordinates()
+        
+        # Move also the internal FE nodes, if they are at these coordinates
+        if len(self.fem_nodes) == len(self.global_node_coords) \
+            and self.fem_nodes[0] is self.nodes[0].fem_node \
+            and self.fem_nodes[-1] is self.nodes[1].fem_node:
+            for node, x in zip(self.fem_nodes[1:-1],self.global_node_coords[1:-1]):
+                node.coord[:] = x
 
     def calc_nodal_coordinates(self, num_elements=0):
         """ Calculates nodal coordinates along the member 
-- 
2.43.0


From 65067a88a417d7c2b9fa88604394bc02bcfe0cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 139/161] fix: frame members shared the default lists of hinges
 and buckling length factors: a hinge added to one was added to all

---
 metku/raami/frame_member.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 760838a..4f64230 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -134,7 +134,7 @@ class FrameMember:
         
         # Buckling length factor
         self.__lcr = None
-        self.lcr = lcr
+        self.lcr = list(lcr)
                 
         self.nodes = nodes
         
@@ -167,7 +167,7 @@ class FrameMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        self.hinges = list(hinges)
         
         # Flag stating whether or not the member can buckle in sway mode
         self.sway = sway
@@ -892,7 +892,7 @@ class MultiSpanMember:
         self.members = None
         
         # Buckling length factor
-        self.lcr = lcr
+        self.lcr = list(lcr)
         
         
         self.nodes = nodes        
@@ -925,7 +925,7 @@ class MultiSpanMember:
         
         # Flags for stating whether or not the member ends are hinged.
         
-        self.hinges = hinges
+        self.hinges = list(hinges)
         
         self.sway = sway
         
@@ -1144,7 +1144,7 @@ class SteelFrameMember(FrameMember):
         
         super().__init__(nodes,section,mem_type,mem_id,nel,hinges,lcr,sway)
                 
-        self.member = SteelMember(self.cross_section, self.length(), Lcr=lcr, mtype=self.mtype)
+        self.member = SteelMember(self.cross_section, self.length(), Lcr=self.lcr, mtype=self.mtype)
     
         self.create_sections()
     
-- 
2.43.0


From 759d3c8fbe0ea1fcfa596059a9ba449b977fc05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 140/161] fix: a member of one element hinged at both ends lost
 the hinge at its first end

---
 metku/raami/frame_member.py      |  4 ++--
 metku/raami/raami_plane_truss.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 4f64230..37db25f 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -640,7 +640,7 @@ class FrameMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
     
     def clear_fem(self):
         """ Removes FEM nodes and elements """
@@ -1094,7 +1094,7 @@ class MultiSpanMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]    
+            self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]    
     
     def clear_fem(self):
         
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index dcb00f8..018ae60 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1806,7 +1806,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
         elif model == "en1993":
             # First end node
             self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
@@ -1843,7 +1843,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
         elif model == "ecc_elements":
             if isinstance(self.joints[0],TubularYJoint):
                 N1 = self.joints[0].fem_nodes['xc']                              
@@ -1913,7 +1913,7 @@ class TopChord(SteelFrameMember):
             
             if self.hinges[1]:
                 """ There is a hinge in the last end """
-                self.fem_elements[-1].releases = [5]
+                self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
        
     
     
@@ -2095,7 +2095,7 @@ class BottomChord(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
             
 
 class TrussBrace(SteelFrameMember):
@@ -2375,7 +2375,7 @@ class TrussBrace(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = [2, 5] if self.hinges[0] and len(self.fem_elements) == 1 else [5]
     
     def angle_top(self):
         """ Angle between the brace and top chord """
-- 
2.43.0


From fa7a7128d321eac344cdd31f24f055d349be9533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 141/161] fix: extreme member forces over several load cases
 picked the largest absolute value as both the minimum and the maximum

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 37db25f..a571efd 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -523,7 +523,7 @@ class FrameMember:
                     if result_dict[key]["load_id"] is None:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
-                    elif abs(val) > abs(result_dict[key][force]):
+                    elif func(val, result_dict[key][force]) != result_dict[key][force]:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
 
-- 
2.43.0


From 3c85f9b906b85a0da019f405d39e9dff2eb3b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 142/161] fix: a member that fails in one load case passed its
 resistance check if the load case designed last passed

---
 metku/raami/frame_member.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index a571efd..72da8f1 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -540,12 +540,10 @@ class FrameMember:
 
         rmax = self.member.design()
         
-        if rmax > self.allowable_utilization:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        
+        # The member must resist all load cases designed so far
+        self.resistance_check = all(u <= self.allowable_utilization for u in self.utilization.values())
     
     def print_utilization(self,file=None,details=False):
         """ Prints utilization ratios for different load cases """
@@ -1207,12 +1205,10 @@ class SteelFrameMember(FrameMember):
 
         rmax = self.member.design(sway=self.sway)
         
-        if rmax > self.allowable_utilization:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        
+        # The member must resist all load cases designed so far
+        self.resistance_check = all(u <= self.allowable_utilization for u in self.utilization.values())
     
     def optimum_design(self, prof_type='CURRENT',verb=False,material="S355",
                        sec_class = 3, max_utility=1.0,
@@ -1335,12 +1331,10 @@ class MultiSpanSteelMember(MultiSpanMember):
             mem.design(load_id)
             rmax = max(rmax,mem.utilization[load_id])
                         
-        if rmax > 1.0:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        
+        # All load cases designed so far must be resisted
+        self.resistance_check = all(u <= 1.0 for u in self.utilization.values())
     
     def optimum_design(self,prof_type="CURRENT",verb=False,material="S355",
                        sec_class=3,max_utility=1.0):
@@ -1471,12 +1465,10 @@ class MemberGroup:
             mem.design(load_id)
             rmax = max(rmax,mem.utilization[load_id])
                         
-        if rmax > 1.0:
-            self.resistance_check = False
-        else:
-            self.resistance_check = True
-            
         self.utilization[load_id] = rmax
+        
+        # All load cases designed so far must be resisted
+        self.resistance_check = all(u <= 1.0 for u in self.utilization.values())
     
     def optimum_design(self,prof_type="CURRENT",verb=False,material="S355",
                        sec_class=3,max_utility=1.0,
-- 
2.43.0


From 3a10fa95c1c2ec9e2673374530fa1eac13e8bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 143/161] fix: member groups shared their default list of
 members

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 72da8f1..f3cee0e 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1400,7 +1400,7 @@ class MemberGroup:
 
         """
 
-        self.members = members
+        self.members = list(members)
         if len(members) == 0:
             self.cross_section = None
             self.frame = None
-- 
2.43.0


From c6a0f79575d3d00a176bad320985b4a700fb0bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 144/161] fix: the optimum design of a member group ignored the
 slenderness limit

---
 metku/raami/frame_member.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index f3cee0e..37e66d6 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1505,16 +1505,20 @@ class MemberGroup:
             if sec.section_class() > sec_class:
                 continue
             
+            too_slender = False
             for member in self.members:
                 # For multispan members, the member of a group contains
                 # several members.
                 if isinstance(member,MultiSpanMember):
                     for mem in member.members:
                         if any(mem.member.slenderness() > max_slenderness):
-                            continue
+                            too_slender = True
                 else:
                     if any(member.member.slenderness() > max_slenderness):
-                        continue
+                        too_slender = True
+            
+            if too_slender:
+                continue
             
             
             for load_id in self.frame.load_ids:   
-- 
2.43.0


From 0693a35fa243fca948916a11a05a0a09bf391de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 145/161] fix: the optimum design of a multi-span member
 ignored the given maximum utilization

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 37e66d6..7da7d69 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1365,7 +1365,7 @@ class MultiSpanSteelMember(MultiSpanMember):
             for load_id in self.frame.load_ids:   
                 self.design(load_id)
                             
-            if all(r<=self.allowable_utilization for r in self.utilization.values()):# <= 1.0:
+            if all(r<=min(self.allowable_utilization,max_utility) for r in self.utilization.values()):# <= 1.0:
                 break
             
         
-- 
2.43.0


From 7806459263697d9b8c71e5a7e81e9597d333b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 146/161] fix: changing the section of a member left the
 elements of its symmetry pair as they were when the pair had no member to
 design

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 7da7d69..e0b9c07 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -198,7 +198,7 @@ class FrameMember:
             self.symmetry_pair.__cross_section = val
             if not self.symmetry_pair.member is None:
                 self.symmetry_pair.member.profile = val
-                self.symmetry_pair.update_element_sections()
+            self.symmetry_pair.update_element_sections()
             
     @property
     def material(self):
-- 
2.43.0


From dbef3685106736c96891a0b3f532b64f120224fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 147/161] fix: load combinations shared their default list of
 load cases

---
 metku/raami/frame_loads.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index fd7e565..5649e86 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -93,7 +93,7 @@ class LoadCombination:
     """ Class for load combinations """
     
     
-    def __init__(self,comb_id,comb_type='ULS',load_cases=[]):
+    def __init__(self,comb_id,comb_type='ULS',load_cases=None):
         """
         
         Parameters
@@ -114,7 +114,7 @@ class LoadCombination:
         
         self.comb_id = comb_id
         self.comb_type = comb_type
-        self.load_cases = load_cases
+        self.load_cases = [] if load_cases is None else load_cases
         self.lead_variable_load = None
 
         self.find_lead_variable_load()
-- 
2.43.0


From 2f0ab728d20d41dbfba1033404fe91b424e45168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 148/161] fix: member optimization of a frame stopped without
 analysing the frame again when only the profiles of groups had changed

---
 metku/raami/raami.py              | 2 +-
 metku/raami/raami_plane_truss.py  | 2 +-
 metku/raami/raami_portal_truss.py | 4 ++--
 metku/raami/raami_vierendeel.py   | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index ff08e80..88a18af 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -431,7 +431,7 @@ class Raami:
                 
             # Go through groups first
             for group in self.member_groups.values():                
-                group.optimum_design(prof_type,verb)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb))
                 
                 for mem in group.members:
                     explored.append(mem)
diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 018ae60..8433a58 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1687,7 +1687,7 @@ class SlopedTruss(PlaneTruss):
                     sec_class = bottom['class']
                     max_utility = bottom['utility']                    
                     
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min))
                 
                 for mem in group.members:
                     explored.append(mem)
diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index e0a02a8..c1d13c7 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -728,8 +728,8 @@ class PortalTruss(Raami):
                 
                 print('Optimize ' + name)
                 
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_min,
-                                     max_slenderness=max_slenderness)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_min,
+                                                                 max_slenderness=max_slenderness))
                 
                 for mem in group.members:
                     explored.append(mem)
diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 34aed21..90337af 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -434,7 +434,7 @@ class VierendeelTruss(PlaneTruss):
                     sec_class = bottom['class']
                     max_utility = bottom['utility']                    
                     
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min))
                 
                 for mem in group.members:
                     explored.append(mem)
@@ -1647,7 +1647,7 @@ class SlopedTruss(PlaneTruss):
                     sec_class = bottom['class']
                     max_utility = bottom['utility']                    
                     
-                group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb,material,sec_class,max_utility,b_chord_min))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From 83bb06cf3dfed8c0cd74e2f41d80a45f3442241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 149/161] fix: members sharing a node off the symmetry axis
 were taken for a symmetry pair

---
 metku/raami/raami.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 88a18af..dfcba30 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -850,7 +850,11 @@ class Raami:
                     sym_nodes = []
                     for node in mem.nodes:
                         if node.symmetry_node is None:
-                            sym_nodes.append(node)
+                            # Only a node on the axis is its own mirror image
+                            if axis != 'y' or abs(node.x-sym_value) < 1e-6:
+                                sym_nodes.append(node)
+                            else:
+                                sym_nodes.append(None)
                         else:
                             sym_nodes.append(node.symmetry_node)
                             
-- 
2.43.0


From 0e160e6be438040924b20ef0bb724d223c40c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 150/161] fix: the Robot file of a frame was misnamed when the
 second letter of the given name is a dot or its last one is

---
 metku/raami/raami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index dfcba30..56ae0d6 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -880,7 +880,7 @@ class Raami:
         mid_row = ";!" + fname_str + "!" + date_str + "!" + robot_str + "!"
         
         # Add point to the end of the filename, if it does not exist yet.
-        if filename[1] != '.':
+        if filename[-1] != '.':
             filename += '.'
         
         with open(filename + 'str', 'w') as f:
-- 
2.43.0


From e1776a831f0207358f011f724a7c755d208b40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 151/161] fix: generating the finite element model of a truss
 with eccentricities again doubled its nodes, elements, supports and loads

---
 metku/raami/raami_plane_truss.py  | 4 ++++
 metku/raami/raami_portal_truss.py | 6 ++++--
 metku/raami/raami_vierendeel.py   | 8 ++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 8433a58..2db1d2b 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1272,6 +1272,10 @@ class SlopedTruss(PlaneTruss):
         """
                 
         
+        if any(len(mem.fem_elements) > 0 for mem in self.members.values()):
+            # Remove the old model
+            self.clear_fem()
+        
         if model == "no_eccentricity":
             # Here, we can use the fem model generation of Raami class
             super().generate_fem()
diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index c1d13c7..a58e061 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -330,8 +330,10 @@ class PortalTruss(Raami):
 
     def generate_fem(self,truss_eccentricity=False,column_eccentricity=False):
         """ Creates the finite element model """
-        if not self.fem_generated:
-            self.fem_generated = True
+        if self.fem_generated:
+            # Remove the old model
+            self.clear_fem()
+        self.fem_generated = True
         
         if self.bottom_chord_to_column:
             # In this case, the bottom chord is connected to the column
diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 90337af..d1428f9 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -329,6 +329,10 @@ class VierendeelTruss(PlaneTruss):
 
         """
         
+        if any(len(mem.fem_elements) > 0 for mem in self.members.values()):
+            # Remove the old model
+            self.clear_fem()
+        
         if model == "no_eccentricity":
             # Here, we can use the fem model generation of Raami class
             super().generate_fem()
@@ -1309,6 +1313,10 @@ class SlopedTruss(PlaneTruss):
         """
                 
         
+        if any(len(mem.fem_elements) > 0 for mem in self.members.values()):
+            # Remove the old model
+            self.clear_fem()
+        
         if model == "no_eccentricity":
             # Here, we can use the fem model generation of Raami class
             super().generate_fem()
-- 
2.43.0


From 188af505f3eb2f7ae30c80d486b2c957be52944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 152/161] fix: loads of the truss of a portal truss were added
 to the finite element model twice

---
 metku/raami/raami_portal_truss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index a58e061..9370584 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -471,7 +471,9 @@ class PortalTruss(Raami):
         
         # Generate loads
         for load in self.loads.values():
-            load.add_load(self.fem)
+            if load not in self.truss.loads.values():
+                # The truss has already added its own loads
+                load.add_load(self.fem)
             # Creates new loadcase if one with same load_id does not exist
             lcase_ids = [lc.load for lc in self.fem.loadcases.values()]
             if load.load_id not in lcase_ids:
-- 
2.43.0


From 5944f26b8c535261b08dcf10306c897775641053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 153/161] fix: the EN 1993 model of a truss failed when the
 braces of a K joint meet at the centre line of the chord

---
 metku/raami/raami_plane_truss.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2db1d2b..feb021c 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1314,7 +1314,7 @@ class SlopedTruss(PlaneTruss):
                         xc = joint.xchord()
                     
                     if np.linalg.norm(xp-xc) < 1e-6:
-                        xcNode = xp
+                        xcNode = xpNode
                     else:
                         xcNode = self.fem.add_node(xc[0],xc[1])
                         
@@ -1343,6 +1343,12 @@ class SlopedTruss(PlaneTruss):
                 if isinstance(joint,TubularKGapJoint):
                     n1 = joint.fem_nodes['xp']
                     n2 = joint.fem_nodes['xc']
+                    
+                    if n1 is n2:
+                        # No eccentricity
+                        joint.fem_elements['ecc'] = None
+                        continue
+                    
                     cs = IPE(500)
                                  
                     newElement = EBBeam(n1,n2,cs,cs.material)                    
-- 
2.43.0


From 400887b91dadc9d82c313469d68400b90accb48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 154/161] fix: the gap between braces of a truss with several
 loads on the chord got the second load from the first, and the factor of the
 load on its other side

---
 metku/raami/raami_plane_truss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index feb021c..656aba7 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1514,9 +1514,11 @@ class SlopedTruss(PlaneTruss):
                 for joint in self.joints.values():
                     if isinstance(joint,TubularKGapJoint):
                         # Add load to gap element
+                        paired = []
                         for load1 in joint.chords[0].loads:
                             for load2 in joint.chords[1].loads:
-                                if load1.load_id == load2.load_id:
+                                if load1.load_id == load2.load_id and not load2 in paired:
+                                    paired.append(load2)
                                     if joint == self.ridge_joint:
                                         q = load1.f*load1.values[1]
                                         load = FEMLineLoad(load1.load_id,
@@ -1526,7 +1528,7 @@ class SlopedTruss(PlaneTruss):
                                                            load1.direction,
                                                            load1.coord_sys)
                                         self.fem.add_load(load)
-                                        q = load1.f*load2.values[0]
+                                        q = load2.f*load2.values[0]
                                         load = FEMLineLoad(load1.load_id,
                                                            joint.fem_elements['gap'][1],
                                                            [0.0,1.0],
-- 
2.43.0


From 9c3abfeb0add358aaf233ec5390e1e7f69eba804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 155/161] fix: the gap between braces of a Vierendeel truss
 with several loads on the chord got the second load from the first, and the
 factor of the load on its other side

---
 metku/raami/raami_vierendeel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index d1428f9..674b4b4 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -1472,9 +1472,11 @@ class SlopedTruss(PlaneTruss):
                 for joint in self.joints.values():
                     if isinstance(joint,TubularKGapJoint):
                         # Add load to gap element
+                        paired = []
                         for load1 in joint.chords[0].loads:
                             for load2 in joint.chords[1].loads:
-                                if load1.load_id == load2.load_id:
+                                if load1.load_id == load2.load_id and not load2 in paired:
+                                    paired.append(load2)
                                     if joint == self.ridge_joint:
                                         q = load1.f*load1.values[1]
                                         load = FEMLineLoad(load1.load_id,
@@ -1484,7 +1486,7 @@ class SlopedTruss(PlaneTruss):
                                                            load1.direction,
                                                            load1.coord_sys)
                                         self.fem.add_load(load)
-                                        q = load1.f*load2.values[0]
+                                        q = load2.f*load2.values[0]
                                         load = FEMLineLoad(load1.load_id,
                                                            joint.fem_elements['gap'][1],
                                                            [0.0,1.0],
-- 
2.43.0


From ae4309d8d00372ab382764e56ad31dc5130b1a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 156/161] fix: a K joint at the end of a chord could be neither
 modelled with eccentricities nor designed

---
 metku/raami/raami_plane_truss.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 656aba7..95ed408 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1512,7 +1512,7 @@ class SlopedTruss(PlaneTruss):
                 
                 # Add loads to gap elements
                 for joint in self.joints.values():
-                    if isinstance(joint,TubularKGapJoint):
+                    if isinstance(joint,TubularKGapJoint) and len(joint.chords) > 1:
                         # Add load to gap element
                         paired = []
                         for load1 in joint.chords[0].loads:
@@ -3448,10 +3448,7 @@ class TubularKGapJoint(TubularJoint):
         #    joint_brace.Ned = brace.NEd[load_id]
         
         """ Load in the chord """
-        if abs(self.chords[0].NEd[load_id]) > abs(self.chords[1].NEd[load_id]):
-            N0 = self.chords[0].NEd[load_id]
-        else:
-            N0 = self.chords[1].NEd[load_id]
+        N0 = max([chord.NEd[load_id] for chord in self.chords[::-1]],key=abs)
         
         M0 = 0.0
         """
-- 
2.43.0


From 560fa0b6a44b08cfcc2a78d1d34e2d2e71f814a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 157/161] fix: the shear force in the gap of a K joint was
 taken with its sign, and could not be found at the ridge

---
 metku/raami/raami_plane_truss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 95ed408..d57951b 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3147,7 +3147,10 @@ class TubularKGapJoint(TubularJoint):
     
     def V0gap(self,load_id):
         """ Shear force in the gap """
-        return max(self.fem_elements['gap'].fint[load_id]['fz'])
+        gap = self.fem_elements['gap']
+        # At the ridge, there are two gap elements
+        elements = gap if isinstance(gap,list) else [gap]
+        return max([abs(V) for element in elements for V in element.fint[load_id]['fz']])
     
     @property
     def angles(self):
-- 
2.43.0


From db84ff36c443da125c3e44785e36e04ba9bbc8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 158/161] fix: the ridge joint of a truss was not found when
 its coordinate had a rounding error

---
 metku/raami/raami_plane_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index d57951b..562fb97 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1186,7 +1186,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x-self.origin[0]-self.L1) < 1e-6*self.L1:
                     self.ridge_joint = newJoint
                 
             elif nbraces == 2:
@@ -1195,7 +1195,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x-self.origin[0]-self.L1) < 1e-6*self.L1:
                     self.ridge_joint = newJoint
                     
             elif nbraces == 1:                
-- 
2.43.0


From 04165130da6fb9b8b9a0a282d507559e61d32ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 159/161] fix: a chord member on both sides of the only border
 between two load zones got no load

---
 metku/raami/raami_plane_truss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 562fb97..cbf866b 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1113,7 +1113,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
             else:
                 
-                for i, (x1, x2) in enumerate(zip(xzones[:-1],xzones[1:])):
+                for i, (x1, x2) in enumerate(zip(xzones,list(xzones[1:])+[np.inf])):
                     if mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
                         # member is partially outside
                         vals = [q[i],q[i+1]]
-- 
2.43.0


From 4e0a755dd28e5aa80185a062273dd9d525221c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 160/161] fix: the angles of the braces at the ridge were both
 measured from the same chord member

---
 metku/raami/raami_plane_truss.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index cbf866b..480bf38 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2701,21 +2701,27 @@ class TubularJoint:
         a = full_strength_weld_tube(brace.material)
         return a*brace.cross_section.T
     
+    def brace_chord(self,brace):
+        """ Chord member to which the brace is welded """
+        return self.chords[0]
+    
     def brace_angle(self,brace=None,geometry="init"):
         """ Angle between braces and chord """
         
         if brace is None:
             brace = self.braces[0]
         
+        chord = self.brace_chord(brace)
+        
         if geometry == "init":
             # Angle is calculated according to the initial geometry
-            angle = np.degrees(np.arccos(np.dot(self.chords[0].dir_vector,brace.dir_vector)))
+            angle = np.degrees(np.arccos(np.dot(chord.dir_vector,brace.dir_vector)))
         elif geometry == "actual":
             # Angle is calculated according to the actual geometry, taking into account
             # eccentricities when relevant.
             
             # Chord direction vector
-            vc = self.chords[0].dir_vector
+            vc = chord.dir_vector
             
             # Brace direction vector 
             vb = brace.dir_vector_xp()
@@ -3041,9 +3047,6 @@ class TubularKGapJoint(TubularJoint):
         if gap == 0:
             gap = 20
         
-        # Take as initial angles the centerline angles
-        angles = [self.brace_angle(brace) for brace in braces]
-           
         # Could the chord and braces be members instead of cross-sections?
         #self.joint = RHSKGapJoint(chords[0].cross_section,
         #                          [braces[0].cross_section,braces[1].cross_section],
@@ -3134,6 +3137,15 @@ class TubularKGapJoint(TubularJoint):
         
         return s
     
+    def brace_chord(self,brace):
+        """ Chord member to which the brace is welded. At the ridge, the
+            braces are welded to different members.
+        """
+        if self.ridge:
+            return self.left_chord if brace is self.left_brace else self.right_chord
+        
+        return super().brace_chord(brace)
+    
     @property
     def xp_coord(self):
         """ Coordinates of the intersection point of brace centerlines """
-- 
2.43.0


From 9c04f40c3dbb7afc69659463126dbb722fe22edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 161/161] fix: the gap of a K joint was wrong at the ridge and
 when both braces lean to the same side of the chord normal

---
 metku/raami/raami_plane_truss.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 480bf38..bf5f4be 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3348,17 +3348,25 @@ class TubularKGapJoint(TubularJoint):
     
     def calc_gap(self):
         """ Calculates the gap based on eccentricity and brace angles """
-        e = self.eccentricity()
         theta = np.array([self.brace_angle(brace,geometry="actual") for brace in self.braces])
         
         # Set angles to the RHS joint object as well
         #self.joint.angles = theta
-        h0 = self.h0
         h = self.h
         
         sint = np.sin(np.radians(theta))
         
-        gap = (e + 0.5*h0)*np.sin(np.radians(sum(theta)))/sint.prod()-0.5*sum(h/sint)
+        # Distance along the chord face between the points where the
+        # centerlines of the braces meet it. The braces can lean to the same side.
+        xface, _ = self.brace_chord_face_x()
+        xleft, xright = xface[self.left_brace], xface[self.right_brace]
+        vleft = self.brace_chord(self.left_brace).dir_vector
+        vright = self.brace_chord(self.right_brace).dir_vector
+        xcf = self.xc_face()
+        
+        dist = np.sign(vleft[0])*np.dot(xcf-xleft,vleft) + np.sign(vright[0])*np.dot(xright-xcf,vright)
+        
+        gap = dist-0.5*sum(h/sint)
                         
         # Set gap for the RHS joint object
         #self.joint.gap = gap
-- 
2.43.0

