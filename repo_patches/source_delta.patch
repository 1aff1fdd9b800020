From 9986c1adec8e4ba7e4f00e63fa6a3922daae81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 01/57] fix: read a phase's magnetic properties from its data
 dictionary

['magnetic']['Tc'] indexes a list literal with a string, so constructing any
phase with magnetic data raised TypeError.
---
 auxi/tools/chemistry/thermochemistry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 12e1cbb..a87ab50 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -166,15 +166,15 @@ class Phase(NamedObject):
         """[J/mol/K] The standard entropy of the phase at Tref."""
 
         if 'magnetic' in dictionary:
-            self.Tc_mag = ['magnetic']['Tc']
+            self.Tc_mag = dictionary['magnetic']['Tc']
             """The critical temperature, which is the Curie temperature for
             ferromagnetic materials or the Neel temperature for
             antiferromagnetic materials."""
 
-            self.beta0_mag = ['magnetic']['beta0']
+            self.beta0_mag = dictionary['magnetic']['beta0']
             """The average magnetic moment per atom."""
 
-            self.p_mag = ['magnetic']['p']
+            self.p_mag = dictionary['magnetic']['p']
             """This value can be thought of as the fraction of the magnetic
             enthalpy absorbed above the critical. It depends on structure."""
 
-- 
2.43.0


From 6ba0734715d8715b34f544a78a1867779111838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 02/57] fix: count the magnetic heat capacity once above a
 phase's last record

The extrapolation used the total heat capacity at Tmax, magnetic part
included, and then added the magnetic enthalpy, entropy and Gibbs energy at T
on top, so dH/dT differed from Cp.
---
 auxi/tools/chemistry/thermochemistry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index a87ab50..8a46c05 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -288,7 +288,7 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*(T - Tmax)
+        result += self._Cp_records[str(Tmax)].Cp(Tmax)*(T - Tmax)
 
         return result + self.H_mag(T)
 
@@ -334,7 +334,7 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*math.log(T / Tmax)
+        result += self._Cp_records[str(Tmax)].Cp(Tmax)*math.log(T / Tmax)
 
         return result + self.S_mag(T)
 
@@ -381,8 +381,9 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        h = h + self.Cp(Tmax)*(T - Tmax)
-        s = s + self.Cp(Tmax)*math.log(T / Tmax)
+        Cp = self._Cp_records[str(Tmax)].Cp(Tmax)
+        h = h + Cp*(T - Tmax)
+        s = s + Cp*math.log(T / Tmax)
 
         return h - T * s + self.G_mag(T)
 
-- 
2.43.0


From d6b367c435e68d1b9286a1f09ac06937d7cadb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 03/57] fix: a subscript of zero on a group or hydrate counts
 as zero

'(OH)0' and '.0H2O' were read as if the number was missing, i.e. as one.
---
 auxi/tools/chemistry/stoichiometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/chemistry/stoichiometry.py b/auxi/tools/chemistry/stoichiometry.py
index 48b068e..b0380fa 100644
--- a/auxi/tools/chemistry/stoichiometry.py
+++ b/auxi/tools/chemistry/stoichiometry.py
@@ -137,13 +137,13 @@ class CompoundVisitor(parsimonious.NodeVisitor):
 
     def visit_dottedgroup(self, _, dottedgroup):
         (_, number, group) = dottedgroup
-        if not number:
+        if number == []:  # no number in the formula
             number = 1
         return Group([group], number, dotted=True)
 
     def visit_subscriptedgroup(self, _, subscriptedgroup):
         (_, group, _, number) = subscriptedgroup
-        if not number:
+        if number == []:  # no number in the formula
             number = 1
         return Group([group], number)
 
-- 
2.43.0


From bf36626ebccaf06bc684d7dc7d1bb05d8a74bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 04/57] fix: add chem packages of the same material compound by
 compound

The lists of compound masses were concatenated, so the added masses were in
the total but in no compound or element, and were lost on extraction.
---
 auxi/modelling/process/materials/chem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index a4a9d1f..2a802cd 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -277,7 +277,8 @@ class MaterialPackage(Object):
             if self.material == other.material:
                 result = MaterialPackage(
                     self.material,
-                    self.compound_masses + other.compound_masses)
+                    [a + b for a, b in zip(self.compound_masses,
+                                           other.compound_masses)])
                 return result
             else:  # Packages of different materials.
                 result = self.clone()
@@ -553,7 +554,9 @@ class MaterialPackage(Object):
 
             # Packages of the same material.
             if self.material == other.material:
-                self.compound_masses += other.compound_masses
+                self.compound_masses = [a + b for a, b in
+                                        zip(self.compound_masses,
+                                            other.compound_masses)]
 
             # Packages of different materials.
             else:
-- 
2.43.0


From a674824cb2ed9943c13684e1eeef43316e3844da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 05/57] fix: clear() on a chem package sets the masses to zero

Multiplying a list by 0.0 raises TypeError.
---
 auxi/modelling/process/materials/chem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 2a802cd..9bc6bb9 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -379,7 +379,7 @@ class MaterialPackage(Object):
         Set all the compound masses in the package to zero.
         """
 
-        self.compound_masses *= 0.0
+        self.compound_masses = [0.0] * len(self.compound_masses)
 
     def get_assay(self):
         """
-- 
2.43.0


From 431729d31b4bc12570d3b5a1672cf818e404a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 06/57] fix: leave a chem package as it was when add_to refuses
 the other package

---
 auxi/modelling/process/materials/chem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 9bc6bb9..30fda87 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -568,6 +568,7 @@ class MaterialPackage(Object):
                                         "'. The compound '" + compound +
                                         "' was not found in '" +
                                         self.material.name + "'.")
+                for compound in other.material.compounds:
                     self.add_to((compound, other.get_compound_mass(compound)))
 
         # Add the specified mass of the specified compound.
-- 
2.43.0


From db8e09eead6c35ab1c6482ef80feb517005183b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 07/57] fix: leave a psd package as it was when add_to refuses
 the other package

---
 auxi/modelling/process/materials/psd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 593fe22..ecea122 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -513,8 +513,9 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
+                for size_class in other.material.size_classes:
                     self.add_to(
                         (size_class, other.get_size_class_mass(size_class)))
 
-- 
2.43.0


From 75c70e9273686268384dac35aac907399a43bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 08/57] fix: name the size class when a package of another
 material is refused

---
 auxi/modelling/process/materials/psd.py    | 2 +-
 auxi/modelling/process/materials/slurry.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index ecea122..cdc3e67 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -290,7 +290,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
                     result = result + (
                         size_class,
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index eb0a452..f8c3e2e 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -398,7 +398,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name + "'. The size class '" +
-                            size_class + "' was not found in '" +
+                            str(size_class) + "' was not found in '" +
                             self.material.name + "'.")
                     result = result + (
                         size_class, other.get_size_class_mass(size_class))
-- 
2.43.0


From 736577826c83210347c4f3e462f040e3015511fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 09/57] fix: only the key H2O adds or extracts water in a
 slurry package

---
 auxi/modelling/process/materials/slurry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index f8c3e2e..23891b4 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -498,7 +498,7 @@ class MaterialPackage(Object):
             return False
         elif not len(value) == 2:
             return False
-        elif not type(value[0]) is str and not value[0] == "H2O":
+        elif not type(value[0]) is str or not value[0] == "H2O":
             return False
         elif not type(value[1]) is float and \
                 not type(value[1]) is numpy.float64 and \
-- 
2.43.0


From 8320372b4489230a6d2c8a1d9cfc114e9eb42fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 10/57] fix: add slurry packages that contain no solids

---
 auxi/modelling/process/materials/slurry.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 23891b4..6cf244d 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -376,9 +376,12 @@ class MaterialPackage(Object):
         if type(other) is MaterialPackage:
             solid_mass = self.get_solid_mass()
             other_solid_mass = other.get_solid_mass()
-            solid_density = (solid_mass + other_solid_mass) / \
-                (solid_mass / self.solid_density +
-                    other_solid_mass / other.solid_density)
+            if solid_mass + other_solid_mass == 0.0:
+                solid_density = self.solid_density
+            else:
+                solid_density = (solid_mass + other_solid_mass) / \
+                    (solid_mass / self.solid_density +
+                        other_solid_mass / other.solid_density)
             H2O_mass = self.H2O_mass + other.H2O_mass
             # Packages of the same material.
             if self.material == other.material:
-- 
2.43.0


From 96a312aa51c54d3ac543f5ecde41bdb15c0b63f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 11/57] fix: material extracted from a package or stream keeps
 its pressure

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index baf7e42..67ec06a 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1072,6 +1072,7 @@ class MaterialPackage(Object):
             result += (compound, mass)
             self.extract(compound)
         result.T = self.T
+        result.P = self.P
 
         return result
 
@@ -1841,6 +1842,7 @@ class MaterialStream(Object):
             result += (compound, mfr)
             self.extract(compound)
         result.T = self.T
+        result.P = self.P
 
         return result
 
-- 
2.43.0


From 758c02fc12819517953ea9e1e5de9878242d840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 12/57] fix: a cloned package or stream has custom properties
 of its own

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 67ec06a..6b447cb 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -850,6 +850,7 @@ class MaterialPackage(Object):
 
         result = copy.copy(self)
         result._compound_masses = copy.deepcopy(self._compound_masses)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
@@ -1593,6 +1594,7 @@ class MaterialStream(Object):
 
         result = copy.copy(self)
         result._compound_mfrs = copy.deepcopy(self._compound_mfrs)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
-- 
2.43.0


From 4c5d606daec9e1428c84af4f39b856e893a00d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 13/57] fix: clear() sets the enthalpy flow rate of a stream to
 zero

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 6b447cb..6885dc3 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1606,7 +1606,7 @@ class MaterialStream(Object):
         self._compound_mfrs = self._compound_mfrs * 0.0
         self._P = 1.0
         self._T = 25.0
-        self._H = 0.0
+        self._Hfr = 0.0
 
     def get_assay(self):
         """
-- 
2.43.0


From 2de32dcd4a674c29922995ecb24598e10d39d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 14/57] fix: setting the enthalpy of an empty package or stream
 keeps its temperature

---
 auxi/modelling/process/materials/thermo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 6885dc3..642211b 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -713,6 +713,10 @@ class MaterialPackage(Object):
         :returns: Temperature. [°C]
         """
 
+        # The temperature of nothing does not depend on its enthalpy.
+        if self.mass == 0.0:
+            return self._T
+
         # Create the initial guesses for temperature.
         x = list()
         x.append(self._T)
@@ -1434,6 +1438,10 @@ class MaterialStream(Object):
         :returns: Temperature. [°C]
         """
 
+        # The temperature of nothing does not depend on its enthalpy.
+        if self.mfr == 0.0:
+            return self._T
+
         # Create the initial guesses for temperature.
         x = list()
         x.append(self._T)
-- 
2.43.0


From cf6e37ee430d371c3a977db9f8c3cd9d957216e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 15/57] fix: multiply a compound's flow rate with an array of
 element fractions

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 642211b..df5b31d 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1698,7 +1698,7 @@ class MaterialStream(Object):
         result = numpy.zeros(len(elements))
         for compound in self.material.compounds:
             result += self.get_compound_mfr(compound) *\
-                stoich.element_mass_fractions(compound, elements)
+                numpy.array(stoich.element_mass_fractions(compound, elements))
         return result
 
     def get_element_mfr_dictionary(self):
-- 
2.43.0


From b4b95c99658a4cd15128997ba4d56e61ee7d9b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 16/57] fix: a stream extracted from a coal stream is coal with
 the same heating value

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index df5b31d..1e745f8 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1784,7 +1784,7 @@ class MaterialStream(Object):
         fraction_to_subtract = mfr / self.mfr
         result = MaterialStream(
             self.material, self._compound_mfrs *
-            fraction_to_subtract, self._P, self._T)
+            fraction_to_subtract, self._P, self._T, self.isCoal, self.HHV)
 
         self._compound_mfrs = self._compound_mfrs * \
             (1.0 - fraction_to_subtract)
-- 
2.43.0


From 840a52d2732a645b8b794b7e7c0186696ab422b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 17/57] fix: carbon burns to CO2 in the heating value of a coal
 stream

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 1e745f8..2522199 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1816,7 +1816,7 @@ class MaterialStream(Object):
             HHV = self.HHV * (self.mfr - mfr)  # MJ
 
             dH = thermo.H(compound, 25, mfr)  # kWh
-            dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'COs', 'C'))  # kWh
+            dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'CO2', 'C'))  # kWh
             dH -= thermo.H('H2O[L]', 25, cc(mfr, compound, 'H2O', 'H'))  # kWh
             dH -= thermo.H('SO2[G]', 25, cc(mfr, compound, 'SO2', 'S'))  # kWh
             dH *= 3.6  # MJ
-- 
2.43.0


From 8a2a525f1acec6357efb75eb7421d7e13e114757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 18/57] fix: a refused slurry assay does not change the
 existing assay

---
 auxi/modelling/process/materials/slurry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 6cf244d..a1b67d3 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -238,11 +238,9 @@ class Material(NamedObject):
 
         if not type(solid_density) is float:
             raise Exception("Invalid solid density. It must be a float.")
-        self.solid_densities[name] = solid_density
 
         if not type(H2O_fraction) is float:
             raise Exception("Invalid H2O fraction. It must be a float.")
-        self.H2O_fractions[name] = H2O_fraction
 
         if not type(assay) is numpy.ndarray:
             raise Exception("Invalid assay. It must be a numpy array.")
@@ -253,6 +251,8 @@ class Material(NamedObject):
         elif name in self.assays.keys():
             raise Exception(
                 "Invalid assay: An assay with that name already exists.")
+        self.solid_densities[name] = solid_density
+        self.H2O_fractions[name] = H2O_fraction
         self.assays[name] = assay
 
     def get_assay_total(self, name):
-- 
2.43.0


From 5706b969aa16278f87230ce488e566766bc3a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 19/57] fix: create packages and streams from an assay added to
 a thermo material

---
 auxi/modelling/process/materials/thermo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 2522199..961e580 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -306,6 +306,7 @@ class Material(NamedObject):
                             "exists.")
         self.raw_assays[name] = assay
         self.converted_assays[name] = assay
+        self.assay_custom_properties[name] = dict()
 
     def get_assay_total(self, name):
         """
-- 
2.43.0


From 8caa19e9dde62cb8d94fb8f20c299dbe8645c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 20/57] fix: sign of the first expense credit or revenue debit
 in an income statement

---
 auxi/modelling/financial/reporting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 73eb595..2e89759 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -276,14 +276,14 @@ class IncomeStatement(Report):
                         if t.cr_account in summedExpenses:
                             summedExpenses[t.cr_account] -= t.amount
                         else:
-                            summedExpenses[t.cr_account] = t.amount
+                            summedExpenses[t.cr_account] = -t.amount
                 if not t.is_closing_cr_account and \
                    not t.is_closing_dt_account and t.dt_account != "":
                     if dt_account_type == AccountType.revenue:
                         if t.dt_account in summedIncome:
                             summedIncome[t.dt_account] -= t.amount
                         else:
-                            summedIncome[t.dt_account] = t.amount
+                            summedIncome[t.dt_account] = -t.amount
                     elif dt_account_type == AccountType.expense:
                         if t.dt_account in summedExpenses:
                             summedExpenses[t.dt_account] += t.amount
-- 
2.43.0


From 86c00512c1cf9c9b39a182feb0729ddbadb8bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 21/57] fix: report on transactions dated with a date or a
 datetime, whichever the limits are

---
 auxi/modelling/financial/reporting.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 2e89759..0fa7b18 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -20,6 +20,24 @@ __email__ = 'johan.zietsman@ex-mente.co.za'
 __status__ = 'Planning'
 
 
+def _not_after(first, second):
+    """
+    Determine whether a date or datetime is not later than another one. Only
+    the dates are compared when one of the two has no time.
+
+    :param first: The first date or datetime.
+    :param second: The second date or datetime.
+
+    :returns: True if the first one is not later than the second one.
+    """
+
+    if isinstance(first, datetime) and not isinstance(second, datetime):
+        first = first.date()
+    elif isinstance(second, datetime) and not isinstance(first, datetime):
+        second = second.date()
+    return first <= second
+
+
 class ReportType(Enum):
     """
     Represents a report type, e.g. balance sheet or income statement.
@@ -105,7 +123,8 @@ class TransactionList(Report):
         for t in sorted(tx_list, key=lambda v: v.tx_date):
             if not t.source.startswith(self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if _not_after(self.start_date, t.tx_date) and \
+               _not_after(t.tx_date, self.end_date):
                 if t.source.endswith(t.name):
                     name = ''
                 else:
@@ -142,7 +161,7 @@ class BalanceSheet(Report):
         summedEquity = {}
 
         for t in self.data_source.transactions:
-            if t.tx_date <= self.end_date:
+            if _not_after(t.tx_date, self.end_date):
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if cr_account_type == AccountType.asset:
@@ -262,7 +281,8 @@ class IncomeStatement(Report):
         for t in self.data_source.transactions:
             if not t.source.startswith(self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if _not_after(self.start_date, t.tx_date) and \
+               _not_after(t.tx_date, self.end_date):
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if not t.is_closing_cr_account and \
-- 
2.43.0


From b7bd1440ee33a9dad600a2dec70fa2908707cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 22/57] fix: report on transactions without a source

---
 auxi/modelling/financial/reporting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 0fa7b18..85ed402 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -121,11 +121,11 @@ class TransactionList(Report):
         amount_tot = 0
         tx_list = self.data_source.transactions
         for t in sorted(tx_list, key=lambda v: v.tx_date):
-            if not t.source.startswith(self.component_path):
+            if not (t.source or '').startswith(self.component_path):
                 continue
             if _not_after(self.start_date, t.tx_date) and \
                _not_after(t.tx_date, self.end_date):
-                if t.source.endswith(t.name):
+                if (t.source or '').endswith(t.name):
                     name = ''
                 else:
                     name = t.name
@@ -279,7 +279,7 @@ class IncomeStatement(Report):
         summedIncome = {}
         summedExpenses = {}
         for t in self.data_source.transactions:
-            if not t.source.startswith(self.component_path):
+            if not (t.source or '').startswith(self.component_path):
                 continue
             if _not_after(self.start_date, t.tx_date) and \
                _not_after(t.tx_date, self.end_date):
-- 
2.43.0


From d2b00818b9bd16f179a0ddd11bc13a14c850187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 23/57] fix: an account has no child account of an unknown name

---
 auxi/modelling/financial/des.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/des.py b/auxi/modelling/financial/des.py
index e8b530e..3b8ec01 100644
--- a/auxi/modelling/financial/des.py
+++ b/auxi/modelling/financial/des.py
@@ -56,7 +56,11 @@ class GeneralLedgerAccount(NamedObject):
         super(GeneralLedgerAccount, self).__init__(name, description)
 
     def __getitem__(self, key):
-        return [a for a in self.accounts if a.name == key][0]
+        items = [a for a in self.accounts if a.name == key]
+        if len(items) == 0:
+            return None
+        else:
+            return items[0]
 
     def __missing__(self, key):
         return None
-- 
2.43.0


From 5902e9b094dbd6e0fb1d1ac1a7e4254cd48106f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 24/57] fix: repay a loan without interest in equal payments

---
 auxi/modelling/business/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 4b5cdb7..dd9ac92 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -193,6 +193,9 @@ class BasicLoanActivity(Activity):
 
     def _update_monthly_payment_(self):
         int_rate = self._monthly_interest_rate
+        if int_rate == 0:
+            self._monthly_payment = self.amount / self.duration
+            return
         val = (self.amount * int_rate)
         val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
         self._monthly_payment = val
-- 
2.43.0


From 41749ebc954900e7537c764eb792b7914335815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 25/57] fix: an activity that starts after the run or ends
 before its start does not run

---
 auxi/modelling/business/structure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 01704da..2a165cb 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -94,13 +94,18 @@ class Activity(NamedObject):
                 if clock.get_datetime_at_period_ix(i) > self.start_datetime:
                     self.start_period_ix = i
                     break
+            else:
+                if self.start_datetime > clock.get_datetime_at_period_ix(0):
+                    # No period is later than the start.
+                    self.end_period_ix = -1
+                    return
         if self.start_period_ix == -1:
             self.start_period_ix = 0
         if self.period_count == -1 and self.end_datetime != datetime.max:
             # Set the Start date
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.end_datetime:
-                    self.period_count = i - self.start_period_ix
+                    self.period_count = max(0, i - self.start_period_ix)
                     break
         if self.period_count != -1:
             self.end_period_ix = self.start_period_ix + self.period_count
-- 
2.43.0


From 926250ae8a8301a4a8d1522c03152ae4dec82898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 26/57] fix: close both accounts of a transaction at year end

---
 auxi/modelling/business/structure.py | 52 ++++++----------------------
 1 file changed, 10 insertions(+), 42 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 2a165cb..3b6e475 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -418,49 +418,17 @@ class Entity(NamedObject):
                 cr_acc = gls.get_account(tx.cr_account)
                 dt_acc = gls.get_account(tx.dt_account)
 
-                if cr_acc in sales_accs:
-                    if cr_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[cr_acc] += tx.amount
+                for acc, amount in ((cr_acc, tx.amount), (dt_acc, -tx.amount)):
+                    if acc in sales_accs or acc in cost_of_sales_accs:
+                        write_off_accs = gross_profit_write_off_accs
+                    elif acc.account_type == AccountType.revenue:
+                        write_off_accs = inc_summary_write_off_accs
+                    elif acc.account_type == AccountType.expense:
+                        write_off_accs = inc_summary_write_off_accs
+                        amount = -amount
                     else:
-                        gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
-                elif cr_acc in cost_of_sales_accs:
-                    if cr_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[cr_acc] += tx.amount
-                    else:
-                        gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in cost_of_sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
-                elif cr_acc.account_type == AccountType.revenue:
-                    if cr_acc in inc_summary_write_off_accs:
-                        inc_summary_write_off_accs[cr_acc] += tx.amount
-                    else:
-                        inc_summary_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc.account_type == AccountType.revenue:
-                    if dt_acc.account_type == AccountType.revenue:
-                        inc_summary_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        inc_summary_write_off_accs[dt_acc] = -tx.amount
-
-                elif cr_acc.account_type == AccountType.expense:
-                    if cr_acc in inc_summary_write_off_accs:
-                        inc_summary_write_off_accs[cr_acc] -= tx.amount
-                    else:
-                        inc_summary_write_off_accs[cr_acc] = -tx.amount
-                elif dt_acc.account_type == AccountType.expense:
-                    if dt_acc in inc_summary_write_off_accs:
-                        inc_summary_write_off_accs[dt_acc] += tx.amount
-                    else:
-                        inc_summary_write_off_accs[dt_acc] = tx.amount
+                        continue
+                    write_off_accs[acc] = write_off_accs.get(acc, 0) + amount
 
             inc_sum = self._perform_year_end_gross_profit_and_income_summary(
                 year_end_date,
-- 
2.43.0


From c4b90ab72ae415845c54e708ed467047cc30c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 27/57] fix: a report on a component leaves out components with
 a longer name

---
 auxi/modelling/financial/reporting.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 85ed402..51b733e 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -38,6 +38,22 @@ def _not_after(first, second):
     return first <= second
 
 
+def _is_in_component(source, component_path):
+    """
+    Determine whether a transaction's source is a component or part of it.
+
+    :param source: The path of the transaction's source, or None.
+    :param component_path: The path of the component. An empty path includes
+      all sources.
+
+    :returns: True if the source is the component or lies within it.
+    """
+
+    source = source or ''
+    path = component_path.rstrip(r'/')
+    return path == '' or source == path or source.startswith(path + r'/')
+
+
 class ReportType(Enum):
     """
     Represents a report type, e.g. balance sheet or income statement.
@@ -121,7 +137,7 @@ class TransactionList(Report):
         amount_tot = 0
         tx_list = self.data_source.transactions
         for t in sorted(tx_list, key=lambda v: v.tx_date):
-            if not (t.source or '').startswith(self.component_path):
+            if not _is_in_component(t.source, self.component_path):
                 continue
             if _not_after(self.start_date, t.tx_date) and \
                _not_after(t.tx_date, self.end_date):
@@ -279,7 +295,7 @@ class IncomeStatement(Report):
         summedIncome = {}
         summedExpenses = {}
         for t in self.data_source.transactions:
-            if not (t.source or '').startswith(self.component_path):
+            if not _is_in_component(t.source, self.component_path):
                 continue
             if _not_after(self.start_date, t.tx_date) and \
                _not_after(t.tx_date, self.end_date):
-- 
2.43.0


From 2d14c65993d39a56cf35b5bf1d62b5b31c9aa7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 28/57] fix: the Rayleigh number uses standard gravity and the
 bulk temperature

---
 auxi/tools/transportphenomena/dimensionlessquantities.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/transportphenomena/dimensionlessquantities.py b/auxi/tools/transportphenomena/dimensionlessquantities.py
index de85172..820066b 100644
--- a/auxi/tools/transportphenomena/dimensionlessquantities.py
+++ b/auxi/tools/transportphenomena/dimensionlessquantities.py
@@ -4,6 +4,8 @@ This module provides functions to calculate dimensionless quantities used when
 doing transport phenomena calculations.
 """
 
+from auxi.tools import physicalconstants as const
+
 
 # TODO: Add mathematical formula to each function. See Gr for example.
 # TODO: Test to make sure that math formulae appear correctly on readthedocs.
@@ -77,8 +79,8 @@ def Re(L: float, v: float, nu: float) -> float:
     return v * L / nu
 
 
-def Ra(L: float, Ts: float, Tf: float, alpha: float, beta: float, nu: float
-       ) -> float:
+def Ra(L: float, Ts: float, Tf: float, alpha: float, beta: float, nu: float,
+       g: float = const.g) -> float:
     """
     Calculate the Ralleigh number.
 
@@ -88,6 +90,7 @@ def Ra(L: float, Ts: float, Tf: float, alpha: float, beta: float, nu: float
     :param alpha: [m2/s] fluid thermal diffusivity.
     :param beta: [1/K] fluid coefficient of thermal expansion.
     :param nu: [m2/s] fluid kinematic viscosity.
+    :param g: [m/s2] acceleration due to gravity.
 
     :returns: float
 
@@ -99,7 +102,7 @@ def Ra(L: float, Ts: float, Tf: float, alpha: float, beta: float, nu: float
         * bluff body: diameter
     """
 
-    return g * beta * (Ts - Tinf) * L**3.0 / (nu * alpha)
+    return g * beta * (Ts - Tf) * L**3.0 / (nu * alpha)
 
 
 def Nu(L: float, h: float, k: float) -> float:
-- 
2.43.0


From ca493957bdac9f8189bcd7c7ca1a55fe44e3e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 29/57] fix: a material can be created without property models

---
 auxi/modelling/process/materials/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/modelling/process/materials/core.py b/auxi/modelling/process/materials/core.py
index 89970f6..6522733 100644
--- a/auxi/modelling/process/materials/core.py
+++ b/auxi/modelling/process/materials/core.py
@@ -35,6 +35,9 @@ class Material(NamedObject):
         self.mstate = state_of_matter
         """State of matter."""
 
+        if property_models is None:
+            property_models = {}
+
         if 'alpha' in property_models:
             self.alpha = property_models['alpha']
 
-- 
2.43.0


From 68029d2a8d254724542eab3ebc1216f2e189a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 30/57] fix: the Riboud viscosity model leaves the caller's
 composition alone

---
 auxi/tools/materialphysicalproperties/slags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index 89c76a9..f55e3a8 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -169,6 +169,7 @@ class RiboudViscosityTx(Model):
                          compounds_caf2 + compounds_na2o)
 
         # convert compounds with two cations to single cation equivalents
+        x = dict(x)
         if 'P2O5' in x:
             x['PO2.5'] = 2.0 * x['P2O5']
         if 'Fe2O3' in x:
-- 
2.43.0


From abccdf6e65439cfc7ba5055018928589332dc504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 31/57] fix: the natural convection regions cover every angle
 from -90 to 90 degrees

---
 .../transportphenomena/heattransfer/naturalconvection.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index ead2065..3cbe3e4 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -231,20 +231,20 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         eq_dict[region] = ifs._Nu_x__8_27_g
         region = self.Region("r12", 0, True, 0, True, None, False, 5, True)
         eq_dict[region] = ifs._Nu_x__8_26
-        region = self.Region("r13", 0, True, 0, True, 5, False, 11, False,
+        region = self.Region("r13", 0, True, 0, True, 5, False, 11, True,
                              "In_Eq_Region")
         eq_dict[region] = ifs._Nu_x__8_26
         region = self.Region("r14", 0, True, 0, True, 11, False, None, False)
         eq_dict[region] = ifs._Nu_x__8_26
         region = self.Region("r15", 0, False, 88, False, None, False, 5, False)
         eq_dict[region] = ifs._Nu_x__8_27
-        region = self.Region("r16", 0, True, 88, False, 5, True, 11, True,
+        region = self.Region("r16", 0, False, 88, False, 5, True, 11, True,
                              "In_Eq_Region")
         eq_dict[region] = ifs._Nu_x__8_27
         region = self.Region("r17", 0, False, 88, False, 11, False, None,
                              False)
         eq_dict[region] = ifs._Nu_x__8_27
-        region = self.Region("r18", 88, False, 90, True, None, False, 6, False)
+        region = self.Region("r18", 88, True, 90, True, None, False, 6, False)
         eq_dict[region] = ifs._Nu_x__8_38
         region = self.Region("r19", 88, True, 90, True, 6, True, 9, True,
                              "In_Eq_Region")
-- 
2.43.0


From a0e3d3f40ce3acc7c82a415de7a8f371837aec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 32/57] fix: natural convection selects its correlation on
 log10(Ra)

---
 .../transportphenomena/heattransfer/naturalconvection.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 3cbe3e4..1675079 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -3,7 +3,7 @@ This module provides tools to calculate natural convection heat transfer
 coefficients.
 """
 
-from math import radians, cos
+from math import radians, cos, inf, log10
 from matplotlib import pyplot as plt
 from matplotlib.patches import Rectangle
 
@@ -320,8 +320,10 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         Pr = dq.Pr(nu, alpha)
         Ra = Gr * Pr
 
+        # the regions are expressed in terms of log10(Ra)
+        log_Ra = log10(Ra) if Ra > 0.0 else -inf
         eq = [self.equation_dict[r]
-              for r in self.regions if r.contains_point(theta, Ra)][0]
+              for r in self.regions if r.contains_point(theta, log_Ra)][0]
 
         return eq(self, Ra, Pr)
 
-- 
2.43.0


From c2cac33a4106fd66fb854f14c53baee96da9f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 33/57] fix: natural convection at a surface colder than the
 fluid

---
 .../transportphenomena/heattransfer/naturalconvection.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 1675079..3ac3ca6 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -312,13 +312,15 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
                 g = const.g*cos(thetar)
             else:
                 g = const.g
+            # a cold surface facing up behaves like a hot one facing down
+            theta = -theta
 
         nu = self._fluid.nu(T=self.Tr)
         alpha = self._fluid.alpha(T=self.Tr)
 
         Gr = dq.Gr(L, Ts, Tf, beta, nu, g)
         Pr = dq.Pr(nu, alpha)
-        Ra = Gr * Pr
+        Ra = abs(Gr) * Pr
 
         # the regions are expressed in terms of log10(Ra)
         log_Ra = log10(Ra) if Ra > 0.0 else -inf
-- 
2.43.0


From 5b8e3644fc8ab7eaf23205e185177f1954a9d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 34/57] fix: the shipped gases are named after the gas and not
 after a data file

---
 .../tools/materialphysicalproperties/gases.py | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 4844129..58dfc0a 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -112,8 +112,8 @@ def _create_air():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -150,8 +150,8 @@ def _create_argon():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -187,8 +187,8 @@ def _create_ammonia():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -224,8 +224,8 @@ def _create_carbon_dioxide():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -262,8 +262,8 @@ def _create_carbon_monoxide():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -300,8 +300,8 @@ def _create_nitrogen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -338,8 +338,8 @@ def _create_oxygen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -376,8 +376,8 @@ def _create_water_vapour():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
-- 
2.43.0


From 9a8e2f1d2b6c6839178dc07662fc82b36f98eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 35/57] fix: the gas mixture models refuse an invalid state

---
 auxi/tools/materialphysicalproperties/gases.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 58dfc0a..d809235 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -444,6 +444,7 @@ class WilkeMuTx(Model):
 
             return result
 
+        super().calculate(**state)
         T = state['T']
         x = state['x']
 
@@ -532,6 +533,7 @@ class HerningZippererMuTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
         T = state['T']
         x = state['x']
 
@@ -613,6 +615,7 @@ class IdealCpTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
         T = state["T"]
         x = state["x"]
 
-- 
2.43.0


From e6b71f6f45c31b9b44f30ab7797029a0e70cadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 36/57] fix: solve the Colebrook equation with the array the
 root finder supplies

---
 auxi/tools/transportphenomena/fluidflow/pressuredrop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
index bb6b30c..b33a85e 100644
--- a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
+++ b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
@@ -98,6 +98,7 @@ def f_tr_Colebrook(Re_D, ɛ, D):
 
         Source: cengel2018, Eq. 8-74.
         """
+        f = f[0]  # root supplies the unknowns as an array
         term1 = ɛ / D / 3.7
         term2 = 2.51 / Re_D / sqrt(f)
 
-- 
2.43.0


From a376806d9f234a65013e71b175342d00b9d55d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 37/57] fix: solve the Colebrook equation for smooth ducts at
 high Reynolds numbers

---
 .../transportphenomena/fluidflow/pressuredrop.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
index b33a85e..e63af42 100644
--- a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
+++ b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
@@ -91,21 +91,22 @@ def f_tr_Colebrook(Re_D, ɛ, D):
     :return: Friction factor.
     """
 
-    def cb(f, Re_D, ɛ, D):
+    def cb(x, Re_D, ɛ, D):
         """
         Calculate the Colebrook function in the form that the Darcy friction
-        factor roots can be calculated.
+        factor roots can be calculated, for x = 1 / sqrt(f). In terms of x it
+        is close to a straight line.
 
         Source: cengel2018, Eq. 8-74.
         """
-        f = f[0]  # root supplies the unknowns as an array
+        x = x[0]  # root supplies the unknowns as an array
         term1 = ɛ / D / 3.7
-        term2 = 2.51 / Re_D / sqrt(f)
+        term2 = 2.51 / Re_D * x
 
-        return -2 * log10(term1 + term2) - 1 / sqrt(f)
+        return -2 * log10(term1 + term2) - x
 
     # find the roots of the Colebrook equation
-    return root(cb, 0.02, args=(Re_D, ɛ, D)).x[0]
+    return 1 / root(cb, 1 / sqrt(0.02), args=(Re_D, ɛ, D)).x[0]**2
 
 
 def D_h(A, P):
-- 
2.43.0


From 528db6dc6d9b9a97f3a31e31a6e93c16a319a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:32 +0000
Subject: [PATCH 38/57] fix: reports state amounts in full in every format

Tabulate reformatted the texts that look like numbers, so that the printed,
text and LaTeX transaction lists showed 1234567.89 as 1.23457e+06.
---
 auxi/core/reporting.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/auxi/core/reporting.py b/auxi/core/reporting.py
index 7378b15..d1b1d60 100644
--- a/auxi/core/reporting.py
+++ b/auxi/core/reporting.py
@@ -63,7 +63,7 @@ class Report(Object):
 
         table = self._generate_table_()
         if format == ReportFormat.printout:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(self._tabulate_(table, "simple"))
         elif format == ReportFormat.latex:
             self._render_latex_(table)
         elif format == ReportFormat.txt:
@@ -71,7 +71,7 @@ class Report(Object):
         elif format == ReportFormat.csv:
             self._render_csv_(table)
         elif format == ReportFormat.string:
-            return str(tabulate(table, headers="firstrow", tablefmt="simple"))
+            return str(self._tabulate_(table, "simple"))
         elif format == ReportFormat.matplotlib:
             self._render_matplotlib_()
         elif format == ReportFormat.png:
@@ -80,21 +80,26 @@ class Report(Object):
             else:
                 self._render_matplotlib_(True)
 
+    def _tabulate_(self, table, tablefmt):
+        # The table's texts must appear as they are. By default tabulate
+        # reformats those that look like numbers, e.g. an amount of
+        # "1234567.89" to "1.23457e+06".
+        return tabulate(table, headers="firstrow", tablefmt=tablefmt,
+                        disable_numparse=True)
+
     def _render_latex_(self, table):
         if self.output_path is not None:
             with open(self.output_path + '.tex', 'w') as f:
-                f.write(
-                    tabulate(table, headers="firstrow", tablefmt="latex"))
+                f.write(self._tabulate_(table, "latex"))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="latex"))
+            print(self._tabulate_(table, "latex"))
 
     def _render_txt_(self, table):
         if self.output_path is not None:
             with open(self.output_path + '.txt', 'w') as f:
-                f.write(
-                    tabulate(table, headers="firstrow", tablefmt="simple"))
+                f.write(self._tabulate_(table, "simple"))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(self._tabulate_(table, "simple"))
 
     def _render_csv_(self, table):
         if self.output_path is not None:
-- 
2.43.0


From e8f414d3a02c70314045c0a620801210895ce63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:43 +0000
Subject: [PATCH 39/57] fix: a written object with shared parts is read back as
 it was

Sorting the keys after encoding changed the objects that the encoded
references refer to: a business model that was written to a file came back
with a datetime in the place of an account and could not be run.
---
 auxi/core/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index 655998c..bd9640b 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -20,9 +20,10 @@ class Object(object):
     """
 
     def __str__(self):
+        # The order of the keys must remain as is, since the references in the
+        # encoded text count objects in that order.
         o = json.loads(jsonpickle.encode(self))
-        result = json.dumps(o, sort_keys=True, indent=4,
-                            separators=(',', ': '))
+        result = json.dumps(o, indent=4, separators=(',', ': '))
         return result
 
     def __hash__(self):
-- 
2.43.0


From 4db17c14923a56fcb257d63aac4bb3e211a25bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 40/57] fix: read FactSage files that number records per phase

A phase whose first record has the number of the previous phase's last one
could not be read (KeyError).
---
 auxi/tools/chemistry/thermochemistry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 8a46c05..16a267b 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -589,6 +589,7 @@ def _read_compound_from_factsage_file_(file_name):
             phase = strings[0]
             if phase != phaseold:  # new phase detected
                 phaseold = phase
+                recordold = '0'  # the phase's first line starts a new record
                 ph = phs[phase] = {}
                 ph['Symbol'] = phase
                 ph['DHref'] = float(strings[2])
-- 
2.43.0


From 2bdb9bb0a5a984f56d68c0f30a4398184b4e22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 41/57] fix: create variable groups

The constructor of VariableGroup called that of an unrelated class and did
not keep the value (TypeError).
---
 auxi/modelling/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/core.py b/auxi/modelling/core.py
index fe11d9a..d1492b8 100644
--- a/auxi/modelling/core.py
+++ b/auxi/modelling/core.py
@@ -57,7 +57,10 @@ class VariableGroup(NamedObject):
 
     def __init__(self, name, value, units=None, category=None,
                  description=None):
-        super(Variable, self).__init__(name, description)
+        super(VariableGroup, self).__init__(name, description)
+        self.category = category
+        self.value = value
+        self.units = units
 
     def __call__(self):
         return self.value
-- 
2.43.0


From 32177a25bee0008262eb09590b25f4d3c9375cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 42/57] fix: load compound data from directories with brackets
 in their path

---
 auxi/tools/chemistry/thermochemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 16a267b..27be9b4 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -734,7 +734,7 @@ def load_data_factsage(path=''):
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
-    files = glob.glob(os.path.join(path, 'Compound_*.txt'))
+    files = glob.glob(os.path.join(glob.escape(path), 'Compound_*.txt'))
 
     for file in files:
         compound = Compound(_read_compound_from_factsage_file_(file))
@@ -756,7 +756,7 @@ def load_data_auxi(path=''):
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
-    files = glob.glob(os.path.join(path, 'Compound_*.json'))
+    files = glob.glob(os.path.join(glob.escape(path), 'Compound_*.json'))
 
     for file in files:
         compound = Compound.read(file)
-- 
2.43.0


From 833ff846df95ee0338cab23b404e62cdf75daf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 43/57] fix: derive an activity's periods anew for every run

---
 auxi/modelling/business/structure.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 3b6e475..33581d0 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -46,6 +46,8 @@ class Activity(NamedObject):
         self.start_period_ix = -1
         self.end_period_ix = -1
         self.period_count = -1
+        self._derived_start_period_ix = -1
+        self._derived_period_count = -1
 
     def _get_date_(self, date):
         if type(date) is str:
@@ -88,11 +90,20 @@ class Activity(NamedObject):
           requested to be run for.
         """
 
+        # What was derived for a previous run need not hold for this one.
+        if self.start_period_ix == self._derived_start_period_ix:
+            self.start_period_ix = -1
+        if self.period_count == self._derived_period_count:
+            self.period_count = -1
+        self._derived_start_period_ix = -1
+        self._derived_period_count = -1
+
         if self.start_period_ix == -1 and self.start_datetime != datetime.min:
             # Set the Start period index
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.start_datetime:
                     self.start_period_ix = i
+                    self._derived_start_period_ix = i
                     break
             else:
                 if self.start_datetime > clock.get_datetime_at_period_ix(0):
@@ -101,11 +112,13 @@ class Activity(NamedObject):
                     return
         if self.start_period_ix == -1:
             self.start_period_ix = 0
+            self._derived_start_period_ix = 0
         if self.period_count == -1 and self.end_datetime != datetime.max:
             # Set the Start date
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.end_datetime:
                     self.period_count = max(0, i - self.start_period_ix)
+                    self._derived_period_count = self.period_count
                     break
         if self.period_count != -1:
             self.end_period_ix = self.start_period_ix + self.period_count
-- 
2.43.0


From 5d9b3554c9fe6df4f297277934051f922c135e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 44/57] fix: repay a loan over its new duration when that is
 changed

---
 auxi/modelling/business/basic.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index dd9ac92..dba69d8 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -185,7 +185,7 @@ class BasicLoanActivity(Activity):
         self.loan_account = loan_account
         self.interest_account = interest_account
         self._amount = amount
-        self.duration = duration
+        self._duration = duration
         self.interest_rate = interest_rate
 
         self._months_executed = 0
@@ -193,6 +193,9 @@ class BasicLoanActivity(Activity):
 
     def _update_monthly_payment_(self):
         int_rate = self._monthly_interest_rate
+        if self.duration == 0:
+            self._monthly_payment = 0.0
+            return
         if int_rate == 0:
             self._monthly_payment = self.amount / self.duration
             return
@@ -209,6 +212,17 @@ class BasicLoanActivity(Activity):
         self._amount = value
         self._update_monthly_payment_()
 
+    @property
+    def duration(self):
+        return self._duration
+
+    @duration.setter
+    def duration(self, value):
+        self._duration = value
+        self.end_datetime = self.start_datetime + relativedelta(
+            months=value + 1)
+        self._update_monthly_payment_()
+
     @property
     def interest_rate(self):
         return self._interest_rate
-- 
2.43.0


From 573bfbc4add0c438d578e584a7cb1bbffc2c50bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 45/57] fix: judge the search for a temperature by the mass of
 the package

---
 auxi/modelling/process/materials/thermo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 961e580..23b3794 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -732,7 +732,7 @@ class MaterialPackage(Object):
         for i in range(2, 50):
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_H(x[i]) - H)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < 1.0e-9 * abs(self.mass):
                 break
 
         return x[len(x) - 1]
@@ -1457,7 +1457,7 @@ class MaterialStream(Object):
         for i in range(2, 50):
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_Hfr(x[i]) - Hfr)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < 1.0e-9 * abs(self.mfr):
                 break
 
         return x[len(x) - 1]
-- 
2.43.0


From 2b8d991ee3880d140fd2af73364738671264ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 46/57] fix: report the structure of accounts that have no
 number

---
 auxi/modelling/financial/reporting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 51b733e..40624cc 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -89,12 +89,13 @@ class GeneralLedgerStructure(Report):
         super(GeneralLedgerStructure, self).__init__(data_source, output_path)
 
     def _gl_accounts_to_table_(self, table, account, prefix=''):
+        number = account.number or ''
         table.append([account.account_type.name,
-                      prefix + account.number,
+                      prefix + number,
                       account.name, account.description])
-        for acc in sorted(account.accounts, key=lambda a: a.number):
+        for acc in sorted(account.accounts, key=lambda a: a.number or ''):
             self._gl_accounts_to_table_(
-                table, acc, account.number + '/')
+                table, acc, number + '/')
 
     def _generate_table_(self):
         table = [["Type", "Number", "Name", "Description"]]
-- 
2.43.0


From 76996c4d824fbd993fad1309e5dbf6746644affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 47/57] fix: let a model start at a date

---
 auxi/modelling/business/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 0dffa67..70682a8 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -41,9 +41,14 @@ class TimeBasedModel(NamedObject):
                  start_datetime=datetime.now(),
                  period_duration=TimePeriod.year,
                  period_count=1):
+        start_datetime = get_date(start_datetime)
+        if not isinstance(start_datetime, datetime):
+            # The clock needs the time too.
+            start_datetime = datetime.combine(start_datetime,
+                                              datetime.min.time())
         self.clock = Clock(
             "Clock",
-            start_datetime=get_date(start_datetime),
+            start_datetime=start_datetime,
             timestep_period_duration=period_duration)
         self.period_count = period_count
         self.entities = []
-- 
2.43.0


From f1d4a18f966b15fbb6b309f9cc557fdd172fe8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 48/57] fix: let an activity start and end on a date

---
 auxi/modelling/business/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 33581d0..355b4af 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -52,6 +52,9 @@ class Activity(NamedObject):
     def _get_date_(self, date):
         if type(date) is str:
             return datetime.strptime(date, '%Y-%m-%d')
+        elif not isinstance(date, datetime):
+            # The clock's datetimes cannot be compared with a date.
+            return datetime.combine(date, datetime.min.time())
         else:
             return date
 
-- 
2.43.0


From 1e123d56b17f931b83a639ae759fd2520fa7c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 49/57] fix: let a loan start at a date given as text

---
 auxi/modelling/business/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index dba69d8..56580f6 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -175,6 +175,7 @@ class BasicLoanActivity(Activity):
                  description=None):
         """
         """
+        start = self._get_date_(start)
         super(BasicLoanActivity, self).__init__(
             name,
             description=description,
-- 
2.43.0


From f79710c03fb56bf42d45b3ccc95b32d0b60b497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:37 +0000
Subject: [PATCH 50/57] fix: FactSage reader changed numbers other than
 temperatures that are written 298

---
 auxi/tools/chemistry/thermochemistry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 27be9b4..c4ebf02 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -577,7 +577,6 @@ def _read_compound_from_factsage_file_(file_name):
         if started:
             if line.startswith('_'):  # line indicating end of data
                 break
-            line = line.replace(' 298 ', ' 298.15 ')
             line = line.replace(' - ', ' ')
             while '  ' in line:
                 line = line.replace('  ', ' ')
@@ -586,6 +585,9 @@ def _read_compound_from_factsage_file_(file_name):
             strings = line.split(' ')
             if len(strings) < 2:  # empty line
                 continue
+            # The temperature range ends every line.
+            strings[-2:] = ['298.15' if x == '298' else x
+                            for x in strings[-2:]]
             phase = strings[0]
             if phase != phaseold:  # new phase detected
                 phaseold = phase
-- 
2.43.0


From 4eb0fbdfb55fa67401f50b307825e25c6e6dc97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:55 +0000
Subject: [PATCH 51/57] fix: keep the description given to psd and slurry
 materials

---
 auxi/modelling/process/materials/psd.py    | 2 +-
 auxi/modelling/process/materials/slurry.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index cdc3e67..d3392f2 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -65,7 +65,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super().__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index a1b67d3..8e91711 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -74,7 +74,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super().__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
-- 
2.43.0


From 8b7ab49de5e95f640cb463c7fdcce21bde3b8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:55 +0000
Subject: [PATCH 52/57] fix: read thermo materials with blank lines among the
 custom properties

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 23b3794..8a2dfe1 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -137,6 +137,8 @@ class Material(NamedObject):
         if must_read_custom_properties:
             for i in range(i+1, len(lines)):
                 strings = lines[i].split(" ")
+                if len(strings) < len(assay_names) + 1:  # Not a full line.
+                    continue
                 for j in range(0, len(self.raw_assays)):
                     assay_name = assay_names[j]
                     property_name = strings[0]
-- 
2.43.0


From 533692155500c9abce8ba8d78dc2a2f4be60a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:55 +0000
Subject: [PATCH 53/57] fix: print thermo materials to which an assay was added

---
 auxi/modelling/process/materials/thermo.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 8a2dfe1..cdabace 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -204,16 +204,14 @@ class Material(NamedObject):
             result += "-" * line_length + "\n"
             result += "Custom Properties:\n"
             result += "-" * line_length + "\n"
-            first_assay = list(sorted(self.assay_custom_properties.keys()))[0]
-            properties = list(sorted(
-                self.assay_custom_properties[first_assay].keys()))
-            for prop in properties:
+            for prop in sorted(set(self.custom_properties)):
                 pad = ''
                 result += prop.ljust(20)
                 for assay_name in assay_names:
-                    result += pad + "{:.8e}".format(
-                        self.assay_custom_properties[assay_name][prop]
-                        ).rjust(15)
+                    # Assays that were added have no custom properties.
+                    value = self.assay_custom_properties[assay_name].get(prop)
+                    result += pad + ("-" if value is None else
+                                     "{:.8e}".format(value)).rjust(15)
                     pad = '  '
                 result += "\n"
         result += "=" * line_length + "\n"
-- 
2.43.0


From 1ec09a83c1c4f8d87b9c097edd2fb19bfab74685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:55 +0000
Subject: [PATCH 54/57] fix: keep the columns apart when materials and packages
 are printed

---
 auxi/modelling/process/materials/chem.py   |  9 +++++----
 auxi/modelling/process/materials/psd.py    |  8 ++++----
 auxi/modelling/process/materials/slurry.py | 14 ++++++++------
 auxi/modelling/process/materials/thermo.py | 16 ++++++++--------
 4 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 30fda87..67a5c90 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -72,15 +72,16 @@ class Material(NamedObject):
         result += 'Compound'.ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result += assay_name.ljust(20)
+            result += assay_name.ljust(19) + ' '
         result += '\n'
 
         # Create the content lines of the table.
         for compound in self.compounds:
-            result += compound.ljust(20)
+            result += compound.ljust(19) + ' '
             compound_ix = self.get_compound_index(compound)
             for assay_name in assay_names:
-                result += str(self.assays[assay_name][compound_ix]).ljust(20)
+                result += str(
+                    self.assays[assay_name][compound_ix]).ljust(19) + ' '
             result += '\n'
         return result
 
@@ -254,7 +255,7 @@ class MaterialPackage(Object):
         result += 'Component masses:\n'
         for compound in self.material.compounds:
             index = self.material.get_compound_index(compound)
-            result += compound.ljust(20) + str(self.compound_masses[index])
+            result += compound.ljust(19) + ' ' + str(self.compound_masses[index])
             result += '\n'
         return result
 
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index d3392f2..febe447 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -109,16 +109,16 @@ class Material(NamedObject):
         result = result + "Compound".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + assay_name.ljust(20)
+            result = result + assay_name.ljust(19) + ' '
         result = result + "\n"
 
         # Create the content lines of the table.
         for size_class in self.size_classes:
-            result = result + str(size_class).ljust(20)
+            result = result + str(size_class).ljust(19) + ' '
             compound_index = self.get_size_class_index(size_class)
             for assay_name in assay_names:
                 result = result + str(
-                    self.assays[assay_name][compound_index]).ljust(20)
+                    self.assays[assay_name][compound_index]).ljust(19) + ' '
             result = result + "\n"
         return result
 
@@ -253,7 +253,7 @@ class MaterialPackage(Object):
         result = result + "Component masses:\n"
         for size_class in self.material.size_classes:
             index = self.material.get_size_class_index(size_class)
-            result = result + str(size_class).ljust(20) + str(
+            result = result + str(size_class).ljust(19) + ' ' + str(
                 self.size_class_masses[index]) + "\n"
         return result
 
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 8e91711..79715f3 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -146,30 +146,32 @@ class Material(NamedObject):
         result = result + "Compound".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + assay_name.ljust(20)
+            result = result + assay_name.ljust(19) + ' '
         result = result + "\n"
 
         # Create the solid density line.
         result = result + "Solid density".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + str(self.solid_densities[assay_name]).ljust(20)
+            result = result + str(
+                self.solid_densities[assay_name]).ljust(19) + ' '
         result = result + "\n"
 
         # Create the H2O fraction line.
         result = result + "H2O fraction".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + str(self.H2O_fractions[assay_name]).ljust(20)
+            result = result + str(
+                self.H2O_fractions[assay_name]).ljust(19) + ' '
         result = result + "\n"
 
         # Create the content lines of the table.
         for size_class in self.size_classes:
-            result = result + str(size_class).ljust(20)
+            result = result + str(size_class).ljust(19) + ' '
             compound_index = self.get_size_class_index(size_class)
             for assay_name in assay_names:
                 result = result + str(
-                    self.assays[assay_name][compound_index]).ljust(20)
+                    self.assays[assay_name][compound_index]).ljust(19) + ' '
             result = result + "\n"
         return result
 
@@ -354,7 +356,7 @@ class MaterialPackage(Object):
         result = result + "Component masses:\n"
         for size_class in self.material.size_classes:
             index = self.material.get_size_class_index(size_class)
-            result = result + str(size_class).ljust(24) + str(
+            result = result + str(size_class).ljust(23) + ' ' + str(
                 self.size_class_masses[index]) + "\n"
         return result
 
diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index cdabace..f8f0a79 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -178,7 +178,7 @@ class Material(NamedObject):
 
         # Create the content lines of the table.
         for compound in sorted(self.compounds):
-            result = result + compound.ljust(20)
+            result = result + compound.ljust(19) + ' '
             compound_index = self.get_compound_index(compound)
             pad = ''
             for assay_name in assay_names:
@@ -206,7 +206,7 @@ class Material(NamedObject):
             result += "-" * line_length + "\n"
             for prop in sorted(set(self.custom_properties)):
                 pad = ''
-                result += prop.ljust(20)
+                result += prop.ljust(19) + ' '
                 for assay_name in assay_names:
                     # Assays that were added have no custom properties.
                     value = self.assay_custom_properties[assay_name].get(prop)
@@ -442,7 +442,7 @@ class MaterialPackage(Object):
         if mass > 0.0:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(
+                result += compound.ljust(19) + ' ' + '{:.8e}'.format(
                     self._compound_masses[index])
                 result += "  " + \
                           '{:.8e}'.format(self._compound_masses[index] / mass)
@@ -452,7 +452,7 @@ class MaterialPackage(Object):
         else:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(0.0)
+                result += compound.ljust(19) + ' ' + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "\n"
@@ -464,7 +464,7 @@ class MaterialPackage(Object):
             result += b2
             properties = list(sorted(self.custom_properties.keys()))
             for prop in properties:
-                result += prop.ljust(20)
+                result += prop.ljust(19) + ' '
                 result += "{:.8e}".format(self.custom_properties[prop])
                 result += "\n"
 
@@ -1151,7 +1151,7 @@ class MaterialStream(Object):
         if mfr > 0.0:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(
+                result += compound.ljust(19) + ' ' + '{:.8e}'.format(
                     self._compound_mfrs[index])
                 result += "  " + \
                           '{:.8e}'.format(self._compound_mfrs[index] / mfr)
@@ -1161,7 +1161,7 @@ class MaterialStream(Object):
         else:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(0.0)
+                result += compound.ljust(19) + ' ' + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "\n"
@@ -1173,7 +1173,7 @@ class MaterialStream(Object):
             result += b2
             properties = list(sorted(self.custom_properties.keys()))
             for prop in properties:
-                result += prop.ljust(20)
+                result += prop.ljust(19) + ' '
                 result += "{:.8e}".format(self.custom_properties[prop])
                 result += "\n"
 
-- 
2.43.0


From 2fea2630f1e44e66cbd5434d4cdd1f8d1fb109dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:21 +0000
Subject: [PATCH 55/57] fix: heating value of a coal stream of which none is
 given

---
 auxi/modelling/process/materials/thermo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index f8f0a79..8e506f1 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1368,7 +1368,9 @@ class MaterialStream(Object):
         if self.HHV is None:
             # If no HHV is specified, calculate it from the proximate assay
             # using C-H-O-N-S.
-            HHV = (Hout - Hin) / m_total  # kWh/kg daf
+            HHV = Hin / m_total - Hout  # kWh/kg daf
+            if m_total > 0.0:
+                self._HHV = HHV * m_total / self.mfr * 3.6  # MJ/kg coal
         else:
             # If an HHV is specified, convert it from MJ/kg coal to kWh/kg daf.
             HHV = self.HHV / 3.6  # kWh/kg coal
-- 
2.43.0


From 29a6bf1c77796ee7a6edcb8ad50203551fddb92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:21 +0000
Subject: [PATCH 56/57] fix: heating value of a coal stream to which a compound
 is added at a temperature

---
 auxi/modelling/process/materials/thermo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 8e506f1..3a8b424 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1266,6 +1266,7 @@ class MaterialStream(Object):
             # Create the result stream.
             result = self * 1.0
             result._compound_mfrs[index] += mfr
+            result._update_HHV(compound, mfr)
             result.Hfr = self._Hfr + enthalpy
             result._P = self._P
             return result
-- 
2.43.0


From 01f8033dec5f43b053f5debadc782bd6d248bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:30 +0000
Subject: [PATCH 57/57] fix: list transactions with dates and datetimes in one
 ledger

---
 auxi/modelling/financial/reporting.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 40624cc..e11bfc4 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -38,6 +38,20 @@ def _not_after(first, second):
     return first <= second
 
 
+def _start_of(date):
+    """
+    Determine the datetime at which a date begins.
+
+    :param date: The date or datetime.
+
+    :returns: The datetime itself, or midnight at the start of the date.
+    """
+
+    if isinstance(date, datetime):
+        return date
+    return datetime(date.year, date.month, date.day)
+
+
 def _is_in_component(source, component_path):
     """
     Determine whether a transaction's source is a component or part of it.
@@ -137,7 +151,7 @@ class TransactionList(Report):
                   "Credit Account", "Amount", "Description"]]
         amount_tot = 0
         tx_list = self.data_source.transactions
-        for t in sorted(tx_list, key=lambda v: v.tx_date):
+        for t in sorted(tx_list, key=lambda v: _start_of(v.tx_date)):
             if not _is_in_component(t.source, self.component_path):
                 continue
             if _not_after(self.start_date, t.tx_date) and \
-- 
2.43.0

