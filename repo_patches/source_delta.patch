From 3c2960b41d196a08736f88d0dc6e397f79e70988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:49 +0000
Subject: [PATCH 01/59] fix: MultiCoil ignored the number of turns of a
 single-point block

---
 freegs/multi_coil.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 6614ac6..e30cd55 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -157,7 +157,9 @@ class MultiCoil(Coil):
         if self.mirror:
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += Greens(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        # For a single point the block carries current * turns. When a list of points
+        # is given there is one turn per point, so this factor is one
+        return result * self.turns / len(self.Rfil)
 
     def controlBr(self, R, Z):
         """
@@ -170,7 +172,9 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBr(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        # For a single point the block carries current * turns. When a list of points
+        # is given there is one turn per point, so this factor is one
+        return result * self.turns / len(self.Rfil)
 
     def controlBz(self, R, Z):
         """
@@ -183,7 +187,9 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        # For a single point the block carries current * turns. When a list of points
+        # is given there is one turn per point, so this factor is one
+        return result * self.turns / len(self.Rfil)
 
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
-- 
2.43.0


From 7c39bf3a090f7ca0e9af0c27cb9a346159435a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:18 +0000
Subject: [PATCH 02/59] fix: moving a MultiCoil modified the caller's filament
 lists

---
 freegs/multi_coil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index e30cd55..c839d5b 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -126,8 +126,9 @@ class MultiCoil(Coil):
         # Store locations as an internal list
         if hasattr(R, "__len__"):
             assert len(R) == len(Z)
-            self.Rfil = R
-            self.Zfil = Z
+            # Copy, so that moving the coil doesn't modify the caller's data
+            self.Rfil = list(R)
+            self.Zfil = list(Z)
             self.turns = len(R)
         else:
             # Assume a single R, Z. Turn into a list
-- 
2.43.0


From c3d4fa6f923593c2a75d67f0c663486c84199d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:28 +0000
Subject: [PATCH 03/59] fix: MultiCoil.from_numpy_array read a non-existent
 field instead of mirror

---
 freegs/multi_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index c839d5b..2464aa5 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -255,7 +255,7 @@ class MultiCoil(Coil):
         current = value["current"]
         turns = value["turns"]
         control = value["control"]
-        mirror = value["npoints"]
+        mirror = value["mirror"]
         polarity = value["polarity"]
 
         return MultiCoil(
-- 
2.43.0


From 5af1dd930ac03a122601a71489e001c439b7172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:35 +0000
Subject: [PATCH 04/59] fix: PreCalcCoil ignored the number of turns

---
 freegs/pre_calc_coil.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 7b6952b..1e67a44 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -128,7 +128,8 @@ class PreCalcCoil(Coil):
         else:
             result = self.cPsi(R, Z, grid=False)
 
-        return result
+        # Maps are calculated for 1 A-turn
+        return result * self.turns
 
     def controlBr(self, R, Z):
         """
@@ -140,7 +141,8 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBr(R, Z, grid=False)
 
-        return result
+        # Maps are calculated for 1 A-turn
+        return result * self.turns
 
     def controlBz(self, R, Z):
         """
@@ -152,7 +154,8 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBz(R, Z, grid=False)
 
-        return result
+        # Maps are calculated for 1 A-turn
+        return result * self.turns
 
     def __repr__(self):
         return "PreCalcCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From f30eb9451488c0465c858aa31d2b7d22ad15bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:43 +0000
Subject: [PATCH 05/59] fix: MirroredCoil put both coils at the same Z and
 dropped current and control

---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 807ab4f..1290377 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -307,10 +307,12 @@ def MirroredCoil(
             ),
             (
                 "L",
-                Coil(R, Z, current=current, turns=turns, control=control, area=area),
+                Coil(R, -Z, current=current, turns=turns, control=control, area=area),
                 1.0 if symmetric else -1.0,
             ),
-        ]
+        ],
+        current=current,
+        control=control,
     )
 
 
-- 
2.43.0


From b4ff1cc09442a53594b09c3ea94473c8b8b3a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:54 +0000
Subject: [PATCH 06/59] fix: forces on coils in a Circuit included the field of
 the coil itself

---
 freegs/machine.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 1290377..80b29fe 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -209,8 +209,15 @@ class Circuit:
         Returns a dictionary of coil label -> force
         """
         forces = {}
-        for label, coil, multiplier in self.coils:
-            forces[label] = coil.getForces(equilibrium)
+        coils = self.coils
+        for label, coil, multiplier in coils:
+            # The coil sets its own current to zero to exclude its own field, but
+            # Br and Bz reset the current in all coils of this circuit.
+            self.coils = [item for item in coils if item[1] is not coil]
+            try:
+                forces[label] = coil.getForces(equilibrium)
+            finally:
+                self.coils = coils
         return forces
 
     def inShape(self, polygon):
-- 
2.43.0


From 4df87f833ab46861a55393936ac295d6c37c33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:06 +0000
Subject: [PATCH 07/59] fix: moving a ShapedCoil or FilamentCoil left its
 outline behind

---
 freegs/filament_coil.py | 2 ++
 freegs/shaped_coil.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 2df7d1e..1453185 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -326,6 +326,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self.points = [(r + Rshift, z) for r, z in self.points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -340,6 +341,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self.points = [(r, z + Zshift) for r, z in self.points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index ba876b8..f5a56a3 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -145,6 +145,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self._points = [(r + Rshift, z, w) for r, z, w in self._points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -159,6 +160,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self._points = [(r, z + Zshift, w) for r, z, w in self._points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
-- 
2.43.0


From c05e08505c332ae6823062a1a94be2b6d4a23b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:51 +0000
Subject: [PATCH 08/59] fix: coarsen() set psi to zero on the boundary and
 forgot boundary condition and order

---
 freegs/equilibrium.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6a534b4..eb8c401 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1313,15 +1313,23 @@ def coarsen(eq):
     """
     Reduce grid resolution, returning a new equilibrium
     """
-    plasma_psi = multigrid.restrict(eq.plasma_psi)
+    plasma_psi = eq.plasma_psi
     nx, ny = plasma_psi.shape
 
+    if (nx - 1) % 2 == 0 and (ny - 1) % 2 == 0:
+        # Keep every second point, including the boundary values
+        plasma_psi = plasma_psi[::2, ::2]
+        nx, ny = plasma_psi.shape
+    plasma_psi = plasma_psi.copy()
+
     result = Equilibrium(
         tokamak=eq.tokamak,
         Rmin=eq.Rmin,
         Rmax=eq.Rmax,
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
         nx=nx,
         ny=ny,
     )
-- 
2.43.0


From bfa310c7dcaf2067996e2e2f885cac78ab206231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:01 +0000
Subject: [PATCH 09/59] fix: multigrid restriction ignored all neighbours, so
 avg=True did not average

---
 freegs/multigrid.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/freegs/multigrid.py b/freegs/multigrid.py
index 6f72771..68be8ee 100644
--- a/freegs/multigrid.py
+++ b/freegs/multigrid.py
@@ -91,7 +91,7 @@ class MGJacobi:
                 error = b - self.A.dot(x)
 
                 # Restrict error onto coarser mesh
-                self.sub_b = restrict(reshape(error, xi.shape))
+                self.sub_b = restrict(reshape(error, xi.shape), avg=True)
 
                 # smooth this error
                 sub_x = zeros(self.sub_b.shape)
@@ -203,19 +203,23 @@ def restrict(orig, out=None, avg=False):
         for y in range(1, ny - 1):
             x0 = 2 * x
             y0 = 2 * y
-            out[x, y] = orig[x0, y0] / 4.0
-            +(
-                orig[x0 + 1, y0]
-                + orig[x0 - 1, y0]
-                + orig[x0, y0 + 1]
-                + orig[x0, y0 - 1]
-            ) / 8.0
-            +(
-                orig[x0 - 1, y0 - 1]
-                + orig[x0 - 1, y0 + 1]
-                + orig[x0 + 1, y0 - 1]
-                + orig[x0 + 1, y0 + 1]
-            ) / 16.0
+            out[x, y] = (
+                orig[x0, y0] / 4.0
+                + (
+                    orig[x0 + 1, y0]
+                    + orig[x0 - 1, y0]
+                    + orig[x0, y0 + 1]
+                    + orig[x0, y0 - 1]
+                )
+                / 8.0
+                + (
+                    orig[x0 - 1, y0 - 1]
+                    + orig[x0 - 1, y0 + 1]
+                    + orig[x0 + 1, y0 - 1]
+                    + orig[x0 + 1, y0 + 1]
+                )
+                / 16.0
+            )
     if not avg:
         out *= 4.0
 
@@ -273,7 +277,7 @@ def smoothVcycle(A, x, b, dx, dy, niter=10, sublevels=0, direct=True):
         error = b - A(x, dx, dy)
 
         # Restrict error onto coarser mesh
-        Cerror = restrict(error)
+        Cerror = restrict(error, avg=True)
 
         # smooth this error
         Cx = zeros(Cerror.shape)
-- 
2.43.0


From 89d38ff34c569f67b5489698be96804ff1917d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:26 +0000
Subject: [PATCH 10/59] fix: newDomain() took ny from the R resolution and
 forgot boundary condition and order

---
 freegs/equilibrium.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index eb8c401..52a480e 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1361,11 +1361,19 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     if nx is None:
         nx = eq.R.shape[0]
     if ny is None:
-        ny = eq.R.shape[0]
+        ny = eq.R.shape[1]
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-        tokamak=eq.tokamak, Rmin=Rmin, Rmax=Rmax, Zmin=Zmin, Zmax=Zmax, nx=nx, ny=ny
+        tokamak=eq.tokamak,
+        Rmin=Rmin,
+        Rmax=Rmax,
+        Zmin=Zmin,
+        Zmax=Zmax,
+        nx=nx,
+        ny=ny,
+        boundary=eq._applyBoundary,
+        order=eq.order,
     )
 
     # Calculate the current on the old grid
-- 
2.43.0


From f958bfde897dd719b55d6e2377d091291725bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:36 +0000
Subject: [PATCH 11/59] fix: refine(), coarsen() and newDomain() forgot
 check_limited and the plasma current

---
 freegs/equilibrium.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 52a480e..04a6bc6 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1292,6 +1292,8 @@ def refine(eq, nx=None, ny=None):
         Zmax=eq.Zmax,
         boundary=eq._applyBoundary,
         order=eq.order,
+        check_limited=eq.check_limited,
+        current=eq.plasmaCurrent(),
         nx=nx,
         ny=ny,
     )
@@ -1330,6 +1332,8 @@ def coarsen(eq):
         Zmax=eq.Zmax,
         boundary=eq._applyBoundary,
         order=eq.order,
+        check_limited=eq.check_limited,
+        current=eq.plasmaCurrent(),
         nx=nx,
         ny=ny,
     )
@@ -1374,6 +1378,7 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
         ny=ny,
         boundary=eq._applyBoundary,
         order=eq.order,
+        check_limited=eq.check_limited,
     )
 
     # Calculate the current on the old grid
-- 
2.43.0


From 5761937648a116bee90adbc53481e5ff54d8b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:58 +0000
Subject: [PATCH 12/59] fix: ConstrainBetapIp and ConstrainPaxisIp ignored a
 given boundary flux

---
 freegs/jtor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 2e35bb8..b78bc9b 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -181,7 +181,8 @@ class ConstrainBetapIp(Profile):
         # Intermediary update of the plasma
         # boundary and axis flux
         self.eq._updateBoundaryPsi(psi)
-        psi_bndry = self.eq.psi_bndry
+        if psi_bndry is None or self.eq.check_limited:
+            psi_bndry = self.eq.psi_bndry
 
         # Analyse the equilibrium, finding O- and X-points
         opt, xpt = critical.find_critical(R, Z, psi)
@@ -343,7 +344,8 @@ class ConstrainPaxisIp(Profile):
         # Intermediary update of the plasma
         # boundary and axis flux
         self.eq._updateBoundaryPsi(psi)
-        psi_bndry = self.eq.psi_bndry
+        if psi_bndry is None or self.eq.check_limited:
+            psi_bndry = self.eq.psi_bndry
 
         # Analyse the equilibrium, finding O- and X-points
         opt, xpt = critical.find_critical(R, Z, psi)
-- 
2.43.0


From 18797d27164f015ac6ac413626210dd896a6eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:06 +0000
Subject: [PATCH 13/59] fix: refine(), coarsen() and newDomain() left the
 profiles tied to the old grid

---
 freegs/equilibrium.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 04a6bc6..7dae023 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -3,6 +3,7 @@ Defines class to represent the equilibrium
 state, including plasma and coil currents
 """
 
+from copy import copy
 from typing import Optional
 
 from numpy import pi, meshgrid, linspace, exp, array
@@ -1268,6 +1269,17 @@ class Equilibrium:
         return val
 
 
+def _profilesFor(eq, result):
+    """
+    The profiles of equilibrium eq, for use with equilibrium result.
+    Some profiles refer to the equilibrium (and so the grid) they are used with
+    """
+    profiles = copy(eq._profiles)
+    if hasattr(profiles, "eq"):
+        profiles.eq = result
+    return profiles
+
+
 def refine(eq, nx=None, ny=None):
     """
     Double grid resolution, returning a new equilibrium
@@ -1303,7 +1315,7 @@ def refine(eq, nx=None, ny=None):
     result._updatePlasmaPsi(plasma_psi)
 
     if hasattr(eq, "_profiles"):
-        result._profiles = eq._profiles
+        result._profiles = _profilesFor(eq, result)
 
     if hasattr(eq, "control"):
         result.control = eq.control
@@ -1341,7 +1353,7 @@ def coarsen(eq):
     result._updatePlasmaPsi(plasma_psi)
 
     if hasattr(eq, "_profiles"):
-        result._profiles = eq._profiles
+        result._profiles = _profilesFor(eq, result)
 
     if hasattr(eq, "control"):
         result.control = eq.control
@@ -1406,7 +1418,7 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     result._updatePlasmaPsi(plasma_psi)
 
     # Solve once more, calculating Jtor using new psi
-    result.solve(profiles)
+    result.solve(_profilesFor(eq, result))
 
     return result
 
-- 
2.43.0


From f633a63a6ccc683f655349fdac50ee2e7d3cc77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:07 +0000
Subject: [PATCH 14/59] fix: fpol() lost the sign of a negative vacuum f

---
 freegs/jtor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index b78bc9b..e8201b6 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -85,7 +85,9 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            return sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the same sign as its vacuum value
+            f = sqrt(2.0 * val + self.fvac() ** 2)
+            return -f if self.fvac() < 0 else f
 
         # Assume it's a NumPy array, or can be converted to one
         psinorm = np.array(psinorm)
@@ -105,7 +107,9 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            ovals[i] = sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the same sign as its vacuum value
+            f = sqrt(2.0 * val + self.fvac() ** 2)
+            ovals[i] = -f if self.fvac() < 0 else f
 
         return reshape(ovals, psinorm.shape)
 
-- 
2.43.0


From 88c45e155091cca4095d4a37d5b45e687e84aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:10 +0000
Subject: [PATCH 15/59] fix: flux at limiter points was read from the
 transposed flux map

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 7dae023..5f571e8 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -559,8 +559,7 @@ class Equilibrium:
                 R = np.asarray(self.R[:, 0])
                 Z = np.asarray(self.Z[0, :])
 
-                # psi is transposed due to how FreeGS meshgrids R,Z
-                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi.T)
+                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi)
 
                 # Get psi at the limit points
                 psi_limit_points = np.zeros(len(Rlimit))
-- 
2.43.0


From 7499f0e1926c6349296cb675f0d87ace7ac1a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 16/59] fix: limiter detection assumed that psi has a maximum
 on the axis

---
 freegs/equilibrium.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 5f571e8..5b5738f 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -566,29 +566,30 @@ class Equilibrium:
                 for i in range(len(Rlimit)):
                     psi_limit_points[i] = psi_2d(Rlimit[i], Zlimit[i])[0]
 
-                # Get index of maximum psi value
-                indMax = np.argmax(psi_limit_points)
+                # Get index of the limit point whose psi is closest to the axis.
+                # Note: psi may have a maximum or a minimum on the axis
+                indLim = np.argmin(abs(psi_limit_points - self.psi_axis))
 
                 # Extract R,Z of the contact point
-                self.Rlim = Rlimit[indMax]
-                self.Zlim = Zlimit[indMax]
+                self.Rlim = Rlimit[indLim]
+                self.Zlim = Zlimit[indLim]
 
-                # Obtain maximum psi
-                self.psi_limit = psi_limit_points[indMax]
+                # Flux at the contact point
+                self.psi_limit = psi_limit_points[indLim]
 
                 # Check if any xpoints are present
                 if xpt:
                     # Get flux from the primary xpoint
                     self.psi_xpt = xpt[0][2]
 
-                    # Choose between diverted or limited flux
-                    self.psi_bndry = max(self.psi_xpt, self.psi_limit)
-
-                    if self.psi_bndry == self.psi_limit:
-                        self.is_limited = True
-
-                    else:
-                        self.is_limited = False
+                    # Choose between diverted or limited flux,
+                    # whichever is closer to the axis
+                    self.is_limited = abs(self.psi_limit - self.psi_axis) <= abs(
+                        self.psi_xpt - self.psi_axis
+                    )
+                    self.psi_bndry = (
+                        self.psi_limit if self.is_limited else self.psi_xpt
+                    )
 
                     # Mask the core
                     self.mask = critical.core_mask(
-- 
2.43.0


From 1898eeaa3b9c8e60252eb46d4d51ac6489517e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:31 +0000
Subject: [PATCH 17/59] fix: a limited plasma without X-points had no core mask

---
 freegs/equilibrium.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 5b5738f..ed18679 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -605,7 +605,14 @@ class Equilibrium:
                     # No xpoints, therefore psi_bndry = psi_limit
                     self.psi_bndry = self.psi_limit
                     self.is_limited = True
-                    self.mask = None
+
+                    # Mask the core
+                    self.mask = critical.core_mask(
+                        self.R, self.Z, psi, opt, xpt, self.psi_bndry
+                    )
+                    self.mask_func = interpolate.RectBivariateSpline(
+                        self.R[:, 0], self.Z[0, :], self.mask
+                    )
 
             else:
                 # Either a wall was not provided or the user did not wish to
-- 
2.43.0


From ea18c521e4895532d5afce149826df8d1d354b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:40 +0000
Subject: [PATCH 18/59] fix: limit points left out the last side of the wall

---
 freegs/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index 80b29fe..c9c5c2c 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -696,6 +696,9 @@ class Machine:
         # Make an interpolator for point location as function of normalised distance
         # along the wall
         points = np.array([self.wall.R, self.wall.Z]).T
+        if not np.array_equal(points[0], points[-1]):
+            # Close the wall
+            points = np.append(points, points[:1], axis=0)
         distance = np.cumsum(np.sqrt(np.sum(np.diff(points, axis=0) ** 2, axis=1)))
         distance = np.insert(distance, 0, 0) / distance[-1]
 
-- 
2.43.0


From c0fbc7792ffa44e204bc306f3647bf3c50f2bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:13 +0000
Subject: [PATCH 19/59] fix: q() did not accept a list

---
 freegs/equilibrium.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index ed18679..0cf7781 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -360,7 +360,8 @@ class Equilibrium:
             psinorm = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
             return psinorm, critical.find_safety(self, psinorm=psinorm)
 
-        elif np.any((psinorm < 0.01) | (psinorm > 0.99)):
+        psinorm = np.asarray(psinorm)
+        if np.any((psinorm < 0.01) | (psinorm > 0.99)):
             psinorm_inner = np.linspace(0.01, 0.99, num=npsi)
             q_inner = critical.find_safety(self, psinorm=psinorm_inner)
 
-- 
2.43.0


From 1cfa736f6c2660fd8c3fa5e417866af36b90ef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:22 +0000
Subject: [PATCH 20/59] fix: safety factor of a limited plasma was normalised
 to the X-point flux

---
 freegs/critical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 556093e..74d201a 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -469,8 +469,10 @@ def find_safety(
     if (xpoint is None) or (len(xpoint) == 0):
         # No X-point
         raise ValueError("No X-point so no separatrix")
-    else:
-        psinormal = (psi - opoint[0][2]) / (xpoint[0][2] - opoint[0][2])
+
+    # The boundary flux is set by the limiter if the plasma is limited
+    psi_bndry = eq.psi_bndry if eq.is_limited else xpoint[0][2]
+    psinormal = (psi - opoint[0][2]) / (psi_bndry - opoint[0][2])
 
     psifunc = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psinormal)
 
-- 
2.43.0


From c0bd0928e7df2c6723420d2fac09e75b8f61985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:58 +0000
Subject: [PATCH 21/59] fix: rhotor() divided by zero if psi has a minimum on
 the axis

---
 freegs/equilibrium.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 0cf7781..5e70864 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -409,7 +409,8 @@ class Equilibrium:
         psi = np.linspace(self.psi_axis, self.psi_bndry, 101, endpoint=True)
         torflux_for_LCFS = self.tor_flux(psi)
 
-        max_torflux = np.max(torflux_for_LCFS)
+        # Toroidal flux at the LCFS. Note that this may be negative
+        max_torflux = torflux_for_LCFS[-1]
 
         result = np.sqrt(torflux / max_torflux)
 
-- 
2.43.0


From d0d047af3445077ec701a4032963f7a20413fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:26 +0000
Subject: [PATCH 22/59] fix: ConstrainPsi2DAdvanced and
 ConstrainPsiNorm2DAdvanced failed without current limits

---
 freegs/control.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/control.py b/freegs/control.py
index e3e5dcd..d48eaa0 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -366,6 +366,8 @@ class ConstrainPsi2DAdvanced(object):
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
         for i in range(ncontrols):
+            if self.current_lims is None:
+                break  # No bounds
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
@@ -461,6 +463,8 @@ class ConstrainPsiNorm2DAdvanced(object):
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
         for i in range(ncontrols):
+            if self.current_lims is None:
+                break  # No bounds
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
-- 
2.43.0


From 66a3844170bce486893a1d4e627947678679e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:35 +0000
Subject: [PATCH 23/59] fix: ConstrainPsi2DAdvanced failed with scalar weights
 and compared with an offset target

---
 freegs/control.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freegs/control.py b/freegs/control.py
index d48eaa0..ed53af2 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -350,8 +350,11 @@ class ConstrainPsi2DAdvanced(object):
         Create an instance, specifying the constraints to apply
         """
 
+        weights = np.broadcast_to(weights, target_psi.shape)
+
         self.current_lims = current_lims
-        self.target_psi = target_psi
+        # Remove the average so constant offsets are ignored
+        self.target_psi = target_psi - np.average(target_psi, weights=weights)
         self.weights = weights
 
     def __call__(self, eq):
-- 
2.43.0


From d84737c6ae2aeaadc7338723cb6a22571806c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:45 +0000
Subject: [PATCH 24/59] fix: ConstrainPsi2D failed with scalar weights

---
 freegs/control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/control.py b/freegs/control.py
index ed53af2..79debe4 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -226,7 +226,8 @@ class ConstrainPsi2D(object):
 
         """
         if weights is None:
-            weights = np.full(target_psi.shape, 1.0)
+            weights = 1.0
+        weights = np.broadcast_to(weights, target_psi.shape)
 
         # Remove the average so constant offsets are ignored
         self.target_psi = target_psi - np.average(target_psi, weights=weights)
-- 
2.43.0


From 8b246141af4f4bf4341ca65b5fa9044150de087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:53 +0000
Subject: [PATCH 25/59] fix: ConstrainPsi2DAdvanced ignored max_total_current

---
 freegs/control.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/freegs/control.py b/freegs/control.py
index 79debe4..76ec7e3 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -354,6 +354,7 @@ class ConstrainPsi2DAdvanced(object):
         weights = np.broadcast_to(weights, target_psi.shape)
 
         self.current_lims = current_lims
+        self.max_total_current = max_total_current
         # Remove the average so constant offsets are ignored
         self.target_psi = target_psi - np.average(target_psi, weights=weights)
         self.weights = weights
@@ -393,13 +394,26 @@ class ConstrainPsi2DAdvanced(object):
 
         current_bnds = array(current_bounds)
 
+        # L-BFGS-B only handles bounds, so use SLSQP to limit the total current
+        method = "L-BFGS-B"
+        cons = []
+        if self.max_total_current is not None:
+            method = "SLSQP"
+            cons.append(
+                {
+                    "type": "ineq",
+                    "fun": lambda x: self.max_total_current - np.sum(np.abs(x)),
+                }
+            )
+
         # Least squares optimisation of difference in target v achieved normalised psi
         # applied with bounds on coil currents
         end_currents = optimize.minimize(
             self.psi_difference,
             start_currents,
-            method="L-BFGS-B",
+            method=method,
             bounds=current_bnds,
+            constraints=cons,
             args=(eq,),
         ).x
 
-- 
2.43.0


From 5ccfc1870fefa0291378884067167b5fb3d6b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:44 +0000
Subject: [PATCH 26/59] fix: Picard iteration could stop without a plasma
 boundary

---
 freegs/picard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freegs/picard.py b/freegs/picard.py
index 8b40609..c44e6ff 100644
--- a/freegs/picard.py
+++ b/freegs/picard.py
@@ -181,6 +181,7 @@ def solve(
             # convergence when there is no boundary
             # ie set the change to > rtol
             bndry_relchange = 2.0 * rtol
+            bndry_change = np.inf
 
         # Get the new psi, including coils
         psi = eq.psi()
-- 
2.43.0


From 32a8781b163963637ae7d8acca355dba24d0a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:27 +0000
Subject: [PATCH 27/59] fix: poloidalBeta3 was multiplied by the plasma volume

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 5e70864..3c21bc9 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1157,9 +1157,8 @@ class Equilibrium:
 
         pressure_integral = romb(romb(pressure * dV))
         Ip = self.plasmaCurrent()
-        vol = self.plasmaVolume()
         r0 = self.Rgeometric()
-        return 4 * vol * pressure_integral / (mu0 * Ip * Ip * r0)
+        return 4 * pressure_integral / (mu0 * Ip * Ip * r0)
 
     def toroidalBeta(self):
         """Calculate plasma toroidal beta by integrating the thermal pressure
-- 
2.43.0


From 12ed9d7ebcce701813419984423cdfa42017e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:35 +0000
Subject: [PATCH 28/59] fix: shafranovShift and betaN ignored npoints

---
 freegs/equilibrium.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 3c21bc9..0faa842 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -987,8 +987,8 @@ class Equilibrium:
         Rmag = self.Rmagnetic()
         Zmag = self.Zmagnetic()
 
-        Rgeo = self.Rgeometric()
-        z0 = self.Zgeometric()
+        Rgeo = self.Rgeometric(npoints=npoints)
+        z0 = self.Zgeometric(npoints=npoints)
 
         return np.array([Rmag - Rgeo, Zmag - z0])
 
@@ -1197,13 +1197,13 @@ class Equilibrium:
 
     def betaN(self, npoints=360):
         """Calculate normalised plasma beta"""
-        geo = self.geometricAxis()
+        geo = self.geometricAxis(npoints=npoints)
         Bt = self.Btor(geo[0], geo[1])
         return (
             100.0
             * 1.0e06
             * self.toroidalBeta()
-            * ((self.minorRadius() * Bt) / (self.plasmaCurrent()))
+            * ((self.minorRadius(npoints=npoints) * Bt) / (self.plasmaCurrent()))
         )
 
     def pressure_ave(self):
-- 
2.43.0


From 9a2b37a8fa4565cb9a529620a250cbd5391fd138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 29/59] fix: open lines were closed and lost their last segment
 in polygons.intersect

---
 freegs/polygons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 4322361..22d34a5 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -42,9 +42,9 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
             # Test for intersection between two line segments:
             # (r1[i],z1[i]) -- (r1[i+1],z1[i+1])
             # (r1[j],z1[j]) -- (r1[j+1],z1[j+1])
-            # Note that since polynomials are closed the indices wrap around
-            ip = (i + 1) % n1
-            jp = (j + 1) % n2
+            # Note that the indices wrap around if the polynomials are closed
+            ip = (i + 1) % len(r1)
+            jp = (j + 1) % len(r2)
 
             a = r1[ip] - r1[i]
             b = r2[jp] - r2[j]
-- 
2.43.0


From 4a3fec6f7ab4a46977c7124fb76e6a9e6ad25e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 30/59] fix: triangulation of concave polygons could overlap or
 never end

---
 freegs/polygons.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 22d34a5..09fd799 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -102,6 +102,16 @@ def clockwise(polygon):
     return area(polygon) > 0
 
 
+def _in_triangle(point, a, b, c):
+    """
+    Test if point is inside, or on the edge of, the clockwise triangle (a, b, c)
+    """
+    return all(
+        (p2[1] - p1[1]) * (point[0] - p1[0]) >= (p2[0] - p1[0]) * (point[1] - p1[1])
+        for p1, p2 in [(a, b), (b, c), (c, a)]
+    )
+
+
 def triangulate(polygon):
     """
     Use the ear clipping method to turn an arbitrary polygon into triangles
@@ -137,22 +147,14 @@ def triangulate(polygon):
             if cross < 0:
                 continue  # Skip this vertex
 
-            # Check these edges don't intersect with other edges
-            r1 = [prev_vert[0], vert[0], next_vert[0]]
-            z1 = [prev_vert[1], vert[1], next_vert[1]]
-
-            r2 = []
-            z2 = []
-            if i < nvert - 1:
-                r2 += [v[0] for v in polygon[(i + 1) :]]
-                z2 += [v[1] for v in polygon[(i + 1) :]]
-            if i > 0:
-                r2 += [v[0] for v in polygon[:i]]
-                z2 += [v[1] for v in polygon[:i]]
-
-            # (r1,z1) is the line along two edges of the triangle
-            # (r2,z2) is the rest of the polygon
-            if intersect(r1, z1, r2, z2, closed1=False, closed2=False):
+            # Check that the triangle doesn't contain any other vertex
+            # (a triangle with zero area can always be removed)
+            corners = [(v[0], v[1]) for v in (prev_vert, vert, next_vert)]
+            if cross > 0 and any(
+                _in_triangle(v, *corners)
+                for v in polygon
+                if (v[0], v[1]) not in corners
+            ):
                 continue  # Skip
 
             # Found an ear
@@ -161,6 +163,8 @@ def triangulate(polygon):
             del polygon[i]
             nvert -= 1
             break
+        else:
+            raise ValueError("Cannot triangulate polygon: sides intersect")
 
     # Reduced to a single triangle
     triangles.append(polygon)
-- 
2.43.0


From 76fab13c142b1cf71ec90a1d354b8f97639d3cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:27 +0000
Subject: [PATCH 31/59] fix: Rogowski sensors count all turns of a coil

---
 freegs/coil.py          | 2 +-
 freegs/filament_coil.py | 2 +-
 freegs/shaped_coil.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/coil.py b/freegs/coil.py
index 963dcb1..bd2d46b 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -209,7 +209,7 @@ class Coil:
 
     def inShape(self, polygon):
         if polygon.contains(Point(self.R, self.Z)):
-            return 1
+            return self.turns
         else:
             return 0
 
diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 1453185..83ebf84 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -306,7 +306,7 @@ class FilamentCoil(Coil):
         counter = 0
         for r, z in self.points:
             if polygon.contains(geometry.Point(r, z)):
-                counter += 1 / self.npoints
+                counter += self.turns / self.npoints
         return counter
 
     def __repr__(self):
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index f5a56a3..c727a48 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -126,7 +126,7 @@ class ShapedCoil(Coil):
 
     def inShape(self,polygon):
         Shaped_Coil = Polygon([shape for shape in self.shape])
-        return (polygon.intersection(Shaped_Coil).area) / (self._area)
+        return self.turns * (polygon.intersection(Shaped_Coil).area) / (self._area)
 
     def __repr__(self):
         return "ShapedCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From 4d2888c40672ffe533fd6f98c42d2e77c5b5ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:54 +0000
Subject: [PATCH 32/59] fix: Rogowski sensors see solenoids and all points of a
 MultiCoil

---
 freegs/machine.py    | 10 ++++++++++
 freegs/multi_coil.py | 13 +++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index c9c5c2c..862eee6 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -431,6 +431,16 @@ class Solenoid:
         """
         return {}
 
+    def inShape(self, polygon):
+        """
+        Number of turns inside the polygon
+        """
+        return sum(
+            1
+            for Zs in np.linspace(self.Zsmin, self.Zsmax, self.Ns)
+            if polygon.contains(Point(self.Rs, Zs))
+        )
+
     def __repr__(self):
         return "Solenoid(Rs={0}, Zsmin={1}, Zsmax={2}, current={3}, Ns={4}, control={5})".format(
             self.Rs, self.Zsmin, self.Zsmax, self.current, self.Ns, self.control
diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 2464aa5..03bb20b 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -23,6 +23,7 @@ along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 """
 
 import numpy as np
+from shapely.geometry import Point
 from .coil import Coil, AreaCurrentLimit
 from .gradshafranov import Greens, GreensBr, GreensBz
 
@@ -192,6 +193,18 @@ class MultiCoil(Coil):
         # is given there is one turn per point, so this factor is one
         return result * self.turns / len(self.Rfil)
 
+    def inShape(self, polygon):
+        """
+        Total current inside the polygon for a unit current
+        """
+        result = 0.0
+        for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
+            if polygon.contains(Point(R_fil, Z_fil)):
+                result += self.polarity[0]
+            if self.mirror and polygon.contains(Point(R_fil, -Z_fil)):
+                result += self.polarity[1]
+        return result * self.turns / len(self.Rfil)
+
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
             self.Rfil,
-- 
2.43.0


From 768b9ae138177031b390c050b6929e3ac0b0d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:02 +0000
Subject: [PATCH 33/59] fix: machines without sensors and sensors that are off
 can be measured and printed

---
 freegs/machine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 862eee6..f8a14e4 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -516,8 +516,7 @@ class Sensor:
         self.name = name
         self.weight = weight
 
-        if self.status:
-            self.measurement = measurement
+        self.measurement = measurement
 
 
     def __repr__(self):
@@ -666,7 +665,7 @@ class Machine:
 
         self.coils = coils
         self.wall = wall
-        self.sensors = sensors
+        self.sensors = [] if sensors is None else sensors
         self.R0 = R0
 
         self.limit_points_R = None
-- 
2.43.0


From 72b56a32dcc7367430892b2ed400e09aa581cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:18 +0000
Subject: [PATCH 34/59] fix: circuits whose first multiplier is zero can be
 read back

---
 freegs/machine.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index f8a14e4..1f1d644 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -273,13 +273,19 @@ class Circuit:
                 return s  # Probably already a string
 
         # Use the current/control values from the first coil in the circuit
-        # Should be consistent!
+        # which has a non-zero multiplier. Should be consistent!
+        current = 0.0
+        for item in value:
+            if item["multiplier"] != 0.0:
+                current = item["coil"]["current"] / item["multiplier"]
+                break
+
         return Circuit(
             [
                 (toString(label), Coil(*coil), multiplier)
                 for label, coil, multiplier in value
             ],
-            current=value[0][1]["current"] / value[0]["multiplier"],
+            current=current,
             control=value[0][1]["control"],
         )
 
-- 
2.43.0


From 5582ddf8dbef385ca81be5b3f595ffdcf701fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:03 +0000
Subject: [PATCH 35/59] fix: filament coils can be written to and read from
 HDF5 files

---
 freegs/filament_coil.py | 57 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 83ebf84..beb80b7 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -188,6 +188,9 @@ class FilamentCoil(Coil):
             (str("turns"), int),
             (str("control"), bool),
             (str("npoints"), int),
+            (str("shapelen"), int),  # Length of shape_R and shape_Z arrays
+            (str("shape_R"), "500f8"),
+            (str("shape_Z"), "500f8"),
         ]
     )
 
@@ -309,6 +312,60 @@ class FilamentCoil(Coil):
                 counter += self.turns / self.npoints
         return counter
 
+    def to_numpy_array(self):
+        """
+        Helper method for writing output
+        """
+        RZlen = len(self.points)
+        R = np.zeros(500)
+        Z = np.zeros(500)
+        R[:RZlen] = [R for R, Z in self.points]
+        Z[:RZlen] = [Z for R, Z in self.points]
+
+        shapelen = len(self.shape)
+        shape_R = np.zeros(500)
+        shape_Z = np.zeros(500)
+        shape_R[:shapelen] = [R for R, Z in self.shape]
+        shape_Z[:shapelen] = [Z for R, Z in self.shape]
+
+        return np.array(
+            (
+                RZlen,
+                R,
+                Z,
+                self.current,
+                self.turns,
+                self.control,
+                self.npoints,
+                shapelen,
+                shape_R,
+                shape_Z,
+            ),
+            dtype=self.dtype,
+        )
+
+    @classmethod
+    def from_numpy_array(cls, value):
+        if value.dtype != cls.dtype:
+            raise ValueError(
+                "Can't create {this} from dtype: {got} (expected: {dtype})".format(
+                    this=type(cls), got=value.dtype, dtype=cls.dtype
+                )
+            )
+        RZlen = value["RZlen"]
+        shapelen = value["shapelen"]
+
+        return FilamentCoil(
+            value["R"][:RZlen],
+            value["Z"][:RZlen],
+            shape=list(
+                zip(value["shape_R"][:shapelen], value["shape_Z"][:shapelen])
+            ),
+            current=value["current"],
+            turns=value["turns"],
+            control=value["control"],
+        )
+
     def __repr__(self):
         return "FilamentCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
             self.points, self.current, self.turns, self.control
-- 
2.43.0


From b14dbac497505d1f92994186a30fb4c58b34ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:14 +0000
Subject: [PATCH 36/59] fix: MultiCoil can be written to and read from HDF5
 files

---
 freegs/dump.py       | 3 +++
 freegs/multi_coil.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/freegs/dump.py b/freegs/dump.py
index 3822962..22294e5 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -40,6 +40,7 @@ from .equilibrium import Equilibrium
 from .machine import Coil, Circuit, Solenoid, Wall, Machine
 from .shaped_coil import ShapedCoil
 from .filament_coil import FilamentCoil
+from .multi_coil import MultiCoil
 from . import boundary
 from . import machine
 
@@ -116,6 +117,7 @@ class OutputFile(object):
         self.handle["coil_dtype"] = Coil.dtype
         self.handle["shapedcoil_dtype"] = ShapedCoil.dtype
         self.handle["filamentcoil_dtype"] = FilamentCoil.dtype
+        self.handle["multicoil_dtype"] = MultiCoil.dtype
         self.handle["circuit_dtype"] = Circuit.dtype
         self.handle["solenoid_dtype"] = Solenoid.dtype
 
@@ -123,6 +125,7 @@ class OutputFile(object):
             Coil.dtype: self.handle["coil_dtype"],
             ShapedCoil.dtype: self.handle["shapedcoil_dtype"],
             FilamentCoil.dtype: self.handle["filamentcoil_dtype"],
+            MultiCoil.dtype: self.handle["multicoil_dtype"],
             Circuit.dtype: self.handle["circuit_dtype"],
             Solenoid.dtype: self.handle["solenoid_dtype"],
         }
diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 03bb20b..9c3df78 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -265,6 +265,9 @@ class MultiCoil(Coil):
         RZlen = value["RZlen"]
         R = value["R"][:RZlen]
         Z = value["Z"][:RZlen]
+        if RZlen == 1:
+            # A single point, which can have more than one turn
+            R, Z = R[0], Z[0]
         current = value["current"]
         turns = value["turns"]
         control = value["control"]
-- 
2.43.0


From ce40f627c78079ee5a1786c395195d0c02412b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:22 +0000
Subject: [PATCH 37/59] fix: HDF5 files keep R0, the order of the solver and
 check_limited

---
 freegs/dump.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/freegs/dump.py b/freegs/dump.py
index 22294e5..94104cf 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -164,8 +164,13 @@ class OutputFile(object):
         equilibrium_group.create_dataset(
             "boundary_function", data=equilibrium._applyBoundary.__name__
         )
+        equilibrium_group.create_dataset("order", data=equilibrium.order)
+        equilibrium_group.create_dataset(
+            "check_limited", data=equilibrium.check_limited
+        )
 
         tokamak_group = equilibrium_group.create_group(self.MACHINE_GROUP_NAME)
+        tokamak_group.create_dataset("R0", data=equilibrium.tokamak.R0)
 
         if equilibrium.tokamak.wall is not None:
             tokamak_group.create_dataset("wall_R", data=equilibrium.tokamak.wall.R)
@@ -219,7 +224,17 @@ class OutputFile(object):
         else:
             wall = None
 
-        tokamak = Machine(coils, wall)
+        # Not present in files written by older versions
+        options = {}
+        if "R0" in tokamak_group:
+            options["R0"] = tokamak_group["R0"][()]
+        tokamak = Machine(coils, wall, **options)
+
+        options = {}
+        if "order" in equilibrium_group:
+            options["order"] = int(equilibrium_group["order"][()])
+        if "check_limited" in equilibrium_group:
+            options["check_limited"] = bool(equilibrium_group["check_limited"][()])
 
         Rmin = equilibrium_group["Rmin"][()]
         Rmax = equilibrium_group["Rmax"][()]
@@ -252,6 +267,7 @@ class OutputFile(object):
             psi=plasma_psi,
             current=current,
             boundary=eq_boundary_func,
+            **options,
         )
 
         return equilibrium
-- 
2.43.0


From 6e83a380d698d4c8eb6e6d1f12beccbac8da6d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:42 +0000
Subject: [PATCH 38/59] fix: reading a GEQDSK file with a limiter regenerates
 the limit points

---
 freegs/geqdsk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 8128c98..6fe4720 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -250,6 +250,11 @@ def read(
     if "rlim" in data:
         if len(data["rlim"]) > 3:
             machine.wall = Wall(data["rlim"], data["zlim"])
+            # Limit points must be on the new wall
+            (
+                machine.limit_points_R,
+                machine.limit_points_Z,
+            ) = machine.generate_limit_points(500)
         else:
             print("Fewer than 3 points given for limiter/wall. Ignoring.")
 
-- 
2.43.0


From 1d7aee7b71e39da0d762e028e7bae98eff5e0434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:54 +0000
Subject: [PATCH 39/59] fix: GEQDSK profiles are written on the flux grid that
 readers assume

---
 freegs/geqdsk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 6fe4720..14bd20b 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -105,7 +105,8 @@ def write(eq, fh, label=None, oxpoints=None, fileformat=geqdsk.write):
 
     data["cpasma"] = eq.plasmaCurrent()  # Plasma current [A]
 
-    psinorm = linspace(0.0, 1.0, nx, endpoint=False)  # Does not include separatrix
+    # Uniform flux grid from the axis to the boundary
+    psinorm = linspace(0.0, 1.0, nx, endpoint=True)
 
     data["fpol"] = eq.fpol(psinorm)
     data["pres"] = eq.pressure(psinorm)
@@ -119,8 +120,9 @@ def write(eq, fh, label=None, oxpoints=None, fileformat=geqdsk.write):
     data["simagx"] = 0.0
 
     qpsi = zeros([nx])
-    qpsi[1:] = eq.q(psinorm[1:])  # Exclude axis
+    qpsi[1:-1] = eq.q(psinorm[1:-1])  # Exclude axis and separatrix
     qpsi[0] = qpsi[1]
+    qpsi[-1] = qpsi[-2]
     data["qpsi"] = qpsi
 
     # rlim, zlim contain the wall, if there is one.
-- 
2.43.0


From cf2aaf8a916ad5ae4be3852f545a9a6635fa4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:02 +0000
Subject: [PATCH 40/59] fix: reading a GEQDSK file onto another domain

---
 freegs/geqdsk.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 14bd20b..2a0d891 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -378,6 +378,7 @@ def read(
         # Change the (R,Z) domain, increasing the resolution if needed
         # to keep the resolution as good or better than the input
         Rmin, Rmax, Zmin, Zmax = domain
+        newnx, newny = nx, ny
         # Calculate approximate grid size needed to keep current resolution
         fnewnx = (Rmax - Rmin) / dR + 1.0
         if fnewnx > nx:
@@ -392,6 +393,9 @@ def read(
         # Create an interpolation function for Jtor and the input psi
         Jtor_func = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], Jtor)
         psi_func = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psi)
+        mask_func = interpolate.RectBivariateSpline(
+            eq.R[:, 0], eq.Z[0, :], mask, kx=1, ky=1
+        )
 
         # Create a new Equilibrium object
         # (replacing previous 'eq')
@@ -401,21 +405,17 @@ def read(
             Rmax=Rmax,
             Zmin=Zmin,
             Zmax=Zmax,
-            nx=nx,
-            ny=ny,
+            nx=newnx,
+            ny=newny,
             check_limited=True,
         )
 
         # Interpolate Jtor and psi onto new grid
         Jtor = Jtor_func(eq.R, eq.Z, grid=False)
         psi = psi_func(eq.R, eq.Z, grid=False)
+        mask = mask_func(eq.R, eq.Z, grid=False)
 
-        psi_bndry = eq.psi_bndry
-        psi_axis = eq.psi_axis
-        mask = eq.mask
-
-        # Update the mask function by calculating normalised psi
-        # on the new grid
+        # Calculate normalised psi on the new grid
         psi_norm = clip((psi - psi_axis) / (psi_bndry - psi_axis), 0.0, 1.0)
 
     # Note: Here we have
-- 
2.43.0


From 4bd6e3e951275980233ed4208674c5f0182e4a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:39 +0000
Subject: [PATCH 41/59] fix: reading a GEQDSK file does not depend on the
 currents already in the coils

---
 freegs/geqdsk.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 2a0d891..a1993ab 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -347,17 +347,25 @@ def read(
     # rcentr reference location
     machine.R0 = data["rcentr"]
 
+    Rmin, Rmax = data["rleft"], data["rleft"] + data["rdim"]
+    Zmin, Zmax = data["zmid"] - 0.5 * data["zdim"], data["zmid"] + 0.5 * data["zdim"]
+
+    # The input psi includes the coils, which may already carry currents
+    psi_coils = machine.psi(
+        *np.meshgrid(linspace(Rmin, Rmax, nx), linspace(Zmin, Zmax, ny), indexing="ij")
+    )
+
     # Create an Equilibrium object
     eq = Equilibrium(
         tokamak=machine,
-        Rmin=data["rleft"],
-        Rmax=data["rleft"] + data["rdim"],
-        Zmin=data["zmid"] - 0.5 * data["zdim"],
-        Zmax=data["zmid"] + 0.5 * data["zdim"],
+        Rmin=Rmin,
+        Rmax=Rmax,
+        Zmin=Zmin,
+        Zmax=Zmax,
         nx=nx,
         ny=ny,  # Number of grid points
         check_limited=True,
-        psi=psi,
+        psi=psi - psi_coils,
     )
     # Grid spacing
     dR = eq.R[1, 0] - eq.R[0, 0]
-- 
2.43.0


From efbc2a7befb84229a4f0289886cba9013fc6b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:12 +0000
Subject: [PATCH 42/59] fix: q() of a single value

---
 freegs/equilibrium.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 0faa842..01384dc 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -360,7 +360,7 @@ class Equilibrium:
             psinorm = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
             return psinorm, critical.find_safety(self, psinorm=psinorm)
 
-        psinorm = np.asarray(psinorm)
+        psinorm = np.atleast_1d(psinorm)
         if np.any((psinorm < 0.01) | (psinorm > 0.99)):
             psinorm_inner = np.linspace(0.01, 0.99, num=npsi)
             q_inner = critical.find_safety(self, psinorm=psinorm_inner)
@@ -374,7 +374,7 @@ class Equilibrium:
 
         # Convert to a scalar if only one result
         if np.size(result) == 1:
-            return float(result)
+            return float(np.ravel(result)[0])
         return result
 
     def tor_flux(self, psi=None):
-- 
2.43.0


From 53227e891d7151ee3bddfe2c1c5c824f0e91c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:26 +0000
Subject: [PATCH 43/59] fix: reading a GEQDSK file with a freeqdsk that returns
 an object

---
 freegs/geqdsk.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index a1993ab..a11480e 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -249,9 +249,16 @@ def read(
     data = geqdsk.read(fh, cocos=cocos)
 
     # If data contains a limiter, set the machine wall
-    if "rlim" in data:
-        if len(data["rlim"]) > 3:
-            machine.wall = Wall(data["rlim"], data["zlim"])
+    # Note: Depending on its version, freeqdsk returns either a dict
+    #       or an object whose limiter is None if there isn't one
+    try:
+        rlim, zlim = data["rlim"], data["zlim"]
+    except KeyError:
+        rlim, zlim = None, None
+
+    if rlim is not None:
+        if len(rlim) > 3:
+            machine.wall = Wall(rlim, zlim)
             # Limit points must be on the new wall
             (
                 machine.limit_points_R,
-- 
2.43.0


From 7e7c50bf9c3238beb31f1b07f9ca1a7110b1ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:31 +0000
Subject: [PATCH 44/59] fix: optimiser could return a worse candidate than the
 start

---
 freegs/optimiser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index f36910c..a521bfc 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -122,14 +122,14 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
 
     assert N >= 4
 
-    best = (measure(obj), obj)  # Highest score, candidate solution (agent)
+    best = (measure(obj), obj)  # Lowest score, candidate solution (agent)
     population = [best]  # List of (score, agent)
 
     for i in range(N - 1):
         agent = mutate(obj, controls)
         score_agent = (measure(agent), agent)
         population.append(score_agent)
-        if score_agent[0] > best[0]:
+        if score_agent[0] < best[0]:
             best = score_agent
 
     for generation in range(maxgen):
-- 
2.43.0


From 96c357f2a1af4b86de20430233bd8012119e3d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:42 +0000
Subject: [PATCH 45/59] fix: optimiser failed with one control and never picked
 the last one

---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index a521bfc..1e23699 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -139,7 +139,7 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
             others = [population[index][1] for index in pickUnique(N, 3, [ai])]
 
             new_obj = copy.deepcopy(agent[1])
-            R = random.randint(0, len(controls) - 1)  # Pick a random control to modify
+            R = random.randint(0, len(controls))  # Pick a random control to modify
             for i, control in enumerate(controls):
                 if i == R or random.random() < CR:
                     control.set(
-- 
2.43.0


From 8697f2ece18feb10481a5b28cbf8f3ba2c369ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:53 +0000
Subject: [PATCH 46/59] fix: optimiser never picked some agents

---
 freegs/optimiser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index 1e23699..ea144ed 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -65,11 +65,11 @@ def pickUnique(N, m, e):
     inds = sorted(e)  # Sorted list of indices. Used to avoid clashes
     others = []  # The list of three agents
     for i in range(m):
-        high = N - 1 - i - len(e)
-        newind = random.randint(0, high) if high > 0 else 0
-        
+        # Pick one of the remaining values
+        newind = random.randint(0, N - i - len(e))
+
         for ind in inds:
-            if newind == ind:
+            if newind >= ind:
                 newind += 1
         bisect.insort(inds, newind)
         others.append(newind)
-- 
2.43.0


From 0ef4f7302c7f62a4122b672103f6c507a120b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:10 +0000
Subject: [PATCH 47/59] fix: coil position controls ignored limits of zero

---
 freegs/optimise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index b321b33..df9b448 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -96,9 +96,9 @@ class CoilRadius:
         self.maximum = maximum
 
     def set(self, eq, R):
-        if self.minimum and (R < self.minimum):
+        if self.minimum is not None and (R < self.minimum):
             R = self.minimum
-        if self.maximum and (R > self.maximum):
+        if self.maximum is not None and (R > self.maximum):
             R = self.maximum
         eq.tokamak[self.label].R = R
 
@@ -120,9 +120,9 @@ class CoilHeight:
         self.maximum = maximum
 
     def set(self, eq, Z):
-        if self.minimum and (Z < self.minimum):
+        if self.minimum is not None and (Z < self.minimum):
             Z = self.minimum
-        if self.maximum and (Z > self.maximum):
+        if self.maximum is not None and (Z > self.maximum):
             Z = self.maximum
         eq.tokamak[self.label].Z = Z
 
-- 
2.43.0


From bc0533d57b2bb987cba73021eacca3043e1863e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:21 +0000
Subject: [PATCH 48/59] fix: max_coil_force left out the plasma and failed on
 circuits and solenoids

---
 freegs/optimise.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index df9b448..cd6dd9b 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -41,8 +41,19 @@ def max_abs_coil_current(eq):
 
 
 def max_coil_force(eq):
-    forces = eq.tokamak.getForces()  # dictionary
-    return max(sqrt(force[0] ** 2 + force[1] ** 2) for force in forces.values())
+    """
+    Given an equilibrium, return the maximum force on a coil
+    due to the plasma and all coils
+    """
+
+    def magnitudes(forces):
+        for force in forces.values():
+            if isinstance(force, dict):  # Circuit: label -> force, or Solenoid: empty
+                yield from magnitudes(force)
+            else:
+                yield sqrt(force[0] ** 2 + force[1] ** 2)
+
+    return max(magnitudes(eq.tokamak.getForces(eq)))
 
 
 def no_wall_intersection(eq):
-- 
2.43.0


From 4813b5275547cee6c9fe2514509eca4741bc3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:32 +0000
Subject: [PATCH 49/59] fix: field line length was negative if Btor is negative

---
 freegs/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index db48419..81a7d0d 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -113,7 +113,7 @@ class FieldTracer(object):
         # Rate of change of position with toroidal angle phi
         dRdphi = evolving_R_Bt * Br
         dZdphi = evolving_R_Bt * Bz
-        dldphi = evolving_R_Bt * B
+        dldphi = np.abs(evolving_R_Bt) * B
 
         if backward:
             # Reverse direction
-- 
2.43.0


From b348a0e94492e238f86f60fce180f81bfb497609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:44 +0000
Subject: [PATCH 50/59] fix: field lines could not be followed from scalar or
 2D positions

---
 freegs/fieldtracer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index 81a7d0d..b649127 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -134,10 +134,13 @@ class FieldTracer(object):
         array_shape = Rstart.shape
         assert Zstart.shape == array_shape
 
-        evolving = np.ones(array_shape)
+        # One entry for each field line
+        evolving = np.ones(Rstart.size)
 
         # (R,Z,length) with length=0 initially
-        position = np.column_stack((Rstart, Zstart, np.zeros(array_shape))).flatten()
+        position = np.column_stack(
+            (np.ravel(Rstart), np.ravel(Zstart), np.zeros(Rstart.size))
+        ).flatten()
 
         result = odeint(
             self.fieldDirection, position, angles, args=(evolving, backward), rtol=rtol
-- 
2.43.0


From f496ce3ce08a19229855c731ca91d7ad4456bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:21 +0000
Subject: [PATCH 51/59] fix: field lines behind a corner of the wall were taken
 to be inside

---
 freegs/fieldtracer.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index b649127..92113f7 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -75,17 +75,14 @@ class FieldTracer(object):
             # Note: Here expect divide-by-zero errors occasionally
             # but the resulting values won't be used
             alpha = (d * dr - b * dz) / det  # Location along line 1 [0,1]
-            beta = (a * dz - c * dr) / det  # Location along line 2 [0,1]
+
+            # Are the ends of the wall segment on different sides of line 1?
+            # Note: So that a corner on line 1 is counted once if it is crossed
+            side_start = a * (Zwall[wi] - Zmid) - c * (Rwall[wi] - Rmid) >= 0.0
+            side_end = a * dz - c * dr >= 0.0
 
             # If the lines cross, change outside <-> inside
-            # Note: If det is small then lines are nearly parallel
-            outside ^= (
-                (np.abs(det) > 1e-6)
-                & (alpha > 0.0)
-                & (alpha < 1.0)
-                & (beta > 0.0)
-                & (beta < 1.0)
-            )
+            outside ^= (side_start != side_end) & (alpha > 0.0) & (alpha < 1.0)
         evolving[outside] = 0.0
 
     def fieldDirection(self, pos, toroidal_angle, evolving, backward):
-- 
2.43.0


From 6f45d5d099d3f27fdd573add83160742d81e0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:54 +0000
Subject: [PATCH 52/59] fix: coils could not be populated with filaments

np.interp was given a list and returned an array, so the staggered rows
were arrays and not numbers, and shapely refused them.
---
 freegs/filament_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index beb80b7..10151c0 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -113,7 +113,7 @@ def populate_with_fils(shape, Nfils):
 
     # Now linearly interpolate to get the d that corresponds
     # to the closest nInside to Nfils
-    d_opt = np.interp([Nfils * 1.1], nInside_data, d_data)
+    d_opt = np.interp(Nfils * 1.1, nInside_data, d_data)
 
     # Now get the locations of the filaments for this d = d_opt where nInside ~ Nfils
     rfils = []
-- 
2.43.0


From cd15ec89c3a1e1c4b90ffb2c164f262d45306f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:07 +0000
Subject: [PATCH 53/59] fix: thin coils could be left without filaments

---
 freegs/filament_coil.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 10151c0..6e013ae 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -74,6 +74,7 @@ def populate_with_fils(shape, Nfils):
     while nInside < Nfils:
 
         nInside = 0
+        inside = []  # Points inside the shape for this d
         i = 0  # Row counter used for staggering every other row
         # Create the (non-staggered) grid points for the given d(=dR,dZ)
         Rgrid = np.arange(rmin, rmax, d, dtype=float)
@@ -99,6 +100,7 @@ def populate_with_fils(shape, Nfils):
                 point = geometry.Point(rpoint, zpoint)
                 if my_polygon.contains(point):
                     nInside += 1
+                    inside.append((rpoint, zpoint))
 
         # End of looping over points. Note d and nInside
         d_data.append(d)
@@ -151,6 +153,10 @@ def populate_with_fils(shape, Nfils):
                 rfils.append(rpoint)
                 zfils.append(zpoint)
 
+    if nInside == 0:
+        # A thin shape can lie between the rows of the interpolated d
+        rfils, zfils = zip(*inside)
+
     rfils = np.asarray(rfils)
     zfils = np.asarray(zfils)
 
-- 
2.43.0


From 0de6ee4af549bc6336918a483ec5e943a43f6a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:31 +0000
Subject: [PATCH 54/59] fix: comparing machines with different walls raised

Walls with different numbers of points, or a wall and no wall, could not
be compared.
---
 freegs/machine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 1f1d644..2be49ea 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -503,7 +503,12 @@ class Wall:
         return "Wall(R={R}, Z={Z})".format(R=self.R, Z=self.Z)
 
     def __eq__(self, other):
-        return np.allclose(self.R, other.R) and np.allclose(self.Z, other.Z)
+        return (
+            isinstance(other, Wall)
+            and len(self.R) == len(other.R)
+            and np.allclose(self.R, other.R)
+            and np.allclose(self.Z, other.Z)
+        )
 
     def __ne__(self, other):
         return not self == other
-- 
2.43.0


From 4a2f9bf9dfafa0b6c20c31753c2ba8c72b74908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:40 +0000
Subject: [PATCH 55/59] fix: comparing coils of different kinds raised

or, for shaped coils, coils with different numbers of corners.
---
 freegs/coil.py        | 3 ++-
 freegs/machine.py     | 6 ++++--
 freegs/multi_coil.py  | 3 ++-
 freegs/shaped_coil.py | 4 +++-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/freegs/coil.py b/freegs/coil.py
index bd2d46b..1847b4e 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -220,7 +220,8 @@ class Coil:
 
     def __eq__(self, other):
         return (
-            self.R == other.R
+            type(self) is type(other)
+            and self.R == other.R
             and self.Z == other.Z
             and self.current == other.current
             and self.turns == other.turns
diff --git a/freegs/machine.py b/freegs/machine.py
index 2be49ea..1f7cfdc 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -236,7 +236,8 @@ class Circuit:
 
     def __eq__(self, other):
         return (
-            self.coils == other.coils
+            isinstance(other, Circuit)
+            and self.coils == other.coils
             and self.current == other.current
             and self.control == other.control
         )
@@ -454,7 +455,8 @@ class Solenoid:
 
     def __eq__(self, other):
         return (
-            self.Rs == other.Rs
+            isinstance(other, Solenoid)
+            and self.Rs == other.Rs
             and self.Zsmin == other.Zsmin
             and self.Zsmax == other.Zsmax
             and self.Ns == other.Ns
diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 9c3df78..3c20041 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -218,7 +218,8 @@ class MultiCoil(Coil):
 
     def __eq__(self, other):
         return (
-            self.R == other.R
+            type(self) is type(other)
+            and self.R == other.R
             and self.Z == other.Z
             and self.current == other.current
             and self.turns == other.turns
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index c727a48..ae64a3c 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -242,7 +242,9 @@ class ShapedCoil(Coil):
 
     def __eq__(self, other):
         return (
-            np.allclose(self.shape, other.shape)
+            isinstance(other, ShapedCoil)
+            and len(self.shape) == len(other.shape)
+            and np.allclose(self.shape, other.shape)
             and self.current == other.current
             and self.turns == other.turns
             and self.control == other.control
-- 
2.43.0


From 21be8f6d6de8232000c5ef1e0b1483ed5edd9461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:52 +0000
Subject: [PATCH 56/59] fix: coils with different filaments compared equal

---
 freegs/filament_coil.py | 7 +++++++
 freegs/multi_coil.py    | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 6e013ae..51c5202 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -372,6 +372,13 @@ class FilamentCoil(Coil):
             control=value["control"],
         )
 
+    def __eq__(self, other):
+        return (
+            super().__eq__(other)
+            and self.npoints == other.npoints
+            and np.allclose(self.points, other.points)
+        )
+
     def __repr__(self):
         return "FilamentCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
             self.points, self.current, self.turns, self.control
diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 3c20041..8d39392 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -219,8 +219,10 @@ class MultiCoil(Coil):
     def __eq__(self, other):
         return (
             type(self) is type(other)
-            and self.R == other.R
-            and self.Z == other.Z
+            and list(self.Rfil) == list(other.Rfil)
+            and list(self.Zfil) == list(other.Zfil)
+            and self.mirror == other.mirror
+            and list(self.polarity) == list(other.polarity)
             and self.current == other.current
             and self.turns == other.turns
             and self.control == other.control
-- 
2.43.0


From 6d84eaece523deb82b3fef5f74ac3149115282e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:18 +0000
Subject: [PATCH 57/59] fix: multigrid solver overwrote the caller's initial
 guess

---
 freegs/multigrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/multigrid.py b/freegs/multigrid.py
index 68be8ee..c55b076 100644
--- a/freegs/multigrid.py
+++ b/freegs/multigrid.py
@@ -73,7 +73,8 @@ class MGJacobi:
         """
 
         # Need to reshape x and b into 1D arrays
-        x = reshape(xi, -1)
+        # Note: Copy, since x is modified here but xi belongs to the caller
+        x = reshape(xi, -1).copy()
         b = reshape(bi, -1)
 
         if ncycle is None:
-- 
2.43.0


From 62a97909f6a2cccb5d96e64b6c84c8cd21f4febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:30 +0000
Subject: [PATCH 58/59] fix: find_safety ignored the requested number of
 surfaces

---
 freegs/critical.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 74d201a..cd32899 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -443,7 +443,7 @@ def find_separatrix(
 
 
 def find_safety(
-    eq, npsi=1, psinorm=None, ntheta=128, psi=None, opoint=None, xpoint=None, axis=None
+    eq, npsi=100, psinorm=None, ntheta=128, psi=None, opoint=None, xpoint=None, axis=None
 ):
     """Find the safety factor for each value of psi
     Calculates equally spaced flux surfaces. Points on
@@ -494,7 +494,6 @@ def find_safety(
         theta_grid += dtheta / 2
 
     if psinorm is None:
-        npsi = 100
         psirange = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
     else:
         try:
-- 
2.43.0


From f9b0a742fee38cb41feaf6ad71be887a5d5ffb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:46 +0000
Subject: [PATCH 59/59] fix: centre of a coil with a closed outline counted its
 first corner twice

---
 freegs/filament_coil.py | 6 ++++--
 freegs/pre_calc_coil.py | 6 ++++--
 freegs/shaped_coil.py   | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 51c5202..f9cd67c 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -256,8 +256,10 @@ class FilamentCoil(Coil):
 
         # Find the geometric middle of the coil
         # The R,Z properties have accessor functions to handle modifications
-        self._R_centre = sum(r for r, z in shape) / len(shape)
-        self._Z_centre = sum(z for r, z in shape) / len(shape)
+        # Note: In a closed outline the last point repeats the first
+        corners = shape[:-1] if tuple(shape[0]) == tuple(shape[-1]) else shape
+        self._R_centre = sum(r for r, z in corners) / len(corners)
+        self._Z_centre = sum(z for r, z in corners) / len(corners)
 
         self.current = current
         self.turns = turns
diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 1e67a44..c69ba0a 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -96,8 +96,10 @@ class PreCalcCoil(Coil):
 
         # Find the geometric middle of the coil
         # The R,Z properties have accessor functions to handle modifications
-        self._R_centre = sum(r for r, z in shape) / len(shape)
-        self._Z_centre = sum(z for r, z in shape) / len(shape)
+        # Note: In a closed outline the last point repeats the first
+        corners = shape[:-1] if tuple(shape[0]) == tuple(shape[-1]) else shape
+        self._R_centre = sum(r for r, z in corners) / len(corners)
+        self._Z_centre = sum(z for r, z in corners) / len(corners)
 
         self.current = current
         self.turns = turns
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index ae64a3c..5f986f3 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -83,8 +83,10 @@ class ShapedCoil(Coil):
 
         # Find the geometric middle of the coil
         # The R,Z properties have accessor functions to handle modifications
-        self._R_centre = sum(r for r, z in shape) / len(shape)
-        self._Z_centre = sum(z for r, z in shape) / len(shape)
+        # Note: In a closed outline the last point repeats the first
+        corners = shape[:-1] if tuple(shape[0]) == tuple(shape[-1]) else shape
+        self._R_centre = sum(r for r, z in corners) / len(corners)
+        self._Z_centre = sum(z for r, z in corners) / len(corners)
 
         self.current = current
         self.turns = turns
-- 
2.43.0

