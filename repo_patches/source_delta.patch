From 2485e28e9eb53811c3da6861bf80217971029dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 01/41] fix: no y-connection between the last row of a layer
 and the next layer in 3D coefficient matrices

---
 reservoirflow/grids/regular_cartesian.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ac7678b..58eecff 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2847,14 +2847,13 @@ class RegularCartesian(Grid):
             n3 = self.nx_b * self.ny_b
             n3_ = n3 - self.nx_b
             n4 = n3 * self.nz_b - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx_b, n3)
         else:
             n3 = self.nx * self.ny
             n3_ = n3 - self.nx
             n4 = n3 * self.nz - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx, n3)
         if diag_2 is not None:
-            diag_2[diag_2_zero_ids] = 0
+            # last row in y of a layer is not connected to the next layer.
+            diag_2[np.arange(len(diag_2)) % n3 >= n3_] = 0
         k = self.get_cells_k(dir, boundary, False, "array")
         A = self.get_cells_A(dir, boundary, False)
         d = self.get_cells_d(dir, boundary, False)
-- 
2.43.0


From 51895256f42a020eb32a81b2e07010875fa1ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 02/41] fix: use harmonic means when permeability differs in
 boundary cells only

---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 58eecff..5eb94d4 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2713,7 +2713,7 @@ class RegularCartesian(Grid):
         props = ["kx", "ky", "kz"]
         props = [name for name in props if self.__props__[name] is not None]
         for name in props:
-            prop = self.get_prop(name, False, False)
+            prop = self.get_prop(name, True, False)
             if not np.all(prop == prop[0]):
                 return False
         return True
-- 
2.43.0


From 4864ee50ccf0b1e24386015fa831edce3b9ae947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 03/41] fix: set_prop with id or coords writes to the selected
 cells of the flatten array

---
 reservoirflow/grids/regular_cartesian.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 5eb94d4..e669bfb 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2412,12 +2412,12 @@ class RegularCartesian(Grid):
                 self.__props__[name] = self.get_ones(True, False, False) * value
                 s = "all cells"
             else:
-                if id is not None:
-                    coords = self.get_cell_coords(id, True)
-                if coords is not None:
-                    icoords = self.get_cell_icoords(coords)
-                    self.__props__[name][icoords] = value
-                    s = "cell coords " + str(coords)
+                if id is None:
+                    id = self.get_cell_id(coords, True)
+                if isinstance(id, tuple):
+                    id = list(id)
+                self.__props__[name][id] = value
+                s = "cell id " + str(id)
         else:
             msg = (
                 f"Property {name} is unknown or not defined. "
-- 
2.43.0


From 56055c84478b953c0084eef4c4a42e652487ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 04/41] fix: icoords of boundary cells with zero coordinates
 when unify=False

---
 reservoirflow/grids/regular_cartesian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index e669bfb..c6dd949 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -741,7 +741,8 @@ class RegularCartesian(Grid):
             msg = "coords are out of range."
             assert utils.helpers.isin(coords, cells_coords), msg
             if not self.unify and self.D <= 2:
-                icoords = tuple(c for c in coords[::-1] if c > 0)
+                axes = ["xyz".index(s) for s in self.fdir[::-1] if s != "-"]
+                icoords = tuple(coords[i] for i in axes)
                 assert len(icoords) == self.get_D(), "icoords is not compatible"
             else:
                 icoords = tuple(c for c in coords[::-1])
-- 
2.43.0


From dacb93409c4f8f5cf660c36cd8cc2915f3ba103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 05/41] fix: cached cell properties and flags follow set_prop

---
 reservoirflow/grids/regular_cartesian.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index c6dd949..478e80e 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2419,6 +2419,7 @@ class RegularCartesian(Grid):
                     id = list(id)
                 self.__props__[name][id] = value
                 s = "cell id " + str(id)
+            self.__clear_props_cache()
         else:
             msg = (
                 f"Property {name} is unknown or not defined. "
@@ -2429,6 +2430,16 @@ class RegularCartesian(Grid):
         if self.verbose:
             print(f"[info] {name} is {value} for {s}.")
 
+    def __clear_props_cache(self):
+        """Clears cached values which depend on grid properties."""
+        cls = RegularCartesian
+        cls.get_cell_k.cache_clear()
+        cls.get_cell_G.cache_clear()
+        cls.is_homogeneous.fget.cache_clear()
+        cls.is_heterogeneous.fget.cache_clear()
+        cls.is_isotropic.fget.cache_clear()
+        cls.is_anisotropic.fget.cache_clear()
+
     def get_prop(
         self,
         name,
-- 
2.43.0


From ccfe3cdda6d8f6750c42025935d78eb2377c4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 06/41] fix: get_ones and get_zeros return new arrays (models
 on one grid shared their rates)

---
 reservoirflow/grids/regular_cartesian.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 478e80e..c404089 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -422,7 +422,6 @@ class RegularCartesian(Grid):
 
         return self.order
 
-    @_lru_cache(maxsize=1)
     def get_ones(
         self,
         boundary: bool = True,
@@ -464,7 +463,6 @@ class RegularCartesian(Grid):
 
         return self.ones
 
-    @_lru_cache(maxsize=1)
     def get_zeros(
         self,
         boundary: bool = True,
-- 
2.43.0


From bdb0fa50ed55afa71061f5facee847c163f2db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 07/41] fix: get_cell_trans follows grid and fluid changes as
 get_cells_trans does

---
 reservoirflow/models/black_oil.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c7e002a..6a383a8 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -265,7 +265,6 @@ class BlackOil(Model):
         if self.verbose:
             print("[info] model compressibility (comp) was calculated.")
 
-    @_lru_cache(maxsize=None)
     def get_cell_trans(
         self,
         cell_id=None,
-- 
2.43.0


From 03c25e0b1fb8a81da56b357443999658e991dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 08/41] fix: boundary aliases, set_boundary and
 set_all_boundaries take effect in all solutions

---
 reservoirflow/models/black_oil.py | 37 ++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 6a383a8..c27ed43 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -550,26 +550,38 @@ class BlackOil(Model):
         # ----
         # - d is taken at x direction for gradient.
         cond = cond.lower()
+        T = self.get_cell_trans(cell_b_id, None, False)
         if cond in ["rate", "q"]:
             # newtest
             # self.rates[self.get_tstep(), cell_b_id] = v
-            self.__set_rate(self.__get_tstep(), cell_b_id, v)
+            cond = "rate"
+            rate = v if len(T) > 0 else 0
+            self.__set_rate(self.__get_tstep(), cell_b_id, rate)
         elif cond in ["pressure", "press", "p"]:
             # newtest
             # self.pressures[self.get_tstep(), cell_b_id] = v
+            cond = "pressure"
             self.__set_pressure(self.__get_tstep(), cell_b_id, v)
         elif cond in ["gradient", "grad", "g"]:
-            ((cell_id, T),) = self.get_cell_trans(cell_b_id, None, False).items()
+            cond = "gradient"
+            rate = 0
             cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
-            dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
-            self.__set_rate(
-                self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v
-            )
+            for cell_id in T:
+                dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
+                # newtest
+                # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
+                rate = T[cell_id] * self.grid.d[dir][cell_id] * v
+            self.__set_rate(self.__get_tstep(), cell_b_id, rate)
         else:
             raise ValueError(f"cond argument {cond} is unknown.")
 
+        self.bdict[cell_b_id] = (cond, v)
+        if cell_b_id in self.bdict_update:
+            self.bdict_update.remove(cell_b_id)
+        if cond == "pressure" and len(T) > 0:
+            self.bdict_update.append(cell_b_id)
+        self.cells_terms = {}
+
         if self.verbose:
             print(f"[info] boundary in cell {cell_b_id} was set to constant {cond}.")
 
@@ -583,17 +595,16 @@ class BlackOil(Model):
             id and values are a tuple of cond and value (e.g.
             {0: ("pressure", 4000), 1: ("rate", 0)})
         """
-        self.bdict = bdict
+        for cell_id in self.bdict:
+            self.__set_rate(self.__get_tstep(), cell_id, 0)
+        self.bdict = {}
+        self.bdict_update = []
         boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
             assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
             cond, v = bdict[cell_id]
             self.set_boundary(cell_id, cond, v)
 
-        self.bdict_update = [
-            id_b for id_b in self.bdict.keys() if self.bdict[id_b][0] == "pressure"
-        ]
-
     def set_all_boundaries(self, cond, v):
         """Set the same boundary condition in all boundaries.
 
-- 
2.43.0


From 3fb1d25dc25fbb3fc11550617f8de3e7bf15a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 09/41] fix: boundaries set between compile and the first step
 take effect

---
 reservoirflow/models/black_oil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c27ed43..8b3ed8d 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -228,6 +228,8 @@ class BlackOil(Model):
     def __set_pressure(self, tstep, cell_id, value):
         if tstep == 0:
             self.init_pressures[tstep, cell_id] = value
+            if self.solution is not None:
+                self.solution.pressures[tstep, cell_id] = value
         else:
             assert self.solution is not None, "Model was not compiled."
             if tstep is None:
@@ -248,6 +250,8 @@ class BlackOil(Model):
     def __set_rate(self, tstep, cell_id, value):
         if tstep == 0:
             self.init_rates[tstep, cell_id] = value
+            if self.solution is not None:
+                self.solution.rates[tstep, cell_id] = value
         else:
             assert self.solution is not None, "Model was not compiled."
             if tstep is None:
-- 
2.43.0


From db806f9ef375bbd4b5a11d510c8084e48fb20303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 10/41] fix: gravity terms of the vectorized equations (all
 faces, all directions, with or without wells)

---
 reservoirflow/solutions/numerical/fdm.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8d3a161..34e8488 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -500,22 +500,12 @@ class FDM(Solution):
         return self.d_
 
     def __update_z(self):
-        """_summary_"""
-        # ToDo
-        # ----
-        # - T for different geometries is still not ready.
-
-        # all 1D in x direction.
+        """Add gravity between neighboring cells to the constant vector."""
         z = self.model.grid.z[self.model.grid.cells_id]
         if not np.all(z == z[0]):
-            z_l = np.append(z[1:], np.nan)
-            z_u = np.append(np.nan, z[:-1])
-            dz_l = self.model.fluid.g * np.nan_to_num(z_l - z)
-            dz_u = self.model.fluid.g * np.nan_to_num(z_u - z)
-            # T = self.T["x"][self.model.grid.cells_id]
-            # T = np.diag(self.get_cells_T(True, False), 1)[self.model.cells_i]
-            T = self.model.get_cells_trans_diag(True, 1)[self.model.cells_id]
-            v = T * dz_l + T * dz_u
+            T = self.model.get_cells_trans(False, self.sparse, True)
+            T_sum = np.array(T.sum(axis=1)).flatten()
+            v = self.model.fluid.g * (T @ z - T_sum * z)
             self.d_ += v.reshape(-1, 1)
 
     def get_matrices_vect(self, threading=False):
@@ -533,7 +523,6 @@ class FDM(Solution):
         _type_
             _description_
         """
-        update_z = False
         if self.tstep == 0 or not hasattr(self, "A_"):
             # second condition allow switching vectorize True/False after
             # timestep=0.
@@ -555,7 +544,6 @@ class FDM(Solution):
             if self.model.wells[id]["constrain"] == "q":
                 w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
                 self.d_[self.model.cells_i_dict[id], 0] -= w_term
-                update_z = True
             elif self.model.wells[id]["constrain"] == "pwf":
                 p = eval(f"sym.Symbol('p{id}')")
                 w_term = self.__calc_w_term(id, p)
@@ -587,8 +575,7 @@ class FDM(Solution):
                         self.tstep, id_b
                     ]
 
-        if update_z:
-            self.__update_z()
+        self.__update_z()
 
         return self.A_, self.d_
 
-- 
2.43.0


From 52758a57e2eaa4ab81f9d8c4e2944a9bd2b8b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 11/41] fix: well and boundary terms of the vectorized
 equations are rebuilt every step

---
 reservoirflow/solutions/numerical/fdm.py | 43 ++++++++++++------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 34e8488..2eae815 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -91,7 +91,6 @@ class FDM(Solution):
         dz = self.model.grid.z[cell_n_id] - self.model.grid.z[cell_id]
         return trans * ((cell_n_p - cell_p) - (self.model.fluid.g * dz))
 
-    @_lru_cache(maxsize=None)
     def __calc_b_term(
         self,
         cell_id,
@@ -508,6 +507,11 @@ class FDM(Solution):
             v = self.model.fluid.g * (T @ z - T_sum * z)
             self.d_ += v.reshape(-1, 1)
 
+    def __split_term(self, term, p):
+        """Split a linear term into its constant and coefficient of p."""
+        coeffs = term.as_coefficients_dict()
+        return coeffs[1], coeffs[p]
+
     def get_matrices_vect(self, threading=False):
         """_summary_
 
@@ -523,21 +527,26 @@ class FDM(Solution):
         _type_
             _description_
         """
-        if self.tstep == 0 or not hasattr(self, "A_"):
+        if (
+            self.tstep == 0
+            or not hasattr(self, "A_init")
+            or self.bdict != self.model.bdict
+        ):
             # second condition allow switching vectorize True/False after
-            # timestep=0.
-            self.resolve = defaultdict(lambda: False)
-            self.__init_A()
+            # timestep=0, third condition allow changing boundaries.
+            self.A_init = self.__init_A()
+            self.bdict = self.model.bdict.copy()
             self.bdict_v = {}
             for id_b in self.model.bdict_update:
                 ((id, T),) = self.model.get_cell_trans(id_b, None, False).items()
                 p = eval(f"sym.Symbol('p{id}')")
                 b_term = self.__calc_b_term(id, id_b, p, T)
-                v0, v1 = b_term.as_coefficients_dict().values()
+                v0, v1 = self.__split_term(b_term, p)
                 self.bdict_v[id_b] = (v0, v1, id)
-                self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += v1
-                # self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] -= T * 2
+                cell_i = self.model.cells_i_dict[id]
+                self.A_init[cell_i, cell_i] += v1
 
+        self.A_ = self.A_init.copy()
         self.__init_d()
 
         for id in self.model.wells.keys():
@@ -547,20 +556,10 @@ class FDM(Solution):
             elif self.model.wells[id]["constrain"] == "pwf":
                 p = eval(f"sym.Symbol('p{id}')")
                 w_term = self.__calc_w_term(id, p)
-                v = w_term.as_coefficients_dict().values()
-                if len(v) == 1:
-                    ((v0),) = v
-                    v1 = 0
-                elif len(v) == 2:
-                    v0, v1 = v
-                else:
-                    raise ValueError("unknown length")
-                self.d_[self.model.cells_i_dict[id], 0] -= v0
-                if not self.resolve[id]:
-                    self.A_[
-                        self.model.cells_i_dict[id], self.model.cells_i_dict[id]
-                    ] += v1
-                    self.resolve[id] = True
+                v0, v1 = self.__split_term(w_term, p)
+                cell_i = self.model.cells_i_dict[id]
+                self.d_[cell_i, 0] -= v0
+                self.A_[cell_i, cell_i] += v1
             else:
                 pass  # no constrain
 
-- 
2.43.0


From 98ed8afa2f2bafe313aa2e802206f63286331dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 12/41] fix: symbolic equations use the rate of a gradient
 boundary instead of its gradient

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 2eae815..404ba57 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -136,7 +136,7 @@ class FDM(Solution):
                 dz = self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id]
                 return trans * 2 * ((v - cell_p) - (self.model.fluid.g * dz))
             else:  # elif cond in ["rate", "q", "gradient", "grad", "g"]:
-                return v
+                return self.rates[self.tstep, cell_b_id]
         else:
             return 0.0
 
-- 
2.43.0


From 7578fc2ec9038d6307364a9afcce077e81af096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 13/41] fix: symbolic equations follow well and control changes
 and need no constant term

---
 reservoirflow/solutions/numerical/fdm.py | 55 +++++++++---------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 404ba57..9f0876a 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -209,14 +209,6 @@ class FDM(Solution):
             except:
                 raise ValueError("Initial pressure (pi) must be specified")
 
-    def __simplify_eq(self, cell_eq):
-        if (
-            cell_eq.lhs.as_coefficients_dict()[1] != 0.0
-            or cell_eq.rhs.as_coefficients_dict()[1] != 0.0
-        ):
-            cell_eq = cell_eq.simplify()
-        return cell_eq
-
     def get_cell_eq(self, cell_id):
         """Return cell equation.
 
@@ -262,7 +254,7 @@ class FDM(Solution):
             )
             boundaries = self.model.grid.get_cell_boundaries(id=cell_id, fmt="array")
             # f_terms: flow terms, a_terms: accumulation terms
-            terms = {"f_terms": [], "a_term": 0}
+            terms = {"f_terms": []}
             T = self.model.get_cell_trans(cell_id, None, True)
             if self.model.verbose:
                 print(f"[info] cell id: {cell_id}")
@@ -281,41 +273,36 @@ class FDM(Solution):
                 if self.model.verbose:
                     print(f"[info] Boundary terms: {b_term}")
 
-            if cell_id in self.model.wells.keys():
-                w_term = self.__calc_w_term(cell_id, cell_p)
-                terms["f_terms"].append(w_term)
-                if self.model.verbose:
-                    print(f"[info] Well terms: {w_term}")
-
-            terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
-            if self.model.verbose:
-                print("[info] Accumulation term:", terms["a_term"])
-
             self.model.cells_terms[cell_id] = terms
             if self.model.verbose:
                 print("[info] terms:", terms)
 
         else:
             terms = self.model.cells_terms[cell_id]
-            if (
-                cell_id in self.model.wells.keys()
-                and self.model.wells[cell_id]["constrain"] == "pwf"
-            ):
-                w_term = self.__calc_w_term(cell_id, cell_p)
-                if self.model.verbose:
-                    print(f"[info] Well terms (updated): {w_term}")
-                terms["f_terms"][-1] = w_term
-            if self.model.comp_type == "compressible":
-                terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
 
-        cell_eq = sym.Eq(sum(terms["f_terms"]), terms["a_term"])
-        cell_eq = self.__simplify_eq(cell_eq)
-        cell_eq_lhs = cell_eq.lhs.as_coefficients_dict()
+        # well and accumulation terms are updated every time step.
+        terms["w_term"] = 0
+        if (
+            cell_id in self.model.wells.keys()
+            and self.model.wells[cell_id]["constrain"] is not None
+        ):
+            terms["w_term"] = self.__calc_w_term(cell_id, cell_p)
+        terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
+        if self.model.verbose:
+            print(f"[info] Well terms: {terms['w_term']}")
+            print("[info] Accumulation term:", terms["a_term"])
+
+        cell_eq = sym.sympify(
+            sum(terms["f_terms"]) + terms["w_term"] - terms["a_term"]
+        )
 
         if self.model.verbose:
-            print(f"[info] Flow equation {cell_id}:", cell_eq)
+            print(f"[info] Flow equation {cell_id}: {cell_eq} = 0")
+
+        cell_eq_lhs = cell_eq.as_coefficients_dict()
+        cell_eq_rhs = -cell_eq_lhs.pop(1, 0)
 
-        return cell_eq_lhs, cell_eq.rhs
+        return cell_eq_lhs, cell_eq_rhs
 
     def get_cells_eq(self, threading=False):
         """Return flow equations for all internal cells."""
-- 
2.43.0


From cb5956645c19ef49634b2b03e7ca050ca741a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 14/41] fix: reported well rate and control follow the
 equations when a well returns to constant rate

---
 reservoirflow/solutions/numerical/fdm.py | 55 ++++++++++++------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 9f0876a..8b23c8a 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -602,39 +602,38 @@ class FDM(Solution):
                 )
                 self.rates[self.tstep][id] = self.model.wells[id]["q"]
         """
-        resolve = False
         tstep_w_pressures = {}
         for id in self.model.wells.keys():
-            if "q_sp" in self.model.wells[id]:
-                pwf_est = self.pressures[self.tstep, id] + (
-                    self.model.wells[id]["q_sp"]
-                    * self.model.fluid.B
-                    * self.model.fluid.mu
-                    / self.model.wells[id]["G"]
+            well = self.model.wells[id]
+            p = self.pressures[self.tstep, id]
+            if well["constrain"] is None:
+                tstep_w_pressures[id] = p
+                continue
+
+            if "q_sp" in well:
+                pwf_est = p + (
+                    well["q_sp"] * self.model.fluid.B * self.model.fluid.mu / well["G"]
                 )
-            else:
-                pwf_est = self.model.wells[id]["pwf"]
 
-            if pwf_est > self.model.wells[id]["pwf_sp"]:
-                self.model.wells[id]["constrain"] = "q"
-            else:
-                if (
-                    pwf_est < self.model.wells[id]["pwf_sp"]
-                    and self.model.wells[id]["q"] == self.model.wells[id]["q_sp"]
-                ):
-                    resolve = True
-
-                self.model.wells[id]["constrain"] = "pwf"
-                pwf_est = self.model.wells[id]["pwf_sp"]
-
-            self.model.wells[id]["pwf"] = pwf_est
-            q_est = self.__calc_w_term(id, self.pressures[self.tstep, id])
-            self.model.wells[id]["q"] = self.rates[self.tstep, id] = q_est
-
-            if resolve:
-                return True
+            if well["constrain"] == "q":
+                if pwf_est < well["pwf_sp"]:
+                    well["constrain"] = "pwf"
+                    well["pwf"] = well["pwf_sp"]
+                    return True  # resolve
+                well["pwf"] = pwf_est
+                well["q"] = self.__calc_w_term(id, p)
+                self.rates[self.tstep, id] = well["q"]
             else:
-                tstep_w_pressures[id] = pwf_est
+                # rate of this time step is based on pwf used in the equations.
+                well["pwf"] = well["pwf_sp"]
+                well["q"] = self.__calc_w_term(id, p)
+                self.rates[self.tstep, id] = well["q"]
+                if "q_sp" in well and pwf_est > well["pwf_sp"]:
+                    # back to constant rate in the next time step.
+                    well["constrain"] = "q"
+                    well["q"] = well["q_sp"]
+
+            tstep_w_pressures[id] = well["pwf"]
 
         for id in self.model.wells.keys():
             self.model.w_pressures[id].append(tstep_w_pressures[id])
-- 
2.43.0


From 54b1c0bc878b07d1950bcf2374aeb5b719b85fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 15/41] fix: a re-solved step keeps the selected solver and
 stores its matrices once

---
 reservoirflow/solutions/numerical/fdm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8b23c8a..c6944d4 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -741,8 +741,10 @@ class FDM(Solution):
             if resolve:
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
+                self.As = self.As[: self.tstep]
+                self.ds = self.ds[: self.tstep]
                 self.tstep -= 1
-                self.solve(threading, vectorize, False, True, False)
+                self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
 
-- 
2.43.0


From 41e5a125f219e2ebe858913d2e04aa96be48dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 16/41] fix: number of steps counts the steps solved by solve()
 and only the steps which succeeded in run()

---
 reservoirflow/solutions/numerical/fdm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index c6944d4..6f6435f 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -728,6 +728,7 @@ class FDM(Solution):
 
         if update:
             self.tstep += 1
+            self.nsteps = self.tstep + 1
             self.pressures = np.vstack([self.pressures, self.pressures[-1]])
             self.pressures[self.tstep, self.model.grid.cells_id] = pressures
             self.rates = np.vstack([self.rates, self.rates[-1]])
@@ -744,6 +745,7 @@ class FDM(Solution):
                 self.As = self.As[: self.tstep]
                 self.ds = self.ds[: self.tstep]
                 self.tstep -= 1
+                self.nsteps = self.tstep + 1
                 self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
@@ -790,7 +792,6 @@ class FDM(Solution):
         - SciPy: `Iterative Solvers <https://scipy-lectures.org/advanced/scipy_sparse/solvers.html#iterative-solvers>`_.
         """
         start_time = time.time()
-        self.nsteps += nsteps
         self.run_ctime = 0
         if self.model.verbose:
             self.model.verbose = False
-- 
2.43.0


From 58c258f195cf49f4d7e2eb342e769c1d93fea967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:50 +0000
Subject: [PATCH 17/41] fix: exceptions in threads are raised while filling
 symbolic matrices

---
 reservoirflow/solutions/numerical/fdm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 6f6435f..d4f3653 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -397,7 +397,8 @@ class FDM(Solution):
             with ThreadPoolExecutor(self.model.n) as executor:
                 # from concurrent.futures import ProcessPoolExecutor
                 # with ProcessPoolExecutor(2) as executor:
-                executor.map(self.__update_matrices_symb, self.model.cells_id)
+                # list is needed to raise exceptions from threads.
+                list(executor.map(self.__update_matrices_symb, self.model.cells_id))
         else:
             for cell_id in self.model.cells_id:
                 self.__update_matrices_symb(cell_id)
-- 
2.43.0


From dff826c56eb8c0d720cd0fbe8b6443fc3db45676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 18/41] fix: well pressures keep one value per time step when a
 well is set again or during a run

---
 reservoirflow/models/black_oil.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 8b3ed8d..d979c83 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -503,11 +503,6 @@ class BlackOil(Model):
                 self.wells[cell_id]["pwf_sp"] = pwf
                 if "q" not in self.wells[cell_id].keys():
                     self.wells[cell_id]["constrain"] = "pwf"
-                # newtest
-                # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-                self.w_pressures[cell_id].append(
-                    self.__get_pressure(self.__get_tstep(), cell_id)
-                )
             if "constrain" not in self.wells[cell_id].keys():
                 self.wells[cell_id]["constrain"] = None
             if r is not None:
@@ -520,11 +515,11 @@ class BlackOil(Model):
         if "pwf" not in self.wells[cell_id].keys():
             self.wells[cell_id]["pwf"] = 0
             self.wells[cell_id]["pwf_sp"] = 0
-            # newtest
-            # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-            self.w_pressures[cell_id].append(
-                self.__get_pressure(self.__get_tstep(), cell_id)
-            )
+        if cell_id not in self.w_pressures:
+            # one value per time step, cell pressure is used before the well
+            # was set.
+            for tstep in range(self.__get_tstep() + 1):
+                self.w_pressures[cell_id].append(self.__get_pressure(tstep, cell_id))
 
         if self.verbose:
             print(f"[info] a well in cell {cell_id} was set.")
-- 
2.43.0


From adf83a0ace39a84bc6a81f2902a596ee52468e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:20 +0000
Subject: [PATCH 19/41] fix: a well object can be used in set_well, zero values
 are kept

---
 reservoirflow/models/black_oil.py  | 10 +++++++++-
 reservoirflow/wells/single_cell.py |  8 ++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index d979c83..13cb514 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -486,7 +486,15 @@ class BlackOil(Model):
             assert (
                 cell_id in self.grid.cells_id
             ), "a well must be placed within the reservoir"
-            self.wells[cell_id] = vars(well)
+            # well values are copied and used as arguments.
+            self.wells.pop(cell_id, None)
+            self.set_well(
+                cell_id=cell_id,
+                q=getattr(well, "q", None),
+                r=getattr(well, "r", None),
+                s=getattr(well, "s", None),
+            )
+            return
         else:
             assert cell_id is not None, "id must be defined"
             assert (
diff --git a/reservoirflow/wells/single_cell.py b/reservoirflow/wells/single_cell.py
index d512343..423de26 100644
--- a/reservoirflow/wells/single_cell.py
+++ b/reservoirflow/wells/single_cell.py
@@ -31,13 +31,13 @@ class SingleCell(Well):
         self.constrain = constrain
 
     def set_props(self, cell_id=None, q=None, s=None, r=None, constrain=None):
-        if cell_id:
+        if cell_id is not None:
             self.set_cell_id(cell_id)
-        if q:
+        if q is not None:
             self.set_q(q)
-        if s:
+        if s is not None:
             self.set_s(s)
-        if r:
+        if r is not None:
             self.set_r(r)
         self.set_constrain(constrain)
 
-- 
2.43.0


From 014d6ddfa914543b0c505a0d1b8a15b6b93ba350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 20/41] fix: scalers are fitted on all values including
 all-zero columns

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 13cb514..2b069d1 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -838,7 +838,7 @@ class BlackOil(Model):
             "scale": False,
             "save": False,
             "drop_nan": True,
-            "drop_zero": True,
+            "drop_zero": False,
         }
 
     def update_scalers(self, boundary):
-- 
2.43.0


From a3ed3d468f2fcc5647ca5c5bd44f06e8ac013888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 21/41] fix: set_prop for all cells updates the property
 attributes

---
 reservoirflow/grids/regular_cartesian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index c404089..86952a5 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2409,6 +2409,10 @@ class RegularCartesian(Grid):
         if name in self.__props__.keys():
             if id is None and coords is None:
                 self.__props__[name] = self.get_ones(True, False, False) * value
+                if name in ["kx", "ky", "kz"]:
+                    self.k[name[-1]] = self.__props__[name]
+                if name != "comp":
+                    setattr(self, name, self.__props__[name])
                 s = "all cells"
             else:
                 if id is None:
-- 
2.43.0


From 735fcb1702e8103d0167aa8f34e2c83f0a4240a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 22/41] fix: set_boundaries with fewer boundaries updates the
 symbolic equations

---
 reservoirflow/models/black_oil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 2b069d1..a937b81 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -606,6 +606,7 @@ class BlackOil(Model):
             self.__set_rate(self.__get_tstep(), cell_id, 0)
         self.bdict = {}
         self.bdict_update = []
+        self.cells_terms = {}
         boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
             assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
-- 
2.43.0


From f870457c4b5213e6ae56dc4c5e7cd29ba3f8884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 23/41] fix: MinMax with axis=1 scales each row with its own
 range

---
 reservoirflow/scalers/minmax.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/scalers/minmax.py b/reservoirflow/scalers/minmax.py
index 63502ff..0164cbe 100644
--- a/reservoirflow/scalers/minmax.py
+++ b/reservoirflow/scalers/minmax.py
@@ -61,8 +61,9 @@ class MinMax(Scaler):
                 + "Note that in this case overall min and max are used for scaling."
             )
             raise ValueError(msg)
-        self.vmin = v.min(axis=axis)  #: input minimum value.
-        self.vmax = v.max(axis=axis)  #: input maximum value.
+        keepdims = axis not in (None, 0)  # to broadcast along the fitted axis.
+        self.vmin = v.min(axis=axis, keepdims=keepdims)  #: input minimum value.
+        self.vmax = v.max(axis=axis, keepdims=keepdims)  #: input maximum value.
         return self
 
     def transform(self, v):
-- 
2.43.0


From 5ad189481045da4fa2b1aa6e922b4ff5afe45c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 24/41] fix: the time vector has one value per step for every
 dt

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index a937b81..5758f70 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -794,7 +794,7 @@ class BlackOil(Model):
         return df
 
     def __get_time_vector(self):
-        return np.arange(0, (self.__get_tstep() + 1) * self.dt, self.dt)
+        return np.arange(self.__get_tstep() + 1) * self.dt
 
     def __update_time_scaler(self):
         time = self.__get_time_vector()
-- 
2.43.0


From b9b4cc0810c3c34d6057df86d40143f083241e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 25/41] fix: scaled pressures are defined when a boundary
 pressure is set during the run

---
 reservoirflow/models/black_oil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 5758f70..0ab12f9 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -807,6 +807,8 @@ class BlackOil(Model):
     def __update_pressures_scaler(self, boundary):
         config = self.__get_scalers_config(boundary)
         pressures = self.get_df(columns=["cells_pressure"], **config).values
+        # boundary pressures are undefined in steps before they were set:
+        pressures = pressures[~np.isnan(pressures)]
         self.pressures_scaler.fit(pressures, axis=None)
 
     def __update_rates_scaler(self, boundary):
-- 
2.43.0


From 5c1190c0cce2e0160462e32a59d8e38cddee5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 26/41] fix: each compiled solution keeps its own well controls
 and bottom-hole pressures

---
 reservoirflow/models/model.py | 38 +++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/reservoirflow/models/model.py b/reservoirflow/models/model.py
index 6552f7e..d620ec1 100644
--- a/reservoirflow/models/model.py
+++ b/reservoirflow/models/model.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from collections import defaultdict
 
 from reservoirflow.base import Base
 from reservoirflow.solutions.compiler import Compiler
@@ -108,7 +109,9 @@ class Model(ABC, Base):
             using sparse computing for a better performance.
         
         """
+        self.__store_wells()
         self.compiler = Compiler(self, stype, method, sparse)
+        self.__load_wells()
         self.solutions[str(self.compiler)] = self.solution
         self.compilers[str(self.compiler)] = self.compiler
         self.solve = self.solution.solve
@@ -117,12 +120,47 @@ class Model(ABC, Base):
     
     def set_solution(self, name):
         if name in self.solutions:
+            self.__store_wells()
             self.solution = self.solutions[name]
             self.compiler = self.compilers[name]
+            self.__load_wells()
             self.solve = self.solution.solve
             self.run = self.solution.run
         else:
             raise ValueError("Solution method was not compiled.")
+
+    def __store_wells(self):
+        """Store the state of wells in the current solution."""
+        if self.solution is not None:
+            self.solution.wells = {id: w.copy() for id, w in self.wells.items()}
+            self.solution.w_pressures = self.w_pressures
+
+    def __load_wells(self):
+        """Load the state of wells from the current solution.
+
+        Controls and bottom-hole pressures of wells belong to a solution
+        while the settings of wells are shared by all solutions.
+        """
+        stored = getattr(self.solution, "wells", {})
+        self.w_pressures = getattr(self.solution, "w_pressures", defaultdict(list))
+        for id, well in self.wells.items():
+            settings = ["q_sp", "pwf_sp"]
+            well_s = stored.get(id, {})
+            if well_s and all(well.get(k) == well_s.get(k) for k in settings):
+                for k in ["constrain", "q", "pwf"]:
+                    well.pop(k, None)
+                    if k in well_s:
+                        well[k] = well_s[k]
+            elif well["constrain"] is not None:
+                well["constrain"] = "q" if "q_sp" in well else "pwf"
+                well["pwf"] = well["pwf_sp"]
+                if "q_sp" in well:
+                    well["q"] = well["q_sp"]
+                else:
+                    well.pop("q", None)
+            if id not in self.w_pressures:
+                pressures = self.solution.pressures[:, id]
+                self.w_pressures[id] = list(pressures[: self.solution.nsteps])
         
     def get_solutions(self):
         return list(self.solutions.keys())
-- 
2.43.0


From 8da16c3785fdc789ae7d87cd14f6e06851820f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 27/41] fix: a run that fails restores the verbosity of the
 model

---
 reservoirflow/solutions/numerical/fdm.py | 27 ++++++++++++------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index d4f3653..aceab61 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -808,16 +808,20 @@ class FDM(Solution):
             leave=True,
         )
 
-        for step in pbar:
-            pbar.set_description(f"[step] {step}")
-            self.solve(
-                threading,
-                vectorize,
-                check_MB,
-                True,
-                print_arrays,
-                isolver,
-            )
+        try:
+            for step in pbar:
+                pbar.set_description(f"[step] {step}")
+                self.solve(
+                    threading,
+                    vectorize,
+                    check_MB,
+                    True,
+                    print_arrays,
+                    isolver,
+                )
+        finally:
+            if verbose_restore:
+                self.model.verbose = True
 
         self.run_ctime = round(time.time() - start_time, 2)
         self.ctime += self.run_ctime
@@ -828,9 +832,6 @@ class FDM(Solution):
         if check_MB:
             print(f"[info] Material Balance Error: {self.error}.")
 
-        if verbose_restore:
-            self.model.verbose = True
-
     # -------------------------------------------------------------------------
     # Material Balance:
     # -------------------------------------------------------------------------
-- 
2.43.0


From 8ce2b23e4010a9cfbd0b45b9cf6ba6fb3cf76c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 28/41] fix: remove_boundaries honours points and remove for
 dictionaries

---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 86952a5..316c547 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -1107,7 +1107,7 @@ class RegularCartesian(Grid):
 
         elif isinstance(in_data, dict):
             for k, v in in_data.items():
-                in_data[k] = self.remove_boundaries(v, remove="both")
+                in_data[k] = self.remove_boundaries(v, points, remove)
             return in_data
         else:
             raise ValueError("dtype must be ndarray.")
-- 
2.43.0


From c0263c2b24d6d1ac4c72d2cc2694d8a051bcd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 29/41] fix: D1P1 returns one row of pressures per time step

---
 reservoirflow/solutions/analytical/d1p1.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index 804a591..d523e86 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -36,8 +36,8 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
-        tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
+        tD_values = self.model.get_alpha() * t / (L**2)
+        xD_values = np.repeat(xD.T, len(t), axis=0)
 
         # Dependent variable: p
         p = self.pressures
@@ -145,8 +145,8 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
-        tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
+        tD_values = self.model.get_alpha() * t / (L**2)
+        xD_values = np.repeat(xD.T, len(t), axis=0)
 
         # Dependent variable: p
         p = self.pressures
-- 
2.43.0


From 52511cf222db68849d842405a19745dfeed22b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 30/41] fix: diffusivity of one-dimensional reservoirs uses the
 permeability along the flow

---
 reservoirflow/models/black_oil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 0ab12f9..2686dd7 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -653,7 +653,9 @@ class BlackOil(Model):
     def get_alpha(
         self,
     ):
-        lhs_f = (self.factors["transmissibility conversion"] * self.grid.kx) / (
+        fdir = self.grid.get_fdir()
+        k = self.grid.k[fdir if fdir in self.grid.k else "x"]
+        lhs_f = (self.factors["transmissibility conversion"] * k) / (
             self.fluid.mu * self.fluid.B
         )
         rhs_f = (self.grid.phi * self.comp) / (
-- 
2.43.0


From 1fcea911a73106adcf4cccc886fd8a4e68cb6468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 31/41] fix: a well which is shut in has no rate

---
 reservoirflow/solutions/numerical/fdm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index aceab61..cea65c4 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -609,6 +609,7 @@ class FDM(Solution):
             p = self.pressures[self.tstep, id]
             if well["constrain"] is None:
                 tstep_w_pressures[id] = p
+                self.rates[self.tstep, id] = 0.0
                 continue
 
             if "q_sp" in well:
-- 
2.43.0


From 52b434e62fe6168654aec8a1c52c2f2000782f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:08 +0000
Subject: [PATCH 32/41] fix: isolver minres raised TypeError (no absolute
 tolerance)

---
 reservoirflow/solutions/numerical/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/solvers.py b/reservoirflow/solutions/numerical/solvers.py
index 23d31d4..109667b 100644
--- a/reservoirflow/solutions/numerical/solvers.py
+++ b/reservoirflow/solutions/numerical/solvers.py
@@ -77,7 +77,11 @@ def get_isolver(name):
     elif name == "lgmres":
         solver = ssl.lgmres
     elif name == "minres":
-        solver = ssl.minres
+
+        def solver(A, b, atol=None, **kwargs):
+            # minres does not have an absolute tolerance (atol).
+            return ssl.minres(A, b, **kwargs)
+
         warnings.warn("option isolver='minres' is not recommended.")
     elif name == "qmr":
         solver = ssl.qmr
-- 
2.43.0


From f987dfaf8ed167ce3087cd6ff6ef30612c769c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 33/41] fix: a refused compressibility was kept

---
 reservoirflow/fluids/fluid.py | 3 +--
 reservoirflow/grids/grid.py   | 3 +--
 reservoirflow/models/model.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/fluids/fluid.py b/reservoirflow/fluids/fluid.py
index b740c29..8fadb4c 100644
--- a/reservoirflow/fluids/fluid.py
+++ b/reservoirflow/fluids/fluid.py
@@ -54,14 +54,13 @@ class Fluid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/grids/grid.py b/reservoirflow/grids/grid.py
index c81ec02..b8a3565 100644
--- a/reservoirflow/grids/grid.py
+++ b/reservoirflow/grids/grid.py
@@ -80,14 +80,13 @@ class Grid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/models/model.py b/reservoirflow/models/model.py
index d620ec1..881c771 100644
--- a/reservoirflow/models/model.py
+++ b/reservoirflow/models/model.py
@@ -66,14 +66,13 @@ class Model(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     def compile(
         self,
-- 
2.43.0


From 8de8e50d5187997f8d205a272dde72079f195598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 34/41] fix: refused boundary conditions removed those in
 force, cells inside were accepted

---
 reservoirflow/models/black_oil.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 2686dd7..a8229f2 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -536,6 +536,14 @@ class BlackOil(Model):
     # Boundaries:
     # -------------------------------------------------------------------------
 
+    def __check_boundary(self, cell_b_id, cond):
+        """Check a boundary condition before anything is changed."""
+        boundaries = self.grid.get_boundaries("id", "set")
+        assert cell_b_id in boundaries, f"cell {cell_b_id} is not a boundary cell."
+        rate, pressure = ["rate", "q"], ["pressure", "press", "p"]
+        if cond.lower() not in rate + pressure + ["gradient", "grad", "g"]:
+            raise ValueError(f"cond argument {cond} is unknown.")
+
     def set_boundary(self, cell_b_id: int, cond: str, v: float):
         """Set a boundary condition in a cell.
 
@@ -556,6 +564,7 @@ class BlackOil(Model):
         # ToDo
         # ----
         # - d is taken at x direction for gradient.
+        self.__check_boundary(cell_b_id, cond)
         cond = cond.lower()
         T = self.get_cell_trans(cell_b_id, None, False)
         if cond in ["rate", "q"]:
@@ -579,8 +588,6 @@ class BlackOil(Model):
                 # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
                 rate = T[cell_id] * self.grid.d[dir][cell_id] * v
             self.__set_rate(self.__get_tstep(), cell_b_id, rate)
-        else:
-            raise ValueError(f"cond argument {cond} is unknown.")
 
         self.bdict[cell_b_id] = (cond, v)
         if cell_b_id in self.bdict_update:
@@ -602,14 +609,14 @@ class BlackOil(Model):
             id and values are a tuple of cond and value (e.g.
             {0: ("pressure", 4000), 1: ("rate", 0)})
         """
+        for cell_id, (cond, _) in bdict.items():
+            self.__check_boundary(cell_id, cond)
         for cell_id in self.bdict:
             self.__set_rate(self.__get_tstep(), cell_id, 0)
         self.bdict = {}
         self.bdict_update = []
         self.cells_terms = {}
-        boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
-            assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
             cond, v = bdict[cell_id]
             self.set_boundary(cell_id, cond, v)
 
-- 
2.43.0


From ce0afa154da5c824faddd71218ee3631b01a2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 35/41] fix: a refused well was partly kept

---
 reservoirflow/models/black_oil.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index a8229f2..9a10663 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -477,6 +477,14 @@ class BlackOil(Model):
             well skin factor
 
         """
+        wells = {id: w.copy() for id, w in self.wells.items()}
+        try:
+            self.__add_well(well, cell_id, q, pwf, r, s)
+        except Exception:
+            self.wells = wells
+            raise
+
+    def __add_well(self, well, cell_id, q, pwf, r, s):
         # ToDo
         # ----
         # - Change production to positive and injection to negative.
-- 
2.43.0


From 8cc93ccb1b4fc31acb4d48f2c32705de4cc9c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:28 +0000
Subject: [PATCH 36/41] fix: scalers set for 'all' were set for the time only

---
 reservoirflow/models/black_oil.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 9a10663..e35c7eb 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -947,6 +947,12 @@ class BlackOil(Model):
         }
         # col_vals = sum(col_dict.values(), [])
 
+        settings = {}
+        for column, setting in scalers_dict.items():
+            for c in col_dict if column.lower() == "all" else [column]:
+                settings[c] = setting
+        scalers_dict = settings
+
         for column in scalers_dict.keys():
             scaler_type = scalers_dict[column][0]
             output_range = scalers_dict[column][1]
-- 
2.43.0


From 4e67293c8b3fb47927dc11a2cd8762e7d2e41b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 37/41] fix: refused scalers were partly set

---
 reservoirflow/models/black_oil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index e35c7eb..4d01c03 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -952,6 +952,10 @@ class BlackOil(Model):
             for c in col_dict if column.lower() == "all" else [column]:
                 settings[c] = setting
         scalers_dict = settings
+        for column, setting in scalers_dict.items():
+            if not any(column.lower() in names for names in col_dict.values()):
+                raise ValueError(f"column {column} does not exist.")
+            create_scaler(setting[0], setting[1])
 
         for column in scalers_dict.keys():
             scaler_type = scalers_dict[column][0]
-- 
2.43.0


From 2f470b05b1029fe1042b798982e6fe57c211a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 38/41] fix: get_cells_icoords works without a fmt argument

---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 316c547..6daa129 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -753,7 +753,7 @@ class RegularCartesian(Grid):
         self,
         boundary: bool = True,
         fshape: bool = False,
-        fmt=None,
+        fmt="tuple",
     ):
         """Returns all cells icoords based on (k,j,i).
 
-- 
2.43.0


From 23d314ab78fb8719ed4657c9f431ccf0728504c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 39/41] fix: get_cells_icoords keeps the flow shape of grids
 that are not unified

---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 6daa129..3a77dd3 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -785,7 +785,7 @@ class RegularCartesian(Grid):
         cells_icoords = self.get_cell_icoords(cells_coords)
 
         if fshape:
-            shape = self.get_fshape(boundary, True)
+            shape = self.get_fshape(boundary, False) + (-1,)
             cells_icoords = np.array(cells_icoords).reshape(shape)
         else:
             cells_icoords = utils.helpers.reformat(cells_icoords, fmt)
-- 
2.43.0


From e5d121075942988a383113b1763d8c4444071f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:11 +0000
Subject: [PATCH 40/41] fix: plot and plot_grid show the values of the solution

---
 reservoirflow/models/black_oil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 4d01c03..9a605a3 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -1133,10 +1133,10 @@ class BlackOil(Model):
             tstep = self.__get_tstep()
 
         if id is not None:
-            exec(f"plt.plot(self.{prop}[:, id].flatten())")
+            exec(f"plt.plot(self.solution.{prop}[:, id].flatten())")
             plt.xlabel("Days")
         elif tstep is not None:
-            exec(f"plt.plot(self.{prop}[tstep, :].flatten())")
+            exec(f"plt.plot(self.solution.{prop}[tstep, :].flatten())")
             plt.xlabel("Grid (id)")
             boundary = True
             x_skip = 5
@@ -1151,7 +1151,7 @@ class BlackOil(Model):
         if tstep is None:
             tstep = self.__get_tstep()
         cells_id = self.grid.get_cells_id(False, False, "list")
-        exec(f"plt.imshow(self.{property}[tstep][cells_id][np.newaxis, :])")
+        exec(f"plt.imshow(self.solution.{property}[tstep][cells_id][np.newaxis, :])")
         plt.colorbar(label=f"{property.capitalize()} ({self.units[property[:-1]]})")
         plt.title(f"{property.capitalize()} Distribution")
         plt.yticks([])
-- 
2.43.0


From e3923158c6092d0385a11de63841850429bb952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:11 +0000
Subject: [PATCH 41/41] fix: D1P1.run refuses other than one dimension before
 it changes the model

---
 reservoirflow/solutions/analytical/d1p1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index d523e86..3365d6e 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -96,6 +96,8 @@ class D1P1(Solution):
         print_arrays=False,
         isolver=None,
     ):
+        if self.model.grid.get_D() != 1:
+            raise ValueError("D1P1 is only available for one dimension.")
         start_time = time.time()
         # self.nsteps += nsteps
         self.tstep = nsteps
-- 
2.43.0

