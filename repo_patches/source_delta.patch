From 4c75261d10860519666eeb50c12c257ccb3914c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 01/32] fix: remove wrap-around links between the layers of a
 3D grid

get_cells_G_diag_3() zeroed a single entry of the second diagonal instead
of the whole last row of every layer, so the G/T matrices connected the last
row of a layer with the first row of the next one.
---
 reservoirflow/grids/regular_cartesian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ac7678b..dc7aea2 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2847,14 +2847,14 @@ class RegularCartesian(Grid):
             n3 = self.nx_b * self.ny_b
             n3_ = n3 - self.nx_b
             n4 = n3 * self.nz_b - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx_b, n3)
         else:
             n3 = self.nx * self.ny
             n3_ = n3 - self.nx
             n4 = n3 * self.nz - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx, n3)
         if diag_2 is not None:
-            diag_2[diag_2_zero_ids] = 0
+            # cells in the last row of each layer have no neighbor in this
+            # direction:
+            diag_2[np.arange(len(diag_2)) % n3 >= n3_] = 0
         k = self.get_cells_k(dir, boundary, False, "array")
         A = self.get_cells_A(dir, boundary, False)
         d = self.get_cells_d(dir, boundary, False)
-- 
2.43.0


From e185fe1fc22e74f61801e27feee141d92348d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 02/32] fix: allow setting a grid property in a selected cell

Properties are stored as flat arrays, but set_prop() used (k,j,i) indices,
so set_prop()/set_props() with id or coords always raised IndexError.
---
 reservoirflow/grids/regular_cartesian.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index dc7aea2..05bc6a9 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2412,12 +2412,12 @@ class RegularCartesian(Grid):
                 self.__props__[name] = self.get_ones(True, False, False) * value
                 s = "all cells"
             else:
-                if id is not None:
-                    coords = self.get_cell_coords(id, True)
-                if coords is not None:
-                    icoords = self.get_cell_icoords(coords)
-                    self.__props__[name][icoords] = value
-                    s = "cell coords " + str(coords)
+                if id is None:
+                    id = self.get_cell_id(coords, True)
+                if isinstance(id, tuple):
+                    id = list(id)
+                self.__props__[name][id] = value
+                s = "cell id " + str(id)
         else:
             msg = (
                 f"Property {name} is unknown or not defined. "
-- 
2.43.0


From 92c8739f06e4fbc515c997c47c4060fafd0d0579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 03/32] fix: icoords of boundary cells when unify is False

get_cell_icoords() dropped every zero coordinate instead of the coordinates
of the directions without flow, which failed for boundary cells.
---
 reservoirflow/grids/regular_cartesian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 05bc6a9..099684a 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -741,7 +741,8 @@ class RegularCartesian(Grid):
             msg = "coords are out of range."
             assert utils.helpers.isin(coords, cells_coords), msg
             if not self.unify and self.D <= 2:
-                icoords = tuple(c for c in coords[::-1] if c > 0)
+                dirs_coords = tuple(zip("zyx", coords[::-1]))
+                icoords = tuple(c for d, c in dirs_coords if d in self.fdir)
                 assert len(icoords) == self.get_D(), "icoords is not compatible"
             else:
                 icoords = tuple(c for c in coords[::-1])
-- 
2.43.0


From 890c62631ef860629f568801113ea083a7069bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 04/32] fix: do not cache results that depend on updatable
 properties

set_props() on the grid (or set_mu()/set_B() on the fluid) had no effect on
get_cell_k(), get_cell_G(), is_isotropic, is_homogeneous and
get_cell_trans() once they had been called, while the matrix versions were
updated.
---
 reservoirflow/grids/regular_cartesian.py | 6 ------
 reservoirflow/models/black_oil.py        | 1 -
 2 files changed, 7 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 099684a..012c046 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2527,7 +2527,6 @@ class RegularCartesian(Grid):
 
         return self.get_prop(name, boundary, fshape, fmt)
 
-    @_lru_cache(maxsize=None)
     def get_cell_k(
         self,
         dir,
@@ -2660,7 +2659,6 @@ class RegularCartesian(Grid):
         return self.get_cell_k("z", id, coords)
 
     @property
-    @_lru_cache(maxsize=1)
     def is_homogeneous(self):
         """Returns homogeneity as bool.
 
@@ -2681,7 +2679,6 @@ class RegularCartesian(Grid):
         return True
 
     @property
-    @_lru_cache(maxsize=1)
     def is_heterogeneous(self):
         """Returns heterogeneity as bool.
 
@@ -2696,7 +2693,6 @@ class RegularCartesian(Grid):
         return not self.is_homogeneous
 
     @property
-    @_lru_cache(maxsize=1)
     def is_isotropic(self):
         """Returns isotropic as bool.
 
@@ -2720,7 +2716,6 @@ class RegularCartesian(Grid):
         return True
 
     @property
-    @_lru_cache(maxsize=1)
     def is_anisotropic(self):
         """Returns anisotropic as bool.
 
@@ -2940,7 +2935,6 @@ class RegularCartesian(Grid):
         else:
             return diag
 
-    @_lru_cache(maxsize=None)
     def get_cell_G(
         self,
         id=None,
diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c7e002a..6a383a8 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -265,7 +265,6 @@ class BlackOil(Model):
         if self.verbose:
             print("[info] model compressibility (comp) was calculated.")
 
-    @_lru_cache(maxsize=None)
     def get_cell_trans(
         self,
         cell_id=None,
-- 
2.43.0


From 8685ab046a399240cd033374e81a3295fe2a74bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 05/32] fix: include boundary cells when permeability is
 checked for uniformity

is_isotropic selects the arithmetic mean in the transmissibility formula. It
ignored boundary cells, so links with boundary cells of a different
permeability were averaged arithmetically instead of harmonically.
---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 012c046..97dc9f4 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2710,7 +2710,7 @@ class RegularCartesian(Grid):
         props = ["kx", "ky", "kz"]
         props = [name for name in props if self.__props__[name] is not None]
         for name in props:
-            prop = self.get_prop(name, False, False)
+            prop = self.get_prop(name, True, False)
             if not np.all(prop == prop[0]):
                 return False
         return True
-- 
2.43.0


From 3cd02d3f9567369abfffd7bd1775d740467ae1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 06/32] fix: do not share the initial rates between models with
 the same grid

init_rates was a view of the cached zeros array of the grid, so rates set at
the boundaries of a model leaked to all other models with the same grid.
---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 6a383a8..f53268a 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -196,7 +196,7 @@ class BlackOil(Model):
     def __get_arrays(self) -> tuple:
         ones = self.grid.get_ones(True, False, False)[np.newaxis]
         pressures = ones * np.nan
-        rates = self.grid.get_zeros(True, False, False)[np.newaxis]
+        rates = self.grid.get_zeros(True, False, False)[np.newaxis].copy()
         return pressures, rates
 
     def get_init_arrays(self) -> tuple:
-- 
2.43.0


From cff41330e344d0c78677d51883fc42a732b754a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 07/32] fix: time vector length for fractional time step
 duration

np.arange() with a float step may return one extra value.
---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index f53268a..0552701 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -775,7 +775,7 @@ class BlackOil(Model):
         return df
 
     def __get_time_vector(self):
-        return np.arange(0, (self.__get_tstep() + 1) * self.dt, self.dt)
+        return np.arange(self.__get_tstep() + 1) * self.dt
 
     def __update_time_scaler(self):
         time = self.__get_time_vector()
-- 
2.43.0


From 7749018d49b797dc6f6b16e53d323b92ee385abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 08/32] fix: keep the selected isolver when a time step is
 solved again

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8d3a161..63520e1 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -770,7 +770,7 @@ class FDM(Solution):
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
                 self.tstep -= 1
-                self.solve(threading, vectorize, False, True, False)
+                self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
 
-- 
2.43.0


From 0a8cac0801005e8ad266fb6cc4b552558e368b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 09/32] fix: count the steps which are solved with solve()

nsteps was only increased in run(), before any step was solved, so
get_shape() and get_df(melt=True) were wrong after solve() or after a run
which failed.
---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 63520e1..3733591 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -756,6 +756,7 @@ class FDM(Solution):
 
         if update:
             self.tstep += 1
+            self.nsteps = self.tstep + 1
             self.pressures = np.vstack([self.pressures, self.pressures[-1]])
             self.pressures[self.tstep, self.model.grid.cells_id] = pressures
             self.rates = np.vstack([self.rates, self.rates[-1]])
@@ -816,7 +817,6 @@ class FDM(Solution):
         - SciPy: `Iterative Solvers <https://scipy-lectures.org/advanced/scipy_sparse/solvers.html#iterative-solvers>`_.
         """
         start_time = time.time()
-        self.nsteps += nsteps
         self.run_ctime = 0
         if self.model.verbose:
             self.model.verbose = False
-- 
2.43.0


From 1550fffd9059cccd0c1175c5cf5c392243679437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 10/32] fix: build symbolic equations from the conditions in
 force

Terms were cached in the model on the first step, so wells and boundaries
which were set later, a well which changed its control, and a second solution
of the same model used stale terms.
---
 reservoirflow/solutions/numerical/fdm.py | 82 ++++++++++--------------
 1 file changed, 34 insertions(+), 48 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 3733591..f5547db 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -254,60 +254,46 @@ class FDM(Solution):
         # )
         cell_p = eval(f"sym.Symbol('p{cell_id}')")
 
-        if cell_id not in self.model.cells_terms:
-            assert (
-                cell_id in self.model.grid.cells_id
-            ), f"id is out of range {self.model.grid.cells_id}."
-            neighbors = self.model.grid.get_cell_neighbors(
-                id=cell_id, boundary=False, fmt="array"
-            )
-            boundaries = self.model.grid.get_cell_boundaries(id=cell_id, fmt="array")
-            # f_terms: flow terms, a_terms: accumulation terms
-            terms = {"f_terms": [], "a_term": 0}
-            T = self.model.get_cell_trans(cell_id, None, True)
-            if self.model.verbose:
-                print(f"[info] cell id: {cell_id}")
-                print(f"[info]    - Neighbors: {neighbors}")
-                print(f"[info]    - Boundaries: {boundaries}")
-
-            for id_n in neighbors:
-                n_term = self.__calc_n_term(cell_id, id_n, cell_p, T[id_n])
-                terms["f_terms"].append(n_term)
-                if self.model.verbose:
-                    print(f"[info] Neighbor terms: {n_term}")
-
-            for cell_b_id in boundaries:
-                b_term = self.__calc_b_term(cell_id, cell_b_id, cell_p, T[cell_b_id])
-                terms["f_terms"].append(b_term)
-                if self.model.verbose:
-                    print(f"[info] Boundary terms: {b_term}")
+        assert (
+            cell_id in self.model.grid.cells_id
+        ), f"id is out of range {self.model.grid.cells_id}."
+        neighbors = self.model.grid.get_cell_neighbors(
+            id=cell_id, boundary=False, fmt="array"
+        )
+        boundaries = self.model.grid.get_cell_boundaries(id=cell_id, fmt="array")
+        # f_terms: flow terms, a_terms: accumulation terms
+        terms = {"f_terms": [], "a_term": 0}
+        T = self.model.get_cell_trans(cell_id, None, True)
+        if self.model.verbose:
+            print(f"[info] cell id: {cell_id}")
+            print(f"[info]    - Neighbors: {neighbors}")
+            print(f"[info]    - Boundaries: {boundaries}")
 
-            if cell_id in self.model.wells.keys():
-                w_term = self.__calc_w_term(cell_id, cell_p)
-                terms["f_terms"].append(w_term)
-                if self.model.verbose:
-                    print(f"[info] Well terms: {w_term}")
+        for id_n in neighbors:
+            n_term = self.__calc_n_term(cell_id, id_n, cell_p, T[id_n])
+            terms["f_terms"].append(n_term)
+            if self.model.verbose:
+                print(f"[info] Neighbor terms: {n_term}")
 
-            terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
+        for cell_b_id in boundaries:
+            b_term = self.__calc_b_term(cell_id, cell_b_id, cell_p, T[cell_b_id])
+            terms["f_terms"].append(b_term)
             if self.model.verbose:
-                print("[info] Accumulation term:", terms["a_term"])
+                print(f"[info] Boundary terms: {b_term}")
 
-            self.model.cells_terms[cell_id] = terms
+        if cell_id in self.model.wells.keys():
+            w_term = self.__calc_w_term(cell_id, cell_p)
+            terms["f_terms"].append(w_term)
             if self.model.verbose:
-                print("[info] terms:", terms)
+                print(f"[info] Well terms: {w_term}")
 
-        else:
-            terms = self.model.cells_terms[cell_id]
-            if (
-                cell_id in self.model.wells.keys()
-                and self.model.wells[cell_id]["constrain"] == "pwf"
-            ):
-                w_term = self.__calc_w_term(cell_id, cell_p)
-                if self.model.verbose:
-                    print(f"[info] Well terms (updated): {w_term}")
-                terms["f_terms"][-1] = w_term
-            if self.model.comp_type == "compressible":
-                terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
+        terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
+        if self.model.verbose:
+            print("[info] Accumulation term:", terms["a_term"])
+
+        self.model.cells_terms[cell_id] = terms
+        if self.model.verbose:
+            print("[info] terms:", terms)
 
         cell_eq = sym.Eq(sum(terms["f_terms"]), terms["a_term"])
         cell_eq = self.__simplify_eq(cell_eq)
-- 
2.43.0


From 8f1fe7fc376f7395a6eb381f0956365fb993ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 11/32] fix: apply boundary conditions and gravity consistently

- condition synonyms (p, press, PRESSURE, ...) were only recognized by some of
  the code paths, gradients were used as rates in symbolic mode, and a zero
  pressure failed in vectorized mode;
- set_boundary() and set_all_boundaries() had no effect on flow;
- conditions which were set after compile() or after the first step were
  ignored or changed the results of the previous steps;
- a rejected dictionary left the model partially updated;
- corner cells without a face to the reservoir failed or were reported as rates;
- gravity in vectorized mode was only used in 1D and only with a rate well.
---
 reservoirflow/models/black_oil.py        | 105 +++++++++++---------
 reservoirflow/solutions/numerical/fdm.py | 116 +++++++++--------------
 2 files changed, 106 insertions(+), 115 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 0552701..a875a23 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -225,16 +225,6 @@ class BlackOil(Model):
             else:
                 return self.solution.pressures[tstep, cell_id]
 
-    def __set_pressure(self, tstep, cell_id, value):
-        if tstep == 0:
-            self.init_pressures[tstep, cell_id] = value
-        else:
-            assert self.solution is not None, "Model was not compiled."
-            if tstep is None:
-                self.solution.pressures[:, cell_id] = value
-            else:
-                self.solution.pressures[tstep, cell_id] = value
-
     def __get_rate(self, tstep, cell_id):
         if tstep == 0:
             return self.init_rates[tstep, cell_id]
@@ -245,16 +235,6 @@ class BlackOil(Model):
             else:
                 return self.solution.rates[tstep, cell_id]
 
-    def __set_rate(self, tstep, cell_id, value):
-        if tstep == 0:
-            self.init_rates[tstep, cell_id] = value
-        else:
-            assert self.solution is not None, "Model was not compiled."
-            if tstep is None:
-                self.solution.rates[:, cell_id] = value
-            else:
-                self.solution.rates[tstep, cell_id] = value
-
     def __calc_comp(self):
         """Calculates total compressibility."""
         if self.fluid.comp_type == self.grid.comp_type == "incompressible":
@@ -529,6 +509,41 @@ class BlackOil(Model):
     # Boundaries:
     # -------------------------------------------------------------------------
 
+    def __get_boundary_cond(self, cond: str) -> str:
+        """Returns the name of a boundary condition."""
+        cond_dict = {
+            "rate": ["rate", "q"],
+            "pressure": ["pressure", "press", "p"],
+            "gradient": ["gradient", "grad", "g"],
+        }
+        for name in cond_dict:
+            if cond.lower() in cond_dict[name]:
+                return name
+        raise ValueError(f"cond argument {cond} is unknown.")
+
+    def __check_boundary(self, cell_b_id: int):
+        boundaries = self.grid.get_boundaries("id", "set")
+        assert cell_b_id in boundaries, f"cell {cell_b_id} is not a boundary cell."
+
+    def __set_boundary_values(self, cell_b_id: int, p: float, q: float):
+        """Set boundary values in the initial arrays.
+
+        Initial arrays hold the boundary values that are used in the
+        next time step, values of the previous time steps are kept.
+        """
+        arrays = [(self.init_pressures, self.init_rates)]
+        for solution in self.solutions.values():
+            if solution.tstep == 0:
+                arrays.append((solution.pressures, solution.rates))
+        for pressures, rates in arrays:
+            pressures[0, cell_b_id] = p
+            rates[0, cell_b_id] = q
+
+    def __set_bdict_update(self):
+        self.bdict_update = [
+            id_b for id_b in self.bdict if self.bdict[id_b][0] == "pressure"
+        ]
+
     def set_boundary(self, cell_b_id: int, cond: str, v: float):
         """Set a boundary condition in a cell.
 
@@ -549,26 +564,25 @@ class BlackOil(Model):
         # ToDo
         # ----
         # - d is taken at x direction for gradient.
-        cond = cond.lower()
-        if cond in ["rate", "q"]:
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = v
-            self.__set_rate(self.__get_tstep(), cell_b_id, v)
-        elif cond in ["pressure", "press", "p"]:
-            # newtest
-            # self.pressures[self.get_tstep(), cell_b_id] = v
-            self.__set_pressure(self.__get_tstep(), cell_b_id, v)
-        elif cond in ["gradient", "grad", "g"]:
-            ((cell_id, T),) = self.get_cell_trans(cell_b_id, None, False).items()
+        self.__check_boundary(cell_b_id)
+        cond = self.__get_boundary_cond(cond)
+        # boundary cells in corners have no neighbors (i.e. no flow):
+        neighbors = self.get_cell_trans(cell_b_id, None, False)
+        if cond == "pressure":
+            p, q = v, 0
+        elif len(neighbors) == 0:
+            p, q = np.nan, 0
+        elif cond == "rate":
+            p, q = np.nan, v
+        else:  # cond == "gradient"
+            ((cell_id, T),) = neighbors.items()
             cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
             dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
-            self.__set_rate(
-                self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v
-            )
-        else:
-            raise ValueError(f"cond argument {cond} is unknown.")
+            p, q = np.nan, T * self.grid.d[dir][cell_id] * v
+        self.__set_boundary_values(cell_b_id, p, q)
+        if len(neighbors) > 0:
+            self.bdict[cell_b_id] = (cond, v)
+            self.__set_bdict_update()
 
         if self.verbose:
             print(f"[info] boundary in cell {cell_b_id} was set to constant {cond}.")
@@ -583,17 +597,18 @@ class BlackOil(Model):
             id and values are a tuple of cond and value (e.g.
             {0: ("pressure", 4000), 1: ("rate", 0)})
         """
-        self.bdict = bdict
-        boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
-            assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
+            self.__check_boundary(cell_id)
+            self.__get_boundary_cond(bdict[cell_id][0])
+
+        for cell_id in self.bdict:
+            self.__set_boundary_values(cell_id, np.nan, 0)
+        self.bdict = {}
+        self.bdict_update = []
+        for cell_id in bdict:
             cond, v = bdict[cell_id]
             self.set_boundary(cell_id, cond, v)
 
-        self.bdict_update = [
-            id_b for id_b in self.bdict.keys() if self.bdict[id_b][0] == "pressure"
-        ]
-
     def set_all_boundaries(self, cond, v):
         """Set the same boundary condition in all boundaries.
 
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index f5547db..4b0e292 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -52,6 +52,7 @@ class FDM(Solution):
         super().__init__(model, sparse)
         # newtest
         self.ds = self.model.grid.get_zeros(False, False, False)[np.newaxis]
+        self.b_trans = {}
         self.As = np.zeros((1, self.model.n * self.model.n), dtype=self.model.dtype)
 
     # -------------------------------------------------------------------------
@@ -91,7 +92,6 @@ class FDM(Solution):
         dz = self.model.grid.z[cell_n_id] - self.model.grid.z[cell_id]
         return trans * ((cell_n_p - cell_p) - (self.model.fluid.g * dz))
 
-    @_lru_cache(maxsize=None)
     def __calc_b_term(
         self,
         cell_id,
@@ -133,11 +133,11 @@ class FDM(Solution):
         # implementation 2:
         if cell_b_id in self.model.bdict:
             cond, v = self.model.bdict[cell_b_id]
-            if cond.lower() in ["pressure", "press", "p"]:
+            if cond == "pressure":
                 dz = self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id]
                 return trans * 2 * ((v - cell_p) - (self.model.fluid.g * dz))
-            else:  # elif cond in ["rate", "q", "gradient", "grad", "g"]:
-                return v
+            else:  # elif cond in ["rate", "gradient"]:
+                return self.model.init_rates[0, cell_b_id]
         else:
             return 0.0
 
@@ -438,6 +438,7 @@ class FDM(Solution):
         # return self.A_
         # self.A_ = self.get_cells_T_array(False, True).toarray()
         self.A_ = self.model.get_cells_trans(False, self.sparse, True)
+        self.__init_z()
         v1 = -self.A_[self.model.cells_i, :].sum(axis=1).flatten()
         v2 = self.model.RHS[self.model.cells_id].flatten()
         v3 = v1 - v2
@@ -485,24 +486,14 @@ class FDM(Solution):
 
         return self.d_
 
-    def __update_z(self):
-        """_summary_"""
-        # ToDo
-        # ----
-        # - T for different geometries is still not ready.
-
-        # all 1D in x direction.
+    def __init_z(self):
+        """Initialize gravity terms of all flow terms between cells."""
         z = self.model.grid.z[self.model.grid.cells_id]
         if not np.all(z == z[0]):
-            z_l = np.append(z[1:], np.nan)
-            z_u = np.append(np.nan, z[:-1])
-            dz_l = self.model.fluid.g * np.nan_to_num(z_l - z)
-            dz_u = self.model.fluid.g * np.nan_to_num(z_u - z)
-            # T = self.T["x"][self.model.grid.cells_id]
-            # T = np.diag(self.get_cells_T(True, False), 1)[self.model.cells_i]
-            T = self.model.get_cells_trans_diag(True, 1)[self.model.cells_id]
-            v = T * dz_l + T * dz_u
-            self.d_ += v.reshape(-1, 1)
+            sum_T = np.asarray(self.A_.sum(axis=1)).flatten()
+            self.z_ = self.model.fluid.g * (self.A_.dot(z) - sum_T * z)
+        else:
+            self.z_ = None
 
     def get_matrices_vect(self, threading=False):
         """_summary_
@@ -519,62 +510,33 @@ class FDM(Solution):
         _type_
             _description_
         """
-        update_z = False
-        if self.tstep == 0 or not hasattr(self, "A_"):
+        if self.tstep == 0 or not hasattr(self, "A_init"):
             # second condition allow switching vectorize True/False after
             # timestep=0.
-            self.resolve = defaultdict(lambda: False)
-            self.__init_A()
-            self.bdict_v = {}
-            for id_b in self.model.bdict_update:
-                ((id, T),) = self.model.get_cell_trans(id_b, None, False).items()
-                p = eval(f"sym.Symbol('p{id}')")
-                b_term = self.__calc_b_term(id, id_b, p, T)
-                v0, v1 = b_term.as_coefficients_dict().values()
-                self.bdict_v[id_b] = (v0, v1, id)
-                self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += v1
-                # self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] -= T * 2
-
+            self.A_init = self.__init_A()
+        self.A_ = self.A_init.copy()
         self.__init_d()
 
         for id in self.model.wells.keys():
-            if self.model.wells[id]["constrain"] == "q":
-                w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
-                self.d_[self.model.cells_i_dict[id], 0] -= w_term
-                update_z = True
-            elif self.model.wells[id]["constrain"] == "pwf":
-                p = eval(f"sym.Symbol('p{id}')")
-                w_term = self.__calc_w_term(id, p)
-                v = w_term.as_coefficients_dict().values()
-                if len(v) == 1:
-                    ((v0),) = v
-                    v1 = 0
-                elif len(v) == 2:
-                    v0, v1 = v
-                else:
-                    raise ValueError("unknown length")
-                self.d_[self.model.cells_i_dict[id], 0] -= v0
-                if not self.resolve[id]:
-                    self.A_[
-                        self.model.cells_i_dict[id], self.model.cells_i_dict[id]
-                    ] += v1
-                    self.resolve[id] = True
-            else:
-                pass  # no constrain
+            i = self.model.cells_i_dict[id]
+            self.d_[i, 0] -= self.__calc_w_term(id, 0.0)
+            if self.model.wells[id]["constrain"] != "q":
+                self.A_[i, i] -= self.model.wells[id]["G"] / (
+                    self.model.fluid.B * self.model.fluid.mu
+                )
 
         for id_b in self.model.bdict.keys():
-            id = self.model.grid.get_cell_neighbors(id_b, None, False, "list")
-            if len(id) > 0:
-                id = id[0]
-                if self.model.bdict[id_b][0] == "pressure":
-                    self.d_[self.model.cells_i_dict[id], 0] -= self.bdict_v[id_b][0]
-                else:  # elif self.model.bdict[id_b][0] in ["gradient", "rate"]:
-                    self.d_[self.model.cells_i_dict[id], 0] -= self.rates[
-                        self.tstep, id_b
-                    ]
-
-        if update_z:
-            self.__update_z()
+            id, T = self.__get_b_trans(id_b)
+            i = self.model.cells_i_dict[id]
+            self.d_[i, 0] -= self.__calc_b_term(id, id_b, 0.0, T)
+            if self.model.bdict[id_b][0] == "pressure":
+                self.A_[i, i] -= T * 2
+
+        if self.z_ is not None:
+            if self.sparse:
+                self.d_ += ss.lil_matrix(self.z_.reshape(-1, 1))
+            else:
+                self.d_ += self.z_.reshape(-1, 1)
 
         return self.A_, self.d_
 
@@ -654,9 +616,16 @@ class FDM(Solution):
 
         return False
 
+    def __get_b_trans(self, cell_b_id):
+        """Returns neighbor id and transmissibility of a boundary cell."""
+        if cell_b_id not in self.b_trans:
+            ((id, T),) = self.model.get_cell_trans(cell_b_id, None, False).items()
+            self.b_trans[cell_b_id] = (id, T)
+        return self.b_trans[cell_b_id]
+
     def __update_boundaries(self):
         for id_b in self.model.bdict_update:
-            ((id_n, T),) = self.model.get_cell_trans(id_b, None, False).items()
+            id_n, T = self.__get_b_trans(id_b)
             p_n = self.pressures[self.tstep, id_n]
             b_terms = self.__calc_b_term(id_n, id_b, p_n, T)
             self.rates[self.tstep, id_b] = b_terms
@@ -746,6 +715,13 @@ class FDM(Solution):
             self.pressures = np.vstack([self.pressures, self.pressures[-1]])
             self.pressures[self.tstep, self.model.grid.cells_id] = pressures
             self.rates = np.vstack([self.rates, self.rates[-1]])
+            boundaries_id = self.model.boundaries_id
+            self.pressures[self.tstep, boundaries_id] = self.model.init_pressures[
+                0, boundaries_id
+            ]
+            self.rates[self.tstep, boundaries_id] = self.model.init_rates[
+                0, boundaries_id
+            ]
             # newtest
             # self.model.As = np.vstack([self.model.As, A.reshape(1, -1)])
             # self.model.ds = np.vstack([self.model.ds, d.reshape(1, -1)])
-- 
2.43.0


From 1190a3c22a35740e75d0c5c217361c271b7f96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 12/32] fix: keep well controls consistent with the solved
 equations

- a well which returned from pressure to rate control was reported with its
  target rate although the step was solved with pressure control;
- a released well kept its pressure control terms in the vectorized matrix;
- setpoints are used in the equations instead of the last reported values,
  which may belong to another solution;
- wells without any constrain were treated differently by each mode (now
  pwf is zero as documented);
- matrices of a discarded step were kept in As and ds.
---
 reservoirflow/models/black_oil.py        |  2 +-
 reservoirflow/solutions/numerical/fdm.py | 65 ++++++++++++------------
 2 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index a875a23..0d3cf86 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -485,7 +485,7 @@ class BlackOil(Model):
                     self.__get_pressure(self.__get_tstep(), cell_id)
                 )
             if "constrain" not in self.wells[cell_id].keys():
-                self.wells[cell_id]["constrain"] = None
+                self.wells[cell_id]["constrain"] = "pwf"
             if r is not None:
                 self.wells[cell_id]["r"] = r
             if s is not None:
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 4b0e292..e11baee 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -53,6 +53,7 @@ class FDM(Solution):
         # newtest
         self.ds = self.model.grid.get_zeros(False, False, False)[np.newaxis]
         self.b_trans = {}
+        self.released_wells = (0, set())
         self.As = np.zeros((1, self.model.n * self.model.n), dtype=self.model.dtype)
 
     # -------------------------------------------------------------------------
@@ -163,16 +164,13 @@ class FDM(Solution):
         float
             well flow term (w_term).
         """
-        if (
-            "q" in self.model.wells[cell_id]
-            and self.model.wells[cell_id]["constrain"] == "q"
-        ):
-            return self.model.wells[cell_id]["q"]
+        if self.model.wells[cell_id]["constrain"] == "q":
+            return self.model.wells[cell_id]["q_sp"]
         else:
             return (
                 -self.model.wells[cell_id]["G"]
                 / (self.model.fluid.B * self.model.fluid.mu)
-                * (cell_p - self.model.wells[cell_id]["pwf"])
+                * (cell_p - self.model.wells[cell_id]["pwf_sp"])
             )
 
     def __calc_a_term(
@@ -577,41 +575,42 @@ class FDM(Solution):
                 )
                 self.rates[self.tstep][id] = self.model.wells[id]["q"]
         """
+        if self.released_wells[0] != self.tstep:
+            self.released_wells = (self.tstep, set())
+        released_wells = self.released_wells[1]
+
         resolve = False
         tstep_w_pressures = {}
-        for id in self.model.wells.keys():
-            if "q_sp" in self.model.wells[id]:
-                pwf_est = self.pressures[self.tstep, id] + (
-                    self.model.wells[id]["q_sp"]
+        for id, well in self.model.wells.items():
+            pwf_est = well["pwf_sp"]
+            if "q_sp" in well:
+                pwf_q = self.pressures[self.tstep, id] + (
+                    well["q_sp"]
                     * self.model.fluid.B
                     * self.model.fluid.mu
-                    / self.model.wells[id]["G"]
+                    / well["G"]
                 )
-            else:
-                pwf_est = self.model.wells[id]["pwf"]
-
-            if pwf_est > self.model.wells[id]["pwf_sp"]:
-                self.model.wells[id]["constrain"] = "q"
-            else:
-                if (
-                    pwf_est < self.model.wells[id]["pwf_sp"]
-                    and self.model.wells[id]["q"] == self.model.wells[id]["q_sp"]
-                ):
+                if well["constrain"] == "q":
+                    if pwf_q < well["pwf_sp"]:
+                        well["constrain"] = "pwf"
+                        resolve = True
+                    else:
+                        pwf_est = pwf_q
+                elif pwf_q > well["pwf_sp"] and id not in released_wells:
+                    # only once in a time step to avoid switching back and
+                    # forth due to rounding errors:
+                    released_wells.add(id)
+                    well["constrain"] = "q"
                     resolve = True
+            tstep_w_pressures[id] = pwf_est
 
-                self.model.wells[id]["constrain"] = "pwf"
-                pwf_est = self.model.wells[id]["pwf_sp"]
+        if resolve:
+            return True
 
-            self.model.wells[id]["pwf"] = pwf_est
+        for id, well in self.model.wells.items():
+            well["pwf"] = tstep_w_pressures[id]
             q_est = self.__calc_w_term(id, self.pressures[self.tstep, id])
-            self.model.wells[id]["q"] = self.rates[self.tstep, id] = q_est
-
-            if resolve:
-                return True
-            else:
-                tstep_w_pressures[id] = pwf_est
-
-        for id in self.model.wells.keys():
+            well["q"] = self.rates[self.tstep, id] = q_est
             self.model.w_pressures[id].append(tstep_w_pressures[id])
 
         return False
@@ -732,6 +731,8 @@ class FDM(Solution):
             if resolve:
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
+                self.As = self.As[: self.tstep]
+                self.ds = self.ds[: self.tstep]
                 self.tstep -= 1
                 self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
-- 
2.43.0


From 6b9970c8156f0739d15f1d099aa4249ea4420e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 13/32] fix: keep zero values in SingleCell well

---
 reservoirflow/wells/single_cell.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/wells/single_cell.py b/reservoirflow/wells/single_cell.py
index d512343..423de26 100644
--- a/reservoirflow/wells/single_cell.py
+++ b/reservoirflow/wells/single_cell.py
@@ -31,13 +31,13 @@ class SingleCell(Well):
         self.constrain = constrain
 
     def set_props(self, cell_id=None, q=None, s=None, r=None, constrain=None):
-        if cell_id:
+        if cell_id is not None:
             self.set_cell_id(cell_id)
-        if q:
+        if q is not None:
             self.set_q(q)
-        if s:
+        if s is not None:
             self.set_s(s)
-        if r:
+        if r is not None:
             self.set_r(r)
         self.set_constrain(constrain)
 
-- 
2.43.0


From 6ab26ba57e58d1953f080adcabecf60f6776449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 14/32] fix: set wells without side effects and keep their
 pressures per solution

- a SingleCell well object was aliased and its rate was ignored in vectorized
  mode;
- a rejected well was left partially defined in the model;
- repeated set_well() calls, wells added after the first step, and a second
  solution of the same model appended extra pressures, so get_df() failed or
  was not aligned with the time steps.
---
 reservoirflow/models/black_oil.py        | 100 ++++++++++++-----------
 reservoirflow/solutions/numerical/fdm.py |   3 +-
 reservoirflow/solutions/solution.py      |   3 +
 3 files changed, 57 insertions(+), 49 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 0d3cf86..cb089ae 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -4,7 +4,6 @@ BlackOil
 """
 
 import warnings
-from collections import defaultdict
 from datetime import date
 
 import matplotlib.pyplot as plt
@@ -158,7 +157,7 @@ class BlackOil(Model):
             self.start_date = start_date
 
         self.wells = {}
-        self.w_pressures = defaultdict(list)
+        self.init_w_pressures = {}
         if well is not None:
             self.set_well(well)
 
@@ -199,6 +198,13 @@ class BlackOil(Model):
         rates = self.grid.get_zeros(True, False, False)[np.newaxis].copy()
         return pressures, rates
 
+    @property
+    def w_pressures(self) -> dict:
+        """Wells pressures of the current solution."""
+        if self.solution is None:
+            return self.init_w_pressures
+        return self.solution.w_pressures
+
     def get_init_arrays(self) -> tuple:
         """Initialization arrays.
 
@@ -338,13 +344,15 @@ class BlackOil(Model):
     # Wells:
     # -------------------------------------------------------------------------
 
-    def __calc_well_G(self, cell_id=None):
+    def __calc_well_G(self, cell_id, well):
         """Calculates well Geometry factor (G).
 
         Parameters
         ----------
         id : int, optional
             cell id based on natural order as int.
+        well : dict
+            well information.
 
         Returns
         -------
@@ -373,10 +381,10 @@ class BlackOil(Model):
             * self.grid.d["z"][cell_id]
         )
 
-        G_d = np.log(self.wells[cell_id]["r_eq"] / self.wells[cell_id]["r"] * 12)
+        G_d = np.log(well["r_eq"] / well["r"] * 12)
 
-        if "s" in self.wells[cell_id].keys():
-            G_d += self.wells[cell_id]["s"]
+        if "s" in well.keys():
+            G_d += well["s"]
 
         return G_n / G_d
 
@@ -459,48 +467,46 @@ class BlackOil(Model):
         if well is not None:
             if cell_id is None:
                 cell_id = well.cell_id
-            assert (
-                cell_id in self.grid.cells_id
-            ), "a well must be placed within the reservoir"
-            self.wells[cell_id] = vars(well)
+            q, pwf = getattr(well, "q", None), None
+            r, s = getattr(well, "r", None), getattr(well, "s", None)
+        assert cell_id is not None, "id must be defined"
+        assert (
+            cell_id in self.grid.cells_id
+        ), "a well must be placed within the reservoir"
+
+        if well is None and cell_id in self.wells:
+            well_old = self.wells[cell_id]
         else:
-            assert cell_id is not None, "id must be defined"
-            assert (
-                cell_id in self.grid.cells_id
-            ), "a well must be placed within the reservoir"
-            if cell_id not in self.wells:
-                self.wells[cell_id] = {}
-            if q is not None:
-                self.wells[cell_id]["q"] = q
-                self.wells[cell_id]["q_sp"] = q
-                self.wells[cell_id]["constrain"] = "q"
-            if pwf is not None:
-                self.wells[cell_id]["pwf"] = pwf
-                self.wells[cell_id]["pwf_sp"] = pwf
-                if "q" not in self.wells[cell_id].keys():
-                    self.wells[cell_id]["constrain"] = "pwf"
-                # newtest
-                # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-                self.w_pressures[cell_id].append(
-                    self.__get_pressure(self.__get_tstep(), cell_id)
-                )
-            if "constrain" not in self.wells[cell_id].keys():
-                self.wells[cell_id]["constrain"] = "pwf"
-            if r is not None:
-                self.wells[cell_id]["r"] = r
-            if s is not None:
-                self.wells[cell_id]["s"] = s
-
-        self.wells[cell_id]["r_eq"] = self.__calc_well_r_eq(cell_id)
-        self.wells[cell_id]["G"] = self.__calc_well_G(cell_id)
-        if "pwf" not in self.wells[cell_id].keys():
-            self.wells[cell_id]["pwf"] = 0
-            self.wells[cell_id]["pwf_sp"] = 0
-            # newtest
-            # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-            self.w_pressures[cell_id].append(
-                self.__get_pressure(self.__get_tstep(), cell_id)
-            )
+            well_old = {}
+        well_new = dict(well_old)
+        if q is not None:
+            well_new["q"] = q
+            well_new["q_sp"] = q
+            well_new["constrain"] = "q"
+        if pwf is not None:
+            well_new["pwf"] = pwf
+            well_new["pwf_sp"] = pwf
+            if "q" not in well_new:
+                well_new["constrain"] = "pwf"
+        if "constrain" not in well_new:
+            well_new["constrain"] = "pwf"
+        if r is not None:
+            well_new["r"] = r
+        if s is not None:
+            well_new["s"] = s
+        if "pwf" not in well_new:
+            well_new["pwf"] = 0
+            well_new["pwf_sp"] = 0
+        well_new["r_eq"] = self.__calc_well_r_eq(cell_id)
+        well_new["G"] = self.__calc_well_G(cell_id, well_new)
+        self.wells[cell_id] = well_new
+
+        if cell_id not in self.init_w_pressures:
+            p = self.init_pressures[0, cell_id]
+            self.init_w_pressures[cell_id] = [p]
+            for solution in self.solutions.values():
+                p = solution.pressures[solution.tstep, cell_id]
+                solution.w_pressures[cell_id] = [np.nan] * solution.tstep + [p]
 
         if self.verbose:
             print(f"[info] a well in cell {cell_id} was set.")
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index e11baee..0f21a88 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -7,7 +7,6 @@ Finite Difference Method (FDM) class.
 
 import time
 import warnings
-from collections import defaultdict
 
 
 import numpy as np
@@ -611,7 +610,7 @@ class FDM(Solution):
             well["pwf"] = tstep_w_pressures[id]
             q_est = self.__calc_w_term(id, self.pressures[self.tstep, id])
             well["q"] = self.rates[self.tstep, id] = q_est
-            self.model.w_pressures[id].append(tstep_w_pressures[id])
+            self.w_pressures[id].append(tstep_w_pressures[id])
 
         return False
 
diff --git a/reservoirflow/solutions/solution.py b/reservoirflow/solutions/solution.py
index 7da4fa0..4b39446 100644
--- a/reservoirflow/solutions/solution.py
+++ b/reservoirflow/solutions/solution.py
@@ -33,6 +33,9 @@ class Solution(ABC):
         self.model = model
         self.sparse = sparse
         self.pressures, self.rates = self.model.get_init_arrays()
+        self.w_pressures = {
+            id: list(p) for id, p in self.model.init_w_pressures.items()
+        }
         self.nsteps = 1
         self.tstep = 0
         self.ctime = 0
-- 
2.43.0


From a2e9f20bc89753f3974a90c64cc618e2ddee4caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 15/32] fix: symbolic equations without constant terms

The accumulation term was left at the right hand side of the equation when
no term had a constant (e.g. cells at zero pressure), so solving failed.
---
 reservoirflow/solutions/numerical/fdm.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 0f21a88..007b518 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -208,12 +208,9 @@ class FDM(Solution):
                 raise ValueError("Initial pressure (pi) must be specified")
 
     def __simplify_eq(self, cell_eq):
-        if (
-            cell_eq.lhs.as_coefficients_dict()[1] != 0.0
-            or cell_eq.rhs.as_coefficients_dict()[1] != 0.0
-        ):
-            cell_eq = cell_eq.simplify()
-        return cell_eq
+        expr = (cell_eq.lhs - cell_eq.rhs).expand()
+        const = expr.as_coefficients_dict()[1]
+        return sym.Eq(expr - const, -const)
 
     def get_cell_eq(self, cell_id):
         """Return cell equation.
-- 
2.43.0


From 3ba3940f5ef3ec908d661bd66a95ffb80ed947d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 16/32] fix: do not hide errors of the threads which update the
 matrices

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 007b518..8b1e32d 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -391,7 +391,7 @@ class FDM(Solution):
             with ThreadPoolExecutor(self.model.n) as executor:
                 # from concurrent.futures import ProcessPoolExecutor
                 # with ProcessPoolExecutor(2) as executor:
-                executor.map(self.__update_matrices_symb, self.model.cells_id)
+                list(executor.map(self.__update_matrices_symb, self.model.cells_id))
         else:
             for cell_id in self.model.cells_id:
                 self.__update_matrices_symb(cell_id)
-- 
2.43.0


From 553b222a4a22203da8c669039e617d074b738ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 17/32] fix: reject a compressible model without initial
 pressure

The documented exception was never raised, since nan is a valid operand, and
the sparse mode returned nan pressures.
---
 reservoirflow/solutions/numerical/fdm.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8b1e32d..523826a 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -200,12 +200,11 @@ class FDM(Solution):
         if self.model.comp_type == "incompressible":
             return 0.0
         else:
-            try:
-                return self.model.RHS[cell_id] * (
-                    cell_p - self.pressures[self.tstep, cell_id]
-                )
-            except:
+            if np.isnan(self.pressures[self.tstep, cell_id]):
                 raise ValueError("Initial pressure (pi) must be specified")
+            return self.model.RHS[cell_id] * (
+                cell_p - self.pressures[self.tstep, cell_id]
+            )
 
     def __simplify_eq(self, cell_eq):
         expr = (cell_eq.lhs - cell_eq.rhs).expand()
@@ -470,13 +469,12 @@ class FDM(Solution):
             self.d_ = np.zeros((self.model.n, 1), dtype=self.model.dtype)
 
         if self.model.comp_type == "compressible":
-            try:
-                self.d_[:] = (
-                    -self.model.RHS[self.model.grid.cells_id]
-                    * self.pressures[self.tstep, self.model.grid.cells_id]
-                ).reshape(-1, 1)
-            except:
+            if np.isnan(self.pressures[self.tstep, self.model.cells_id]).any():
                 raise Exception("Initial pressure (pi) must be specified")
+            self.d_[:] = (
+                -self.model.RHS[self.model.grid.cells_id]
+                * self.pressures[self.tstep, self.model.grid.cells_id]
+            ).reshape(-1, 1)
 
         return self.d_
 
-- 
2.43.0


From 8041092104b01cdcaefb8b294da5e267d63e76ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 18/32] fix: shape of the D1P1 analytical solution

alpha is an array over cells, so the meshgrid of tD and xD had one row for
every cell in every time step and get_df() was not aligned with time.
---
 reservoirflow/solutions/analytical/d1p1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index 804a591..16208dd 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -37,7 +37,7 @@ class D1P1(Solution):
         L = x.max() - x.min()
         xD = (x - x.min()) / L
         tD = self.model.get_alpha() * t / (L**2)
-        tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
+        tD_values, xD_values = np.broadcast_arrays(tD, xD.reshape(1, -1))
 
         # Dependent variable: p
         p = self.pressures
@@ -146,7 +146,7 @@ class D1P1(Solution):
         L = x.max() - x.min()
         xD = (x - x.min()) / L
         tD = self.model.get_alpha() * t / (L**2)
-        tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
+        tD_values, xD_values = np.broadcast_arrays(tD, xD.reshape(1, -1))
 
         # Dependent variable: p
         p = self.pressures
-- 
2.43.0


From 519ac7efba06cab807391d7931090508a78cf977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 19/32] fix: use the permeability of the flow direction in
 alpha

---
 reservoirflow/models/black_oil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index cb089ae..e7d83ed 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -655,7 +655,8 @@ class BlackOil(Model):
     def get_alpha(
         self,
     ):
-        lhs_f = (self.factors["transmissibility conversion"] * self.grid.kx) / (
+        k = self.grid.k[self.grid.get_fdir()[0]]
+        lhs_f = (self.factors["transmissibility conversion"] * k) / (
             self.fluid.mu * self.fluid.B
         )
         rhs_f = (self.grid.phi * self.comp) / (
-- 
2.43.0


From 25ff756b8ecde592c6ef38063968971fa3859f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 20/32] fix: icoords with flow shape when unify is False

icoords have one value for every flow direction in this case, not three.
---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 97dc9f4..bb14fdd 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -787,7 +787,7 @@ class RegularCartesian(Grid):
         cells_icoords = self.get_cell_icoords(cells_coords)
 
         if fshape:
-            shape = self.get_fshape(boundary, True)
+            shape = self.get_fshape(boundary, False) + (-1,)
             cells_icoords = np.array(cells_icoords).reshape(shape)
         else:
             cells_icoords = utils.helpers.reformat(cells_icoords, fmt)
-- 
2.43.0


From a5826dea6636ee247bc70dd4d03d7986568c4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 21/32] fix: pass no absolute tolerance to the minres solver

---
 reservoirflow/solutions/numerical/fdm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 523826a..69857c5 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -689,10 +689,12 @@ class FDM(Solution):
             A, d = A.tocsc(), d.toarray()
             if isolver:
                 solver = rf.solutions.numerical.solvers.get_isolver(isolver)
+                # minres does not have an absolute tolerance:
+                tols = {} if isolver == "minres" else {"atol": 0}
                 pressures, exit_code = solver(
                     A,
                     d,
-                    atol=0,
+                    **tols,
                     # x0=self.pressures[self.tstep, self.model.cells_id],
                 )
                 assert exit_code == 0, "unsuccessful convergence"
-- 
2.43.0


From 8ada994bb58aedfd3c885a80b2246d1eac862350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 22/32] fix: ignore missing values when a MinMax scaler is
 fitted

---
 reservoirflow/scalers/minmax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/scalers/minmax.py b/reservoirflow/scalers/minmax.py
index 63502ff..8277d54 100644
--- a/reservoirflow/scalers/minmax.py
+++ b/reservoirflow/scalers/minmax.py
@@ -3,6 +3,8 @@ MinMax
 ------
 """
 
+import numpy as np
+
 from reservoirflow.scalers.scaler import Scaler
 
 
@@ -61,8 +63,8 @@ class MinMax(Scaler):
                 + "Note that in this case overall min and max are used for scaling."
             )
             raise ValueError(msg)
-        self.vmin = v.min(axis=axis)  #: input minimum value.
-        self.vmax = v.max(axis=axis)  #: input maximum value.
+        self.vmin = np.nanmin(v, axis=axis)  #: input minimum value.
+        self.vmax = np.nanmax(v, axis=axis)  #: input maximum value.
         return self
 
     def transform(self, v):
-- 
2.43.0


From 2e5569b7a4de18e6542c07d28e115f78fe12f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 23/32] fix: reject scaler settings before any of them is
 applied

---
 reservoirflow/models/black_oil.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index e7d83ed..11b34c1 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -929,7 +929,13 @@ class BlackOil(Model):
             "pressure": ["p", "pressures", "pressure", "all"],
             "rate": ["q", "rates", "rate", "all"],
         }
-        # col_vals = sum(col_dict.values(), [])
+        col_vals = sum(col_dict.values(), [])
+
+        # check all settings first so that nothing is changed on errors:
+        for column in scalers_dict.keys():
+            if column.lower() not in col_vals:
+                raise ValueError(f"column {column} does not exist.")
+            create_scaler(scalers_dict[column][0], scalers_dict[column][1])
 
         for column in scalers_dict.keys():
             scaler_type = scalers_dict[column][0]
@@ -946,8 +952,6 @@ class BlackOil(Model):
             elif column.lower() in col_dict["rate"]:
                 self.rates_scaler, s_str = create_scaler(scaler_type, output_range)
                 column_str = "rate"
-            else:  # if column.lower() not in col_vals:
-                raise ValueError(f"column {column} does not exist.")
 
             if scaler_type is None or output_range is None:
                 self.scalers_dict[column_str] = [None, None]
-- 
2.43.0


From 8a4a64b6c206e6a412c4b149404937f7178f9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:39 +0000
Subject: [PATCH 24/32] fix: keep the compressibility when a negative one is
 rejected

---
 reservoirflow/fluids/fluid.py | 8 ++++----
 reservoirflow/grids/grid.py   | 8 ++++----
 reservoirflow/models/model.py | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/reservoirflow/fluids/fluid.py b/reservoirflow/fluids/fluid.py
index b740c29..55a02eb 100644
--- a/reservoirflow/fluids/fluid.py
+++ b/reservoirflow/fluids/fluid.py
@@ -54,14 +54,14 @@ class Fluid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
-            self.comp_type = "incompressible"
+            comp_type = "incompressible"
         elif comp > 0:
-            self.comp_type = "compressible"
+            comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
+        self.comp_type = comp_type
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/grids/grid.py b/reservoirflow/grids/grid.py
index c81ec02..43d39ce 100644
--- a/reservoirflow/grids/grid.py
+++ b/reservoirflow/grids/grid.py
@@ -80,14 +80,14 @@ class Grid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
-            self.comp_type = "incompressible"
+            comp_type = "incompressible"
         elif comp > 0:
-            self.comp_type = "compressible"
+            comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
+        self.comp_type = comp_type
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/models/model.py b/reservoirflow/models/model.py
index 6552f7e..638a21c 100644
--- a/reservoirflow/models/model.py
+++ b/reservoirflow/models/model.py
@@ -65,14 +65,14 @@ class Model(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
-            self.comp_type = "incompressible"
+            comp_type = "incompressible"
         elif comp > 0:
-            self.comp_type = "compressible"
+            comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
+        self.comp_type = comp_type
 
     def compile(
         self,
-- 
2.43.0


From c4a9d39256eb651fc19d0e72e287d4a2f6dfd0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 25/32] fix: change no fluid property when a negative
 compressibility is rejected

---
 reservoirflow/fluids/single_phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/fluids/single_phase.py b/reservoirflow/fluids/single_phase.py
index cc0d8bb..bfacfde 100644
--- a/reservoirflow/fluids/single_phase.py
+++ b/reservoirflow/fluids/single_phase.py
@@ -146,14 +146,14 @@ class SinglePhase(Fluid):
         comp : float, optional
             fluid compressibility.
         """
+        if comp is not None:
+            self.set_comp(comp)
         if mu is not None:
             self.set_mu(mu)
         if B is not None:
             self.set_B(B)
         if rho is not None:
             self.set_rho(rho)
-        if comp is not None:
-            self.set_comp(comp)
         if not hasattr(self, "rho"):
             self.set_rho(0)
         if not hasattr(self, "comp"):
-- 
2.43.0


From 4da78d9345f186d26b9c2f6081dfee96b3b19794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 26/32] fix: set_prop updates the property attributes and
 set_props changes nothing on errors

---
 reservoirflow/grids/regular_cartesian.py | 53 ++++++++++++------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index bb14fdd..25c1690 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2316,26 +2316,19 @@ class RegularCartesian(Grid):
         # ToDo
         # ----
         # - allow iterables for id and coords.
-        if kx is not None:
-            self.set_prop("kx", kx, id, coords)
-            self.kx = self.k["x"] = self.__props__["kx"]
-        if ky is not None:
-            self.set_prop("ky", ky, id, coords)
-            self.ky = self.k["y"] = self.__props__["ky"]
-        if kz is not None:
-            self.set_prop("kz", kz, id, coords)
-            self.kz = self.k["z"] = self.__props__["kz"]
-        if phi is not None:
-            self.set_prop("phi", phi, id, coords)
-            self.phi = self.__props__["phi"]
-        if z is not None:
-            self.set_prop("z", z, id, coords)
-            self.z = self.__props__["z"]
+        props = {"kx": kx, "ky": ky, "kz": kz, "phi": phi, "z": z}
+        # check all values first so that nothing is changed on errors:
+        values = {
+            name: self.__calc_prop(name, value, id, coords)
+            for name, value in props.items()
+            if value is not None
+        }
         if comp is not None:
             self.set_comp(comp)
+        for name in values:
+            self.set_prop(name, props[name], id, coords)
         if self.__props__["z"] is None:
             self.set_prop("z", 0)
-            self.z = self.__props__["z"]
         if not hasattr(self, "comp"):
             self.set_comp(0)
 
@@ -2357,6 +2350,18 @@ class RegularCartesian(Grid):
             icoords = self.get_cell_icoords(coords)
             array[icoords] = value
 
+    def __calc_prop(self, name, value, id=None, coords=None):
+        """Returns the values of a property in all cells after an update."""
+        if id is None and coords is None:
+            return self.get_ones(True, False, False) * value
+        if id is None:
+            id = self.get_cell_id(coords, True)
+        if isinstance(id, tuple):
+            id = list(id)
+        values = self.__props__[name].copy()
+        values[id] = value
+        return values
+
     def set_prop(
         self,
         name,
@@ -2409,16 +2414,12 @@ class RegularCartesian(Grid):
         #     self.props[name] = prop.reshape(fshape)
         #     s = "cell id " + str(id)
         if name in self.__props__.keys():
-            if id is None and coords is None:
-                self.__props__[name] = self.get_ones(True, False, False) * value
-                s = "all cells"
-            else:
-                if id is None:
-                    id = self.get_cell_id(coords, True)
-                if isinstance(id, tuple):
-                    id = list(id)
-                self.__props__[name][id] = value
-                s = "cell id " + str(id)
+            self.__props__[name] = self.__calc_prop(name, value, id, coords)
+            if name in ["kx", "ky", "kz"]:
+                self.k[name[1]] = self.__props__[name]
+            if name != "comp":
+                setattr(self, name, self.__props__[name])
+            s = "all cells" if id is None and coords is None else "selected cells"
         else:
             msg = (
                 f"Property {name} is unknown or not defined. "
-- 
2.43.0


From 2c1058eeb2ef84780f73b5d97e11b3d19952be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 27/32] fix: keep the verbose setting of the model when a run
 fails

---
 reservoirflow/solutions/numerical/fdm.py | 27 ++++++++++++------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 69857c5..e26bfda 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -791,16 +791,20 @@ class FDM(Solution):
             leave=True,
         )
 
-        for step in pbar:
-            pbar.set_description(f"[step] {step}")
-            self.solve(
-                threading,
-                vectorize,
-                check_MB,
-                True,
-                print_arrays,
-                isolver,
-            )
+        try:
+            for step in pbar:
+                pbar.set_description(f"[step] {step}")
+                self.solve(
+                    threading,
+                    vectorize,
+                    check_MB,
+                    True,
+                    print_arrays,
+                    isolver,
+                )
+        finally:
+            if verbose_restore:
+                self.model.verbose = True
 
         self.run_ctime = round(time.time() - start_time, 2)
         self.ctime += self.run_ctime
@@ -811,9 +815,6 @@ class FDM(Solution):
         if check_MB:
             print(f"[info] Material Balance Error: {self.error}.")
 
-        if verbose_restore:
-            self.model.verbose = True
-
     # -------------------------------------------------------------------------
     # Material Balance:
     # -------------------------------------------------------------------------
-- 
2.43.0


From c64a8812178d1a487ad2630376045e955be3cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 28/32] fix: an analytical run without initial pressure fails
 before the solution is changed

---
 reservoirflow/solutions/analytical/d1p1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index 16208dd..39e4867 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -96,6 +96,9 @@ class D1P1(Solution):
         print_arrays=False,
         isolver=None,
     ):
+        if self.model.pi is None:
+            raise ValueError("Initial pressure (pi) must be defined.")
+
         start_time = time.time()
         # self.nsteps += nsteps
         self.tstep = nsteps
-- 
2.43.0


From e79cc293ed48e2d8379f7d6201c9f85c68992a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 29/32] fix: a run of zero steps on a new solution does not
 fail

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index e26bfda..a53c0ad 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -812,7 +812,7 @@ class FDM(Solution):
             f"[info] Simulation run of {nsteps} steps",
             f"finished in {self.run_ctime} seconds.",
         )
-        if check_MB:
+        if check_MB and nsteps > 0:
             print(f"[info] Material Balance Error: {self.error}.")
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From ed1cb42af227deb3db66de7f3dfcd530ac47a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 30/32] fix: solve every timestep with the current properties
 of the grid and the fluid

---
 reservoirflow/solutions/numerical/fdm.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index a53c0ad..8e4951e 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -18,7 +18,6 @@ from tqdm import tqdm
 
 import reservoirflow as rf
 from reservoirflow.solutions.solution import Solution
-from reservoirflow.utils.helpers import _lru_cache
 
 
 class FDM(Solution):
@@ -51,7 +50,6 @@ class FDM(Solution):
         super().__init__(model, sparse)
         # newtest
         self.ds = self.model.grid.get_zeros(False, False, False)[np.newaxis]
-        self.b_trans = {}
         self.released_wells = (0, set())
         self.As = np.zeros((1, self.model.n * self.model.n), dtype=self.model.dtype)
 
@@ -59,7 +57,6 @@ class FDM(Solution):
     # Flow Equations: symbolic
     # -------------------------------------------------------------------------
 
-    @_lru_cache(maxsize=None)
     def __calc_n_term(
         self,
         cell_id,
@@ -412,8 +409,8 @@ class FDM(Solution):
         ceofficient matrix (known), `d` is the constant vector (known),
         and `u` is the variable vector (unknown e.g., pressure).
 
-        This function initialize the ceofficient matrix (`A`) which is
-        needed only at initial timestep (i.e., `timestep=0`).
+        This function initialize the ceofficient matrix (`A`) based on
+        the current properties of the grid and the fluid.
 
         Returns
         -------
@@ -502,11 +499,8 @@ class FDM(Solution):
         _type_
             _description_
         """
-        if self.tstep == 0 or not hasattr(self, "A_init"):
-            # second condition allow switching vectorize True/False after
-            # timestep=0.
-            self.A_init = self.__init_A()
-        self.A_ = self.A_init.copy()
+        # properties may change between timesteps:
+        self.__init_A()
         self.__init_d()
 
         for id in self.model.wells.keys():
@@ -611,10 +605,8 @@ class FDM(Solution):
 
     def __get_b_trans(self, cell_b_id):
         """Returns neighbor id and transmissibility of a boundary cell."""
-        if cell_b_id not in self.b_trans:
-            ((id, T),) = self.model.get_cell_trans(cell_b_id, None, False).items()
-            self.b_trans[cell_b_id] = (id, T)
-        return self.b_trans[cell_b_id]
+        ((id, T),) = self.model.get_cell_trans(cell_b_id, None, False).items()
+        return id, T
 
     def __update_boundaries(self):
         for id_b in self.model.bdict_update:
-- 
2.43.0


From 043c1c9cd55c8ccce536aa854708e2ef8f4865ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 31/32] fix: drop vanished connections from the symbolic
 matrices

---
 reservoirflow/solutions/numerical/fdm.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8e4951e..cf57976 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -369,17 +369,13 @@ class FDM(Solution):
         # - Update only required cells.
         self.cells_eq = self.get_cells_eq(threading)
 
-        if self.tstep == 0 or not hasattr(self, "A") or not hasattr(self, "d"):
-            # second and third conditions allow switching vectorize
-            # True/False after timestep=0.
-            if self.sparse:
-                self.d = ss.lil_matrix((self.model.n, 1), dtype=self.model.dtype)
-                self.A = ss.lil_matrix(
-                    (self.model.n, self.model.n), dtype=self.model.dtype
-                )
-            else:
-                self.d = np.zeros((self.model.n, 1), dtype=self.model.dtype)
-                self.A = np.zeros((self.model.n, self.model.n), dtype=self.model.dtype)
+        # connections may vanish between timesteps (e.g. zero permeability):
+        if self.sparse:
+            self.d = ss.lil_matrix((self.model.n, 1), dtype=self.model.dtype)
+            self.A = ss.lil_matrix((self.model.n, self.model.n), dtype=self.model.dtype)
+        else:
+            self.d = np.zeros((self.model.n, 1), dtype=self.model.dtype)
+            self.A = np.zeros((self.model.n, self.model.n), dtype=self.model.dtype)
 
         if threading:
             from concurrent.futures import ThreadPoolExecutor
-- 
2.43.0


From 4d55d349b0366cc7277d28a9370026b5a1b9fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 32/32] fix: compute accumulation and diffusivity with the
 current properties

---
 reservoirflow/models/black_oil.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 11b34c1..9aa85af 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -13,7 +13,6 @@ import scipy.sparse as ss
 
 import reservoirflow as rf
 from reservoirflow.models.model import Model
-from reservoirflow.utils.helpers import _lru_cache
 
 
 class BlackOil(Model):
@@ -637,21 +636,24 @@ class BlackOil(Model):
     # Flow Equations:
     # -------------------------------------------------------------------------
 
-    @_lru_cache(maxsize=1)
+    @property
+    def RHS(self):
+        """Flow equation RHS based on the current properties."""
+        return self.__calc_RHS()
+
     def __calc_RHS(self):
         """Calculates flow equation for RHS."""
         if self.comp_type == "incompressible":
             n = self.grid.get_n(True)
-            self.RHS = np.zeros(n, dtype=self.dtype)
+            RHS = np.zeros(n, dtype=self.dtype)
         elif self.comp_type == "compressible":
             RHS_n = self.grid.V * self.grid.phi * self.comp
             RHS_d = self.factors["volume conversion"] * self.fluid.B * self.dt
-            self.RHS = RHS_n / RHS_d
+            RHS = RHS_n / RHS_d
         else:
             raise ValueError("compressibility type is unknown.")
-        return self.RHS
+        return RHS
 
-    @_lru_cache(maxsize=1)
     def get_alpha(
         self,
     ):
-- 
2.43.0

