From 62070337f2a12e55d1e3797ce0e66625e66dac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 01/22] fix: interpolate the given indicator function of a
 fitted data domain

The indicator was replaced by a zero function that was then interpolated from
itself, so that the data domain was always empty (and the caller's DataDomain
was overwritten).
---
 src/dxss/space_time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 3bd5ccc..8eefa6c 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -146,8 +146,11 @@ class SpaceTime:
         # TODO: could this be moved to the constructor of the dataclass?
         if omega.fitted:
             q_ind = fem.FunctionSpace(self.msh, ("DG", 0))
-            self.omega.indicator_function = fem.Function(q_ind)
-            self.omega.indicator_function.interpolate(self.omega.indicator_function)
+            self.omega = dataclasses.replace(
+                omega,
+                indicator_function=fem.Function(q_ind),
+            )
+            self.omega.indicator_function.interpolate(omega.indicator_function)
         else:
             self.omega.indicator_function = self.omega.indicator_function
 
-- 
2.43.0


From e288e7707063a5550bf3704c4363df20f306f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 02/22] fix: two-level preconditioner calls its own coarse-grid
 operator

OrderTime has no q_op, so pre_twolvl always raised AttributeError.
---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 8eefa6c..35d2cde 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1444,7 +1444,7 @@ class SpaceTime:
         self.prolongation(self.tmp2_coarse, x_out)
 
     def pre_twolvl(self, b, x_sol):
-        self.otime.q_op(b, self.tmp3_sol)
+        self.q_op(b, self.tmp3_sol)
         self.apply_spacetime_matrix(self.tmp3_sol, self.tmp4_sol)
         self.tmp5_sol.array[:] = b.array[:]
         self.tmp5_sol.array[:] -= self.tmp4_sol.array[:]
-- 
2.43.0


From 3bc39ebd43ce3a045ad301a188fe8ca57e914373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 03/22] fix: do not return the cached space-time matrix of the
 other kind

get_spacetime_matrix / get_spacetime_bfi ignored `precond` once a matrix was
cached, so that the second kind asked for was never assembled.
---
 src/dxss/space_time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 35d2cde..8883833 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -182,6 +182,7 @@ class SpaceTime:
         # SpaceTime
         self.spacetime_bilinear_form = None
         self.spacetime_matrix = None
+        self.spacetime_precond = None
         # Slab matrix with DG-jumps
         self.slab_bilinear_form = None
         self.slab_matrix = None
@@ -710,7 +711,7 @@ class SpaceTime:
         return A, bilinear_form
 
     def get_spacetime_matrix(self, precond=False):
-        if not self.spacetime_matrix:
+        if not self.spacetime_matrix or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
@@ -718,16 +719,18 @@ class SpaceTime:
             # TODO: was this a bug? also on l663 👇
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_matrix
 
     def get_spacetime_bfi(self, precond=False):
-        if not self.spacetime_bilinear_form:
+        if not self.spacetime_bilinear_form or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
             )
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_bilinear_form
 
     def setup_rhs(self):
-- 
2.43.0


From 78036b90f335b7220bc92a2767d105f4a54b4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 04/22] fix: prepare everything the time marching needs in any
 call order

b_rhs_pre was only created when the slab matrix had not been requested before,
and the slab matrix without DG jumps (used by apply_spacetime_matrix) was never
assembled for well-posed problems.
---
 src/dxss/space_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 8883833..a619031 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -209,6 +209,7 @@ class SpaceTime:
         # auxiliary vectors
         self.vec_slab1 = None
         self.vec_slab2 = None
+        self.b_rhs_pre = None
         self.vec_coupling1 = None
         self.vec_coupling2 = None
         self.u1_0_pre = None
@@ -1335,8 +1336,9 @@ class SpaceTime:
     def prepare_precondition_gmres(self):
         if not self.slab_matrix:
             self.setup_slab_matrix(with_jumps=True)
+        if not self.b_rhs_pre:
             self.b_rhs_pre, _ = self.slab_matrix.createVecs()
-        if not self.SlabMatFirstSlab and not self.well_posed:
+        if not self.slab_matrix_no_dg_jumps:
             self.setup_slab_matrix(with_jumps=False)
         if not self.coupling_matrix_between_slices:
             self.setup_coupling_matrix_between_slices()
-- 
2.43.0


From 2e308a9ba398eabbe13751775acf4b29b4f9d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 05/22] fix: apply the initial data terms of well-posed
 problems

apply_spacetime_matrix left out the terms on the first slab that the assembled
space-time matrix and the right-hand side have.
---
 src/dxss/space_time.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index a619031..c729b92 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1155,10 +1155,15 @@ class SpaceTime:
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
 
-            self.slab_matrix_no_dg_jumps_multiply(
-                self.vec_slab1,
-                self.vec_slab2,
-            )  # multiplication with slab matrix
+            # multiplication with slab matrix
+            if n == 0 and self.well_posed:
+                # includes the initial data terms
+                self.SlabMatFirstSlab.mult(self.vec_slab1, self.vec_slab2)
+            else:
+                self.slab_matrix_no_dg_jumps_multiply(
+                    self.vec_slab1,
+                    self.vec_slab2,
+                )
 
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
-- 
2.43.0


From 8a815828edeb7acff0f735e6f569c62c42ea7690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 06/22] fix: only reject meshes whose node numbering is not
 sequential

The check was inverted, so that every valid mesh was rejected.
---
 src/dxss/meshes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index dd74037..fd3ae43 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -491,7 +491,7 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -623,7 +623,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -728,7 +728,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
-- 
2.43.0


From e088ef27682a7fdd9642f2ec26a3edf831f97918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 07/22] fix: do not call an undefined function in
 get_mesh_inclusion_square

---
 src/dxss/meshes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index fd3ae43..5782d57 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -650,9 +650,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         MPI.COMM_WORLD,
         cells,
         x,
-        ufl_mesh_from_gmsh(  # noqa: F821
-            gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
-        ),  # TODO: this function is undefined!! (old dolfinx api?)
+        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
     )
 
     with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
-- 
2.43.0


From d1d91e68f6ef2c3e3a473eef3cd5c436df99d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 08/22] fix: close the gmsh session on every process in every
 mesh generator

get_3d_mesh_data_all_around left it open, so that a second mesh could not be
generated; two others closed it on the first process only.
---
 src/dxss/meshes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 5782d57..bec8f5d 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -78,7 +78,7 @@ def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -382,7 +382,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -917,6 +917,7 @@ def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
         gmsh_model_rank,
         gdim=gdim,
     )
+    gmsh.finalize()
 
     mesh_hierarchy = []
     mesh_hierarchy.append(mesh)
-- 
2.43.0


From f3b467bba95682a4005110f437351cabaf8c12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 09/22] fix: pass right-hand side and solution to the direct
 solver in order

The right-hand side was overwritten with zero and zero returned as solution.
---
 src/dxss/solve_1d.py | 2 +-
 src/dxss/solve_2d.py | 2 +-
 src/dxss/solve_3d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/solve_1d.py b/src/dxss/solve_1d.py
index 1a0309e..848c8c6 100644
--- a/src/dxss/solve_1d.py
+++ b/src/dxss/solve_1d.py
@@ -170,7 +170,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_2d.py b/src/dxss/solve_2d.py
index 292d46b..e26db7f 100644
--- a/src/dxss/solve_2d.py
+++ b/src/dxss/solve_2d.py
@@ -172,7 +172,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index 9f36f60..9fcb1c9 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -237,7 +237,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
-- 
2.43.0


From 6642b7be7b3828ce0b8413d5ffdf32d43e8fa6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 10/22] fix: transfer dual components whose order in space
 differs from the primal

Prolongation and restriction used the primal node space for all components and
raised for kstar != k.
---
 src/dxss/space_time.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index c729b92..d666665 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1392,8 +1392,13 @@ class SpaceTime:
             self.fes_coarse.sub(0).sub(0).collapse()
         )
         self.fes_node_fine, self.dofmap_node_fine = self.fes.sub(0).sub(0).collapse()
-        self.u_node_fine = fem.Function(self.fes_node_fine)
-        self.u_node_coarse = fem.Function(self.fes_node_coarse)
+        # one pair per component, since primal and dual order in space may differ
+        self.u_node_fine = [
+            fem.Function(self.fes.sub(j).sub(0).collapse()[0]) for j in range(4)
+        ]
+        self.u_node_coarse = [
+            fem.Function(self.fes_coarse.sub(j).sub(0).collapse()[0]) for j in range(4)
+        ]
 
         self.SpaceTimeMatCoarse, self.SpaceTimeBfiCoarse = self.setup_spacetime_matrix(
             self.fes_coarse,
@@ -1421,13 +1426,13 @@ class SpaceTime:
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_coarse.x.array[:] = x_coarse.array[
+                    self.u_node_coarse[j].x.array[:] = x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
                     ]
-                    self.u_node_fine.interpolate(self.u_node_coarse)
+                    self.u_node_fine[j].interpolate(self.u_node_coarse[j])
                     x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
-                    ] = self.u_node_fine.x.array[:]
+                    ] = self.u_node_fine[j].x.array[:]
             int_idx_q += self.otime.q + 1
             int_idx_qstar += self.otime.qstar + 1
 
@@ -1438,13 +1443,13 @@ class SpaceTime:
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_fine.x.array[:] = x_fine.array[
+                    self.u_node_fine[j].x.array[:] = x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
-                    self.u_node_coarse.interpolate(self.u_node_fine)
+                    self.u_node_coarse[j].interpolate(self.u_node_fine[j])
                     x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
-                    ] = self.u_node_coarse.x.array[:]
+                    ] = self.u_node_coarse[j].x.array[:]
             int_idx_qstar += self.otime.qstar + 1
             int_idx_q += self.otime.q + 1
 
-- 
2.43.0


From 04146e07a2056041fd2d12b8b92fbe725937512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 11/22] fix: measuring or plotting errors no longer overwrites
 the initial data

measured_errors and plot_para_view stored the solution at the final time in the
functions that hold the initial data of well-posed problems.
---
 src/dxss/space_time.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index d666665..3a9cfe9 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1478,10 +1478,11 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        # not in self.u1_0, which holds initial data
+        u1_end = fem.Function(self.fes_u1_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
         ue = self.solution.v(self.T, self.x)
-        l2_error = fem.form(ufl.inner(self.u1_0 - ue, self.u1_0 - ue) * dx)
+        l2_error = fem.form(ufl.inner(u1_end - ue, u1_end - ue) * dx)
         error_local = fem.assemble_scalar(l2_error)
         error_l2_abs = np.sqrt(self.msh.comm.allreduce(error_local, op=MPI.SUM))
         print(f"t = {self.T}, L2-error = {error_l2_abs} ")
@@ -1849,8 +1850,11 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        # not in self.u1_0 and self.u2_0, which hold initial data
+        u1_end = fem.Function(self.fes_u1_0)
+        u2_end = fem.Function(self.fes_u2_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
+        u2_end.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
 
         u_exact = fem.Function(self.fes_u1_0)
         u_diff = fem.Function(self.fes_u1_0)
@@ -1870,8 +1874,8 @@ class SpaceTime:
         )
         ut_exact.interpolate(ut_expr_exact)
 
-        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - self.u1_0.x.array[:])
-        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - self.u2_0.x.array[:])
+        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - u1_end.x.array[:])
+        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - u2_end.x.array[:])
         print(" u_diff.x.array =", u_diff.x.array)
 
         u_diff.name = "u-abserr"
-- 
2.43.0


From 3635535442e48c79ae3d105f17734d681b25cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 12/22] fix: always sample the error at the final time

Rounding of t_n + delta_t left the sample at T out for N = 6, 14, 24, ...
---
 src/dxss/space_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 3a9cfe9..0c82692 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1538,7 +1538,10 @@ class SpaceTime:
                 total_error_l2l2_dt += omega_i * delta_t * error_dt_tni
 
             for t_sample in self.sample_pts_error:
-                if t_sample >= t_n and t_sample <= (t_n + delta_t):
+                # the last slab ends at T, whatever t_n + delta_t is rounded to
+                if t_sample >= t_n and (
+                    t_sample <= (t_n + delta_t) or n == self.N - 1
+                ):
                     ue = self.solution.v(t_sample, self.x)
                     dt_ue = self.solution.dvdt(t_sample, self.x)
                     uh_at_ti = sum(
-- 
2.43.0


From c6b1e18e436537e0b3bf83b25917fc0bff6811fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 13/22] fix: get_mesh_inclusion_square works with its default
 arguments

The part of the target domain above eta is empty for eta == y_r, which gmsh
rejects as a rectangle of zero height.
---
 src/dxss/meshes.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index bec8f5d..699129b 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -555,13 +555,10 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 x_r - x_l,
                 eta - y_l,
             )
-            target_dom_plus = gmsh.model.occ.addRectangle(
-                x_l,
-                eta,
-                0,
-                x_r - x_l,
-                y_r - eta,
-            )
+            target_dom_plus = []
+            if eta < y_r:
+                tag = gmsh.model.occ.addRectangle(x_l, eta, 0, x_r - x_l, y_r - eta)
+                target_dom_plus.append((2, tag))
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
             gmsh.model.occ.synchronize()
@@ -570,7 +567,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 [
                     (2, target_dom_minus),
                     (2, mu_inner),
-                    (2, target_dom_plus),
+                    *target_dom_plus,
                     (2, remainder_top),
                 ],
             )
-- 
2.43.0


From 4e45297632fa4a34002033c34e48da3572cbd309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 14/22] fix: return the residual of the solution GMRes returns

---
 src/dxss/gmres.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index 3c14f88..ad06d3d 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -101,6 +101,9 @@ def get_gmres_solution(
         PETSc.Sys.Print(f"Solver did not converge after {ksp_iter} iterations.")
         raise PETSc.Error
 
-    r = ksp.buildResidual()
+    # KSP.buildResidual would add the correction of the last cycle to x once more.
+    r = b.duplicate()
+    A_shell.mult(x, r)
+    r.aypx(-1.0, b)
 
     return (x, r)
-- 
2.43.0


From cbef476599d246798a68723080260a805df79153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 15/22] fix: apply the coupling terms of jumps in the forward
 problem

---
 src/dxss/space_time.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 0c82692..f13e54b 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1140,6 +1140,11 @@ class SpaceTime:
         self.coupling_matrix_between_slices.mult(vec_in, vec_out)
 
     def apply_spacetime_matrix(self, vec_in, vec_out):
+        if self.jumps_in_fw_problem:
+            # the slab and coupling matrices below lack the jumps of the forward problem
+            self.get_spacetime_matrix().mult(vec_in, vec_out)
+            return
+
         vec_out.array[:] = 0.0
 
         int_idx_q = 0
-- 
2.43.0


From a1382b483a883a0b6562715fa763bdd183ab98ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 16/22] fix: coarse space-time matrix with an unfitted data
 domain

The indicator of an unfitted data domain is an expression, which cannot be
interpolated like the function that a fitted one is turned into.
---
 src/dxss/space_time.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index f13e54b..0cdb405 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -368,10 +368,16 @@ class SpaceTime:
 
         if afes == self.fes:
             omega_ind = self.omega.indicator_function
-        else:
+        elif isinstance(self.omega.indicator_function, fem.Function):
             q_ind = fem.FunctionSpace(afes.mesh, ("DG", 0))
             omega_ind = fem.Function(q_ind)
             omega_ind.interpolate(self.omega.indicator_function)
+        else:
+            # an expression in the coordinates, which has no values to interpolate
+            omega_ind = ufl.replace(
+                self.omega.indicator_function,
+                {self.x: ufl.SpatialCoordinate(afes.mesh)},
+            )
 
         # retrieve stabilization parameter
         gamma_data = self.stabilisation_terms["data"]
-- 
2.43.0


From 2abf50bd90afcd75f431e672cce3ab21a3dac739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 17/22] fix: prepare the coarse grid correction before the
 right-hand side exists

The linear form is only there after setup_rhs or prepare_precondition_gmres;
get it instead of relying on the order of the calls.
---
 src/dxss/space_time.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 0cdb405..5f5d17a 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1416,12 +1416,12 @@ class SpaceTime:
             precond=False,
         )
 
-        self.tmp1_fine = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp2_fine = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp3_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp4_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp5_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp6_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
+        self.tmp1_fine = fem.petsc.create_vector(self.get_spacetime_lfi())
+        self.tmp2_fine = fem.petsc.create_vector(self.get_spacetime_lfi())
+        self.tmp3_sol = fem.petsc.create_vector(self.get_spacetime_lfi())
+        self.tmp4_sol = fem.petsc.create_vector(self.get_spacetime_lfi())
+        self.tmp5_sol = fem.petsc.create_vector(self.get_spacetime_lfi())
+        self.tmp6_sol = fem.petsc.create_vector(self.get_spacetime_lfi())
         self.tmp1_coarse, self.tmp2_coarse = self.SpaceTimeMatCoarse.createVecs()
 
     def get_spacetime_matrix_coarse(self):
-- 
2.43.0


From 18b0aae97348547642d9f650fb54ec83bb5d1348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 18/22] fix: keep the shape of a matrix whose last columns are
 empty in get_sparse_matrix

---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 5f5d17a..3a6d455 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -67,7 +67,7 @@ _DEFAULT_PARAMETERS = ProblemParameters()
 # TODO: this is duplicated... factor out to a "PETSc interface functions" file?
 def get_sparse_matrix(mat):
     ai, aj, av = mat.getValuesCSR()
-    return sp.csr_matrix((av, aj, ai))
+    return sp.csr_matrix((av, aj, ai), shape=(len(ai) - 1, mat.getSize()[1]))
 
 
 class SpaceTime:
-- 
2.43.0


From 57c1fe39725e10f6f5b0c6327de93238ad261f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 19/22] fix: get_mesh_inclusion_square covers its domain for
 smaller targets

With eta below the top of the domain, nothing covered the part of the hole in
the data domain that lies outside the target: the mesh had a hole there.
---
 src/dxss/meshes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 699129b..5c5d59d 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -560,6 +560,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 tag = gmsh.model.occ.addRectangle(x_l, eta, 0, x_r - x_l, y_r - eta)
                 target_dom_plus.append((2, tag))
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
+            remainder = gmsh.model.occ.addRectangle(-1.25, -1.25, 0, 2.5, 1.25 + eta)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
             gmsh.model.occ.synchronize()
             gmsh.model.occ.fragment(
@@ -568,6 +569,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                     (2, target_dom_minus),
                     (2, mu_inner),
                     *target_dom_plus,
+                    (2, remainder),
                     (2, remainder_top),
                 ],
             )
-- 
2.43.0


From eb784bd0b3c79fb7ab0d10078e94abe27a9eff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 20/22] fix: refine all mesh hierarchies with dolfinx 0.7 as
 well

---
 src/dxss/meshes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 5c5d59d..0970c8a 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -19,6 +19,13 @@ GM = GhostMode.shared_facet
 eta = 0.6
 
 
+def _incident_edges(mesh, cells):
+    # compute_incident_entities takes the topology instead of the mesh since dolfinx v0.7
+    if Version(version("fenics-dolfinx")) < Version("0.7"):
+        return compute_incident_entities(mesh, cells, 2, 1)
+    return compute_incident_entities(mesh.topology, cells, 2, 1)
+
+
 def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
     # TODO: Need to understand why there is a an import and subfunction here.
     # Looks like create_mesh could be global level. The following functions have
@@ -223,7 +230,7 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        edges = _incident_edges(mesh, cells)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
     return mesh_hierarchy
@@ -313,7 +320,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        edges = _incident_edges(mesh, cells)
         print(edges)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
@@ -424,7 +431,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        edges = _incident_edges(mesh, cells)
         print(edges)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
-- 
2.43.0


From 266c91fe52f4d7ef6ee48a4d949a13b0a8f22c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 21/22] fix: get_mesh_inclusion_square fits a target that ends
 below eta

---
 src/dxss/meshes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 0970c8a..975f476 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -560,7 +560,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 y_l,
                 0,
                 x_r - x_l,
-                eta - y_l,
+                min(eta, y_r) - y_l,
             )
             target_dom_plus = []
             if eta < y_r:
-- 
2.43.0


From 7e4daf8dd1781cb4f615f977721f2abc8373026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 22/22] fix: mesh generators without file exchange work on
 every process

All but the first process have no elements: asking for the type of the first
one raised an error and left the gmsh session open.
---
 src/dxss/meshes.py | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 975f476..ccc80b4 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -504,6 +504,10 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     x = points[srt]
 
     element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
+    if cell_type == CellType.triangle:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
+    elif cell_type == CellType.quadrilateral:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
     (
         name,
         dim,
@@ -511,13 +515,11 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(gmsh_cell_id)
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
-    if cell_type == CellType.triangle:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
-    elif cell_type == CellType.quadrilateral:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
+    # only the first process has elements
+    cells = np.concatenate([np.empty(0, np.int64), *node_tags]).astype(np.int64)
+    cells = cells.reshape(-1, num_nodes) - 1
     gmsh.finalize()
 
     cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
@@ -635,6 +637,10 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     x = points[srt]
 
     element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
+    if cell_type == CellType.triangle:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
+    elif cell_type == CellType.quadrilateral:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
     (
         name,
         dim,
@@ -642,13 +648,11 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(gmsh_cell_id)
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
-    if cell_type == CellType.triangle:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
-    elif cell_type == CellType.quadrilateral:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
+    # only the first process has elements
+    cells = np.concatenate([np.empty(0, np.int64), *node_tags]).astype(np.int64)
+    cells = cells.reshape(-1, num_nodes) - 1
     gmsh.finalize()
 
     cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
@@ -738,6 +742,10 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     x = points[srt]
 
     element_types, element_tags, node_tags = gmsh.model.mesh.getElements(dim=2)
+    if cell_type == CellType.triangle:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
+    elif cell_type == CellType.quadrilateral:
+        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
     (
         name,
         dim,
@@ -745,13 +753,11 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(gmsh_cell_id)
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
-    if cell_type == CellType.triangle:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
-    elif cell_type == CellType.quadrilateral:
-        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
+    # only the first process has elements
+    cells = np.concatenate([np.empty(0, np.int64), *node_tags]).astype(np.int64)
+    cells = cells.reshape(-1, num_nodes) - 1
     gmsh.finalize()
 
     cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
-- 
2.43.0

