From bf8cb6eeab7cbdc2657f68dd2129472b7802d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:26 +0000
Subject: [PATCH 01/26] fix: serendipity elements (HEX20, QUAD8) use nodal
 shape functions

---
 jax_am/fem/basis.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/jax_am/fem/basis.py b/jax_am/fem/basis.py
index e2de6b3..6ed39ff 100644
--- a/jax_am/fem/basis.py
+++ b/jax_am/fem/basis.py
@@ -101,6 +101,21 @@ def reorder_inds(inds, re_order):
     return new_inds
 
 
+def tabulate_nodal_basis(element_family, basix_ele, degree, points):
+    """Shape function values and gradients of the nodal basis, in basix ordering.
+    The serendipity element of basix uses integral moments on edges as its degrees of freedom, so
+    its basis needs to be converted so that unknowns are values at vertices and edge midpoints.
+    """
+    element = basix.create_element(element_family, basix_ele, degree)
+    vals_and_grads = element.tabulate(1, points)
+    if element_family == basix.ElementFamily.serendipity:
+        vertices = basix.geometry(basix_ele)
+        midpoints = [onp.mean(vertices[edge], axis=0) for edge in basix.topology(basix_ele)[1]]
+        nodal_vals = element.tabulate(0, onp.vstack((vertices, midpoints)))[0, :, :, 0]
+        vals_and_grads = onp.einsum('dqic,ij->dqjc', vals_and_grads, onp.linalg.inv(nodal_vals))
+    return vals_and_grads
+
+
 def get_shape_vals_and_grads(ele_type):
     """TODO: Add comments
 
@@ -115,8 +130,7 @@ def get_shape_vals_and_grads(ele_type):
     """
     element_family, basix_ele, basix_face_ele, gauss_order, degree, re_order = get_elements(ele_type)
     quad_points, weights = basix.make_quadrature(basix_ele, gauss_order)
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal_basis(element_family, basix_ele, degree, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.debug(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -176,8 +190,7 @@ def get_face_shape_vals_and_grads(ele_type):
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal_basis(element_family, basix_ele, degree, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From 46ea406ce51f36302f56ae215e0550ab6508d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 02/26] fix: petsc_solve does not return the iterate of a
 diverged Krylov solve

---
 jax_am/fem/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 612c069..e425254 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -29,6 +29,12 @@ def petsc_solve(A, b, ksp_type, pc_type):
     x = PETSc.Vec().createSeq(len(b))
     ksp.solve(rhs, x)
 
+    if ksp.getConvergedReason() < 0:
+        # E.g., bcgsl breaks down if the ilu factorization happens to be exact
+        logger.warning(f"PETSc - {ksp_type} diverged, solving again with gmres")
+        ksp.setType('gmres')
+        ksp.solve(rhs, x)
+
     # Verify convergence
     y = PETSc.Vec().createSeq(len(b))
     A.mult(x, y)
-- 
2.43.0


From 61e02854b59c2507742749454c5633ebe1cb7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 03/26] fix: periodic boundary conditions work with the PETSc
 backend

---
 jax_am/fem/solver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index e425254..c75e496 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -554,7 +554,7 @@ def get_A_fn_and_res_aug(problem, dofs_aug, res_vec, p_num_eps, use_petsc):
     V = onp.hstack((problem.V, V_d_sym, V_p_sym))
 
     logger.debug(f"Aug - Creating sparse matrix with scipy...")
-    A_sp_scipy_aug = scipy.sparse.csc_array((V, (I, J)),
+    A_sp_scipy_aug = scipy.sparse.csr_array((V, (I, J)),
                                             shape=(group_index, group_index))
     # logger.info(f"Aug - Creating sparse matrix from scipy using JAX BCOO...")
     A_sp_aug = BCOO.from_scipy_sparse(A_sp_scipy_aug).sort_indices()
@@ -570,10 +570,10 @@ def get_A_fn_and_res_aug(problem, dofs_aug, res_vec, p_num_eps, use_petsc):
 
     if use_petsc:
 
-        A = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
-                                  csr=(A_sp_scipy_aug.indptr.astype(PETSc.IntType, copy=False),
-                                       A_sp_scipy_aug.indices.astype(PETSc.IntType, copy=False),
-                                       A_sp_scipy_aug.data))
+        A_aug = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
+                                      csr=(A_sp_scipy_aug.indptr.astype(PETSc.IntType, copy=False),
+                                           A_sp_scipy_aug.indices.astype(PETSc.IntType, copy=False),
+                                           A_sp_scipy_aug.data))
 
         # A_aug = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
         #                               csr=(A_sp_scipy_aug.indptr,
-- 
2.43.0


From 666d343103fb871788066730d51e559e7afb5514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:03 +0000
Subject: [PATCH 04/26] fix: adjoint PETSc solve uses a Krylov method for
 unsymmetric matrices

---
 jax_am/fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index c75e496..1b77658 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -918,7 +918,7 @@ def implicit_vjp(problem, sol, params, v, use_petsc):
         #     A_transpose.zeroRows(row_inds)
         # v = assign_zeros_bc(v, problem)
 
-        adjoint = petsc_solve(A_transpose, v.reshape(-1), 'minres', 'ilu')
+        adjoint = petsc_solve(A_transpose, v.reshape(-1), 'bcgsl', 'ilu')
 
     else:
         adjoint_linear_fn = get_vjp_contraint_fn_dofs(sol.reshape(-1))
-- 
2.43.0


From aa77ff385b9b2b1a97b87b7ad3586794fb73619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:48 +0000
Subject: [PATCH 05/26] fix: get_face_vel_component along the third axis

The ghost cells of the far side were taken from the whole list and an
undefined name was returned, so every call with axis=2 failed.
---
 jax_am/cfd/cfd_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 3c97e60..755f95c 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -133,10 +133,10 @@ def get_face_vel_component(vel, dX, axis=0, BCs=None):
 
     if axis == 2:
         w = np.concatenate(
-            (vel_gc[4], vel, vel_gc),
+            (vel_gc[4], vel, vel_gc[5]),
             axis=2)
         w_f = (w[:, :, 1:] + w[:, :, :-1]) / 2
-        return v_f
+        return w_f
 
 
 class AM_3d():
-- 
2.43.0


From 5034531cf54143441506e4bef4dad5d5a464af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:48 +0000
Subject: [PATCH 06/26] fix: energy equation with a prescribed temperature

The nonlinear flag was the string 'True', which is not equal to True, so a
Dirichlet boundary condition looked up the constant mu of the linear
problem and failed.
---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 755f95c..8136993 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -500,7 +500,7 @@ class energy_eqn():
             T0) / args['dt'] - args['rho'] * cp_fn(T0) * conv + Q
         mu_fn = lambda T: args['k'](T)
         self.step = poisson(mesh=args['mesh'],
-                            nonlinear='True',
+                            nonlinear=True,
                             mu_fn=mu_fn,
                             source_fn=fn)
         self.bc_fn = None
-- 
2.43.0


From e844bc011d3273ad5d75b501233af18d4afe3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:48 +0000
Subject: [PATCH 07/26] fix: gradient honours its boundary conditions

The BCs argument was ignored and zero flux was always assumed.
---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 8136993..2c7e71a 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -82,7 +82,7 @@ def div(f, vel_f, dX, theta=0.125, BCs=None):
 def gradient(f, dX, BCs=None):
     if BCs == None:
         BCs = [[1, 1, 1, 1, 1, 1], [0., 0., 0., 0., 0., 0.]]
-    f_gc = get_GC_values(f, [[1, 1, 1, 1, 1, 1], [0., 0., 0., 0., 0., 0.]], dX)
+    f_gc = get_GC_values(f, BCs, dX)
     return np.concatenate(((np.diff(f, axis=0, append=f_gc[1]) +
                             np.diff(f, axis=0, prepend=f_gc[0])) / dX[0] / 2.,
                            (np.diff(f, axis=1, append=f_gc[3]) +
-- 
2.43.0


From 0332cea2498227549fe37f40a329f527a6c239a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:44 +0000
Subject: [PATCH 08/26] fix: body heat source after the laser is switched off

The absorption depth is proportional to the power, so a step with the
laser off divided by zero.
---
 jax_am/cfd/cfd_am.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 2c7e71a..665cd68 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -222,6 +222,8 @@ class AM_3d():
 
     def get_body_heat_source(self, t):
         def Gaussian_cylinder(xl, yl, zl, P, xc, yc, zc):
+            if P == 0.:
+                return np.zeros_like(xc)
             eta = self.args['eta']
             r = self.args['rb']
             d = self.args['phi'] * P / self.args['speed'] / self.args['rb']**2
-- 
2.43.0


From df9d6afea69d4193a76030479032f57c9322fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:37 +0000
Subject: [PATCH 09/26] fix: to_data_frame assigns every file its own time

The files were taken in directory order, and the time index was advanced
once per point data array instead of once per file.
---
 jax_am/common.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/jax_am/common.py b/jax_am/common.py
index a83df28..ff1e31c 100644
--- a/jax_am/common.py
+++ b/jax_am/common.py
@@ -94,15 +94,13 @@ def to_data_frame(data_dir, dt=2 * 1e-6):
     all_data = []
     mesh = meshio.read(mesh_dir)
     mesh_df = pd.DataFrame(mesh.points, columns=["x", "y", "z"])
-    vtu_files = [f for f in os.listdir(vtk_dir) if f.endswith('.vtu')]
+    vtu_files = sorted([f for f in os.listdir(vtk_dir) if f.endswith('.vtu')])
     
     # Assuming the first file is always available and correctly formatted
     stepsave = int(vtu_files[1][-9:-4])
     print(f"Step save: {stepsave}")
     
-    i = 0
-    
-    for vtu_file in vtu_files:
+    for i, vtu_file in enumerate(vtu_files):
         time_value = round(i * stepsave * dt, 8)
         time = pd.Series(onp.full(len(mesh_df), time_value))
         vtu_path = os.path.join(vtk_dir, vtu_file)
@@ -120,8 +118,7 @@ def to_data_frame(data_dir, dt=2 * 1e-6):
                     for idx in onp.ndindex(data.shape[1:]):
                         flattened_name = f"{name}_{'_'.join(map(str, idx))}"
                         data_dict[flattened_name] = data[(slice(None),) + idx]
-                i += 1
-                
+
             all_data.append(pd.DataFrame(data_dict))
     
     DF = pd.concat(all_data, ignore_index=True)
-- 
2.43.0


From 763c1409f14d62dba26928c215352e67809eb592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 10/26] fix: design filter with fewer than 20 cells

The k-d tree pads missing neighbours with an out of range index, so every
problem with fewer than 20 flexible cells failed.
---
 jax_am/fem/mma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_am/fem/mma.py b/jax_am/fem/mma.py
index 2b6782c..79a7ab1 100644
--- a/jax_am/fem/mma.py
+++ b/jax_am/fem/mma.py
@@ -39,8 +39,8 @@ def compute_filter_kd_tree(problem):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        num_nbs = min(20, flex_num_cells)
+        dd, ii = kd_tree.query(flex_cell_centroids[i], list(range(1, num_nbs + 1)))
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
         I += [i]*num_nbs
-- 
2.43.0


From 6981ae698ee79a13e79df26d8364c2c1c67c19c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 11/26] fix: dynamic relaxation solver

The solver used undefined names before its first step, passed 64 bit
indices to PETSc, never updated the velocity (the update was commented
out) and called printInfo without its last two arguments.
---
 jax_am/fem/solver.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 1b77658..eb3419e 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -672,7 +672,8 @@ def assembleCSR(problem, dofs):
         shape=(problem.num_total_dofs, problem.num_total_dofs))
 
     A = PETSc.Mat().createAIJ(size=A_sp_scipy.shape,
-                              csr=(A_sp_scipy.indptr, A_sp_scipy.indices,
+                              csr=(A_sp_scipy.indptr.astype(PETSc.IntType, copy=False),
+                                   A_sp_scipy.indices.astype(PETSc.IntType, copy=False),
                                    A_sp_scipy.data))
     for i in range(len(problem.node_inds_list)):
         row_inds = onp.array(problem.node_inds_list[i] * problem.vec +
@@ -728,6 +729,9 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
     There is a FEniCS version of this dynamic relaxation algorithm.
     The code below is a direct translation from the FEniCS version.
     """
+    sol_shape = (problem.num_total_nodes, problem.vec)
+    dofs = np.zeros(problem.num_total_dofs)
+
     def newton_update_helper(dofs):
         res_vec = problem.newton_update(dofs.reshape(sol_shape)).reshape(-1)
         res_vec = apply_bc_vec(res_vec, dofs, problem)
@@ -813,13 +817,12 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
                 onp.absolute(KCSR).sum(axis=1)).squeeze()
 
         #compute new velocities and accelerations
-        # qdot_old[:] = qdot[:]; qdotdot_old[:] = qdotdot[:];
-        # qdot = (2.- c*h)/(2 + c*h) * qdot_old - 2.*h/(2.+c*h)* R / M
-        qdot_old[:] = qdot[:]
+        qdot_old[:] = qdot[:]; qdotdot_old[:] = qdotdot[:]
+        qdot = (2.- c*h)/(2 + c*h) * qdot_old - 2.*h/(2.+c*h)* R / M
         qdotdot = qdot - qdot_old
 
         # output on screen
-        printInfo(error, t, c, tol, eps, qdot, qdotdot, nIters, nPrint)
+        printInfo(error, t, c, tol, eps, qdot, qdotdot, nIters, nPrint, info_force, info)
 
     # check if converged
     convergence = True
-- 
2.43.0


From fa521b3817e9683c0cd2d736c70c17900125eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:32 +0000
Subject: [PATCH 12/26] fix: thermal model updates as many surface temperatures
 as there are surface conditions

---
 applications/fem/thermal/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/applications/fem/thermal/models.py b/applications/fem/thermal/models.py
index 44c04e4..90008c6 100644
--- a/applications/fem/thermal/models.py
+++ b/applications/fem/thermal/models.py
@@ -35,9 +35,8 @@ class Thermal(FEM):
         return self.get_mass_map()
 
     def update_int_vars(self, old_sol):
-        surface_old_sol_top = self.convert_neumann_from_dof(old_sol, 0)
-        surface_old_sol_walls = self.convert_neumann_from_dof(old_sol, 1)
-        self.internal_vars['neumann'] = [[surface_old_sol_top], [surface_old_sol_walls]]
+        self.internal_vars['neumann'] = [[self.convert_neumann_from_dof(old_sol, i)] 
+                                         for i in range(len(self.neumann_boundary_inds_list))]
         self.internal_vars['body'] = old_sol
 
     def update_Neumann_boundary_inds(self):
-- 
2.43.0


From f60aa8f5345e495e70e02ab869b3fc44977df1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:32 +0000
Subject: [PATCH 13/26] fix: bare plate laser heats the top surface, not the
 walls

---
 applications/fem/thermal/bare_plate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/fem/thermal/bare_plate.py b/applications/fem/thermal/bare_plate.py
index a3021d8..87de07f 100644
--- a/applications/fem/thermal/bare_plate.py
+++ b/applications/fem/thermal/bare_plate.py
@@ -61,7 +61,7 @@ def bare_plate_single_track():
         q = q_conv
         return np.array([q])
 
-    neumann_bc_info = [None, [neumann_top, neumann_walls]]
+    neumann_bc_info = [None, [neumann_walls, neumann_top]]
 
     active_cell_truth_tab = onp.ones(len(full_mesh.cells), dtype=bool)
     active_mesh, points_map_active, cells_map_full = get_active_mesh(full_mesh, active_cell_truth_tab)
-- 
2.43.0


From 46c3132a48ddeb00322fd68de3f9506ee706069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:32 +0000
Subject: [PATCH 14/26] fix: thin wall laser is switched on after a dwell
 without new cells

---
 applications/fem/thermal/thin_wall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/fem/thermal/thin_wall.py b/applications/fem/thermal/thin_wall.py
index ac34b4b..68d4c79 100644
--- a/applications/fem/thermal/thin_wall.py
+++ b/applications/fem/thermal/thin_wall.py
@@ -122,7 +122,7 @@ def ded_thin_wall():
                 external_faces, hash_map, inner_faces, all_faces = update_hash_map(active_cell_truth_tab_old, 
                     active_cell_truth_tab, cells_map_full, cells_face, hash_map, inner_faces, all_faces)
 
-                if onp.all(active_cell_truth_tab == active_cell_truth_tab_old):
+                if j > 0 and onp.all(active_cell_truth_tab == active_cell_truth_tab_old):
                     print(f"No element born")
                     # problem.old_sol = old_sol
                 else:
-- 
2.43.0


From f7da966d406684ac4c32010b31f2be35db600c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:32 +0000
Subject: [PATCH 15/26] fix: top_opt design filter with fewer than 20 cells

---
 applications/fem/top_opt/mma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/fem/top_opt/mma.py b/applications/fem/top_opt/mma.py
index 0820642..6a6434e 100644
--- a/applications/fem/top_opt/mma.py
+++ b/applications/fem/top_opt/mma.py
@@ -42,8 +42,8 @@ def compute_filter_kd_tree(problem):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        num_nbs = min(20, flex_num_cells)
+        dd, ii = kd_tree.query(flex_cell_centroids[i], list(range(1, num_nbs + 1)))
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
         I += [i]*num_nbs
-- 
2.43.0


From 19eab49b6e2f8190ee2f22ac951d8c8c3d2d095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:32 +0000
Subject: [PATCH 16/26] fix: derivative of spectral functions at repeated
 eigenvalues

---
 demos/fem/phase_field_fracture/eigen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demos/fem/phase_field_fracture/eigen.py b/demos/fem/phase_field_fracture/eigen.py
index 36a3ba3..d08a25f 100644
--- a/demos/fem/phase_field_fracture/eigen.py
+++ b/demos/fem/phase_field_fracture/eigen.py
@@ -57,9 +57,11 @@ def get_eigen_f_custom(fn):
 
         diff_evals = evals[:, None] - evals[None, :]
         diff_fvals = fvals[:, None] - fvals[None, :]
-        diff_grads = grads[:, None]
+        mean_grads = 0.5*(grads[:, None] + grads[None, :])
 
-        theta = np.where(diff_evals == 0., diff_grads, diff_fvals/diff_evals)
+        # Repeated eigenvalues come out equal only up to rounding, where the difference quotient has no correct digit
+        repeated = np.abs(diff_evals) <= 1e-6*np.max(np.abs(evals))
+        theta = np.where(repeated, mean_grads, diff_fvals/np.where(repeated, 1., diff_evals))
 
         tmp = G * theta[:, :, None, None, None, None]
         tmp1 = np.sum(tmp, axis=(0, 1))
-- 
2.43.0


From 7a8bd81d2d9499565aa080e3c84a0b4480b67cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:27 +0000
Subject: [PATCH 17/26] fix: fracture demo reports the force on the loaded face

---
 demos/fem/phase_field_fracture/example.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/fem/phase_field_fracture/example.py b/demos/fem/phase_field_fracture/example.py
index 6ee5578..04ff008 100644
--- a/demos/fem/phase_field_fracture/example.py
+++ b/demos/fem/phase_field_fracture/example.py
@@ -139,7 +139,7 @@ class Elasticity(FEM):
             sigmas = vmap_stress(u_grads_reshape, d_face_reshape).reshape(u_grads.shape)
             # TODO: a more general normals with shape (num_selected_faces, num_face_quads, dim, 1) should be supplied
             # (num_selected_faces, num_face_quads, vec, dim) @ (1, 1, dim, 1) -> (num_selected_faces, num_face_quads, vec, 1)
-            normals = np.array([0., 0., 1.])
+            normals = np.array([0., 1., 0.])
             traction = (sigmas @ normals[None, None, :, None])[:, :, :, 0]
             return traction
     
@@ -252,7 +252,7 @@ if simulation_flag:
         history_old = onp.array(history)
      
         traction = problem_u.compute_traction(y_max, sol_u, sol_d)/Lz
-        tractions.append(traction[-1])
+        tractions.append(traction[1])
         print(f"Traction force = {traction}")
         vtk_path = os.path.join(vtk_dir, f"u_{i + 1:05d}.vtu")
         save_sol(problem_d, sol_d, vtk_path, point_infos=[('u', sol_u)], cell_infos=[('history', np.mean(history, axis=1))])
-- 
2.43.0


From b9d85d62e57e5f28c0fb0c40036e5f42d7ab0e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:27 +0000
Subject: [PATCH 18/26] fix: thermo-mechanical demo writes the temperature of
 the increment it writes

---
 demos/fem/thermal_mechanical/example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/fem/thermal_mechanical/example.py b/demos/fem/thermal_mechanical/example.py
index 3db51a1..cf25ee6 100644
--- a/demos/fem/thermal_mechanical/example.py
+++ b/demos/fem/thermal_mechanical/example.py
@@ -266,7 +266,7 @@ for i in range(len(ts[1:])):
         # Update T solution for u
         sol_T_old_for_u = sol_T_new
         vtk_path = os.path.join(vtk_dir, f"u_{i + 1:05d}.vtu")
-        save_sol(problem_T, sol_T_old, vtk_path, point_infos=[('u', sol_u)], 
+        save_sol(problem_T, sol_T_new, vtk_path, point_infos=[('u', sol_u)], 
                                                  cell_infos=[('f_plus', np.mean(plastic_info[0], axis=1)),
                                                              ('stress_xx', np.mean(plastic_info[1], axis=1)),
                                                              ('phase', np.max(params_u[-1][:, :, 0], axis=1))])
-- 
2.43.0


From 52c4c8a5755ac35342847031b2b4d6d85c787615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:27 +0000
Subject: [PATCH 19/26] fix: no laser heat on scan segments that are switched
 off

---
 applications/phase_field/multi_scan/example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/phase_field/multi_scan/example.py b/applications/phase_field/multi_scan/example.py
index 37c015a..29bd72f 100644
--- a/applications/phase_field/multi_scan/example.py
+++ b/applications/phase_field/multi_scan/example.py
@@ -43,7 +43,7 @@ def get_T_fn(polycrystal, pf_args):
         Z = centroids[:, 2] - z_laser
         R = np.sqrt(X**2 + Y**2 + Z**2)
         projection = X*unit_mov_dir[0] + Y*unit_mov_dir[1] + Z*unit_mov_dir[2]
-        T = pf_args['T_ambient'] + Q / (2 * np.pi * kappa) / R * np.exp(-pf_args['vel'] / (2*alpha) * (R + projection))
+        T = pf_args['T_ambient'] + power * Q / (2 * np.pi * kappa) / R * np.exp(-pf_args['vel'] / (2*alpha) * (R + projection))
         T = np.where(T > 2000., 2000., T)
         return T[:, None]
     return jax.jit(get_T_laser)
-- 
2.43.0


From 36681cd901531022e2497835f040ab877cb5dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:27 +0000
Subject: [PATCH 20/26] fix: gradient of the plastic design problem at
 stress-free points

---
 applications/fem/top_opt/plasticity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/fem/top_opt/plasticity.py b/applications/fem/top_opt/plasticity.py
index 975d835..e2c9c64 100644
--- a/applications/fem/top_opt/plasticity.py
+++ b/applications/fem/top_opt/plasticity.py
@@ -30,11 +30,11 @@ class Plasticity(Elasticity):
 
     def get_maps(self):
         def safe_sqrt(x):  
-            safe_x = np.where(x > 0., np.sqrt(x), 0.)
+            safe_x = np.where(x > 0., np.sqrt(np.where(x > 0., x, 1.)), 0.)
             return safe_x
 
         def safe_divide(x, y):
-            return np.where(y == 0., 0., x/y)
+            return np.where(y == 0., 0., x/np.where(y == 0., 1., y))
 
         def strain(u_grad):
             epsilon = 0.5*(u_grad + u_grad.T)
-- 
2.43.0


From 710ae1d30503dfdf4e77fefa58261d74e2a46165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:27 +0000
Subject: [PATCH 21/26] fix: reverse mode derivative of the plastic stress at
 stress-free points

---
 jax_am/fem/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_am/fem/models.py b/jax_am/fem/models.py
index 11c29cd..1fd732b 100644
--- a/jax_am/fem/models.py
+++ b/jax_am/fem/models.py
@@ -148,11 +148,11 @@ class Plasticity(Mechanics):
 
     def get_maps(self):
         def safe_sqrt(x):
-            safe_x = np.where(x > 0., np.sqrt(x), 0.)
+            safe_x = np.where(x > 0., np.sqrt(np.where(x > 0., x, 1.)), 0.)
             return safe_x
 
         def safe_divide(x, y):
-            return np.where(y == 0., 0., x/y)
+            return np.where(y == 0., 0., x/np.where(y == 0., 1., y))
 
         def strain(u_grad):
             epsilon = 0.5*(u_grad + u_grad.T)
-- 
2.43.0


From 64d80e4a278d1863b018d8276ea7085adfd81a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:27 +0000
Subject: [PATCH 22/26] fix: melt pool image offset in y uses the spacing in y

---
 applications/cfd/gamma/example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/cfd/gamma/example.py b/applications/cfd/gamma/example.py
index 300d987..6e22f84 100644
--- a/applications/cfd/gamma/example.py
+++ b/applications/cfd/gamma/example.py
@@ -36,7 +36,7 @@ def interp_data(T, rot, xl, yl, dx, dy):
     gridy_ = np.arange(-0.32e-3,0.32e-3,1e-5)
     gridx,gridy = np.meshgrid(gridx_, gridy_,indexing='ij')
     X_rot = (gridx*rot[0]-gridy*rot[1]+xl-dx/2)/dx
-    Y_rot = (gridx*rot[1]+gridy*rot[0]+yl-dx/2)/dy
+    Y_rot = (gridx*rot[1]+gridy*rot[0]+yl-dy/2)/dy
     melt_2d = map_coordinates(surface_T,(X_rot,Y_rot),1)
     X_3d = jnp.repeat(X_rot[:,:,None],30,axis=2)
     Y_3d = jnp.repeat(Y_rot[:,:,None],30,axis=2)
-- 
2.43.0


From cceb09bbb0149824d1b91ae31d57967a054a6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:27 +0000
Subject: [PATCH 23/26] fix: unit scan direction of the melt pool driver

---
 applications/cfd/gamma/example.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/applications/cfd/gamma/example.py b/applications/cfd/gamma/example.py
index 6e22f84..185e0bc 100644
--- a/applications/cfd/gamma/example.py
+++ b/applications/cfd/gamma/example.py
@@ -89,8 +89,7 @@ def simulation():
     direction = np.copy(toolpath[:,0:3])
     direction[0:,1:3] = np.array([0.,0.])
     direction[1:,1:3] = toolpath[1:,1:3] - toolpath[0:-1,1:3]
-    direction[1:,1] = direction[1:,1]/np.sqrt(direction[1:,1]**2 + direction[1:,2]**2)
-    direction[1:,2] = direction[1:,2]/np.sqrt(direction[1:,1]**2 + direction[1:,2]**2)
+    direction[1:,1:3] = direction[1:,1:3]/np.linalg.norm(direction[1:,1:3], axis=1, keepdims=True)
     pos_interp = interp1d(toolpath[:,0].T, toolpath[:,1:3].T, kind='linear')
 
     power = np.load(os.path.join(input_dir, f'power_0.npy'))
-- 
2.43.0


From a469c7b43b9c04033a5d18e3a63cc15c3c433a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:27 +0000
Subject: [PATCH 24/26] fix: coupled driver interpolates between the flow
 states that enclose the time

---
 applications/phase_field/coupled/example.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/phase_field/coupled/example.py b/applications/phase_field/coupled/example.py
index 80f2ba2..1c78a2c 100644
--- a/applications/phase_field/coupled/example.py
+++ b/applications/phase_field/coupled/example.py
@@ -94,8 +94,8 @@ def coupled_integrator():
     pf_solver.write_sols(pf_sol0, T_pf, 0)
 
     for (i, t_pf) in enumerate(pf_ts[1:]):
-        # Assume that t_cfd < t_pf <= t_cfd + cfd_args['dt']
-        if t_pf > t_cfd + cfd_args['dt']:
+        # Keep t_cfd - cfd_args['dt'] <= t_pf <= t_cfd, where T_past and T_future are known
+        if t_pf > t_cfd:
             walltime()(cfd_solver.time_integration)()
             T_past = T_future
             T_future = cfd_solver.T[:,:,:,0]
-- 
2.43.0


From b7d37ff774afb3632f916d599154282d1ecf3bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:27 +0000
Subject: [PATCH 25/26] fix: coupled driver writes the temperature of the step
 it writes

---
 applications/phase_field/coupled/example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/phase_field/coupled/example.py b/applications/phase_field/coupled/example.py
index 1c78a2c..0a72c3f 100644
--- a/applications/phase_field/coupled/example.py
+++ b/applications/phase_field/coupled/example.py
@@ -114,7 +114,7 @@ def coupled_integrator():
             pf_solver.inspect_sol(pf_sol, pf_sol0, T_pf, pf_ts, i + 1)
 
         if (i + 1) % pf_args['write_sol_interval'] == 0:
-            pf_solver.write_sols(pf_sol, convert_temperature(T_future), i + 1)
+            pf_solver.write_sols(pf_sol, T_pf, i + 1)
 
 
 if __name__=="__main__":
-- 
2.43.0


From 57632e967829b383b2e6a0149fd4b4901f85093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:22 +0000
Subject: [PATCH 26/26] fix: forward mode sensitivity with respect to
 prescribed values

BiCGSTAB started from zero breaks down (nan) if only constrained rows of
the right hand side are nonzero; start from the constrained values.
---
 jax_am/fem/autodiff_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jax_am/fem/autodiff_utils.py b/jax_am/fem/autodiff_utils.py
index 244207b..03e77b0 100644
--- a/jax_am/fem/autodiff_utils.py
+++ b/jax_am/fem/autodiff_utils.py
@@ -29,7 +29,7 @@ import jax
 from jax import Array
 import numpy as onp
 # Local
-from jax_am.fem.solver import (apply_bc, get_flatten_fn, solver,
+from jax_am.fem.solver import (apply_bc, copy_bc, get_flatten_fn, solver,
                                jax_solve,
                                get_jacobi_precond, jacobi_preconditioner)
 # =============================================================================
@@ -133,9 +133,17 @@ def implicit_jvp_helper(problem, sol0: Array,
                                                          False,
                                                          precond_matrix)
     chosen_bb_solver = jax_solver_modified
+
+    # The constrained rows are satisfied from the start: otherwise BiCGSTAB
+    # breaks down if only prescribed values depend on the parameters
+    def jax_solver_forward(matvec, v): return jax_solve(problem, matvec,
+                                                        v.reshape(-1),
+                                                        copy_bc(v.reshape(-1), problem),
+                                                        False,
+                                                        precond_matrix)
     # Find adjoint value
     tangent_out = jax.lax.custom_linear_solve(backward_matvec, -1*backward_rhs,
-                                              chosen_bb_solver,
+                                              jax_solver_forward,
                                               transpose_solve=chosen_bb_solver)
     return tangent_out
 
-- 
2.43.0

