From 41110f51ae2ebf6e1ab98aa8f9fb5c04fa665e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:28 +0000
Subject: [PATCH 01/14] fix: solve the PETSc adjoint system with a Krylov
 method for unsymmetric matrices

---
 jax_am/fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 612c069..2b3fe54 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -912,7 +912,7 @@ def implicit_vjp(problem, sol, params, v, use_petsc):
         #     A_transpose.zeroRows(row_inds)
         # v = assign_zeros_bc(v, problem)
 
-        adjoint = petsc_solve(A_transpose, v.reshape(-1), 'minres', 'ilu')
+        adjoint = petsc_solve(A_transpose, v.reshape(-1), 'bcgsl', 'ilu')
 
     else:
         adjoint_linear_fn = get_vjp_contraint_fn_dofs(sol.reshape(-1))
-- 
2.43.0


From cf2153b6b17b6ed5c099a38f2f7e482f82905699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:03 +0000
Subject: [PATCH 02/14] fix: build the PETSc Lagrange-multiplier matrix under
 its returned name and in row-compressed form

---
 jax_am/fem/solver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 2b3fe54..89bfb25 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -548,7 +548,7 @@ def get_A_fn_and_res_aug(problem, dofs_aug, res_vec, p_num_eps, use_petsc):
     V = onp.hstack((problem.V, V_d_sym, V_p_sym))
 
     logger.debug(f"Aug - Creating sparse matrix with scipy...")
-    A_sp_scipy_aug = scipy.sparse.csc_array((V, (I, J)),
+    A_sp_scipy_aug = scipy.sparse.csr_array((V, (I, J)),
                                             shape=(group_index, group_index))
     # logger.info(f"Aug - Creating sparse matrix from scipy using JAX BCOO...")
     A_sp_aug = BCOO.from_scipy_sparse(A_sp_scipy_aug).sort_indices()
@@ -564,10 +564,10 @@ def get_A_fn_and_res_aug(problem, dofs_aug, res_vec, p_num_eps, use_petsc):
 
     if use_petsc:
 
-        A = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
-                                  csr=(A_sp_scipy_aug.indptr.astype(PETSc.IntType, copy=False),
-                                       A_sp_scipy_aug.indices.astype(PETSc.IntType, copy=False),
-                                       A_sp_scipy_aug.data))
+        A_aug = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
+                                      csr=(A_sp_scipy_aug.indptr.astype(PETSc.IntType, copy=False),
+                                           A_sp_scipy_aug.indices.astype(PETSc.IntType, copy=False),
+                                           A_sp_scipy_aug.data))
 
         # A_aug = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
         #                               csr=(A_sp_scipy_aug.indptr,
-- 
2.43.0


From 440aa19d1ac34fd142adae69cc22cc3a8a487722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:44 +0000
Subject: [PATCH 03/14] fix: declare the stacked size of unequal batches in
 jax_array_list_to_numpy_diff

---
 jax_am/fem/autodiff_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/fem/autodiff_utils.py b/jax_am/fem/autodiff_utils.py
index 244207b..5b2e07f 100644
--- a/jax_am/fem/autodiff_utils.py
+++ b/jax_am/fem/autodiff_utils.py
@@ -162,7 +162,7 @@ def jax_array_list_to_numpy_diff(jax_array_list:
 
     def _numpy_vstack(x): return onp.vstack(x).astype(x[0].dtype)
     out_shape = list(jax_array_list[0].shape)
-    out_shape[0] *= len(jax_array_list)
+    out_shape[0] = sum(x.shape[0] for x in jax_array_list)
     output_shape_type = jax.ShapeDtypeStruct(shape=tuple(out_shape),
                                              dtype=jax_array_list[0].dtype)
     # Convert jax array to numpy array
-- 
2.43.0


From 8c5d73144156bbbffcf2ba7f8b21c1bae4f92f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:18 +0000
Subject: [PATCH 04/14] fix: make dynamic_relax_solve runnable and restore its
 velocity update

---
 jax_am/fem/solver.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 89bfb25..6ae8dab 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -666,7 +666,8 @@ def assembleCSR(problem, dofs):
         shape=(problem.num_total_dofs, problem.num_total_dofs))
 
     A = PETSc.Mat().createAIJ(size=A_sp_scipy.shape,
-                              csr=(A_sp_scipy.indptr, A_sp_scipy.indices,
+                              csr=(A_sp_scipy.indptr.astype(PETSc.IntType, copy=False),
+                                   A_sp_scipy.indices.astype(PETSc.IntType, copy=False),
                                    A_sp_scipy.data))
     for i in range(len(problem.node_inds_list)):
         row_inds = onp.array(problem.node_inds_list[i] * problem.vec +
@@ -722,6 +723,9 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
     There is a FEniCS version of this dynamic relaxation algorithm.
     The code below is a direct translation from the FEniCS version.
     """
+    sol_shape = (problem.num_total_nodes, problem.vec)
+    dofs = np.zeros(sol_shape).reshape(-1)
+
     def newton_update_helper(dofs):
         res_vec = problem.newton_update(dofs.reshape(sol_shape)).reshape(-1)
         res_vec = apply_bc_vec(res_vec, dofs, problem)
@@ -807,13 +811,13 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
                 onp.absolute(KCSR).sum(axis=1)).squeeze()
 
         #compute new velocities and accelerations
-        # qdot_old[:] = qdot[:]; qdotdot_old[:] = qdotdot[:];
-        # qdot = (2.- c*h)/(2 + c*h) * qdot_old - 2.*h/(2.+c*h)* R / M
         qdot_old[:] = qdot[:]
+        qdotdot_old[:] = qdotdot[:]
+        qdot = (2. - c * h) / (2. + c * h) * qdot_old - 2. * h / (2. + c * h) * R / M
         qdotdot = qdot - qdot_old
 
         # output on screen
-        printInfo(error, t, c, tol, eps, qdot, qdotdot, nIters, nPrint)
+        printInfo(error, t, c, tol, eps, qdot, qdotdot, nIters, nPrint, info_force, info)
 
     # check if converged
     convergence = True
-- 
2.43.0


From 35b8622a108cd28e314ee01e535a15a69099c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:53 +0000
Subject: [PATCH 05/14] fix: use nodal serendipity shape functions for HEX20
 and QUAD8

---
 jax_am/fem/basis.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/jax_am/fem/basis.py b/jax_am/fem/basis.py
index e2de6b3..a22891f 100644
--- a/jax_am/fem/basis.py
+++ b/jax_am/fem/basis.py
@@ -101,6 +101,22 @@ def reorder_inds(inds, re_order):
     return new_inds
 
 
+def tabulate_nodal(element_family, basix_ele, degree, points):
+    """Tabulate shape functions (and first derivatives) that equal 1 at their own node and 0 at the others.
+    The serendipity basis of basix is dual to edge averages rather than to values at the
+    mid-edge nodes, so it has to be converted to the nodal basis.
+    """
+    element = basix.create_element(element_family, basix_ele, degree)
+    vals_and_grads = element.tabulate(1, points)
+    if element_family == basix.ElementFamily.serendipity:
+        vertices = basix.geometry(basix_ele)
+        edges = basix.cell.sub_entity_connectivity(basix_ele)[1]
+        nodes = onp.vstack([vertices] + [onp.mean(vertices[edge[0]], axis=0) for edge in edges])
+        nodal_vals = element.tabulate(0, nodes)[0, :, :, 0] # (num_nodes, num_basis)
+        vals_and_grads = onp.einsum('dqbv,ba->dqav', vals_and_grads, onp.linalg.inv(nodal_vals))
+    return vals_and_grads
+
+
 def get_shape_vals_and_grads(ele_type):
     """TODO: Add comments
 
@@ -115,8 +131,7 @@ def get_shape_vals_and_grads(ele_type):
     """
     element_family, basix_ele, basix_face_ele, gauss_order, degree, re_order = get_elements(ele_type)
     quad_points, weights = basix.make_quadrature(basix_ele, gauss_order)
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element_family, basix_ele, degree, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.debug(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -176,8 +191,7 @@ def get_face_shape_vals_and_grads(ele_type):
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element_family, basix_ele, degree, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From 5fe3f75c470ea6246cd8bcd9df7512f10af4145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:09 +0000
Subject: [PATCH 06/14] fix: return the z face velocity from
 get_face_vel_component

---
 jax_am/cfd/cfd_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 3c97e60..755f95c 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -133,10 +133,10 @@ def get_face_vel_component(vel, dX, axis=0, BCs=None):
 
     if axis == 2:
         w = np.concatenate(
-            (vel_gc[4], vel, vel_gc),
+            (vel_gc[4], vel, vel_gc[5]),
             axis=2)
         w_f = (w[:, :, 1:] + w[:, :, :-1]) / 2
-        return v_f
+        return w_f
 
 
 class AM_3d():
-- 
2.43.0


From fd35303f12b1d160e543d9fac8c92deeb2b9eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:09 +0000
Subject: [PATCH 07/14] fix: apply the given boundary conditions in the CFD
 gradient

---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 755f95c..5fea4eb 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -82,7 +82,7 @@ def div(f, vel_f, dX, theta=0.125, BCs=None):
 def gradient(f, dX, BCs=None):
     if BCs == None:
         BCs = [[1, 1, 1, 1, 1, 1], [0., 0., 0., 0., 0., 0.]]
-    f_gc = get_GC_values(f, [[1, 1, 1, 1, 1, 1], [0., 0., 0., 0., 0., 0.]], dX)
+    f_gc = get_GC_values(f, BCs, dX)
     return np.concatenate(((np.diff(f, axis=0, append=f_gc[1]) +
                             np.diff(f, axis=0, prepend=f_gc[0])) / dX[0] / 2.,
                            (np.diff(f, axis=1, append=f_gc[3]) +
-- 
2.43.0


From 52a5b050d521ba9a0b8ba19163cd9a737cc63419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:09 +0000
Subject: [PATCH 08/14] fix: let the energy equation use its
 temperature-dependent conductivity on Dirichlet boundaries

---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 5fea4eb..2c7e71a 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -500,7 +500,7 @@ class energy_eqn():
             T0) / args['dt'] - args['rho'] * cp_fn(T0) * conv + Q
         mu_fn = lambda T: args['k'](T)
         self.step = poisson(mesh=args['mesh'],
-                            nonlinear='True',
+                            nonlinear=True,
                             mu_fn=mu_fn,
                             source_fn=fn)
         self.bc_fn = None
-- 
2.43.0


From fe4b729e7d336ad183c46df448e61f59119a2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 09/14] fix: keep the body heat source finite when the laser is
 off

---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 2c7e71a..e65afcc 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -225,7 +225,7 @@ class AM_3d():
             eta = self.args['eta']
             r = self.args['rb']
             d = self.args['phi'] * P / self.args['speed'] / self.args['rb']**2
-            Q_laser = 2 * P * eta / d / np.pi / r**2 * np.exp(-2 * (
+            Q_laser = 2 * P * eta / np.where(P > 0, d, 1.) / np.pi / r**2 * np.exp(-2 * (
                 (xc - xl)**2 + (yc - yl)**2) / r**2)
             Q_laser = Q_laser * ((zl - zc) <= d)
             return Q_laser
-- 
2.43.0


From 30234ba7a73c5d58ff35c9000f90d6ce79a90b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:42 +0000
Subject: [PATCH 10/14] fix: MMA density filter for fewer than 20 design cells

scipy pads the neighbour list with an out-of-range index when fewer cells
exist than neighbours are asked for, so building the filter raised IndexError.
---
 jax_am/fem/mma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_am/fem/mma.py b/jax_am/fem/mma.py
index 2b6782c..7a52f56 100644
--- a/jax_am/fem/mma.py
+++ b/jax_am/fem/mma.py
@@ -39,8 +39,8 @@ def compute_filter_kd_tree(problem):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        num_nbs = min(20, flex_num_cells)
+        dd, ii = kd_tree.query(flex_cell_centroids[i], range(1, num_nbs + 1))
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
         I += [i]*num_nbs
-- 
2.43.0


From 8b7f18bd1bd48392933f345cbbedc42fb1c124ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:05 +0000
Subject: [PATCH 11/14] fix: to_data_frame orders the frames and counts time
 once per frame

os.listdir has no order, so stepsave and the time of each frame depended on
the file system; the frame counter also advanced once per field, so files with
several fields got wrong times.
---
 jax_am/common.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jax_am/common.py b/jax_am/common.py
index a83df28..c3287f1 100644
--- a/jax_am/common.py
+++ b/jax_am/common.py
@@ -94,15 +94,13 @@ def to_data_frame(data_dir, dt=2 * 1e-6):
     all_data = []
     mesh = meshio.read(mesh_dir)
     mesh_df = pd.DataFrame(mesh.points, columns=["x", "y", "z"])
-    vtu_files = [f for f in os.listdir(vtk_dir) if f.endswith('.vtu')]
+    vtu_files = sorted(f for f in os.listdir(vtk_dir) if f.endswith('.vtu'))
     
     # Assuming the first file is always available and correctly formatted
     stepsave = int(vtu_files[1][-9:-4])
     print(f"Step save: {stepsave}")
     
-    i = 0
-    
-    for vtu_file in vtu_files:
+    for i, vtu_file in enumerate(vtu_files):
         time_value = round(i * stepsave * dt, 8)
         time = pd.Series(onp.full(len(mesh_df), time_value))
         vtu_path = os.path.join(vtk_dir, vtu_file)
@@ -120,7 +118,6 @@ def to_data_frame(data_dir, dt=2 * 1e-6):
                     for idx in onp.ndindex(data.shape[1:]):
                         flattened_name = f"{name}_{'_'.join(map(str, idx))}"
                         data_dict[flattened_name] = data[(slice(None),) + idx]
-                i += 1
                 
             all_data.append(pd.DataFrame(data_dict))
     
-- 
2.43.0


From c47a68b4d6daf08ff67cbda2396c8c604db9d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:05 +0000
Subject: [PATCH 12/14] fix: save_sol accepts a file name without a directory
 part

---
 jax_am/fem/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_am/fem/utils.py b/jax_am/fem/utils.py
index 6df0819..b0205a2 100644
--- a/jax_am/fem/utils.py
+++ b/jax_am/fem/utils.py
@@ -8,7 +8,8 @@ from jax_am.fem.generate_mesh import get_meshio_cell_type
 def save_sol(problem, sol, sol_file, cell_infos=None, point_infos=None):
     cell_type = get_meshio_cell_type(problem.ele_type)
     sol_dir = os.path.dirname(sol_file)
-    os.makedirs(sol_dir, exist_ok=True)
+    if sol_dir:
+        os.makedirs(sol_dir, exist_ok=True)
     out_mesh = meshio.Mesh(points=problem.points, cells={cell_type: problem.cells})
     out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)
     if cell_infos is not None:
-- 
2.43.0


From 4759cc34b97bfd754d0500721e954a7f95c74ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 13/14] fix: forming examples no longer import a solver class
 that does not exist

---
 applications/fem/forming/example_force.py | 2 +-
 applications/fem/forming/single.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/fem/forming/example_force.py b/applications/fem/forming/example_force.py
index c0b0008..ef92d37 100644
--- a/applications/fem/forming/example_force.py
+++ b/applications/fem/forming/example_force.py
@@ -12,7 +12,7 @@ import glob
 import matplotlib.pyplot as plt
 
 from jax_am.fem.core import FEM
-from jax_am.fem.solver import solver, DynamicRelaxSolve
+from jax_am.fem.solver import solver
 from jax_am.fem.utils import save_sol
 from jax_am.fem.generate_mesh import box_mesh, get_meshio_cell_type, Mesh
 
diff --git a/applications/fem/forming/single.py b/applications/fem/forming/single.py
index 171f4f3..9122d9e 100644
--- a/applications/fem/forming/single.py
+++ b/applications/fem/forming/single.py
@@ -10,7 +10,7 @@ import glob
 import matplotlib.pyplot as plt
 
 from jax_am.fem.core import FEM
-from jax_am.fem.solver import solver, DynamicRelaxSolve
+from jax_am.fem.solver import solver
 from jax_am.fem.utils import save_sol
 from jax_am.fem.generate_mesh import box_mesh, get_meshio_cell_type, Mesh
 
-- 
2.43.0


From 1c2968f2397d7bdf13379325bce49816de074b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:03 +0000
Subject: [PATCH 14/14] fix: refuse a non-finite result of the
 Lagrange-multiplier solver, as the row-elimination solver does

---
 jax_am/fem/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 6ae8dab..a251334 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -644,6 +644,12 @@ def solver_lagrange_multiplier(problem, linear, use_petsc=True):
             res_val = np.linalg.norm(res_vec_aug)
             logger.debug(f"res l_2 dofs_aug = {res_val}")
 
+        assert np.all(
+            np.isfinite(res_val)), f"res_val contains NaN, stop the program!"
+
+    assert np.all(
+        np.isfinite(dofs_aug)), f"dofs contains NaN, stop the program!"
+
     sol = dofs_aug[:problem.num_total_dofs].reshape(sol_shape)
     end = time.time()
     solve_time = end - start
-- 
2.43.0

