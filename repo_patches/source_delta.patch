From bf9812f952f5e12f4d681d22df0b8a919f03cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 01/40] fix: return separate dictionaries for R and T with
 return_dict=True

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 6c6f856..ba68182 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -480,8 +480,8 @@ class Simulation:
                 R = bk.sum(R)
                 T = bk.sum(T)
         if return_dict and orders:
-            Rdict = self.harmidx_dict.copy()
-            Tdict = self.harmidx_dict.copy()
+            Rdict = {i1: {} for i1 in self.harmidx_dict}
+            Tdict = {i1: {} for i1 in self.harmidx_dict}
             for i1, i2 in self.harmonics.T:
                 i1 = int(i1)
                 i2 = int(i2)
-- 
2.43.0


From fd7a956b0d7f7fa5798a7f717b9cb15ce2a9aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 02/40] fix: complex diffraction orders for arbitrary layer
 names

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index ba68182..2c06f92 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -508,8 +508,8 @@ class Simulation:
         norma_t = (norma_t2.real) ** 0.5
         norma_r = (norma_r2.real) ** 0.5
 
-        t = self.get_field_fourier("Substrate")[0, 0] * norma_t
-        bx0 = self.get_field_fourier("Superstrate")[0, 0] * norma_r
+        t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
+        bx0 = self.get_field_fourier(0)[0, 0] * norma_r
         o0 = bk.array(bk.zeros(self.nh))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
-- 
2.43.0


From 8cd75a20035f9ba8d40b5899b9894b7434f17ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 03/40] fix: negative layer indices

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 4e3df96..40a5828 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -303,7 +303,7 @@ def _get_layer(id, layers, layer_names):
             if l.name == id:
                 return l, i
     elif isinstance(id, int):
-        return layers[id], id
+        return layers[id], range(len(layers))[id]
     elif hasattr(id, "name"):
         return _get_layer(id.name, layers, layer_names)
     else:
-- 
2.43.0


From 5b08eccc1cc20c3d7a2001c67fba6abb0c5b705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 04/40] fix: layer copies of uniform layers, and copies placed
 before or without their original

---
 nannos/layers.py     |  4 ++--
 nannos/simulation.py | 15 +++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 40a5828..bab001d 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -187,7 +187,7 @@ class Layer:
             `(q,psi)`, with eigenvalues `q` and eigenvectors `psi`.
 
         """
-        if self.iscopy:
+        if self.iscopy and matrix is getattr(self.original, "matrix", None):
             self.eigenvalues, self.eigenvectors = (
                 self.original.eigenvalues,
                 self.original.eigenvectors,
@@ -223,7 +223,7 @@ class Layer:
         """
         cp = copy(self)
         cp.iscopy = True
-        cp.original = self
+        cp.original = self.original
         if name is None:
             cp.name += " (copy)"
         else:
diff --git a/nannos/simulation.py b/nannos/simulation.py
index 2c06f92..b6c10ea 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -180,8 +180,8 @@ class Simulation:
         """Solve the grating problem."""
         _t0 = timer.tic()
         logger.info("Solving")
-        layers_solved = []
-        for layer in self.layers:
+        # copies share the matrices of their original, which must be solved first
+        for layer in sorted(self.layers, key=lambda layer: layer.iscopy):
             _t0lay = timer.tic()
             logger.info(f"Computing eigenpairs for layer {layer}")
             layer = self.build_matrix(layer)
@@ -195,13 +195,10 @@ class Simulation:
                 # out = bk.conj(layer.eigenvectors).T @ layer.Qeps @ layer.eigenvectors
                 # layer.eigenvectors /= bk.diag(out)**0.5
 
-            layers_solved.append(layer)
-
             _t1lay = timer.toc(_t0lay, verbose=False)
             logger.info(
                 f"Done computing eigenpairs for layer {layer} in {_t1lay:0.3e}s"
             )
-        self.layers = layers_solved
         self.is_solved = True
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(f"Done solving in {_t1:0.3e}s")
@@ -589,9 +586,15 @@ class Simulation:
         _t0 = timer.tic()
         layer, layer_index = self.get_layer(layer)
         logger.info(f"Building matrix for layer {layer}")
-        if layer.iscopy:
+        if (
+            layer.iscopy
+            and not layer.is_uniform
+            and layer.original in self.layers
+            and layer.epsilon is layer.original.epsilon
+        ):
             layer.matrix = layer.original.matrix
             layer.Kmu = layer.original.Kmu
+            layer.Pmu = layer.original.Pmu
             layer.eps_hat = layer.original.eps_hat
             layer.eps_hat_inv = layer.original.eps_hat_inv
             layer.mu_hat = layer.original.mu_hat
-- 
2.43.0


From c4cfe2e8e553a57997406fb8f94d971afeb30c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 05/40] fix: harmonics truncation for lattice vectors of
 different lengths or not orthogonal

---
 nannos/lattice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 25f14c6..b133d8f 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -128,9 +128,9 @@ class Lattice:
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
         if self.truncation == "circular":
-            return _circular_truncation(nh, self.reciprocal)
+            return _circular_truncation(nh, self.reciprocal.T)
         elif self.truncation == "parallelogrammic":
-            return _parallelogramic_truncation(nh, self.reciprocal)
+            return _parallelogramic_truncation(nh, self.reciprocal.T)
         else:
             return _one_dim_truncation(nh)
 
@@ -306,7 +306,7 @@ def _parallelogramic_truncation(nh, Lk):
     G = bk.meshgrid(xG, xG, indexing="ij")
     G = [g.flatten() for g in G]
 
-    Gl2 = G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+    Gl2 = G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
 
@@ -338,7 +338,7 @@ def _circular_truncation(nh, Lk):
     G = [g.flatten() for g in G]
 
     Gl2 = bk.array(
-        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     )
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
-- 
2.43.0


From 8f596aa7f43c86958f7f5f72a6da02271bb4ce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 06/40] fix: projection on the normal of the interfaces in
 vector formulations

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index b6c10ea..e334769 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -834,7 +834,7 @@ class Simulation:
             Pxy_hat = self._get_toeplitz_matrix(Pxy)
             Pyx_hat = self._get_toeplitz_matrix(Pyx)
 
-            Pi = block([[Pyy_hat, Pyx_hat], [Pxy_hat, Pxx_hat]])
+            Pi = block([[Pxx_hat, Pyx_hat], [Pxy_hat, Pyy_hat]])
 
             # Delta = epsilon - 1 / epsilon
             # Delta_hat = self._get_toeplitz_matrix(Delta)
-- 
2.43.0


From c8459727c4c2d336b133a5c7467de26d070cf5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 07/40] fix: transverse permittivity of anisotropic patterned
 layers

---
 nannos/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index e334769..6c5ac57 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -573,8 +573,10 @@ class Simulation:
 
     def _get_toeplitz_matrix(self, u, transverse=False):
         if transverse:
+            # transverse components are in the basis (-y, x)
             return [
-                [self._get_toeplitz_matrix(u[i, j]) for j in range(2)] for i in range(2)
+                [self._get_toeplitz_matrix(u[1, 1]), -self._get_toeplitz_matrix(u[1, 0])],
+                [-self._get_toeplitz_matrix(u[0, 1]), self._get_toeplitz_matrix(u[0, 0])],
             ]
         uft = fft.fourier_transform(u)
         ix = bk.array(bk.arange(self.nh))
-- 
2.43.0


From 0e00f1ee170d6b11b804c437bcfd629760006878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 08/40] fix: default shape of field maps is the lattice
 discretization

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 6c5ac57..d5a0c28 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -372,7 +372,7 @@ class Simulation:
         layer, layer_index = self.get_layer(layer_index)
         _t0 = timer.tic()
         logger.info("Retrieving fields in real-space for layer {layer}")
-        shape = shape or layer.epsilon.shape
+        shape = shape or layer.epsilon.shape[-2:] or self.lattice.discretization
 
         fields_fourier = self.get_field_fourier(layer_index, z)
 
-- 
2.43.0


From 3bd47861d02a8ee9f28723354296231f9baa4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 09/40] fix: return the point where the stop value is reached
 in topology optimization

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index d02b4dd..83f5759 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -71,9 +71,9 @@ class StopFun:
 
     def fun(self, x, *args):
         self.f = self.fun_in(x, *args)
+        self.x = x
         if self.stopval is not None and self.f < self.stopval:
             raise StopFunError("Stop value reached.")
-        self.x = x
         return self.f
 
 
-- 
2.43.0


From 4984d58975cb1ad20e291c7a3e88ae4051904d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 10/40] fix: lattice area for all backends

---
 nannos/lattice.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index b133d8f..86311b4 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -72,8 +72,7 @@ class Lattice:
     def area(self):
         if self.is_1D:
             return self.basis_vectors[0][0]
-        v = self.basis_vectors
-        return bk.linalg.norm(bk.cross(v[0], v[1]))
+        return bk.abs(bk.linalg.det(self.matrix))
 
     @property
     def matrix(self):
-- 
2.43.0


From d1d914231bab880ccee10de206907fe881649a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 11/40] fix: tangent field for a different number of points
 along each direction

---
 nannos/formulations/tangent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 6c9fd60..4acbe54 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -172,8 +172,8 @@ def _get_tangent_field_min(
     def minifun(x):
         coefx = x[:nh] + 1j * x[nh : 2 * nh]
         coefy = x[2 * nh : 3 * nh] + 1j * x[3 * nh :]
-        ax = _get_amps(coefx, (Nx_ds, Nx_ds))
-        ay = _get_amps(coefy, (Ny_ds, Ny_ds))
+        ax = _get_amps(coefx, shape_small)
+        ay = _get_amps(coefy, shape_small)
         da = npg.real(npg.array([ax, ay]))
         obj = npg.mean(npg.abs(da - dgrid_f_downspl) ** 2)
         ### smoothness
@@ -198,8 +198,8 @@ def _get_tangent_field_min(
     coefx = xopt[:nh] + 1j * xopt[nh : 2 * nh]
     coefy = xopt[2 * nh : 3 * nh] + 1j * xopt[3 * nh :]
 
-    ax = _get_amps(coefx, (Nx_ds, Nx_ds))
-    ay = _get_amps(coefy, (Ny_ds, Ny_ds))
+    ax = _get_amps(coefx, shape_small)
+    ay = _get_amps(coefy, shape_small)
 
     # points_dsx = xi[::downsample_x]
     # points_dsy = yi[::downsample_y]
-- 
2.43.0


From 909dad04e0811dd59350f8db62e6dea34ed93299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 12/40] fix: downsampling of the tangent field when the
 resolution is not a multiple of 64

---
 nannos/formulations/tangent.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 4acbe54..f282453 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -104,13 +104,10 @@ def _get_tangent_field_min(
     grid = bk.abs(grid)
     grid = grid / bk.max(grid)
     Nx, Ny = grid.shape
-    Nx_ds = min(2**6, Nx)
-    Ny_ds = min(2**6, Ny)
-    # Nx_ds = min(int(Nx/2**3), Nx)
-    # Ny_ds = min(int(Nx/2**3), Ny)
-
-    downsample_x = int(Nx / Nx_ds)
-    downsample_y = int(Ny / Ny_ds)
+    downsample_x = int(npo.ceil(Nx / 2**6))
+    downsample_y = int(npo.ceil(Ny / 2**6))
+    Nx_ds = len(range(0, Nx, downsample_x))
+    Ny_ds = len(range(0, Ny, downsample_y))
     shape_small = (Nx_ds, Ny_ds)
 
     xi = npg.linspace(0, 1, Nx)
-- 
2.43.0


From 4add2930f2b7285d7653e9f125f85f24320caff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 13/40] fix: single precision amplitudes of the plane wave with
 the torch backend

---
 nannos/excitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/excitation.py b/nannos/excitation.py
index 485dc57..7079ed1 100644
--- a/nannos/excitation.py
+++ b/nannos/excitation.py
@@ -64,7 +64,7 @@ class PlaneWave:
         kt = self.wavevector
         omega = k0
         K = bk.array([[kt[1] ** 2, -kt[0] * kt[1]], [-kt[0] * kt[1], kt[0] ** 2]])
-        Q = omega**2 * bk.array(bk.eye(2)) - K
+        Q = omega**2 * bk.array(bk.eye(2, dtype=FLOAT)) - K
         q = (omega**2 - kt[0] ** 2 - kt[1] ** 2) ** 0.5
         C = bk.linalg.inv(Q) * (omega * q)
         et = bk.array([-self.amplitude[1], self.amplitude[0]])
-- 
2.43.0


From c24400b16b5ae0f3b2ff6086cd045e4cbc643b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 14/40] fix: keep the gradient with respect to the elements of
 a list with the torch backend

---
 nannos/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 8f46675..0b2864d 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -20,6 +20,7 @@ pyvista.global_theme.axes.show = True
 
 import os
 import warnings
+from functools import reduce
 
 from packaging.version import parse as parse_version
 
@@ -279,9 +280,21 @@ elif "_TORCH" in globals():
 
         backend = torch
 
+        def _has_tensor(a):
+            if isinstance(a, (list, tuple)):
+                return any(_has_tensor(_a) for _a in a)
+            return isinstance(a, backend.Tensor)
+
         def _array(a, **kwargs):
             if isinstance(a, backend.Tensor):
                 return a.to(torch.device(DEVICE))
+            elif _has_tensor(a):
+                # stack to stay differentiable with respect to the elements
+                elements = [_array(_a) for _a in a]
+                dtype = kwargs.get("dtype") or reduce(
+                    backend.promote_types, [element.dtype for element in elements]
+                )
+                return backend.stack([element.to(dtype) for element in elements])
             else:
                 return backend.tensor(a, **kwargs).to(torch.device(DEVICE))
 
-- 
2.43.0


From 68f3bb9a9743ed00d9a9b351e2172053cb0ba42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 15/40] fix: differentiable fft tangent field with the autograd
 backend

---
 nannos/formulations/tangent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index f282453..008e790 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -53,7 +53,7 @@ def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
     Nstar = [(inverse_fourier_transform(Nhat[i] * ghat)) for i in range(2)]
 
     Nstar = [Nstar[i][Nx : 2 * Nx, Ny : 2 * Ny] for i in range(2)]
-    t = [Nstar[1].real, -Nstar[0].real]
+    t = [bk.real(Nstar[1]), -bk.real(Nstar[0])]
     # t = bk.array(t).real
     if normalize:
         norm_t = norm(t)
-- 
2.43.0


From 2dc0229c4c7c811d104b16cd497f447fefaff66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 16/40] fix: 3D plots of structures with recent pyvista,
 rectangular discretization and all backends

---
 nannos/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index 3dcb6bb..6a02bdb 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -99,7 +99,7 @@ def plot_structure(
 
     p = plotter or pyvista.Plotter()
     name = r"permittivity (Re)"
-    null_thickness = null_thickness or bk.max([layer.thickness for layer in sim.layers])
+    null_thickness = null_thickness or max([layer.thickness for layer in sim.layers])
     bvs = sim.lattice.basis_vectors
 
     transform_matrix = bk.array(
@@ -138,7 +138,7 @@ def plot_structure(
                         val = layer.epsilon.real
                         grid.cell_data[name] = bk.array(val)
                         mesh = grid.extract_surface()
-                        mesh = mesh.transform(transform_matrix)
+                        mesh = mesh.transform(transform_matrix, inplace=False)
                         if layer_colors is not None:
                             kwargs["color"] = layer_colors[ilayer]
                         if layer_metallic is not None:
@@ -166,7 +166,7 @@ def plot_structure(
                     values = epsgrid[:, :, None]
                     # Create the spatial reference
                     grid = pyvista.ImageData()
-                    grid.dimensions = bk.array(values.shape) + 1
+                    grid.dimensions = (Nx + 1, Ny + 1, 2)
                     grid.origin = (x0, y0, z)  # The bottom left corner of the data set
                     grid.spacing = (1 / Nx, 1 / Ny, thickness)
                     grid.cell_data[name] = values.flatten()  # Flatten the array!
@@ -177,7 +177,9 @@ def plot_structure(
                                 [v - 1e-7 * abs(v), v + 1e-7 * abs(v)]
                             )
 
-                            threshed = threshed.transform(transform_matrix)
+                            threshed = threshed.transform(
+                                transform_matrix, inplace=False
+                            )
 
                             if layer_colors is not None:
                                 kwargs["color"] = layer_colors[ilayer][ival]
-- 
2.43.0


From da7d9f3e9d219dc7cf2d61952701b90920998f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 17/40] fix: user defined harmonics with the torch backend

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 86311b4..46d47f1 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -122,7 +122,7 @@ class Lattice:
 
     def _get_harmonics(self, nh):
         if self.harmonics_array is not None:
-            nh = bk.shape(self.harmonics_array)[1]
+            nh = len(self.harmonics_array[0])
             return self.harmonics_array, nh
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
-- 
2.43.0


From d91759fcbad5d870a684f9f8e3a301143f2f4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 18/40] fix: single precision reflected complex orders with the
 torch backend

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index d5a0c28..12d1e4a 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -507,7 +507,7 @@ class Simulation:
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-        o0 = bk.array(bk.zeros(self.nh))
+        o0 = bk.array(bk.zeros(self.nh, dtype=FLOAT))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
         return r, t
-- 
2.43.0


From 2a89f940a6fb5c69035651eaa76bb89203aa96ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 19/40] fix: rounding errors reversing the direction of
 propagating modes

---
 nannos/layers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index bab001d..4476836 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -208,7 +208,9 @@ class Layer:
             else:
                 w, v = eig_func(matrix)
             q = w**0.5
-            q = bk.where(bk.imag(q) < 0.0, -q, q)
+            # rounding errors must not reverse the direction of propagating modes
+            tol = 5e3 * bk.finfo(FLOAT).eps * bk.max(bk.abs(q))
+            q = bk.where(bk.imag(q) < -tol, -q, q)
             self.eigenvalues, self.eigenvectors = q, v
         return self.eigenvalues, self.eigenvectors
 
-- 
2.43.0


From fbc44bcb117716cb91c4e0645d17c9f8b9d593d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 20/40] fix: dictionaries of complex diffraction orders

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 12d1e4a..f78e222 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -483,8 +483,8 @@ class Simulation:
                 i1 = int(i1)
                 i2 = int(i2)
                 idx = self.harmidx_dict[i1][i2]
-                Rdict[i1][i2] = R[idx]
-                Tdict[i1][i2] = T[idx]
+                Rdict[i1][i2] = R[..., idx]
+                Tdict[i1][i2] = T[..., idx]
             return Rdict, Tdict
         return R, T
 
-- 
2.43.0


From 5564c66318b971b700a6555cc080004812f81187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 21/40] fix: double precision grids and filters with the torch
 backend

---
 nannos/geometry.py      |  8 +++++---
 nannos/lattice.py       |  4 ++--
 nannos/utils/helpers.py | 12 ++++++++----
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/nannos/geometry.py b/nannos/geometry.py
index 7b67b04..21c9002 100644
--- a/nannos/geometry.py
+++ b/nannos/geometry.py
@@ -16,7 +16,9 @@ import shapely.affinity as sa
 import shapely.geometry as sg
 
 from . import backend as bk
-from . import get_backend
+from . import get_backend, get_types
+
+FLOAT, COMPLEX = get_types()
 
 # from https://gist.github.com/perrette/a78f99b76aed54b6babf3597e0b331f8
 
@@ -106,8 +108,8 @@ def shape_mask(shp, x, y, m=None):
 
 
 def geometry_mask(geom, lattice, Nx, Ny):
-    x0 = bk.linspace(0, 1.0, Nx)
-    y0 = bk.linspace(0, 1.0, Ny)
+    x0 = bk.linspace(0, 1.0, Nx, dtype=FLOAT)
+    y0 = bk.linspace(0, 1.0, Ny, dtype=FLOAT)
     x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
     grid = bk.stack([x_, y_])
     x, y = grid[0][:, 0], grid[1][0, :]
diff --git a/nannos/lattice.py b/nannos/lattice.py
index 46d47f1..1fbf78a 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -154,8 +154,8 @@ class Lattice:
 
         """
         Nx, Ny = self.discretization
-        x0 = bk.array(bk.linspace(0, 1.0, Nx))
-        y0 = bk.array(bk.linspace(0, 1.0, Ny))
+        x0 = bk.array(bk.linspace(0, 1.0, Nx, dtype=FLOAT))
+        y0 = bk.array(bk.linspace(0, 1.0, Ny, dtype=FLOAT))
         x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
         return bk.stack([x_, y_])
 
diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index b89ff55..9fcecf1 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -141,12 +141,16 @@ def _apply_filter(x, rfilt, vectors=None):
     Nx, Ny = x.shape
 
     if vectors is None:
-        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx))
-        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny))
+        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx, dtype=FLOAT))
+        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny, dtype=FLOAT))
 
     else:
-        tx = bk.array(bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx))
-        ty = bk.array(bk.linspace(-0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny))
+        tx = bk.array(
+            bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx, dtype=FLOAT)
+        )
+        ty = bk.array(
+            bk.linspace(-0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny, dtype=FLOAT)
+        )
     bumpx = bk.exp(-(tx**2) / rfilt[0] ** 2)
     bumpx /= bk.trapz(bumpx)  # normalize the integral to 1
     bumpy = bk.exp(-(ty**2) / rfilt[1] ** 2)
-- 
2.43.0


From b34e37ae8009aa333886733b2c3f501448ce6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 22/40] fix: lattice grid in single precision with the torch
 backend

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 1fbf78a..da20dbd 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -186,7 +186,7 @@ class Lattice:
 
         """
         if get_backend() == "torch":
-            return bk.tensordot(self.matrix, grid.double(), dims=([1], [0]))
+            return bk.tensordot(self.matrix, grid.to(FLOAT), dims=([1], [0]))
         else:
             return bk.tensordot(self.matrix, grid, axes=(1, 0))
 
-- 
2.43.0


From 9823ccad0632e0b47a47f6318dded0b41ec56711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 23/40] fix: double precision projection and interpolation with
 the torch backend

---
 nannos/optimize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 83f5759..f66aabd 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -26,7 +26,7 @@ def project(x, beta=1, thres=0.5):
     x = bk.array(x)
 
     def tanh(z):
-        return bk.tanh(bk.array(z))
+        return bk.tanh(bk.array(z, dtype=FLOAT))
 
     return ((tanh(thres * beta)) + tanh(beta * (x - thres))) / (
         tanh(thres * beta) + (tanh((1 - thres) * beta))
@@ -34,18 +34,18 @@ def project(x, beta=1, thres=0.5):
 
 
 def multi_project(x, beta=1, Nthres=2):
-    thresholds = bk.linspace(0, 1, Nthres + 1)[1:-1]
+    thresholds = bk.linspace(0, 1, Nthres + 1, dtype=FLOAT)[1:-1]
     out = sum(project(x, beta, thres) for thres in thresholds)
     return out / len(thresholds)
 
 
 def multi_simp(x, epsilons, p=1):
-    epsilons = bk.array(epsilons) + 0j
+    epsilons = bk.array(epsilons, dtype=COMPLEX) + 0j
     nthres = len(epsilons)
     npts = nthres
     if nthres == 2:
         return simp(x, epsilons[0], epsilons[1], p)
-    pts = bk.linspace(0, 1, npts)
+    pts = bk.linspace(0, 1, npts, dtype=FLOAT)
 
     def pol(coefs, x):
         return sum(c * x ** (n * p) for n, c in enumerate(coefs))
-- 
2.43.0


From b0323994ed77fa92705a4de32bedddd683979247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 24/40] fix: gradients of fields, stress and complex orders
 with autograd

---
 nannos/simulation.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index f78e222..bd0c3c5 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -302,8 +302,8 @@ class Simulation:
             self.solve()
         ai0, bi0 = self._get_amplitudes(layer_index, translate=False)
         Z = z if hasattr(z, "__len__") else [z]
-        fields = bk.zeros((len(Z), 2, 3, self.nh), dtype=COMPLEX)
-        for iz, z_ in enumerate(Z):
+        fields = []
+        for z_ in Z:
             ai, bi = _translate_amplitudes(layer, z_, ai0, bi0)
             ht_fourier = layer.eigenvectors @ (ai + bi)
             hx, hy = ht_fourier[: self.nh], ht_fourier[self.nh :]
@@ -318,11 +318,9 @@ class Simulation:
             else:
                 # ez = layer.eps_hat_inv @ ez
                 ez = bk.linalg.solve(layer.eps_hat, ez)
-            for i, comp in enumerate([ex, ey, ez]):
-                fields = set_index(fields, [iz, 0, i], comp)
-            for i, comp in enumerate([hx, hy, hz]):
-                fields = set_index(fields, [iz, 1, i], comp)
-        fields_fourier = bk.array(fields)
+            E, H = bk.stack([ex, ey, ez]), bk.stack([hx, hy, hz])
+            fields.append(bk.stack([E, H]))
+        fields_fourier = bk.stack(fields)
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(
             f"Done retrieving fields in k-space for layer {layer} in {_t1:0.3e}s"
@@ -502,8 +500,8 @@ class Simulation:
         norma_t2 = nin**2 * (gamma_out / gamma_in0)
         norma_r2 = nin**2 * (gamma_in / gamma_in0)
 
-        norma_t = (norma_t2.real) ** 0.5
-        norma_r = (norma_r2.real) ** 0.5
+        norma_t = bk.real(norma_t2) ** 0.5
+        norma_r = bk.real(norma_r2) ** 0.5
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
@@ -537,11 +535,10 @@ class Simulation:
             dx = dxy[self.nh :]
             dy = -dxy[: self.nh]
 
-        Tx = bk.sum(ex * bk.conj(dz) + hx * bk.conj(hz), axis=-1).real
-        Ty = bk.sum(ey * bk.conj(dz) + hy * bk.conj(hz), axis=-1).real
-        Tz = (
-            0.5
-            * bk.sum(
+        Tx = bk.real(bk.sum(ex * bk.conj(dz) + hx * bk.conj(hz), axis=-1))
+        Ty = bk.real(bk.sum(ey * bk.conj(dz) + hy * bk.conj(hz), axis=-1))
+        Tz = 0.5 * bk.real(
+            bk.sum(
                 ez * bk.conj(dz)
                 + hz * bk.conj(hz)
                 - ex * bk.conj(dx)
@@ -549,7 +546,7 @@ class Simulation:
                 - hx * bk.conj(hx)
                 - hy * bk.conj(hy),
                 axis=-1,
-            ).real
+            )
         )
         return Tx, Ty, Tz
 
-- 
2.43.0


From 38b3c2c7ac1683010c723c5578cf7e2fadf8e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 25/40] fix: circular truncation in single precision

---
 nannos/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index da20dbd..900eeab 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -347,7 +347,8 @@ def _circular_truncation(nh, Lk):
     if nh < nGtmp:
         nGtmp = nh
 
-    tol = 1e-10 * max(u[0] ** 2, u[1] ** 2)
+    rtol = 1e-10 if FLOAT == bk.float64 else 1e-4
+    tol = rtol * max(u[0] ** 2, u[1] ** 2)
     for i in bk.arange(nGtmp - 1, -1, -1):
         if bk.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-- 
2.43.0


From 3255024cb60247a51aecedc730210de6477477d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 26/40] fix: evanescent complex orders with jax in single
 precision

---
 nannos/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index bd0c3c5..dbca3c8 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -500,8 +500,10 @@ class Simulation:
         norma_t2 = nin**2 * (gamma_out / gamma_in0)
         norma_r2 = nin**2 * (gamma_in / gamma_in0)
 
-        norma_t = bk.real(norma_t2) ** 0.5
-        norma_r = bk.real(norma_r2) ** 0.5
+        # rounding errors may give tiny negative values for evanescent orders
+        norma_t2, norma_r2 = bk.real(norma_t2), bk.real(norma_r2)
+        norma_t = bk.where(norma_t2 > 0, norma_t2, 0 * norma_t2) ** 0.5
+        norma_r = bk.where(norma_r2 > 0, norma_r2, 0 * norma_r2) ** 0.5
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-- 
2.43.0


From ff93c0ee57a4a4adbe24de69a5016e1f926b7488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 27/40] fix: filtering shifted maps with odd numbers of points
 by one pixel

---
 nannos/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index 9fcecf1..ff86ec8 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -162,7 +162,7 @@ def _apply_filter(x, rfilt, vectors=None):
     # convolve
     img2_ft = kernel_ft * img_ft
     out = bk.real(inverse_fourier_transform(img2_ft, axes=(0, 1)))
-    return bk.fft.fftshift(out) * (Nx * Ny)
+    return bk.fft.ifftshift(out) * (Nx * Ny)
 
 
 apply_filter = jit(_apply_filter, static_argnums=(1))
-- 
2.43.0


From 7bf3521fba0f7ebd1727e7c43eb967d39e4802c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 28/40] fix: topology optimization with scipy and the torch
 backend

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index f66aabd..8c874ce 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -150,7 +150,7 @@ class TopologyOptimizer:
                     if self.callback is not None:
                         self.callback(x, y, *args)
                     self.current_iteration += 1
-                    return y
+                    return float(y)
 
                 bounds = [(0, 1) for _ in range(self.nvar)]
                 options = {"maxiter": self.maxiter}
-- 
2.43.0


From a06d65609970d09cd7b6e56cfd685d6a50ec7a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 29/40] fix: resolution check for negative harmonics

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index dbca3c8..b8cdd43 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -95,7 +95,7 @@ class Simulation:
                 idict[i1] = {i2: j}
         self.harmidx_dict = idict
         # Check if nh and resolution satisfy Nyquist criteria
-        maxN = bk.max(self.harmonics)
+        maxN = bk.max(bk.abs(self.harmonics))
         if self.lattice.discretization[0] <= 2 * maxN or (
             self.lattice.discretization[1] <= 2 * maxN and not self.lattice.is_1D
         ):
-- 
2.43.0


From 0d15fc44211d964ef0dcd9ae6a0f0e1b5dd19691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 30/40] fix: tangential field of layers with losses, whatever
 the phase and size of the contrast

---
 nannos/formulations/tangent.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 008e790..86acbf6 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -32,8 +32,18 @@ def _ft_filt(x, expo):
     return bk.array(bk.where(x == 0.0, 0.0 * x, f))
 
 
+def _dominant_part(grid):
+    """Real map: part of a complex one along the dominant phase of its gradient."""
+    v = bk.gradient(grid)
+    s = 0j + bk.sum(v[0] ** 2 + v[1] ** 2)
+    if bk.abs(s) > 0:
+        grid = grid * bk.sqrt(bk.conj(s) / bk.abs(s))
+    return bk.real(grid)
+
+
 def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
     Nx, Ny = grid.shape
+    grid = _dominant_part(grid)
 
     grid = bk.hstack([grid, grid, grid])
     grid = bk.vstack([grid, grid, grid])
@@ -43,7 +53,7 @@ def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
     vf = bk.gradient(xf)
     norma = norm(v)
     N = [bk.array(v[i]) * bk.abs(vf[i]) for i in range(2)]
-    N = [_normalize(N[i], norma) for i in range(2)]
+    N = [_normalize(N[i], norma, threshold=1e-10 * bk.max(norma)) for i in range(2)]
     fx = bk.fft.fftfreq(3 * Nx)
     fy = bk.fft.fftfreq(3 * Ny)
     Fx, Fy = bk.meshgrid(fx, fy, indexing="ij")
@@ -55,11 +65,10 @@ def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
     Nstar = [Nstar[i][Nx : 2 * Nx, Ny : 2 * Ny] for i in range(2)]
     t = [bk.real(Nstar[1]), -bk.real(Nstar[0])]
     # t = bk.array(t).real
+    t = [t[i] / bk.max(norm(t)) for i in range(2)]
     if normalize:
         norm_t = norm(t)
         t = _normalize_vec(t, norm_t)
-    else:
-        t = [t[i] / bk.max(norm(t)) for i in range(2)]
     return t
 
 
@@ -101,8 +110,8 @@ def _get_tangent_field_min(
     # except Exception:
     #     pass
 
-    grid = bk.abs(grid)
-    grid = grid / bk.max(grid)
+    grid = _dominant_part(grid)
+    grid = grid / bk.max(bk.abs(grid))
     Nx, Ny = grid.shape
     downsample_x = int(npo.ceil(Nx / 2**6))
     downsample_y = int(npo.ceil(Ny / 2**6))
-- 
2.43.0


From 93e3cf7c45ea9dd10c6d69966b11575490d05837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 31/40] fix: fields inside a layer next to a similar layer
 (singular interface)

---
 nannos/simulation.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index b8cdd43..2ec8209 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -754,16 +754,38 @@ class Simulation:
 
     def _solve_int(self, layer_index):
         layer, layer_index = self.get_layer(layer_index)
-        n_interfaces = len(self.layers) - 1
         S = self.get_S_matrix(indices=(0, layer_index))
-        P = self.get_S_matrix(indices=(layer_index, n_interfaces))
-        # q = _inv(bk.array(bk.eye(self.nh * 2)) - bk.matmul(S[0][1], P[1][0]))
+        P10 = self._get_reflection_matrix(layer_index)
+        # q = _inv(bk.array(bk.eye(self.nh * 2)) - bk.matmul(S[0][1], P10))
         # ai = bk.matmul(q, bk.matmul(S[0][0], self.a0))
-        Q = bk.array(bk.eye(self.nh * 2)) - bk.matmul(S[0][1], P[1][0])
+        Q = bk.array(bk.eye(self.nh * 2)) - bk.matmul(S[0][1], P10)
         ai = bk.linalg.solve(Q, bk.matmul(S[0][0], self.a0))
-        bi = bk.matmul(P[1][0], ai)
+        bi = bk.matmul(P10, ai)
         return ai, bi
 
+    def _get_reflection_matrix(self, layer_index):
+        """Reflection matrix of the layers below, from the last interface up.
+
+        An interface alone can be singular (modes of two similar layers sorted
+        in opposite directions), not an interface followed by the layers below.
+        """
+        if f"R{layer_index}" in self._intermediate_S:
+            return self._intermediate_S[f"R{layer_index}"]
+        R = bk.zeros_like(bk.array(bk.eye(2 * self.nh, dtype=COMPLEX)))
+        for i in reversed(range(layer_index, len(self.layers) - 1)):
+            layer, layer_next = self.layers[i], self.layers[i + 1]
+            f = bk.diag(phasor(layer.eigenvalues, layer.thickness or 0))
+            f_next = bk.diag(phasor(layer_next.eigenvalues, layer_next.thickness or 0))
+            I_ = _build_Imatrix(layer, layer_next)
+            Imat = [
+                [get_block(I_, i, j, 2 * self.nh) for j in range(2)] for i in range(2)
+            ]
+            A = Imat[0][0] + Imat[0][1] @ f_next @ R
+            B = Imat[1][0] + Imat[1][1] @ f_next @ R
+            R = bk.linalg.solve(A.T, B.T).T @ f
+            self._intermediate_S[f"R{i}"] = R
+        return R
+
     def _solve_ext(self):
         if not hasattr(self, "S"):
             self.get_S_matrix()
-- 
2.43.0


From e8f5341d204f5fc96ad589724f0ba10fa5852766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 32/40] fix: kind of tangential field requested from a layer

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 4476836..af0fe83 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -272,7 +272,7 @@ class Layer:
             epsilon_zz,
             harmonics,
             normalize=normalize,
-            type=self.tangent_field_type,
+            type=type,
         )
 
     def get_jones_field(self, t):
-- 
2.43.0


From 619359704d1421efdc983c81b5a569882a74a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 33/40] fix: evanescent waves in uniform layers whose losses
 are a negative zero

---
 nannos/layers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index af0fe83..27a50d4 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -163,7 +163,8 @@ class Layer:
 
         q = (
             bk.array(
-                _epsilon * _mu * omega**2 - kx**2 - ky**2,
+                # a negative zero would select growing instead of evanescent modes
+                _epsilon * _mu * omega**2 - kx**2 - ky**2 + 0j,
                 dtype=COMPLEX,
             )
             ** 0.5
-- 
2.43.0


From c70c0b9e3265653771fd187603f987fa49b3b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 34/40] fix: copies of a layer with a tangential field of their
 own

---
 nannos/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 2ec8209..c33b6c3 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -592,6 +592,8 @@ class Simulation:
             and not layer.is_uniform
             and layer.original in self.layers
             and layer.epsilon is layer.original.epsilon
+            and layer.tangent_field is layer.original.tangent_field
+            and layer.tangent_field_type == layer.original.tangent_field_type
         ):
             layer.matrix = layer.original.matrix
             layer.Kmu = layer.original.Kmu
-- 
2.43.0


From f797e8efc8a89510efa9b8b1af74d64e8a314195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 35/40] fix: vector formulations of tensor layers on non-square
 maps and 1D gratings

---
 nannos/simulation.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index c33b6c3..f425133 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -668,7 +668,12 @@ class Simulation:
             elif self.formulation == "tangent":
                 if self.lattice.is_1D:
                     N, nuhat_inv = self._get_nu_hat_inv(layer)
-                    eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, nuhat_inv]]
+                    # the x component is the second one
+                    if layer.is_epsilon_anisotropic:
+                        for i in range(2):
+                            eps_para_hat[i][1] = nuhat_inv[i][1]
+                    else:
+                        eps_para_hat[1][1] = nuhat_inv
                     Peps = block(eps_para_hat)
                 else:
                     t = layer.get_tangent_field(harmonics_tan, normalize=True)
@@ -799,11 +804,14 @@ class Simulation:
         epsilon = layer.epsilon
         if layer.is_epsilon_anisotropic:
             N = epsilon.shape[2]
-            eb = block(epsilon[:2, :2])
-            nu = inv2by2block(eb, N)
-            # nu = _inv(epsilon[2,2])
-            nu1 = bk.array(block2list(nu, N))
-            nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
+            det = epsilon[0, 0] * epsilon[1, 1] - epsilon[0, 1] * epsilon[1, 0]
+            nu = {
+                (0, 0): epsilon[1, 1] / det,
+                (0, 1): -epsilon[0, 1] / det,
+                (1, 0): -epsilon[1, 0] / det,
+                (1, 1): epsilon[0, 0] / det,
+            }
+            nuhat = self._get_toeplitz_matrix(nu, transverse=True)
             nuhat_inv = block2list(_inv(block(nuhat)), self.nh)
 
         else:
-- 
2.43.0


From 784b8eee7f7a190ee7df5dab1bdfe3d4abe66ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 36/40] fix: log level lost when the backend is changed

---
 nannos/log.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nannos/log.py b/nannos/log.py
index 314f933..a220e8e 100644
--- a/nannos/log.py
+++ b/nannos/log.py
@@ -33,8 +33,9 @@ def set_log_level(level):
 
     """
 
-    global logger
+    global logger, _level
     LOG_LEVEL = LEVELS[level]
+    _level = level
     LOGFORMAT = (
         "  %(log_color)s%(levelname)-8s%(reset)s | %(log_color)s%(message)s%(reset)s"
     )
@@ -51,4 +52,5 @@ def set_log_level(level):
     logger.addHandler(stream)
 
 
-set_log_level("WARNING")
+# the level is kept when the package is reloaded (eg. by set_backend)
+set_log_level(globals().get("_level", "WARNING"))
-- 
2.43.0


From 567292c6dee4afc8650180c4fcdb7c9d84beb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 37/40] fix: stress inside patterned layers with vector
 formulations or tensors

---
 nannos/simulation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index f425133..b5a43d2 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -530,10 +530,7 @@ class Simulation:
         else:
             exy = bk.hstack((-ey, ex))
 
-            # FIXME: anisotropy here?
-            # dxy = layer.eps_hat @ exy
-            _eps_hat = block([[layer.eps_hat, self.ZeroG], [self.ZeroG, layer.eps_hat]])
-            dxy = _eps_hat @ exy
+            dxy = layer.Peps @ exy
             dx = dxy[self.nh :]
             dy = -dxy[: self.nh]
 
-- 
2.43.0


From c36a6b74e8ab5356dde7a07628af7f3a216612b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 38/40] fix: default shape of field maps in layers whose
 permittivity is a number

---
 nannos/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index b5a43d2..1711788 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -370,7 +370,12 @@ class Simulation:
         layer, layer_index = self.get_layer(layer_index)
         _t0 = timer.tic()
         logger.info("Retrieving fields in real-space for layer {layer}")
-        shape = shape or layer.epsilon.shape[-2:] or self.lattice.discretization
+        if not shape:
+            shape = (
+                self.lattice.discretization
+                if layer.is_epsilon_uniform
+                else layer.epsilon.shape[-2:]
+            )
 
         fields_fourier = self.get_field_fourier(layer_index, z)
 
-- 
2.43.0


From 7896a173a419ae5ba517e4217aad45b8b3517323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:50 +0000
Subject: [PATCH 39/40] fix: numpy integers refused as orders, layers and
 numbers of periods

---
 nannos/layers.py     | 3 ++-
 nannos/plot.py       | 4 +++-
 nannos/simulation.py | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 27a50d4..8c80734 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -10,6 +10,7 @@ __all__ = ["Layer"]
 
 
 from copy import copy
+from numbers import Integral
 
 from . import BACKEND, DEVICE
 from . import backend as bk
@@ -305,7 +306,7 @@ def _get_layer(id, layers, layer_names):
         for i, l in enumerate(layers):
             if l.name == id:
                 return l, i
-    elif isinstance(id, int):
+    elif isinstance(id, Integral):
         return layers[id], range(len(layers))[id]
     elif hasattr(id, "name"):
         return _get_layer(id.name, layers, layer_names)
diff --git a/nannos/plot.py b/nannos/plot.py
index 6a02bdb..89389df 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -6,6 +6,8 @@
 # See the documentation at nannos.gitlab.io
 
 
+from numbers import Integral
+
 import matplotlib.pyplot as plt
 import matplotlib.transforms as mtransforms
 
@@ -44,7 +46,7 @@ def plot_layer(
     **kwargs,
 ):
     ax = ax or plt.gca()
-    if isinstance(nper, int):
+    if isinstance(nper, Integral):
         nperx, npery = nper, nper
     elif hasattr(nper, "__len__") and len(nper) == 2:
         nperx, npery = nper
diff --git a/nannos/simulation.py b/nannos/simulation.py
index 1711788..1538dc1 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -7,6 +7,8 @@
 
 __all__ = ["Simulation"]
 
+from numbers import Integral
+
 from . import backend as bk
 from . import get_types, jit, logger
 from .formulations import fft
@@ -558,7 +560,7 @@ class Simulation:
         try:
             len(order) == 2
         except Exception as e:
-            if self.lattice.is_1D and isinstance(order, int):
+            if self.lattice.is_1D and isinstance(order, Integral):
                 order = (order, 0)
             else:
                 raise ValueError(
-- 
2.43.0


From aa90eb072572302a45344c031bf37aa3a763778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:04 +0000
Subject: [PATCH 40/40] fix: layer plots cut for lattice vectors with negative
 components

---
 nannos/plot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index 89389df..f498ef7 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -78,8 +78,14 @@ def plot_layer(
     lx, ly = [bk.linalg.norm(bk.array(v, dtype=FLOAT)) for v in lattice.basis_vectors]
     lmax = max(lx, ly)
     delta = 0.1 * lmax
-    ax.set_xlim(-delta, nperx * bv[0][0] + npery * bv[1][0] + delta)
-    ax.set_ylim(-delta, nperx * bv[0][1] + npery * bv[1][1] + delta)
+    # the lattice vectors may have negative components
+    sides = [[nperx * bv[0][i], npery * bv[1][i]] for i in range(2)]
+    lims = [
+        (sum(min(s, 0) for s in side) - delta, sum(max(s, 0) for s in side) + delta)
+        for side in sides
+    ]
+    ax.set_xlim(*lims[0])
+    ax.set_ylim(*lims[1])
     if show_cell:
         plot_unit_cell(ax, bv, cellstyle)
     ax.set_aspect("equal")
-- 
2.43.0

