From 287cd356033f68930f739d8b41d498f8a1653c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 01/24] fix: support batched lattice vectors in wavevectors and
 eigensolves

reciprocal() divided (..., 2) arrays by a (...) cross product and
transverse_wavevectors() multiplied (num_terms,) coefficients with (...)
reciprocal vector components, so batches of lattice vectors either failed or
(when sizes happened to match) silently gave wrong wavevectors. The uniform
eigensolves and the tangent field ignored the lattice batch shape.
---
 src/fmmax/basis.py  |  9 +++++----
 src/fmmax/fmm.py    | 12 ++++++++++--
 src/fmmax/vector.py | 18 ++++++++++--------
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 882a636..8697180 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -118,6 +118,7 @@ def generate_expansion(
 def reciprocal(lattice_vectors: LatticeVectors) -> LatticeVectors:
     """Computes the reciprocal vectors for the `basis`."""
     cross_product = _cross_product(lattice_vectors.u, lattice_vectors.v)
+    cross_product = cross_product[..., jnp.newaxis]
     uprime = (
         jnp.stack([lattice_vectors.v[..., 1], -lattice_vectors.v[..., 0]], axis=-1)
         / cross_product
@@ -254,12 +255,12 @@ def transverse_wavevectors(
     """
     reciprocal_vectors = primitive_lattice_vectors.reciprocal
     kx = in_plane_wavevector[..., 0, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 0]
+        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., jnp.newaxis, 0]
+        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., jnp.newaxis, 0]
     )
     ky = in_plane_wavevector[..., 1, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 1]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 1]
+        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., jnp.newaxis, 1]
+        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., jnp.newaxis, 1]
     )
     return jnp.stack([kx, ky], axis=-1)
 
diff --git a/src/fmmax/fmm.py b/src/fmmax/fmm.py
index e0e248c..2bc6245 100644
--- a/src/fmmax/fmm.py
+++ b/src/fmmax/fmm.py
@@ -412,7 +412,11 @@ def _eigensolve_uniform_isotropic_media(
         )
 
     batch_shape = jnp.broadcast_shapes(
-        wavelength.shape, in_plane_wavevector.shape[:-1], permittivity.shape[:-2]
+        wavelength.shape,
+        in_plane_wavevector.shape[:-1],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+        permittivity.shape[:-2],
     )
 
     num_eigenvalues = 2 * expansion.num_terms
@@ -607,7 +611,11 @@ def _eigensolve_uniform_general_anisotropic_media(
     )
 
     batch_shape = jnp.broadcast_shapes(
-        wavelength.shape, in_plane_wavevector.shape[:-1], permittivity_xx.shape[:-2]
+        wavelength.shape,
+        in_plane_wavevector.shape[:-1],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+        permittivity_xx.shape[:-2],
     )
     shape = batch_shape + (expansion.num_terms,)
 
diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 4ca7784..7518f49 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -147,19 +147,21 @@ def compute_tangent_field(
         The normal field, `(tx, ty)`.
     """
     arr = jax.lax.stop_gradient(arr)
-    batch_shape = arr.shape[:-2]
-    arr = utils.atleast_nd(arr, n=3)
+    batch_shape = jnp.broadcast_shapes(
+        arr.shape[:-2],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+    )
+    arr = jnp.broadcast_to(arr, batch_shape + arr.shape[-2:])
     arr = arr.reshape((-1,) + arr.shape[-2:])
 
     primitive_lattice_vectors = basis.LatticeVectors(
         u=jnp.broadcast_to(
-            primitive_lattice_vectors.u.reshape((-1, 2)),
-            (arr.shape[0], 2),
-        ),
+            primitive_lattice_vectors.u, batch_shape + (2,)
+        ).reshape((-1, 2)),
         v=jnp.broadcast_to(
-            primitive_lattice_vectors.v.reshape((-1, 2)),
-            (arr.shape[0], 2),
-        ),
+            primitive_lattice_vectors.v, batch_shape + (2,)
+        ).reshape((-1, 2)),
     )
 
     field_fn = jax.vmap(
-- 
2.43.0


From 8d6261da0959cdd5a90f7317d0026686892128ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 02/24] fix: reject every non-positive Brillouin grid shape

The lexicographic tuple comparison accepted e.g. (2, 0), which divided by
zero, and (2, -1), which silently returned an empty grid.
---
 src/fmmax/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 8697180..aa373c2 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -211,7 +211,7 @@ def brillouin_zone_in_plane_wavevector(
     Returns:
         The in-plane wavevectors, with shape `brillouin_grid_shape + (2,)`.
     """
-    if len(brillouin_grid_shape) != 2 or brillouin_grid_shape < (1, 1):
+    if len(brillouin_grid_shape) != 2 or any(d < 1 for d in brillouin_grid_shape):
         raise ValueError(
             f"`brillouin_grid_shape` must be length-2 with positive values, "
             f"but got {brillouin_grid_shape}."
-- 
2.43.0


From 3ac9f8421730fafa972f53602e57ffe41f146b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 03/24] fix: use a symmetric and sufficiently large window for
 circular truncation

The candidate window was asymmetric for odd sizes and did not scale with the
lattice aspect ratio, so that expansions for elongated or skewed lattices were
asymmetric and missed orders lying inside the circle.
---
 src/fmmax/basis.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index aa373c2..377cb21 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -292,8 +292,18 @@ def _basis_coefficients_circular(
         coefficient for the first and second vector in the basis.
     """
     # Generate candidate coefficients. These will include more coefficients than needed;
-    # subsequently we will filter based on magnitude.
-    g = onp.arange(-approximate_num_terms // 2, approximate_num_terms // 2 + 1)
+    # subsequently we will filter based on magnitude. For any vector in the circle, the
+    # coefficients are bounded by `radius * max(|u|, |v|) / |u x v|`.
+    cross_product = onp.abs(
+        _cross_product(primitive_lattice_vectors.u, primitive_lattice_vectors.v)
+    )
+    max_length = onp.maximum(
+        onp.linalg.norm(primitive_lattice_vectors.u),
+        onp.linalg.norm(primitive_lattice_vectors.v),
+    )
+    radius = onp.sqrt(approximate_num_terms * cross_product / onp.pi)
+    g_max = int(onp.ceil(radius * max_length / cross_product))
+    g = onp.arange(-g_max, g_max + 1)
     G1, G2 = onp.meshgrid(g, g, indexing="ij")
     G1 = G1.flatten()
     G2 = G2.flatten()
-- 
2.43.0


From c2dea59bd1d2f18dc86ddd5a7bf43554b2395825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 04/24] fix: make the tangent field of diagonal 1D patterns
 tangential

(sin a, cos a) is orthogonal to the gradient direction (cos a, sin a) only for
gratings along x or y; for a diagonal grating it was parallel to the gradient.
---
 src/fmmax/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 7518f49..b97b2a7 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -245,7 +245,7 @@ def _compute_tangent_field_no_batch(
     field = fft.ifft(fourier_field, expansion=expansion, shape=grid_shape, axis=-2)
 
     # Manually set the tangent field in the 1d case.
-    field_1d = jnp.stack([jnp.sin(grad_angle), jnp.cos(grad_angle)])
+    field_1d = jnp.stack([jnp.sin(grad_angle), -jnp.cos(grad_angle)])
     field = jnp.where(is_1d, field_1d, field)
     return normalize(field)
 
-- 
2.43.0


From bcf31e6cb21e6baccefd1a85a99f2137f345db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:37 +0000
Subject: [PATCH 05/24] fix: ignore the complex phase when detecting the
 direction of 1D patterns

For absorbing 1D patterns the phase of the permittivity contrast was added to
the direction angle, so the tangent field was rotated away from the interfaces,
and patterns whose phase varies along the grating gave nan.
---
 src/fmmax/vector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index b97b2a7..36c303a 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -336,6 +336,12 @@ def _filter_and_adjust_resolution(
 
 def _is_1d_field(field: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
     """Determine whether the field varies in one direction only."""
+    # Remove the local complex phase, which is unrelated to the direction of the field.
+    # This is relevant for e.g. the gradient of a complex permittivity.
+    unit_field = normalize_elementwise(field)
+    phase = _angle(jnp.sum(unit_field**2, axis=-1, keepdims=True)) / 2
+    field = field * jnp.exp(-1j * phase)
+
     ref_field = _field_at_max_magnitude(field)
     assert ref_field.shape == (2,)
     ref_angle = _angle(ref_field[0] + 1j * ref_field[1])
-- 
2.43.0


From 5093a1b0aceb168c9c61984ac54271c56eaeb203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 06/24] fix: allow stacks that mix batched and unbatched layers

When a batched layer was followed by an unbatched layer, the right hand side of
the interface solves had one dimension less than the matrix and was interpreted
as a batch of vectors. This failed or, when the batch size equals the number of
modes, silently gave wrong scattering matrices.
---
 src/fmmax/scattering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fmmax/scattering.py b/src/fmmax/scattering.py
index 74be383..e76957b 100644
--- a/src/fmmax/scattering.py
+++ b/src/fmmax/scattering.py
@@ -594,6 +594,8 @@ jax.tree_util.register_pytree_node(
 
 def solve(a: jnp.ndarray, b: jnp.ndarray, *, force_x64_solve: bool) -> jnp.ndarray:
     """Solves `A @ x = b`, optionally using 64-bit precision."""
+    # If `b` has fewer dimensions than `a`, it may be interpreted as a batch of vectors.
+    b = utils.atleast_nd(b, n=a.ndim)
     output_dtype = jnp.promote_types(a.dtype, b.dtype)
     if force_x64_solve and jax.config.read("jax_enable_x64"):
         a = a.astype(jnp.promote_types(a.dtype, jnp.float64))
-- 
2.43.0


From 6e1ae3330763387723bc4086be738aa177e756bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 07/24] fix: allow the scan over layers that share a wavelength
 or wavevector

Batched eigensolve results store quantities common to all layers with a leading
axis of size one, which made the scan fail.
---
 src/fmmax/scattering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fmmax/scattering.py b/src/fmmax/scattering.py
index e76957b..1cdeecf 100644
--- a/src/fmmax/scattering.py
+++ b/src/fmmax/scattering.py
@@ -241,6 +241,12 @@ def stack_s_matrix_scan(
             f"{layer_solve_results.batch_shape[0]} and {layer_thicknesses.shape[0]}."
         )
 
+    # Quantities that are common to all layers may have a leading axis with size 1.
+    layer_solve_results = tree_util.tree_map(
+        lambda x: jnp.broadcast_to(x, (len(layer_thicknesses),) + x.shape[1:]),
+        layer_solve_results,
+    )
+
     eye = utils.diag(
         jnp.ones(
             layer_solve_results.eigenvalues.shape[1:],
-- 
2.43.0


From ac146217731d0468ecc4c4566113574338096dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 08/24] fix: allow sources in stacks where only some layers are
 batched

The blocks of the emission matrix had differing batch dimensions, and an
unbatched source was interpreted as a batch of vectors.
---
 src/fmmax/sources.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/sources.py b/src/fmmax/sources.py
index 117c5c9..848b9fa 100644
--- a/src/fmmax/sources.py
+++ b/src/fmmax/sources.py
@@ -288,6 +288,7 @@ def amplitudes_for_source(
 
     # The matrix solve directly yields the forward-going wave amplitudes after the
     # source, and the backward-going wave amplitudes before the source.
+    pol = utils.atleast_nd(pol, n=matrix.ndim)
     ab = jnp.linalg.solve(matrix, pol)
     fwd_amplitude_after_start, bwd_amplitude_before_end = jnp.split(ab, 2, axis=-2)
 
@@ -397,7 +398,9 @@ def emission_matrix(
     fd_s12_before = utils.diag(fd) @ s_matrix_before_source.s12
     fd_s21_after = utils.diag(next_fd) @ s_matrix_after_source.s21
 
-    shape = jnp.broadcast_shapes(q.shape, next_q.shape)
+    shape = jnp.broadcast_shapes(
+        q.shape, next_q.shape, fd_s12_before.shape[:-1], fd_s21_after.shape[:-1]
+    )
     eye = utils.diag(jnp.ones(shape, dtype=q.dtype))
 
     # Equation 7.9 from [1999 Whittaker].
-- 
2.43.0


From e3d200a426509882b361c3e949838d1a1ec508f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:34 +0000
Subject: [PATCH 09/24] fix: interpolate permittivity of real-valued metals
 without NaN

---
 src/fmmax/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fmmax/utils.py b/src/fmmax/utils.py
index 9fd973b..bfb2256 100644
--- a/src/fmmax/utils.py
+++ b/src/fmmax/utils.py
@@ -94,6 +94,9 @@ def interpolate_permittivity(
     Returns:
         The interpolated permittivity.
     """
+    # Use complex permittivity, so that the square root of negative values is defined.
+    permittivity_solid = permittivity_solid + 0j
+    permittivity_void = permittivity_void + 0j
     n_solid = jnp.real(jnp.sqrt(permittivity_solid))
     k_solid = jnp.imag(jnp.sqrt(permittivity_solid))
     n_void = jnp.real(jnp.sqrt(permittivity_void))
-- 
2.43.0


From 3b46074e243b46ef6d6e17dfe725e7c6aedc0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 10/24] fix: let jax transformations such as vmap rebuild layer
 solve results

---
 src/fmmax/fmm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fmmax/fmm.py b/src/fmmax/fmm.py
index 2bc6245..e96fb03 100644
--- a/src/fmmax/fmm.py
+++ b/src/fmmax/fmm.py
@@ -284,6 +284,10 @@ class LayerSolveResult:
 
     def __post_init__(self) -> None:
         """Validates shapes of the `LayerSolveResult` attributes."""
+        # Some jax transformations (e.g. `vmap`) rebuild the container using leaves that
+        # are placeholders rather than arrays. In this case, there is nothing to validate.
+        if not hasattr(self.eigenvectors, "ndim"):
+            return
 
         def _incompatible(arr: jnp.ndarray, reference_shape: Tuple[int, ...]) -> bool:
             ndim_mismatch = arr.ndim != len(reference_shape)
-- 
2.43.0


From 08b8221a3f3413b4a74734a7e452b9ad4020fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:08 +0000
Subject: [PATCH 11/24] fix: normalise the Fourier convolution matrix
 independently of the array type

---
 src/fmmax/fft.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fmmax/fft.py b/src/fmmax/fft.py
index eebac1b..9d0755a 100644
--- a/src/fmmax/fft.py
+++ b/src/fmmax/fft.py
@@ -31,8 +31,7 @@ def fourier_convolution_matrix(
     """
     _validate_shape_for_expansion(x.shape, expansion)
 
-    x_fft = jnp.fft.fft2(x)
-    x_fft /= jnp.prod(jnp.asarray(x.shape[-2:])).astype(x.dtype)
+    x_fft = jnp.fft.fft2(x, norm="forward")
     idx = _standard_toeplitz_indices(expansion)
     return x_fft[..., idx[..., 0], idx[..., 1]]
 
-- 
2.43.0


From ca81584720629a4e58abc155b92f617299fb1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 12/24] fix: rotation matrices for integer-valued angles

---
 src/fmmax/beams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fmmax/beams.py b/src/fmmax/beams.py
index 237f551..c65630c 100644
--- a/src/fmmax/beams.py
+++ b/src/fmmax/beams.py
@@ -129,6 +129,8 @@ def rotation_matrix(
             jnp.asarray(polarization_angle).dtype,
         ),
     )
+    # Angles may be integers, but the elements of the rotation matrix are not.
+    dtype = jnp.result_type(dtype, float)
     # Matrix that rotates around the y-axis by `polar_angle`.
     rotation_y_matrix = jnp.asarray(
         [
-- 
2.43.0


From f4fba6dc524212abce121106b7ea55d02c7d438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 13/24] fix: do not modify the wavevectors given to the solid
 angle calculation

---
 src/fmmax/farfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/farfield.py b/src/fmmax/farfield.py
index f75aae7..160dba3 100644
--- a/src/fmmax/farfield.py
+++ b/src/fmmax/farfield.py
@@ -135,8 +135,8 @@ def solid_angle_from_unflattened_transverse_wavevectors(
     ky = transverse_wavevectors[..., 1]
 
     # Normalize the wavevectors so they lie on the unit sphere.
-    kx /= 2 * jnp.pi / wavelength[..., jnp.newaxis, jnp.newaxis]
-    ky /= 2 * jnp.pi / wavelength[..., jnp.newaxis, jnp.newaxis]
+    kx = kx / (2 * jnp.pi / wavelength[..., jnp.newaxis, jnp.newaxis])
+    ky = ky / (2 * jnp.pi / wavelength[..., jnp.newaxis, jnp.newaxis])
     polar_angle = jnp.arcsin(jnp.sqrt(kx**2 + ky**2))
 
     # Each of our transverse wavevectors lies within a "cell" in the kxky plane.
-- 
2.43.0


From bbb229807f15a1271d202fa38abd589c7d60702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 14/24] fix: respect the order of the Brillouin grid axes in
 farfield calculations

---
 src/fmmax/farfield.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fmmax/farfield.py b/src/fmmax/farfield.py
index 160dba3..a3aee26 100644
--- a/src/fmmax/farfield.py
+++ b/src/fmmax/farfield.py
@@ -430,7 +430,7 @@ def unflatten_flux(
     batch_axes = tuple(
         [i for i in range(flux.ndim) if i not in brillouin_grid_axes + (flux.ndim - 2,)]
     )
-    axes = batch_axes + tuple([i for i in range(flux.ndim) if i not in batch_axes])
+    axes = batch_axes + brillouin_grid_axes + (flux.ndim - 2,)
     flux = jnp.transpose(flux, axes)
 
     flux = unflatten(flux, expansion)
@@ -466,9 +466,7 @@ def unflatten_transverse_wavevectors(
     batch_axes = tuple(
         [i for i in range(transverse_wavevectors.ndim) if i not in non_batch_axes]
     )
-    axes = batch_axes + tuple(
-        [i for i in range(transverse_wavevectors.ndim) if i not in batch_axes]
-    )
+    axes = batch_axes + non_batch_axes
     transverse_wavevectors = jnp.transpose(transverse_wavevectors, axes)
 
     transverse_wavevectors = unflatten(transverse_wavevectors, expansion)
-- 
2.43.0


From b9cbb311772ab01cb57b76174a475925402840b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 15/24] fix: keep the imaginary part when unflattening complex
 arrays

---
 src/fmmax/farfield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/farfield.py b/src/fmmax/farfield.py
index a3aee26..34a601f 100644
--- a/src/fmmax/farfield.py
+++ b/src/fmmax/farfield.py
@@ -398,7 +398,8 @@ def unflatten(flat: jnp.ndarray, expansion: basis.Expansion) -> jnp.ndarray:
     stacked_j = merged_j.flatten()
     stacked_flat = jnp.reshape(flat, batch_shape + (-1,))
 
-    return jnp.full(shape, jnp.nan).at[..., stacked_i, stacked_j].set(stacked_flat)
+    unflattened = jnp.full(shape, jnp.nan, dtype=jnp.result_type(flat, float))
+    return unflattened.at[..., stacked_i, stacked_j].set(stacked_flat)
 
 
 def unflatten_flux(
-- 
2.43.0


From 724713f66d7798002fcf738c8936c499a2f363c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:49 +0000
Subject: [PATCH 16/24] fix: Fourier transform along axes that are not adjacent
 or not ordered

---
 src/fmmax/fft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/fft.py b/src/fmmax/fft.py
index 9d0755a..0a0afe6 100644
--- a/src/fmmax/fft.py
+++ b/src/fmmax/fft.py
@@ -75,8 +75,10 @@ def fft(
 
     x_fft = jnp.fft.fft2(x, axes=axes, norm="forward")
 
-    leading_dims = len(x.shape[: axes[0]])
-    trailing_dims = len(x.shape[axes[1] + 1 :])
+    # Ensure that the transformed axes are adjacent and ordered.
+    leading_dims = min(axes)
+    trailing_dims = x.ndim - leading_dims - 2
+    x_fft = jnp.moveaxis(x_fft, axes, (leading_dims, leading_dims + 1))
     slices = (
         [slice(None)] * leading_dims
         + [expansion.basis_coefficients[:, 0], expansion.basis_coefficients[:, 1]]
-- 
2.43.0


From 2b46363401b8c8ddd90f47af6f6146b22acbb51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:50 +0000
Subject: [PATCH 17/24] fix: accept numpy arrays in the script-k and k matrices

---
 src/fmmax/fmm_matrices.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/fmm_matrices.py b/src/fmmax/fmm_matrices.py
index a022c50..3937d9e 100644
--- a/src/fmmax/fmm_matrices.py
+++ b/src/fmmax/fmm_matrices.py
@@ -58,7 +58,9 @@ def script_k_matrix_patterned(
     transverse_wavevectors: jnp.ndarray,
 ) -> jnp.ndarray:
     """Returns the patterned-layer script-k matrix from eq. 19 of [2012 Liu]."""
-    dtype = jnp.promote_types(z_permittivity_matrix, transverse_wavevectors)
+    dtype = jnp.promote_types(
+        z_permittivity_matrix.dtype, transverse_wavevectors.dtype
+    )
     kx = transverse_wavevectors[..., 0].astype(dtype)
     ky = transverse_wavevectors[..., 1].astype(dtype)
     z_inv_kx = jnp.linalg.solve(z_permittivity_matrix.astype(dtype), utils.diag(kx))
@@ -76,7 +78,9 @@ def k_matrix_patterned(
     transverse_wavevectors: jnp.ndarray,
 ) -> jnp.ndarray:
     """Returns the k-matrix for patterned magnetic materials."""
-    dtype = jnp.promote_types(z_permeability_matrix, transverse_wavevectors)
+    dtype = jnp.promote_types(
+        z_permeability_matrix.dtype, transverse_wavevectors.dtype
+    )
     kx = transverse_wavevectors[..., 0].astype(dtype)
     ky = transverse_wavevectors[..., 1].astype(dtype)
     z_inv_kx = jnp.linalg.solve(z_permeability_matrix.astype(dtype), utils.diag(kx))
-- 
2.43.0


From 49618e48c7f209747e0e00450c903ca33e22d486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:04 +0000
Subject: [PATCH 18/24] fix: tangent field optimization where terms of the loss
 are exactly zero

---
 src/fmmax/vector.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 36c303a..1e88ae2 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -464,7 +464,7 @@ def _alignment_loss(
     """Compute loss that penalizes differences between `field` and `target_field`."""
     assert elementwise_alignment_loss_weight.ndim == field.ndim
     elementwise_loss = jnp.sum(
-        jnp.abs(field - target_field) ** 2, axis=-1, keepdims=True
+        _abs_squared(field - target_field), axis=-1, keepdims=True
     )
     return jnp.mean(elementwise_alignment_loss_weight * elementwise_loss)
 
@@ -501,7 +501,7 @@ def _fourier_loss(
     area = jnp.abs(jnp.linalg.det(basis_vectors))
 
     kt = jnp.linalg.norm(transverse_wavevectors, axis=-1) * jnp.sqrt(area)
-    return jnp.sum(jnp.abs(fourier_field) ** 2 * kt[..., jnp.newaxis] ** 2)
+    return jnp.sum(_abs_squared(fourier_field) * kt[..., jnp.newaxis] ** 2)
 
 
 def _smoothness_loss(
@@ -509,7 +509,12 @@ def _smoothness_loss(
 ) -> jnp.ndarray:
     """Compute loss associated with smoothness of `field`."""
     grads = _vector_field_forward_difference_gradient(field, basis_vectors)
-    return jnp.mean(jnp.abs(jnp.asarray(grads)) ** 2)
+    return jnp.mean(_abs_squared(jnp.asarray(grads)))
+
+
+def _abs_squared(x: jnp.ndarray) -> jnp.ndarray:
+    """Computes `abs(x)**2` in a way that has the correct Hessian where `x` is zero."""
+    return jnp.real(x) ** 2 + jnp.imag(x) ** 2
 
 
 # -------------------------------------------------------------------------------------
-- 
2.43.0


From 2362996899193f7b88c25e6f92a5c3c3d9b142c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:20 +0000
Subject: [PATCH 19/24] fix: reject in-plane wavevectors without exactly two
 components

transverse_wavevectors indexed the trailing axis without checking its size; out-of-bounds indices
are clamped, so a wavevector with one component silently yielded wrong results.
---
 src/fmmax/basis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 377cb21..a8ca8ba 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -253,6 +253,11 @@ def transverse_wavevectors(
     Returns:
         The transverse wavevectors.
     """
+    if in_plane_wavevector.shape[-1] != 2:
+        raise ValueError(
+            f"`in_plane_wavevector` must have a final axis of size 2, but got shape "
+            f"{in_plane_wavevector.shape}"
+        )
     reciprocal_vectors = primitive_lattice_vectors.reciprocal
     kx = in_plane_wavevector[..., 0, jnp.newaxis] + 2 * jnp.pi * (
         expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., jnp.newaxis, 0]
-- 
2.43.0


From cec0061003e03d0e06e1fe6b8da1544ae6f797e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 20/24] fix: Poynting flux of amplitudes with integer dtype

The prefactor 0.5 was cast to the dtype of the amplitudes, which is zero for integers.
---
 src/fmmax/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/fields.py b/src/fmmax/fields.py
index a59db09..2f39778 100644
--- a/src/fmmax/fields.py
+++ b/src/fmmax/fields.py
@@ -142,11 +142,11 @@ def amplitude_poynting_flux(
     alpha_e = A @ forward_amplitude
     beta_e = A @ backward_amplitude
 
-    s_forward = jnp.asarray(0.5, dtype=forward_amplitude.dtype) * (
+    s_forward = 0.5 * (
         (jnp.conj(alpha_e) * alpha_h + jnp.conj(alpha_h) * alpha_e)
         + (jnp.conj(beta_h) * alpha_e - jnp.conj(beta_e) * alpha_h)
     )
-    s_backward = jnp.asarray(0.5, dtype=forward_amplitude.dtype) * (
+    s_backward = 0.5 * (
         -(jnp.conj(beta_e) * beta_h + jnp.conj(beta_h) * beta_e)
         + jnp.conj((jnp.conj(beta_h) * alpha_e - jnp.conj(beta_e) * alpha_h))
     )
-- 
2.43.0


From e046c8e275c6955cdddcdbf8c853e9ac34fce13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 21/24] fix: solutions of linear systems with integer dtype
 were truncated to integers

---
 src/fmmax/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/scattering.py b/src/fmmax/scattering.py
index 1cdeecf..7fa966f 100644
--- a/src/fmmax/scattering.py
+++ b/src/fmmax/scattering.py
@@ -602,7 +602,7 @@ def solve(a: jnp.ndarray, b: jnp.ndarray, *, force_x64_solve: bool) -> jnp.ndarr
     """Solves `A @ x = b`, optionally using 64-bit precision."""
     # If `b` has fewer dimensions than `a`, it may be interpreted as a batch of vectors.
     b = utils.atleast_nd(b, n=a.ndim)
-    output_dtype = jnp.promote_types(a.dtype, b.dtype)
+    output_dtype = jnp.result_type(a.dtype, b.dtype, float)
     if force_x64_solve and jax.config.read("jax_enable_x64"):
         a = a.astype(jnp.promote_types(a.dtype, jnp.float64))
         b = b.astype(jnp.promote_types(b.dtype, jnp.float64))
-- 
2.43.0


From dd0c0872818599a820c66819e5d13e6b2490ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 22/24] fix: select forward propagating modes of lossless media
 robustly against rounding

The squared eigenvalues of propagating modes of numerically solved lossless layers are
real up to rounding, so that selecting the sign by the imaginary part labelled a random
half of them as backward-propagating.
---
 src/fmmax/fmm.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/fmm.py b/src/fmmax/fmm.py
index e96fb03..5bdb743 100644
--- a/src/fmmax/fmm.py
+++ b/src/fmmax/fmm.py
@@ -22,6 +22,10 @@ VectorFn = Callable[
     Tuple[jnp.ndarray, jnp.ndarray],
 ]
 
+# Multiple of the machine precision, relative to the largest squared eigenvalue, below
+# which the imaginary part of a squared eigenvalue is attributed to rounding.
+_ROUNDING_FACTOR = 10.0
+
 
 @enum.unique
 class Formulation(enum.Enum):
@@ -1124,7 +1128,11 @@ def _validate_and_broadcast(
 
 
 def _select_eigenvalues_sign(eigenvalues: jnp.ndarray) -> jnp.ndarray:
-    """Selects the sign of eigenvalues to have strictly positive imaginary part.
+    """Selects the sign of eigenvalues to have positive imaginary part.
+
+    The squared eigenvalues of propagating modes of lossless media are real, but may
+    have an imaginary part of either sign due to rounding. For these, the sign is
+    selected so that the real part is positive.
 
     Args:
         eigenvalues: The eigenvalues whose sign is to be adjusted.
@@ -1132,7 +1140,12 @@ def _select_eigenvalues_sign(eigenvalues: jnp.ndarray) -> jnp.ndarray:
     Returns:
         The eigenvalues with adjusted sign.
     """
-    return jnp.where(jnp.imag(eigenvalues) < 0, -eigenvalues, eigenvalues)
+    real, imag = jnp.real(eigenvalues), jnp.imag(eigenvalues)
+    max_squared = jnp.amax(real**2 + imag**2, axis=-1, keepdims=True)
+    tol = _ROUNDING_FACTOR * jnp.finfo(eigenvalues.dtype).eps * max_squared
+    is_propagating = (jnp.abs(2 * real * imag) <= tol) & (jnp.abs(imag) < jnp.abs(real))
+    is_negative = jnp.where(is_propagating, real < 0, imag < 0)
+    return jnp.where(is_negative, -eigenvalues, eigenvalues)
 
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 81011a57d425a06d3702e8ceef154baa7b70602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 23/24] fix: finite lattice gradients of tangent fields with a
 Fourier loss

The norm of the zeroth-order wavevector has no derivative, which made every
gradient with respect to the lattice vectors nan for the *_FOURIER formulations.
---
 src/fmmax/vector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 1e88ae2..7c0fbf1 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -500,8 +500,10 @@ def _fourier_loss(
     )
     area = jnp.abs(jnp.linalg.det(basis_vectors))
 
-    kt = jnp.linalg.norm(transverse_wavevectors, axis=-1) * jnp.sqrt(area)
-    return jnp.sum(_abs_squared(fourier_field) * kt[..., jnp.newaxis] ** 2)
+    # The square is computed directly, since the norm has no derivative at the zeroth
+    # order, which would give `nan` gradients with respect to the lattice vectors.
+    kt_squared = jnp.sum(transverse_wavevectors**2, axis=-1) * area
+    return jnp.sum(_abs_squared(fourier_field) * kt_squared[..., jnp.newaxis])
 
 
 def _smoothness_loss(
-- 
2.43.0


From 4dd3e8b73dccf033a88e3f259bdbb7b142267646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:06 +0000
Subject: [PATCH 24/24] Revert "fix: finite lattice gradients of tangent fields
 with a Fourier loss"

This reverts commit 81011a57d425a06d3702e8ceef154baa7b70602d.
---
 src/fmmax/vector.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 7c0fbf1..1e88ae2 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -500,10 +500,8 @@ def _fourier_loss(
     )
     area = jnp.abs(jnp.linalg.det(basis_vectors))
 
-    # The square is computed directly, since the norm has no derivative at the zeroth
-    # order, which would give `nan` gradients with respect to the lattice vectors.
-    kt_squared = jnp.sum(transverse_wavevectors**2, axis=-1) * area
-    return jnp.sum(_abs_squared(fourier_field) * kt_squared[..., jnp.newaxis])
+    kt = jnp.linalg.norm(transverse_wavevectors, axis=-1) * jnp.sqrt(area)
+    return jnp.sum(_abs_squared(fourier_field) * kt[..., jnp.newaxis] ** 2)
 
 
 def _smoothness_loss(
-- 
2.43.0

