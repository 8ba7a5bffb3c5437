"""A menu of valid calls of every public function, shared by the checks that quantify over calls.

Each entry is (function, args, kwargs): `args` are trees whose array leaves are numpy arrays owned by the caller
(so that they can be inspected, copied, cast or corrupted), `kwargs` are the arguments that must be Python constants.
"""
import functools

import numpy as np

from mc import lib
from mc.lib import F, basis, farfield, fft, fields, fmm, jax, pml, scattering, sources, utils, vector
from fmmax import beams, fmm_matrices

LATN, EXPN, GRID, WL, K = "obl", "c5", (10, 9), 0.83, (0.31, -0.17)


def _np(tree):
    return jax.tree_util.tree_map(lambda x: np.array(x), tree)


def field_fn(x, y, z):
    import jax.numpy as jnp

    g = jnp.exp(1j * 2.1 * z - (x - 0.1) ** 2 - 0.5 * y**2)
    return (g * (1 + 0.1 * x), 0.3j * g, 0.1 * y * g), (0.2 * g, g * (1 - 0.2j * z), 0.05 * g)


@functools.lru_cache(maxsize=None)
def _layers():
    spec = [("vac", "uni", "fft"), ("die", "gen", "fft"), ("magt", "gen", "fft"), ("abs", "uni", "fft")]
    return tuple(lib.strip(lib.cached_layer(m, p, GRID, WL, K, LATN, EXPN, f)[0]) for m, p, f in spec)


@functools.lru_cache(maxsize=None)
def _smat():
    L, t = list(_layers()), [np.array(x) for x in (0.2, 0.3, 0.15, 0.25)]
    return (
        lib.stack(L[:2], t[:2]), lib.stack(L[2:], t[2:]), lib.interior(L, t), lib.interior(L[:2], t[:2]), lib.interior(L[2:], t[2:]),
    )


@functools.lru_cache(maxsize=None)
def _bz():
    """A layer solved on a 3 x 2 grid of wavevectors."""
    lv = lib.lattice(LATN)
    k = basis.brillouin_zone_in_plane_wavevector((3, 2), lv)
    return lib.strip(lib.solve(lib.medium("abs", "gen", GRID), WL, k, lv, EXPN))


def lv():
    return basis.LatticeVectors(u=np.array(lib.LAT[LATN][0]), v=np.array(lib.LAT[LATN][1]))


def amp(*shape, ph=0.3):
    n = int(np.prod(shape))
    i = np.arange(n)
    return (np.cos(1.7 * i + ph) + 1j * np.sin(0.9 * i * i + ph)).reshape(shape)


NAMES = [
    "reciprocal", "unit_cell_coordinates", "plane_wave", "brillouin", "transverse_wavevectors", "generate_circular", "generate_parallelogramic",
    "beam", "rotation_matrix", "farfield_profile", "angles", "solid_angle", "integrated_flux", "unflatten", "unflatten_flux", "unflatten_wavevectors",
    "conv", "fft", "fft_axes", "ifft", "ifft_axis", "min_shape", "propagate", "colocate", "amp_flux", "dir_flux", "mode_flux", "wave_fields", "conversion",
    "grid_fields", "coord_fields", "interior_amps", "interior_amps_source", "amps_interior", "auto_grid", "stack_fields", "stack_fields_coords", "layer_fields",
    "layer_fields_coords", "eig_uniform", "eig_fft", "eig_jones_direct", "eig_pol_fourier", "eig_aniso_uniform", "eig_aniso", "eig_gen", "eig_gen_uniform", "fourier_iso", "fourier_iso_vec",
    "fourier_aniso", "fourier_aniso_vec", "oskp", "sk_uniform", "sk_patterned", "k_patterned", "tp_fft", "tp_vec", "tp_fft_an", "tpm_fft_an",
    "tp_vec_an", "tpm_vec_an", "pml", "stack", "interior", "scan", "star", "append", "prepend", "set_end", "set_start", "solve",
    "amps_for_fields", "amps_for_fields_bz", "dirac", "gaussian", "amps_for_source", "polarization", "emission", "diag", "omega", "adjoint",
    "atleast_nd", "interpolate", "jones_direct", "pol", "jones", "normal", "tangent", "normalize_jones", "normalize_elementwise", "normalize", "gradient",
]
# Results that need a gauge-invariant comparison (eigenvectors are defined up to scale, phase and order).
EIGEN = {n for n in NAMES if n.startswith("eig_")}
# Functions that take their shape-determining arguments as concrete values and cannot be compiled as a whole.
NOJIT = {"generate_circular", "generate_parallelogramic", "min_shape"}


def entry(name):
    """(function, args, kwargs) with freshly allocated numpy arrays."""
    ex, g, wl, k = lib.expansion(EXPN), GRID, np.array(WL), np.array(K)
    N = ex.num_terms
    coord = lambda: (np.array([0.1, 0.4, -0.3]), np.array([0.2, -0.5, 0.7]))
    E = lambda *b: tuple(amp(*b, N, 2, ph=p) for p in (0.1, 0.2, 0.3))
    H = lambda *b: tuple(amp(*b, N, 2, ph=p) for p in (0.4, 0.5, 0.6))
    L = lambda *i: _np([_layers()[j] for j in i])
    ts = lambda *i: [np.array((0.2, 0.3, 0.15, 0.25)[j]) for j in i]
    S = lambda i: _np(_smat()[i])
    med = lambda m, p: lib.medium(m, p, g)
    A = lambda n=2, ph=0.3: amp(2 * N, n, ph=ph)
    bzflux = lambda: np.abs(amp(2, 3, 2, 2 * N, 2))
    kt = lambda: np.asarray(basis.transverse_wavevectors(k, lv(), ex)).copy()
    bz = lambda: np.asarray(basis.brillouin_zone_in_plane_wavevector((3, 2), lv())).copy()
    T = lambda: tuple(np.array(x) for x in lib.custom_field(np.zeros(g), ex, lv()))
    den = lambda: lib.pattern("gen", g).copy()

    def menu():
        n = name
        if n == "reciprocal": return basis.reciprocal, [lv()], {}
        if n == "unit_cell_coordinates": return basis.unit_cell_coordinates, [lv()], dict(shape=(4, 3), num_unit_cells=(2, 1))
        if n == "plane_wave": return basis.plane_wave_in_plane_wavevector, [wl, np.array([0.2, 0.7]), np.array([0.1, 1.9]), np.array(2.2)], {}
        if n == "brillouin": return (lambda v, s: basis.brillouin_zone_in_plane_wavevector(s, v)), [lv()], dict(s=(3, 2))
        if n == "transverse_wavevectors": return basis.transverse_wavevectors, [k, lv(), ex], {}
        if n == "generate_circular": return basis.generate_expansion, [lv(), 20, basis.Truncation.CIRCULAR], {}
        if n == "generate_parallelogramic": return basis.generate_expansion, [lv(), 20, basis.Truncation.PARALLELOGRAMIC], {}
        if n == "beam": return functools.partial(beams.shifted_rotated_fields, field_fn), [np.linspace(-1, 1, 4), np.linspace(0, 1, 4), np.linspace(0.2, 0.9, 4), np.array(0.1), np.array(-0.2), np.array(0.3), np.array(0.4), np.array(1.1), np.array(0.7)], {}
        if n == "rotation_matrix": return beams.rotation_matrix, [np.array(0.4), np.array(1.1), np.array(0.7)], {}
        if n == "farfield_profile": return farfield.farfield_profile, [bzflux(), wl, bz(), lv(), ex], dict(brillouin_grid_axes=(1, 2))
        if n == "angles": return farfield.angles_from_unflattened_transverse_wavevectors, [np.asarray(np.stack(np.meshgrid(np.linspace(-9, 9, 5), np.linspace(-8, 8, 4), indexing="ij"), -1)), wl], {}
        if n == "solid_angle": return farfield.solid_angle_from_unflattened_transverse_wavevectors, [np.asarray(np.stack(np.meshgrid(np.linspace(-9, 9, 5), np.linspace(-8, 8, 4), indexing="ij"), -1)), wl], {}
        if n == "integrated_flux": return farfield.integrated_flux, [bzflux(), wl, bz(), lv(), ex], dict(brillouin_grid_axes=(1, 2), angle_bounds_fn=lambda p, a: p < 0.6, upsample_factor=2)
        if n == "unflatten": return farfield.unflatten, [amp(2, 3, 2, N), ex], {}
        if n == "unflatten_flux": return farfield.unflatten_flux, [bzflux(), ex], dict(brillouin_grid_axes=(1, 2))
        if n == "unflatten_wavevectors": return farfield.unflatten_transverse_wavevectors, [np.asarray(basis.transverse_wavevectors(bz(), lv(), ex)).copy(), ex], dict(brillouin_grid_axes=(0, 1))
        if n == "conv": return fft.fourier_convolution_matrix, [den(), ex], {}
        if n == "fft": return fft.fft, [amp(2, 6, 5), ex], {}
        if n == "fft_axes": return fft.fft, [amp(6, 2, 5), ex], dict(axes=(0, 2))
        if n == "ifft": return fft.ifft, [amp(2, N), ex], dict(shape=(6, 5))
        if n == "ifft_axis": return fft.ifft, [amp(N, 2), ex], dict(shape=(6, 5), axis=0)
        if n == "min_shape": return fft.min_array_shape_for_expansion, [ex], {}
        if n == "propagate": return fields.propagate_amplitude, [A(), np.array(0.3), L(1)[0]], {}
        if n == "colocate": return fields.colocate_amplitudes, [A(), A(ph=1.0), np.array(0.1), L(1)[0], np.array(0.4)], {}
        if n == "amp_flux": return fields.amplitude_poynting_flux, [A(), A(ph=1.0), L(1)[0]], {}
        if n == "dir_flux": return fields.directional_poynting_flux, [A(), A(ph=1.0), L(1)[0]], {}
        if n == "mode_flux": return fields.eigenmode_poynting_flux, [L(2)[0]], {}
        if n == "wave_fields": return fields.fields_from_wave_amplitudes, [A(), A(ph=1.0), L(2)[0]], {}
        if n == "conversion": return fields.field_conversion_matrix, [L(2)[0]], {}
        if n == "grid_fields": return fields.fields_on_grid, [E(), H(), L(1)[0]], dict(shape=(5, 6), num_unit_cells=(2, 1))
        if n == "coord_fields": return fields.fields_on_coordinates, [E(), H(), L(1)[0], *coord()], {}
        if n == "interior_amps": return fields.stack_amplitudes_interior, [S(2), A(), A(ph=1.0)], {}
        if n == "interior_amps_source": return fields.stack_amplitudes_interior_with_source, [S(3), S(4), A(), A(ph=1.0)], {}
        if n == "amps_interior": return fields.amplitudes_interior, [S(0), S(1), A(), A(ph=1.0)], {}
        if n == "auto_grid": return fields.stack_fields_3d_auto_grid, [[(A(), A(ph=1.0)), (A(ph=2.0), A(ph=0.6))], L(0, 1)], dict(layer_thicknesses=ts(0, 1), grid_spacing=0.1, num_unit_cells=(1, 2))
        if n == "stack_fields": return fields.stack_fields_3d, [[(A(), A(ph=1.0)), (A(ph=2.0), A(ph=0.6))], L(0, 1), ts(0, 1)], dict(layer_znum=(2, 3), grid_shape=(5, 6), num_unit_cells=(1, 2))
        if n == "stack_fields_coords": return (lambda a, l, t, x, y, layer_znum: fields.stack_fields_3d_on_coordinates(a, l, t, layer_znum, x, y)), [[(A(), A(ph=1.0)), (A(ph=2.0), A(ph=0.6))], L(0, 1), ts(0, 1), *coord()], dict(layer_znum=(2, 3))
        if n == "layer_fields": return fields.layer_fields_3d, [A(), A(ph=1.0), L(1)[0], np.array(0.3)], dict(layer_znum=3, grid_shape=(5, 6), num_unit_cells=(1, 2))
        if n == "layer_fields_coords": return (lambda a, b, l, t, x, y, layer_znum: fields.layer_fields_3d_on_coordinates(a, b, l, t, layer_znum, x, y)), [A(), A(ph=1.0), L(1)[0], np.array(0.3), *coord()], dict(layer_znum=3)
        if n == "eig_uniform": return fmm.eigensolve_isotropic_media, [wl, k, lv(), med("abs", "uni")["eps"][0], ex, F.FFT], {}
        if n == "eig_fft": return fmm.eigensolve_isotropic_media, [wl, k, lv(), med("abs", "gen")["eps"][0], ex, F.FFT], {}
        if n == "eig_jones_direct": return fmm.eigensolve_isotropic_media, [wl, k, lv(), med("abs", "gen")["eps"][0], ex, F.JONES_DIRECT], {}
        if n == "eig_pol_fourier": return fmm.eigensolve_isotropic_media, [wl, k, lv(), med("abs", "gen")["eps"][0], ex, F.POL_FOURIER], {}
        if n == "eig_aniso_uniform": return fmm.eigensolve_anisotropic_media, [wl, k, lv(), *med("anyt", "uni")["eps"], ex, F.FFT], {}
        if n == "eig_aniso": return fmm.eigensolve_anisotropic_media, [wl, k, lv(), *med("anyt", "gen")["eps"], ex, F.FFT], {}
        if n == "eig_gen": return fmm.eigensolve_general_anisotropic_media, [wl, k, lv(), *med("magt", "gen")["eps"], *med("magt", "gen")["mu"], ex, F.FFT], {}
        if n == "eig_gen_uniform": return fmm.eigensolve_general_anisotropic_media, [wl, k, lv(), *med("magt", "uni")["eps"], *med("magt", "uni")["mu"], ex, F.FFT], {}
        if n == "fourier_iso": return fmm.fourier_matrices_patterned_isotropic_media, [lv(), med("abs", "gen")["eps"][0], ex, F.FFT], {}
        if n == "fourier_iso_vec": return fmm.fourier_matrices_patterned_isotropic_media, [lv(), med("abs", "gen")["eps"][0], ex, F.JONES], {}
        if n in ("fourier_aniso", "fourier_aniso_vec"):
            m = med("magt", "gen")
            return fmm.fourier_matrices_patterned_anisotropic_media, [lv(), m["eps"], m["mu"], ex, F.FFT if n == "fourier_aniso" else F.NORMAL, den()], {}
        if n == "oskp": return fmm_matrices.omega_script_k_matrix_patterned, [wl, amp(N, N) + 2 * np.eye(N), amp(2 * N, 2 * N), kt()], {}
        if n == "sk_uniform": return fmm_matrices.script_k_matrix_uniform, [np.array(2.0 + 0.1j), kt()], {}
        if n == "sk_patterned": return fmm_matrices.script_k_matrix_patterned, [amp(N, N) + 2 * np.eye(N), kt()], {}
        if n == "k_patterned": return fmm_matrices.k_matrix_patterned, [amp(N, N) + 2 * np.eye(N), kt()], {}
        if n == "tp_fft": return fmm_matrices.transverse_permittivity_fft, [1 + den(), ex], {}
        if n == "tp_vec": return fmm_matrices.transverse_permittivity_vector, [1 + den(), *T(), ex], {}
        if n == "tp_fft_an": return fmm_matrices.transverse_permittivity_fft_anisotropic, [*med("magt", "gen")["eps"][:4], ex], {}
        if n == "tpm_fft_an": return fmm_matrices.transverse_permeability_fft_anisotropic, [*med("magt", "gen")["mu"][:4], ex], {}
        if n == "tp_vec_an": return fmm_matrices.transverse_permittivity_vector_anisotropic, [*med("magt", "gen")["eps"][:4], *T(), ex], {}
        if n == "tpm_vec_an": return fmm_matrices.transverse_permeability_vector_anisotropic, [*med("magt", "gen")["mu"][:4], *T(), ex], {}
        if n == "pml": return pml.apply_uniaxial_pml, [1 + den(), pml.PMLParams(num_x=2, num_y=3, a_max=3.0, p=2.0, sigma_max=0.7)], {}
        if n == "stack": return scattering.stack_s_matrix, [L(0, 1, 2), ts(0, 1, 2)], {}
        if n == "interior": return scattering.stack_s_matrices_interior, [L(0, 1, 2), ts(0, 1, 2)], {}
        if n == "scan":
            st = jax.tree_util.tree_map(lambda *x: np.stack(x), *L(0, 1, 2))
            return scattering.stack_s_matrix_scan, [st, np.array([0.2, 0.3, 0.15])], {}
        if n == "star": return scattering.redheffer_star_product, [_np(lib.stack(_layers()[:2], ts(0, 1))), _np(lib.stack(_layers()[1:3], ts(1, 2)))], {}
        if n == "append": return scattering.append_layer, [S(0), L(2)[0], np.array(0.4)], {}
        if n == "prepend": return scattering.prepend_layer, [S(0), L(2)[0], np.array(0.4)], {}
        if n == "set_end": return scattering.set_end_layer_thickness, [S(0), np.array(0.7)], {}
        if n == "set_start": return scattering.set_start_layer_thickness, [S(0), np.array(0.7)], {}
        if n == "solve": return scattering.solve, [amp(4, 4) + 2 * np.eye(4), amp(4, 2)], dict(force_x64_solve=False)
        if n == "amps_for_fields": return sources.amplitudes_for_fields, [*[amp(7, 8, 2, ph=p) for p in (0.1, 0.2, 0.3, 0.4)], L(1)[0]], {}
        if n == "amps_for_fields_bz": return sources.amplitudes_for_fields, [*[amp(18, 14, 2, ph=p) for p in (0.1, 0.2, 0.3, 0.4)], _np(_bz())], dict(brillouin_grid_axes=(0, 1))
        if n == "dirac": return sources.dirac_delta_source, [np.array([[0.1, 0.2], [0.3, -0.4]]), k, lv(), ex], {}
        if n == "gaussian": return sources.gaussian_source, [np.array(0.3), np.array([[0.1, 0.2], [0.3, -0.4]]), k, lv(), ex], {}
        if n == "amps_for_source": return sources.amplitudes_for_source, [amp(N, 2), amp(N, 2, ph=0.7), amp(N, 2, ph=1.7), S(0), S(1)], {}
        if n == "polarization": return sources.polarization_terms, [amp(N, 2), amp(N, 2, ph=0.7), amp(N, 2, ph=1.7), L(1)[0]], {}
        if n == "emission": return sources.emission_matrix, [S(0), S(1)], {}
        if n == "diag": return utils.diag, [amp(2, 3)], {}
        if n == "omega": return utils.angular_frequency_for_wavelength, [np.array([0.5, 0.7])], {}
        if n == "adjoint": return utils.matrix_adjoint, [amp(2, 3, 4)], {}
        if n == "atleast_nd": return utils.atleast_nd, [amp(3)], dict(n=3)
        if n == "interpolate": return utils.interpolate_permittivity, [np.array(-3.0 + 0.4j), np.array(1.5 + 0j), den()], {}
        if n in ("jones_direct", "pol", "jones", "normal"):
            return getattr(vector, "compute_field_" + n), [den(), ex, lv()], dict(fourier_loss_weight=0.05, smoothness_loss_weight=0.02)
        if n == "tangent": return vector.compute_tangent_field, [den(), ex, lv()], dict(use_jones_direct=False, fourier_loss_weight=0.05, smoothness_loss_weight=0.02, steps=2)
        if n == "normalize_jones": return vector.normalize_jones, [amp(4, 3, 2)], {}
        if n == "normalize_elementwise": return vector.normalize_elementwise, [amp(4, 3, 2)], {}
        if n == "normalize": return vector.normalize, [amp(4, 3, 2)], {}
        if n == "gradient": return vector.compute_gradient, [den(), lv()], {}
        raise KeyError(n)

    return menu()


def call(name, args=None):
    fn, a, kw = entry(name)
    return fn(*(a if args is None else args), **kw)


def invariants(name, out):
    """Comparable arrays of a result: gauge-invariant quantities for layer solutions, all leaves otherwise."""
    if name in EIGEN:
        return eig_invariants(out)
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(out)]


def eig_invariants(r):
    q, W = np.asarray(r.eigenvalues), np.asarray(r.eigenvectors)
    op = W @ (q[..., :, None] ** 2 * np.linalg.inv(W))  # the operator whose modes were computed
    up = W @ (q[..., :, None] * np.linalg.inv(W))  # together with the branch
    rest = [r.z_permittivity_matrix, r.inverse_z_permittivity_matrix, r.z_permeability_matrix, r.inverse_z_permeability_matrix, r.transverse_permeability_matrix, r.omega_script_k_matrix, r.wavelength, r.in_plane_wavevector, r.primitive_lattice_vectors.u, r.primitive_lattice_vectors.v]
    rest += list(r.tangent_vector_field or [])
    return [op, up] + [np.asarray(x) for x in rest]
