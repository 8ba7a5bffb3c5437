"""Shared alphabets (lattices, expansions, media) and adapters to the public fmmax API."""
import functools

import numpy as np

from mc import env, ref

fmmax = env.load()
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
from fmmax import basis, farfield, fft, fields, fmm, pml, scattering, sources, utils, vector  # noqa: E402,F401

F = fmm.Formulation

LAT = {
    "sq": ((1.0, 0.0), (0.0, 1.0)),
    "rect": ((1.1, 0.0), (0.0, 0.7)),
    "obl": ((1.05, 0.1), (0.35, 0.9)),
    "hex": ((1.0, 0.0), (0.5, np.sqrt(3) / 2)),
    "left": ((0.2, 0.95), (1.02, -0.1)),  # left handed
    "rot": ((0.6, 0.8), (-0.72, 0.54)),
}

EXP = {
    "one": [[0, 0]],
    "x3": [[0, 0], [1, 0], [-1, 0]],
    "y3": [[0, 0], [0, 1], [0, -1]],
    "c5": [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]],
    "d7": [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, -1], [-1, 1]],
    "b9": [[i, j] for i in (0, 1, -1) for j in (0, 1, -1)],
    "b15": [[i, j] for i in (0, 1, -1, 2, -2) for j in (0, 1, -1)],
    "b49": [[i, j] for i in (0, 1, -1, 2, -2, 3, -3) for j in (0, 1, -1, 2, -2, 3, -3)],
    "asym": [[0, 0], [1, 0], [0, 1], [2, -1]],
    "shuf": [[1, 0], [0, -1], [0, 0], [-1, 0], [0, 1]],
}

KS = {
    "gen": (0.31, -0.17),
    "zero": (0.0, 0.0),
    "kx": (0.4, 0.0),
    "ky": (0.0, -0.35),
    "big": (2.3, 1.9),
    "bz": (np.pi, 0.6),
}


def lattice(name_or_vecs):
    u, v = LAT[name_or_vecs] if isinstance(name_or_vecs, str) else name_or_vecs
    return basis.LatticeVectors(u=jnp.asarray(u, dtype=float), v=jnp.asarray(v, dtype=float))


def expansion(name_or_list):
    c = EXP[name_or_list] if isinstance(name_or_list, str) else name_or_list
    return basis.Expansion(basis_coefficients=np.asarray(c, dtype=int))


# --------------------------------------------------------------------------------------
# Patterns and media. A medium is a dict with the 5+5 tensor components as numpy arrays.
# --------------------------------------------------------------------------------------


def pattern(name, shape):
    """Real pattern in [0, 1]; generic (no mirror symmetry) unless named otherwise."""
    nx, ny = shape
    i = (np.arange(nx) / nx)[:, None] + 0 * np.arange(ny)[None, :]
    j = 0 * np.arange(nx)[:, None] + (np.arange(ny) / ny)[None, :]
    if name == "gen":
        d = ((i + 0.3 * j) % 1 < 0.45).astype(float) * (j < 0.72)
        return 0.85 * d + 0.1 * (0.5 + 0.5 * np.sin(2 * np.pi * (i + 2 * j) + 0.3))
    if name == "gx":
        return ((i > 0.18) & (i < 0.6)).astype(float)
    if name == "gy":
        return ((j > 0.18) & (j < 0.6)).astype(float)
    if name == "disk":
        return (((i - 0.45) ** 2 + (j - 0.5) ** 2) < 0.11).astype(float)
    if name == "smooth":
        return 0.5 + 0.2 * np.sin(2 * np.pi * i + 0.4) + 0.25 * np.cos(2 * np.pi * (j - i))
    if name == "const":
        return np.full(shape, 0.6)
    raise KeyError(name)


COMPS = ("xx", "xy", "yx", "yy", "zz")


def medium(name, pat, shape):
    """Medium `name` with pattern `pat` on grid `shape` ('uni' -> (1, 1) arrays).

    Returns dict(kind, eps=5-tuple, mu=5-tuple) of complex arrays.
    """
    if pat == "uni":
        d = np.full((1, 1), 0.6)
    else:
        d = pattern(pat, shape)
    one = np.ones_like(d, dtype=complex)
    zero = np.zeros_like(one)
    mu = (one, zero, zero, one, one)
    if name == "vac":
        e = one
        return dict(kind="iso", eps=(e, zero, zero, e, e), mu=mu, lossless=True, recip=True)
    if name == "die":
        e = 1.3 + 2.9 * d + 0j
        return dict(kind="iso", eps=(e, zero, zero, e, e), mu=mu, lossless=True, recip=True)
    if name == "abs":
        e = 1.4 + 2.2 * d + 0.6j * d
        return dict(kind="iso", eps=(e, zero, zero, e, e), mu=mu, lossless=False, recip=True)
    if name == "met":
        e = 1.2 - 8.0 * d + 0.7j * d
        return dict(kind="iso", eps=(e, zero, zero, e, e), mu=mu, lossless=False, recip=True)
    if name == "mll":  # lossless metal
        e = 1.2 - 9.0 * d + 0j
        return dict(kind="iso", eps=(e, zero, zero, e, e), mu=mu, lossless=True, recip=True)
    if name == "anis":  # real symmetric tensor: lossless, reciprocal
        return dict(
            kind="aniso",
            eps=(2.0 + 1.5 * d + 0j, 0.4 * d - 0.1 + 0j, 0.4 * d - 0.1 + 0j, 3.0 - 0.8 * d + 0j, 1.7 + 0.9 * d + 0j),
            mu=mu, lossless=True, recip=True,
        )
    if name == "gyro":  # Hermitian, not symmetric: lossless, nonreciprocal
        return dict(
            kind="aniso",
            eps=(2.2 + 1.1 * d + 0j, 0.5j * d + 0.2, -0.5j * d + 0.2, 2.9 - 0.7 * d + 0j, 1.9 + 0.6 * d + 0j),
            mu=mu, lossless=True, recip=False,
        )
    if name == "gyab":  # nonreciprocal absorbing (anti-Hermitian part positive)
        return dict(
            kind="aniso",
            eps=(2.2 + 1.1 * d + 0.3j, 0.5j * d + 0.2, -0.5j * d + 0.2, 2.9 - 0.7 * d + 0.2j * d, 1.9 + 0.6 * d + 0.15j),
            mu=mu, lossless=False, recip=False,
        )
    if name == "anyt":  # all elements different, absorbing
        return dict(
            kind="aniso",
            eps=(2.0 + 1.5 * d + 0.1j, 0.35 * d + 0.05j, -0.25 * d + 0.15 + 0j, 3.1 - 0.8 * d + 0.2j, 1.7 + 0.9 * d + 0.05j),
            mu=mu, lossless=False, recip=False,
        )
    if name == "mag":  # magnetic, symmetric: lossless reciprocal
        return dict(
            kind="gen",
            eps=(2.0 + 1.5 * d + 0j, 0.3 * d + 0j, 0.3 * d + 0j, 2.6 - 0.6 * d + 0j, 1.8 + 0.7 * d + 0j),
            mu=(1.1 + 0.5 * d + 0j, 0.2 * d - 0.05 + 0j, 0.2 * d - 0.05 + 0j, 1.6 - 0.3 * d + 0j, 1.2 + 0.4 * d + 0j),
            lossless=True, recip=True,
        )
    if name == "magt":  # all ten elements different, absorbing
        return dict(
            kind="gen",
            eps=(2.0 + 1.5 * d + 0.1j, 0.35 * d + 0.05j, -0.25 * d + 0.15 + 0j, 3.1 - 0.8 * d + 0.2j, 1.7 + 0.9 * d + 0.05j),
            mu=(1.1 + 0.5 * d + 0.05j, 0.2 * d + 0.02j, -0.1 + 0.12 * d + 0j, 1.6 - 0.3 * d + 0.1j, 1.2 + 0.4 * d + 0.02j),
            lossless=False, recip=False,
        )
    if name == "pml":  # magnetic absorbing, symmetric
        return dict(
            kind="gen",
            eps=(2.0 + 1.5 * d + 0.3j * d, zero, zero, 2.6 - 0.6 * d + 0.2j, 1.8 + 0.7 * d + 0.1j),
            mu=(1.1 + 0.5 * d + 0.2j, zero, zero, 1.6 - 0.3 * d + 0.1j * d, 1.2 + 0.4 * d + 0.1j),
            lossless=False, recip=True,
        )
    raise KeyError(name)


_iso = jax.jit(fmm.eigensolve_isotropic_media)
_ani = jax.jit(fmm.eigensolve_anisotropic_media)
_gen = jax.jit(fmm.eigensolve_general_anisotropic_media)


def custom_field(arr, expansion, primitive_lattice_vectors):
    """A user-supplied tangent field: smooth, complex, of varying direction and magnitude."""
    nx, ny = arr.shape[-2:]
    i = jnp.arange(nx)[:, None] / nx
    j = jnp.arange(ny)[None, :] / ny
    th = 2 * jnp.pi * (i - j) + 0.2
    m = 0.6 + 0.3 * jnp.cos(2 * jnp.pi * j)
    shape = jnp.broadcast_shapes(arr.shape[:-2], primitive_lattice_vectors.u.shape[:-1]) + (nx, ny)
    tx = jnp.broadcast_to(m * jnp.cos(th) + 0.1j * jnp.sin(2 * jnp.pi * i), shape)
    ty = jnp.broadcast_to(m * jnp.sin(th) + 0j, shape)
    return tx, ty


@functools.lru_cache(maxsize=64)
def _custom(kind, source):
    fn = {"iso": fmm.eigensolve_isotropic_media, "aniso": fmm.eigensolve_anisotropic_media, "gen": fmm.eigensolve_general_anisotropic_media}[kind]
    if source:
        return jax.jit(lambda *a, vector_field_source: fn(*a, custom_field, vector_field_source=vector_field_source))
    return jax.jit(lambda *a: fn(*a, custom_field))


def solve(med, wl, k, lat, exp, form=F.FFT, kind=None, jit=True, source=None):
    """Eigensolve through the public entry point `kind` (default: the natural one of the medium)."""
    kind = kind or med["kind"]
    lv = lat if isinstance(lat, basis.LatticeVectors) else lattice(lat)
    ex = exp if isinstance(exp, basis.Expansion) else expansion(exp)
    wl = jnp.asarray(wl, dtype=float)
    k = jnp.asarray(k, dtype=float)
    e = [jnp.asarray(x) for x in med["eps"]]
    m = [jnp.asarray(x) for x in med["mu"]]
    if form == "custom":
        args = {"iso": e[:1], "aniso": e, "gen": e + m}[kind]
        kw = {} if source is None else dict(vector_field_source=jnp.asarray(source))
        return _custom(kind, source is not None)(wl, k, lv, *args, ex, **kw)
    if kind == "iso":
        fn = _iso if jit else fmm.eigensolve_isotropic_media
        return fn(wl, k, lv, e[0], ex, form)
    if kind == "aniso":
        fn = _ani if jit else fmm.eigensolve_anisotropic_media
        return fn(wl, k, lv, *e, ex, form)
    fn = _gen if jit else fmm.eigensolve_general_anisotropic_media
    if source is not None:
        return fn(wl, k, lv, *e, *m, ex, form, vector_field_source=jnp.asarray(source))
    return fn(wl, k, lv, *e, *m, ex, form)


def ref_ops(med, wl, k, lat, exp, tvf=None, kind=None):
    """Reference Maxwell operators (A, B) of the medium; `tvf` is the tangent field of a vector formulation."""
    kind = kind or med["kind"]
    lat = LAT[lat] if isinstance(lat, str) else lat
    c = EXP[exp] if isinstance(exp, str) else exp
    kx, ky = ref.kvec(k, lat, c)
    om = 2 * np.pi / wl
    N = len(c)
    big = lambda x: np.broadcast_to(x, (16, 16)) if x.shape == (1, 1) else x
    eps, mu = [big(x) for x in med["eps"]], [big(x) for x in med["mu"]]
    if tvf is None or med["eps"][0].shape == (1, 1):
        E = ref.E_fft(eps[0], eps[1], eps[2], eps[3], c)
        M = ref.M_fft(mu[0], mu[1], mu[2], mu[3], c)
    elif kind == "iso":
        E = ref.E_vec_iso(eps[0], tvf[0], tvf[1], c)
        M = np.eye(2 * N, dtype=complex)
    else:
        E = ref.E_vec_aniso(*eps[:4], tvf[0], tvf[1], c)
        M = ref.M_vec_aniso(*mu[:4], tvf[0], tvf[1], c)
    return ref.AB(E, M, ref.conv(eps[4], c), ref.conv(mu[4], c), kx, ky, om)


def tvf_of(res):
    t = res.tangent_vector_field
    return None if t is None else tuple(np.asarray(x) for x in t)


def impl_modes(res, A):
    """(q, Evec, Hvec) in the implementation's own mode basis; Evec from the reference operator A."""
    q = np.asarray(res.eigenvalues)
    H = np.asarray(res.eigenvectors)
    return q, A @ H / q[None, :], H


_fcm = jax.jit(fields.field_conversion_matrix)


def evec(res):
    """e-vectors of the implementation's own modes via its public field conversion matrix (top left block)."""
    m = np.asarray(_fcm(res))
    n = m.shape[-1] // 2
    return m[..., :n, :n]


def port_from_s(s, A0=None, AN=None):
    """Port matrix from the implementation's scattering matrix (see ref.port_from_layers)."""
    r0, rN = s.start_layer_solve_result, s.end_layer_solve_result
    q0, H0 = np.asarray(r0.eigenvalues), np.asarray(r0.eigenvectors)
    qN, HN = np.asarray(rN.eigenvalues), np.asarray(rN.eigenvectors)
    E0 = evec(r0) if A0 is None else A0 @ H0 / q0[None, :]
    EN = evec(rN) if AN is None else AN @ HN / qN[None, :]
    X0 = np.exp(1j * q0 * np.asarray(s.start_layer_thickness))
    XN = np.exp(1j * qN * np.asarray(s.end_layer_thickness))
    s11, s12, s21, s22 = (np.asarray(x) for x in (s.s11, s.s12, s.s21, s.s22))
    n = len(q0)
    I, Z = np.eye(n), np.zeros((n, n))
    a0, bN = np.hstack([I, Z]), np.hstack([Z, I])
    aN, b0 = np.hstack([s11, s12]), np.hstack([s21, s22])
    b0f, aNb = X0[:, None] * b0, XN[:, None] * aN
    ef, hf = E0 @ (a0 - b0f), H0 @ (a0 + b0f)
    eb, hb = EN @ (aNb - bN), HN @ (aNb + bN)
    win = np.vstack([ef + hf, eb - hb])
    wout = np.vstack([ef - hf, eb + hb])
    return np.linalg.solve(win.T, wout.T).T


_stack = jax.jit(scattering.stack_s_matrix)
_interior = jax.jit(scattering.stack_s_matrices_interior)


def stack(layers, ts, jit=True):
    fn = _stack if jit else scattering.stack_s_matrix
    return fn(list(layers), [jnp.asarray(t, dtype=float) for t in ts])


def interior(layers, ts, jit=True):
    fn = _interior if jit else scattering.stack_s_matrices_interior
    return fn(list(layers), [jnp.asarray(t, dtype=float) for t in ts])


@functools.lru_cache(maxsize=4096)
def cached_layer(name, pat, shape, wl, k, lat, exp, form, kind=None):
    """Memoised (result, A, B, medium) for alphabet members; keys are hashable alphabet names/values."""
    med = medium(name, pat, shape)
    res = solve(med, wl, k, lat, exp, F(form), kind=kind)
    A, B = ref_ops(med, wl, k, lat, exp, tvf_of(res), kind=kind)
    return res, A, B, med


def strip(res):
    """The result without its (informational) tangent field, so that all layers share one container structure."""
    import dataclasses

    return dataclasses.replace(res, tangent_vector_field=None)


def port(layers, ts):
    """Port matrix of a stack of solved layers."""
    return port_from_s(stack([strip(r) for r in layers], ts))


def match(a, b):
    """Largest distance between two multisets of complex numbers under the best matching."""
    from scipy.optimize import linear_sum_assignment

    cost = np.abs(np.asarray(a)[:, None] - np.asarray(b)[None, :])
    i, j = linear_sum_assignment(cost)
    return float(cost[i, j].max())


def perm_minus(exp):
    """Index map G -> -G of an expansion given by name or list."""
    c = [tuple(x) for x in (EXP[exp] if isinstance(exp, str) else exp)]
    return [c.index((-a, -b)) for a, b in c]


def npy(tree):
    return jax.tree_util.tree_map(lambda x: np.asarray(x), tree)
