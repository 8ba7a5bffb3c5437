"""C05: the modes of every layer satisfy the truncated Maxwell equations of the given medium."""
from mc.engine import deviations

TECHNIQUE = "exhaustive enumeration of layer configurations (deviation bound) against an independent Maxwell operator assembled from defining Fourier sums"
FORMS = ["fft", "jones_direct", "jones", "normal", "pol", "jones_direct_fourier", "jones_fourier", "normal_fourier", "pol_fourier", "custom"]
DIMS = dict(
    med=["die", "abs", "met", "anis", "gyro", "anyt", "mag", "magt", "pml", "vac", "mll"],
    pat=["gen", "uni", "gx", "disk", "smooth", "const"],
    form=FORMS,
    lat=["obl", "sq", "hex", "left", "rot"],
    k=["gen", "zero", "big"],
    exp=["c5", "one", "asym", "x3", "d7", "shuf"],
    wl=[0.83, 2.7],
    shape=[(8, 7), (7, 12), (6, 5)],
    kind=["nat", "aniso", "gen"],
    source=["none", "gy"],
)
BOUNDS = {
    "quick": "all configurations with one deviation from the default, and all pairs within (medium, pattern, formulation) and (lattice, k, expansion, wavelength); 5 media with 49 orders",
    "thorough": "all configurations with <= 3 deviations in 10 dimensions (medium x pattern x formulation in full)",
}
ASSUMPTIONS = [
    "the tangent field of a vector formulation is taken from the result, after comparing it with the named scheme applied to the documented source",
    "the sign of a mode whose squared propagation constant is rounding is not checked",
]
MAX_CHUNK = 60


def _admissible(c):
    if c["source"] != "none" and (c["kind"] != "gen" and c["med"] not in ("mag", "magt", "pml") or c["pat"] == "uni"):
        return False
    if c["kind"] == "aniso" and c["med"] in ("mag", "magt", "pml"):
        return False
    return True


def cases(tier):
    full = {}

    def add(it):
        for c in it:
            if _admissible(c):
                full.setdefault(repr(c), c)

    sub = lambda names: {n: (DIMS[n] if n in names else DIMS[n][:1]) for n in DIMS}
    if tier == "quick":
        add(deviations(DIMS, 1))
        add(deviations(sub(("med", "pat", "form", "kind", "source")), 2))
        add(deviations(sub(("lat", "k", "exp", "wl", "shape")), 2))
        # Anisotropic and magnetic media through each other's combinations.
        small = dict(DIMS, med=["magt", "anyt"], form=["fft", "jones_direct", "custom"], pat=["gen", "gx"], exp=["c5"], shape=[(8, 7)], source=["none", "gy"], kind=["gen"])
        add(deviations(small, 2))
        # Many orders.
        big = dict({n: v[:1] for n, v in DIMS.items()}, exp=["b49"], shape=[(16, 15)])
        add(dict(c, med=m, form=f) for c in deviations(big, 0) for m, f in (("die", "fft"), ("met", "fft"), ("magt", "fft"), ("anyt", "jones_direct"), ("die", "pol")))
    else:
        add(deviations(DIMS, 3))
    return list(full.values())


def group(c):
    return (c["form"], c["exp"])


def weight(c):
    return 3 if c["form"] not in ("fft", "custom") else 1


_J = {}


def run(case, ctx):
    import numpy as np
    from scipy.optimize import linear_sum_assignment

    from mc import lib, ref
    from mc.lib import F, jax, jnp, vector

    med = lib.medium(case["med"], case["pat"], tuple(case["shape"]))
    kind = med["kind"] if case["kind"] == "nat" else case["kind"]
    k = lib.KS[case["k"]]
    form = case["form"] if case["form"] == "custom" else F(case["form"])
    uniform = case["pat"] == "uni"
    source = None
    if case["source"] != "none":
        source = 1.0 + lib.pattern(case["source"], tuple(case["shape"])) + 0j
    res = lib.solve(med, case["wl"], k, case["lat"], case["exp"], form, kind=kind, source=source)
    ctx.step()
    ctx.state(case)
    c = lib.EXP[case["exp"]]
    N = len(c)
    om = 2 * np.pi / case["wl"]
    tvf = lib.tvf_of(res)
    # Which tangent field was used.
    if uniform or case["form"] == "fft":
        ctx.true(tvf is None, "no tangent field for uniform media or the FFT formulation")
    else:
        ctx.true(tvf is not None, "tangent field is recorded")
        if kind == "iso":
            src = med["eps"][0]
        else:
            src = source if source is not None else (med["eps"][0] + med["eps"][3]) / 2
        if case["form"] == "custom":
            want = lib.custom_field(jnp.asarray(src), lib.expansion(case["exp"]), lib.lattice(case["lat"]))
        else:
            if case["form"] not in _J:
                _J[case["form"]] = jax.jit(vector.VECTOR_FIELD_SCHEMES[case["form"]])
            want = _J[case["form"]](jnp.asarray(src), lib.expansion(case["exp"]), lib.lattice(case["lat"]))
            ctx.step()
        for i in (0, 1):
            ctx.close(tvf[i], want[i], 1e-6, f"tangent field component {i} is that of the named scheme")
    A, B = lib.ref_ops(med, case["wl"], k, case["lat"], case["exp"], tvf, kind=kind)
    q, H = np.asarray(res.eigenvalues), np.asarray(res.eigenvectors)
    if not ctx.true(q.shape == (2 * N,) and H.shape == (2 * N, 2 * N), "shapes of modes"):
        return
    ctx.true(np.all(np.isfinite(q)) and np.all(np.isfinite(H)), "finite modes")
    M = B @ A
    scale = np.linalg.norm(M, 2)
    R = M @ H - H * (q**2)[None, :]
    hn = np.linalg.norm(H, axis=0)
    ctx.true(hn.min() > 1e-8, "mode fields are not zero")
    ctx.close(R / (hn[None, :] * scale), np.zeros_like(R), 1e-8, "Maxwell residual of the modes")
    sv = np.linalg.svd(H / hn[None, :], compute_uv=False)
    ctx.true(sv[-1] > 1e-7, f"the modes are a complete set (smallest singular value {sv[-1]:.2g})")
    want = np.linalg.eigvals(M)
    cost = np.abs(want[:, None] - (q**2)[None, :])
    i, j = linear_sum_assignment(cost)
    ctx.close(cost[i, j] / scale, np.zeros(2 * N), 1e-6, "propagation constants with multiplicity")
    # Modes whose squared propagation constant is rounding have no meaningful sign.
    sized = np.abs(q) ** 2 > 1e-10 * scale
    grow = np.imag(q)[sized].min(initial=0.0)
    ctx.true(grow >= -1e-9 * np.sqrt(scale), f"no mode grows along its direction (Im q = {grow:.3g})")
    exact = sized & (np.abs(np.imag(q**2)) <= 2 * np.finfo(float).eps * np.max(np.abs(q)) ** 2) & (np.real(q**2) > 0)
    ctx.true(np.real(q)[exact].min(initial=0.0) >= 0, "undamped propagating modes travel along their direction")
    # Recorded matrices.
    big = lambda x: np.broadcast_to(x, (16, 16)) if x.shape == (1, 1) else x
    ez, mz = big(med["eps"][4]), big(med["mu"][4])
    ctx.close(res.z_permittivity_matrix, ref.conv(ez, c), 1e-9, "z permittivity matrix")
    ctx.close(res.inverse_z_permittivity_matrix, ref.conv(1 / ez, c), 1e-9, "inverse z permittivity matrix")
    ctx.close(res.z_permeability_matrix, ref.conv(mz, c), 1e-9, "z permeability matrix")
    ctx.close(res.inverse_z_permeability_matrix, ref.conv(1 / mz, c), 1e-9, "inverse z permeability matrix")
    mu = [big(x) for x in med["mu"]]
    if tvf is None or kind == "iso":
        MM = ref.M_fft(*mu[:4], c)
    else:
        MM = ref.M_vec_aniso(*mu[:4], tvf[0], tvf[1], c)
    ctx.close(res.transverse_permeability_matrix, MM, 1e-8, "transverse permeability matrix")
    ctx.close(res.omega_script_k_matrix, A * om, 1e-8, "omega-script-k matrix")
    ctx.close(lib.evec(res), A @ H / q[None, :], 1e-7, "electric fields of the modes")
    ctx.step(2)
    ctx.close(res.wavelength, case["wl"], 1e-12, "recorded wavelength")
    ctx.close(res.in_plane_wavevector, k, 1e-12, "recorded wavevector")
    ctx.close(res.primitive_lattice_vectors.u, lib.LAT[case["lat"]][0], 1e-12, "recorded lattice")
    ctx.close(res.primitive_lattice_vectors.v, lib.LAT[case["lat"]][1], 1e-12, "recorded lattice")
    ctx.true(np.array_equal(res.expansion.basis_coefficients, np.asarray(c)), "recorded expansion")
    ctx.outcome(np.round(np.sort_complex(q), 6).tobytes())
