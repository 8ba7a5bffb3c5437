"""C19: gradients equal finite differences of the same computation."""
import itertools

from mc.props.c08 import _names

TECHNIQUE = "exhaustive enumeration of matrices, layer configurations, input kinds and basis directions: the reverse-mode derivative of gauge-invariant outputs is compared with central differences along every direction; every differentiable public call is included; degenerate configurations must give finite gradients"
NAMES = [n for n in _names() if n not in ("eig_jones_direct", "eig_pol_fourier", "fourier_iso_vec", "fourier_aniso_vec", "jones_direct", "pol", "jones", "normal", "tangent", "scan", "conversion", "angles", "solid_angle", "farfield_profile")]  # angles are undefined (nan) outside the light cone
MATS = ["gen2", "gen3", "gen4", "herm3", "real3", "skew", "nonnormal", "close", "small", "large", "shift"]
DEGEN = ["zero", "eye", "diag_rep", "block_rep", "scalar", "rank1"]
PIPES = [
    ("iso", "abs", "gen", "fft"), ("iso", "met", "gen", "fft"), ("iso", "die", "gen", "fft"), ("iso", "abs", "uni", "fft"), ("iso", "abs", "gen", "custom"),
    ("aniso", "anyt", "gen", "fft"), ("aniso", "gyro", "gen", "fft"), ("aniso", "anyt", "uni", "fft"), ("aniso", "anyt", "gen", "custom"),
    ("gen", "magt", "gen", "fft"), ("gen", "magt", "uni", "fft"), ("gen", "magt", "gen", "custom"),
]
BOUNDS = {
    "quick": f"{len(MATS)} matrix families (all 2 n^2 directions, 4 invariants, 3 batch layouts), {len(DEGEN)} degenerate families; {len(PIPES)} solver / medium / formulation combinations x every input kind (wavelength, wavevector, lattice, every tensor element, thickness, amplitudes) x 4 outputs; {len(NAMES)} public calls x every argument array (first and last six of long records)",
    "thorough": "also compiled gradients of every public call, further lattices, expansions and wavelengths",
}
ASSUMPTIONS = [
    "extrapolated central differences; agreement to 1e-3 (matrices 3e-5, single calls 2e-4) of the derivative's scale",
    "the automatically computed tangent field is documented as constant in the permittivity (stop_gradient), so vector formulations are differentiated with a fixed, user-supplied field",
]
MAX_CHUNK = 4


def cases(tier):
    for p in PIPES:
        yield dict(part="pipe", cfg=list(p), lat="obl", exp="c5", wl=0.83, k="gen")
        if tier == "thorough":
            yield dict(part="pipe", cfg=list(p), lat="hex", exp="d7", wl=1.3, k="big")
            yield dict(part="pipe", cfg=list(p), lat="left", exp="c5", wl=0.51, k="bz")
    for n in NAMES:
        if tier == "thorough" or n not in ("stack_fields", "stack_fields_coords", "layer_fields", "layer_fields_coords", "interior", "stack", "amps_for_fields_bz", "interior_amps_source", "amps_interior"):  # part of the pipelines
            yield dict(part="menu", name=n, jit=False)
        if tier == "thorough":
            yield dict(part="menu", name=n, jit=True)
    for m in MATS:
        yield dict(part="eig", mat=m)
    for m in DEGEN:
        yield dict(part="degenerate", mat=m)
    for m in ("iso", "aniso", "gen"):
        for u in (False, True):
            yield dict(part="symmetric", kind=m, uni=u)
    yield dict(part="safe")


def group(c):
    if c["part"] == "pipe":
        return (c["cfg"][0], c["cfg"][2] == "uni", c["cfg"][3], c["lat"], c["exp"])
    if c["part"] == "eig":
        return "eig", c["mat"] in ("gen2", "gen4"), c["mat"] in ("gen3", "nonnormal")
    if c["part"] == "symmetric":
        return (c["kind"], c["uni"], "fft", "obl", "c5")
    return c["part"]


def weight(c):
    return {"pipe": 20.0, "symmetric": 15.0}.get(c["part"], 2.0)


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


TOL = 3e-5


def matrix(name):
    import numpy as np

    g = lambda n, s=0: np.array([[np.cos(1.3 * i + 2.1 * j + s) + 1j * np.sin(0.7 * i - 1.9 * j + 0.4 + s) + (2.0 * i * (1 + 0.3j)) * (i == j) for j in range(n)] for i in range(n)])
    return {
        "gen2": lambda: g(2), "gen3": lambda: g(3), "gen4": lambda: g(4, 0.3), "herm3": lambda: g(3) + g(3).conj().T, "real3": lambda: g(3).real + 0j,
        "skew": lambda: g(3) - g(3).conj().T, "nonnormal": lambda: np.triu(g(3)) + 3 * np.triu(g(3, 1), 1), "close": lambda: np.diag([1.0, 1.01, 2.0]) + 0.03 * g(3, 0.5),
        "small": lambda: 1e-5 * g(3), "large": lambda: 1e5 * g(3), "shift": lambda: g(3) + 50 * np.eye(3),
    }[name]()


def invariants(xp, w, v, vi):
    """Real, gauge- and order-independent functions of an eigendecomposition (relative to the scale of w)."""
    n = w.shape[-1]
    c = xp.asarray([[0.3 + 0.2j * (i - j) + 0.1 * i * j for j in range(n)] for i in range(n)])
    e = xp.asarray([0.5 + 0.4 * i for i in range(n)])
    a = abs
    return [
        xp.sum(a(w) ** 2, -1),
        xp.sum((w * w).real, -1) + xp.sum(w.imag, -1),
        xp.sum(xp.sum(e[:, None] * a(v) ** 2, -2) * (w.real + 0.5 * w.imag), -1),
        xp.sum(((v * (w**2)[..., None, :]) @ vi * c).real, (-1, -2)),
    ]


def run_eig(case, ctx):
    import numpy as np

    from mc.lib import jax, jnp, utils

    M = matrix(case["mat"])
    n = len(M)
    s = np.max(np.abs(M))

    def f(m):
        w, v = utils.eig(m)
        w = w / s
        return jnp.stack(invariants(jnp, w, v, jnp.linalg.inv(v)), -1)

    def fn(m):
        w, v = np.linalg.eig(m)
        w = w / s
        return np.array(invariants(np, w, v / np.linalg.norm(v, axis=-2, keepdims=True), np.linalg.inv(v)))

    f0 = np.asarray(f(jnp.asarray(M)))
    ctx.close(f0, fn(M), 1e-9, f"eig({case['mat']}): invariants")
    nf = len(f0)
    J = np.asarray(jax.jacrev(f)(jnp.asarray(M)))
    Jj = np.asarray(jax.jit(jax.jacrev(f))(jnp.asarray(M))) if case["mat"] in ("gen3", "close") else J
    ctx.close(Jj, J, 1e-7, f"eig({case['mat']}): compiled gradient", scale=np.max(np.abs(J)))
    h = 1e-5 * s
    D = np.zeros_like(J)
    for i, j in itertools.product(range(n), repeat=2):
        for ph in (1, 1j):
            d = np.zeros_like(M)
            d[i, j] = ph
            # Two steps and Richardson extrapolation, on an independent eigensolver.
            c = [(fn(M + x * d) - fn(M - x * d)) / (2 * x) for x in (h, h / 2)]
            fd = (4 * c[1] - c[0]) / 3
            D[:, i, j] += fd if ph == 1 else -1j * fd
            ctx.state(case["mat"], i, j, ph)
    ctx.step(4 * 2 * n * n)
    for q in range(nf):
        ctx.close(J[q], D[q], TOL, f"eig({case['mat']}): gradient of invariant {q}", scale=np.max(np.abs(D[q])) + 1e-12 / s)
    # Batches: the gradient of the sum over a batch is the batch of gradients.
    gsum = jax.jit(jax.grad(lambda m: jnp.sum(f(m) * jnp.asarray([1.0, 0.5, 2.0, -1.0]))))
    batch = np.stack([M, M.conj() + 0.1 * s * np.eye(n), M.T])
    for b in (batch, batch[:, None], batch[None, :2]) if case["mat"] in ("gen3", "gen2", "nonnormal") else ():
        G = np.asarray(gsum(jnp.asarray(b)))
        for idx in np.ndindex(b.shape[:-2]):
            one = np.asarray(gsum(jnp.asarray(b[idx])))
            ctx.close(G[idx], one, 1e-7, f"eig({case['mat']}): batch {b.shape} element {idx}", scale=np.max(np.abs(one)))
    # Elements of one batch may have very different scales.
    gvec = jax.jit(jax.grad(lambda m: jnp.sum(f(m)[..., 3] + jnp.sum(jnp.abs(utils.eig(m)[1][..., :1, :]) ** 4, (-1, -2)))))
    for k in (1e-8, 1e-4, 1e4, 1e8):
        G = np.asarray(gvec(jnp.asarray(np.stack([M, k * M]))))
        for i in (0, 1):
            one = np.asarray(gvec(jnp.asarray((M, k * M)[i])))
            ctx.state(case["mat"], k, i)
            ctx.step()
            ctx.close(G[i], one, 1e-6, f"eig({case['mat']}): gradient of element {i} of a batch with scales 1 and {k:g}", scale=np.max(np.abs(one)))
    ctx.outcome(case["mat"])


def run_degenerate(case, ctx):
    """Gradients of eigenvalues and eigenvectors at exactly degenerate matrices are finite."""
    import numpy as np

    from mc.lib import jax, jnp, utils

    u = np.linalg.qr(matrix("gen4"))[0]
    M = {"zero": np.zeros((3, 3)), "eye": np.eye(3), "diag_rep": np.diag([1.0, 1.0, 2.0, 2.0]), "block_rep": u @ np.diag([1, 1, 1, 3 + 1j]) @ u.conj().T, "scalar": np.array([[2.0 + 1j]]), "rank1": np.diag([0, 0, 0, 1.0])}[case["mat"]].astype(complex)
    for k, f in enumerate((lambda w, v: jnp.sum(jnp.abs(w) ** 2), lambda w, v: jnp.sum(jnp.abs(v[..., :1, :]) ** 4), lambda w, v: jnp.sum(jnp.real(w * v[..., 0, :])))):
        for batch in ((), (2,)):
            for jit in (False, True):
                g = jax.grad(lambda m: f(*utils.eig(m)))
                g = np.asarray((jax.jit(g) if jit else g)(jnp.broadcast_to(jnp.asarray(M), batch + M.shape)))
                ctx.step()
                ctx.state(case["mat"], k, batch, jit)
                ctx.true(np.isfinite(g).all(), f"gradient of function {k} at the degenerate matrix {case['mat']} is not finite")
    # The eigenvalue sum is smooth there, and its gradient exact.
    g = np.asarray(jax.grad(lambda m: jnp.real(jnp.sum(utils.eig(m)[0])))(jnp.asarray(M)))
    ctx.close(g, np.eye(len(M)), 1e-8, f"gradient of the trace at {case['mat']}")
    ctx.outcome(case["mat"])


_J = {}


def pipeline(kind, form):
    """Outputs (independent of mode phases, order and directions) of a stack vacuum / layer / uniform absorber."""
    from mc import lib
    from mc.lib import F, basis, fields, fmm, jax, jnp, scattering, sources

    fn = {"iso": fmm.eigensolve_isotropic_media, "aniso": fmm.eigensolve_anisotropic_media, "gen": fmm.eigensolve_general_anisotropic_media}[kind]

    def f(p, ex):
        wl, k, lv = p["wl"], p["k"], basis.LatticeVectors(u=p["u"], v=p["v"])
        fm = lib.custom_field if form == "custom" else F.FFT
        layer = lib.strip(fn(wl, k, lv, *p["eps"], ex, fm))
        uni = lambda e: lib.strip(fmm.eigensolve_isotropic_media(wl, k, lv, e, ex, F.FFT))
        a, b = uni(p["amb"]), uni(p["sub"])
        L = [a, layer, b]
        ts = list(p["t"])
        S = scattering.stack_s_matrix(L, ts)
        amp = p["amp"]
        up, dn = S.s11 @ amp, S.s21 @ amp
        n = amp.shape[-2] // 2
        inc, _ = fields.amplitude_poynting_flux(amp, jnp.zeros_like(amp), a)
        w = 1.0 + 0.3 * jnp.arange(amp.shape[-2])[:, None]
        ft, _ = fields.amplitude_poynting_flux(up, jnp.zeros_like(up), b)
        refl = jnp.sum(w * jnp.abs(dn) ** 2)
        inter = fields.stack_amplitudes_interior(scattering.stack_s_matrices_interior(L, ts), amp, jnp.zeros_like(amp))
        ef, hf, _ = fields.layer_fields_3d(*inter[1], layer, ts[1], 2, (4, 3), (1, 1))
        inten = sum(jnp.sum(jnp.abs(x) ** 2) for x in ef) + 0.7 * sum(jnp.sum(jnp.abs(x) ** 2) for x in hf)
        q = layer.eigenvalues
        return jnp.stack([jnp.sum(jnp.real(q**2)) / 100 + jnp.sum(jnp.imag(q**2)) / 30, jnp.sum(w * jnp.real(ft)), refl, inten / 100])

    key = (kind, form)
    if key not in _J:
        _J[key] = jax.jit(f), jax.jit(jax.jacrev(f))
    return _J[key]


def params(cfg, lat, exp, wl, k):
    import numpy as np

    from mc import lib, menu

    kind, m, pat, form = cfg
    med = lib.medium(m, pat, (8, 8))
    eps = {"iso": med["eps"][:1], "aniso": med["eps"], "gen": med["eps"] + med["mu"]}[kind]
    u, v = lib.LAT[lat]
    N = len(lib.EXP[exp])
    amp = menu.amp(2 * N, 2, ph=0.3)
    amp = amp / np.linalg.norm(amp)
    return dict(wl=np.array(wl), k=np.array(lib.KS[k]), u=np.array(u), v=np.array(v), eps=[np.array(e, complex) for e in eps], amb=np.full((1, 1), 1.2 + 0.05j), sub=np.full((1, 1), 2.3 + 0.1j), t=[np.array(0.1), np.array(0.37), np.array(0.2)], amp=amp)


def directions(x):
    """A basis of directions for small arrays; corner, generic and pattern directions for grids."""
    import numpy as np

    out = []
    phs = (1.0, 1j) if np.iscomplexobj(x) else (1.0,)
    if x.size <= 4:
        idx = list(np.ndindex(x.shape))
        for i in idx:
            for ph in phs:
                d = np.zeros(x.shape, complex if ph == 1j or np.iscomplexobj(x) else float)
                d[i] = ph
                out.append((f"{i}{'i' if ph == 1j else ''}", d))
    else:
        w = np.cos(1.0 + 1.7 * np.arange(x.size)).reshape(x.shape)
        e = np.zeros(x.shape)
        e.flat[x.size // 2 + 1] = 1.0
        for nm, b in (("generic", w / np.sqrt(x.size)), ("one", e)):
            for ph in phs:
                out.append((nm + ("i" if ph == 1j else ""), b * ph))
    return out


def run_pipe(case, ctx):
    import copy

    import numpy as np

    from mc import lib
    from mc.lib import jax

    cfg = case["cfg"]
    f, jac = pipeline(cfg[0], cfg[3])
    ex = lib.expansion(case["exp"])
    p = params(cfg, case["lat"], case["exp"], case["wl"], case["k"])
    J = jax.tree_util.tree_map(np.asarray, jac(p, ex))
    ctx.step()
    leaves, td = jax.tree_util.tree_flatten(p)
    jl = jax.tree_util.tree_leaves(J)
    paths = [jax.tree_util.keystr(k) for k, _ in jax.tree_util.tree_flatten_with_path(p)[0]]
    for i, (x, g, name) in enumerate(zip(leaves, jl, paths)):
        if not ctx.true(np.isfinite(g).all(), f"{cfg}: gradient with respect to {name} is not finite"):
            continue
        for nm, d in directions(x):
            def at(s):
                ls = list(leaves)
                ls[i] = x + s * d
                ctx.step()
                return np.asarray(f(jax.tree_util.tree_unflatten(td, ls), ex))

            h = 1e-4
            c = [(at(s) - at(-s)) / (2 * s) for s in (h, h / 2)]
            fd = (4 * c[1] - c[0]) / 3
            got = np.array([np.sum((g[o] * d).real) for o in range(4)])
            ctx.state(*cfg, name, nm, case["lat"], case["k"])
            for o in range(4):
                scale = max(abs(fd[o]), 1e-3 * np.max(np.abs(g[o])), 1e-3)
                ctx.close(got[o], fd[o], 1e-3, f"{cfg}: derivative of output {('q', 'transmission', 'reflection', 'fields')[o]} with respect to {name} along {nm}", scale=scale)
    ctx.outcome(*cfg)


def run_symmetric(case, ctx):
    """Symmetric and uniform configurations (degenerate modes): gradients stay finite; exact for symmetric outputs."""
    import numpy as np

    from mc import lib
    from mc.lib import jax

    kind = case["kind"]
    ex = lib.expansion("c5")
    f, jac = pipeline(kind, "fft")
    n = {"iso": 1, "aniso": 5, "gen": 10}[kind]
    for pat in ("uni",) if case["uni"] else ("const", "sym", "gx"):
        for k in ("zero", "kx"):
            p = params((kind, {"iso": "abs", "aniso": "anis", "gen": "mag"}[kind], "uni" if pat == "uni" else "gen", "fft"), "sq", "c5", 0.83, k)
            if pat != "uni":
                g = (8, 8)
                i = (np.arange(8) - 4.0)[:, None]
                d = {"const": np.full(g, 0.5), "sym": ((i**2 + i.T**2) < 6).astype(float), "gx": (np.abs(i) < 2) + 0 * i.T}[pat]
                e = 1.5 + 2.0 * d + 0.2j
                z, o = 0 * e, 0 * e + 1
                p["eps"] = [np.array(x) for x in ([e] if kind == "iso" else [e, z, z, e, e] + ([o, z, z, o, o] if kind == "gen" else []))]
            J = jac(p, ex)
            ctx.step()
            ctx.state(kind, pat, k)
            for path, g in jax.tree_util.tree_flatten_with_path(J)[0]:
                ctx.true(np.isfinite(np.asarray(g)).all(), f"{kind} {pat} k={k}: gradient with respect to {jax.tree_util.keystr(path)} is not finite")
    ctx.outcome(kind)


def run_safe(case, ctx):
    """Normalisations and tangent fields of vanishing fields have finite gradients."""
    import numpy as np

    from mc import lib, menu
    from mc.lib import jax, jnp, vector

    base = menu.amp(4, 3, 2)
    zero = np.zeros_like(base)
    some = base.copy()
    some[1] = 0
    some[2, 1] = 0
    comp = base.copy()
    comp[..., 1] = 0
    for fname in ("normalize", "normalize_elementwise", "normalize_jones"):
        fn = getattr(vector, fname)
        for nm, x in (("zero", zero), ("some", some), ("component", comp), ("base", base), ("real", base.real + 0j)):
            f = lambda y: jnp.sum(jnp.real(fn(y) * jnp.asarray(base)) )
            g = np.asarray(jax.grad(f)(jnp.asarray(x)))
            ctx.step()
            ctx.state(fname, nm)
            ctx.true(np.isfinite(g).all(), f"{fname}: gradient for a field with vanishing entries ({nm}) is not finite")
    ctx.outcome("safe")


def run_menu(case, ctx):
    """Reverse-mode derivative of every public call with respect to every argument array."""
    import numpy as np

    from mc import menu
    from mc.lib import jax, jnp

    n = case["name"]
    fn, args, kw = menu.entry(n)
    leaves, td = jax.tree_util.tree_flatten(args)
    idx = [i for i, x in enumerate(leaves) if isinstance(x, np.ndarray) and x.dtype.kind in "fc"]
    if not idx:
        ctx.outcome(n)
        return
    if n in ("integrated_flux",):
        idx = idx[:1]
    if len(idx) > 14 and not case["jit"]:  # Records share their layout: the first and last arrays of the arguments.
        idx = idx[:6] + idx[-4:]

    def scalar(vals):
        ls = list(leaves)
        for i, x in zip(idx, vals):
            ls[i] = x
        out = fn(*jax.tree_util.tree_unflatten(td, ls), **kw)
        tot = 0.0
        outs = _eig_out(out) if n in menu.EIGEN else jax.tree_util.tree_leaves(out)
        for m, o in enumerate(outs):
            if not jnp.issubdtype(jnp.asarray(o).dtype, jnp.inexact):
                continue
            w = jnp.cos(0.3 * m + 0.9 * jnp.arange(o.size)).reshape(o.shape)
            good = jnp.isfinite(o)
            o = jnp.where(good, o, 0)
            tot = tot + jnp.sum(w * jnp.real(o)) + 0.5 * jnp.sum(w * jnp.imag(o)) + 0.1 * jnp.sum(jnp.abs(o) ** 2)
        return tot

    vals = [jnp.asarray(leaves[i]) for i in idx]
    grad = jax.grad(scalar)
    f = jax.jit(scalar) if case["jit"] else scalar
    G = (jax.jit(grad) if case["jit"] else grad)(vals)
    ctx.step()
    f0 = abs(float(f(vals)))
    for m, (i, g) in enumerate(zip(idx, G)):
        x, g = leaves[i], np.asarray(g)
        if not ctx.true(np.isfinite(g).all(), f"{n}: gradient with respect to argument {m} is not finite"):
            continue
        for nm, d in [z for z in directions(x) if z[0].startswith("generic") or x.size <= 4][:4]:
            def at(s):
                v = list(vals)
                v[m] = jnp.asarray(x + s * d)
                ctx.step()
                return float(f(v))

            h = 1e-4
            c = [(at(s) - at(-s)) / (2 * s) for s in (h, h / 2)]
            fd = (4 * c[1] - c[0]) / 3
            got = float(np.sum((g * d).real))
            ctx.state(n, m, nm)
            ctx.close(got, fd, 2e-4, f"{n}: derivative with respect to argument {m} along {nm}", scale=max(abs(fd), 1e-3 * float(np.max(np.abs(g), initial=0.0)), 1e-6 * max(1.0, f0)))
    ctx.outcome(n)


def _eig_out(r):
    from mc.lib import jnp

    q, W = r.eigenvalues, r.eigenvectors
    op = W @ (q[..., :, None] ** 2 * jnp.linalg.inv(W))
    return [op, r.z_permittivity_matrix, r.inverse_z_permittivity_matrix, r.z_permeability_matrix, r.inverse_z_permeability_matrix, r.transverse_permeability_matrix]
