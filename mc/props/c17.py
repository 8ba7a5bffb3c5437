"""C17: absorbing boundary media are confined, impedance matched and well formed."""
import itertools

TECHNIQUE = "exhaustive enumeration of array shapes, boundary widths and parameter sets; every element of every tensor component compared with the defining stretching relations"
BOUNDS = {
    "quick": "all array shapes up to 7 x 7 with all widths 0..4 per direction (valid and invalid), x 5 parameter sets and 3 permittivities for the valid ones",
    "thorough": "all array shapes up to 12 x 12 with all widths 0..7, x 9 parameter sets and 4 permittivities",
}
ASSUMPTIONS = ["the stretching factor is (1 + a d^p)(1 + i sigma sin(pi d / 2)^2) at relative depth d, as in the uniaxial boundary the module implements"]
MAX_CHUNK = 8
PARAMS = [dict(), dict(a_max=0.0), dict(sigma_max=0.0), dict(p=1.0), dict(a_max=2.0, p=2.5, sigma_max=3.0)]
MORE = [dict(p=2.0), dict(a_max=10.0, sigma_max=0.1), dict(a_max=0.0, sigma_max=0.0), dict(p=6.0, a_max=1.0)]


def cases(tier):
    n = 7 if tier == "quick" else 12
    for nx in range(1, n + 1):
        for wx in range(0, (4 if tier == "quick" else 7) + 1):
            yield dict(nx=nx, wx=wx, n=n, wmax=4 if tier == "quick" else 7, full=tier != "quick")


def group(c):
    return c["nx"]


def eps_of(kind, nx, ny):
    import numpy as np

    a = np.arange(nx * ny).reshape(nx, ny)
    r = 2.0 + np.cos(1.7 * a + 0.3)
    if kind == "real":
        return r
    if kind == "cplx":
        return r - 4.0 * (a % 3 == 0) + 0.2j * (1 + np.sin(a))
    if kind == "int":
        return (a % 5) + 1
    return np.stack([r, 2 * r[::-1] + 0.5])[:, None] * (1 + 0j)  # batch


def run(case, ctx):
    import numpy as np

    from mc.lib import jnp, pml

    nx, wx = case["nx"], case["wx"]
    params = PARAMS + (MORE if case["full"] else [])
    for ny, wy in itertools.product(range(1, case["n"] + 1), range(0, case["wmax"] + 1)):
        valid = 2 * wx < nx and 2 * wy < ny
        if not valid:
            ctx.state(nx, ny, wx, wy)
            ctx.raises(lambda: pml.apply_uniaxial_pml(jnp.ones((nx, ny)), pml.PMLParams(wx, wy)), f"widths {wx, wy} in {nx, ny}")
            continue
        combos = [(i, k) for i in range(len(params)) for k in ("real", "cplx", "batch", "int")]
        if not case["full"]:  # all parameter sets with one kind, all kinds with one parameter set
            combos = [(i, "cplx") for i in range(len(params))] + [(4, k) for k in ("real", "batch", "int")]
            if (nx + ny + wx + wy) % 3:  # cheap subset of parameters on two thirds of the shapes, every shape with the default
                combos = [(0, "cplx"), (4, "real")]
        for i, kind in combos:
            pr = pml.PMLParams(wx, wy, **params[i])
            check(ctx, np, jnp, pml, eps_of(kind, nx, ny), pr, f"shape {nx, ny} widths {wx, wy} {params[i]} {kind}")
            ctx.state(nx, ny, wx, wy, i, kind)
    # Negative widths describe nothing.
    ctx.raises(lambda: pml.apply_uniaxial_pml(jnp.ones((nx, 6)), pml.PMLParams(-1, 2)), "negative width")


def check(ctx, np, jnp, pml, eps, pr, what):
    e, m = pml.apply_uniaxial_pml(jnp.asarray(eps), pr)
    ctx.step()
    e, m = [np.asarray(x) for x in e], [np.asarray(x) for x in m]
    nx, ny = eps.shape[-2:]
    wx, wy = pr.num_x, pr.num_y
    if not ctx.true(len(e) == 5 and len(m) == 5 and all(x.shape == eps.shape for x in e + m), f"{what}: shapes"):
        return
    for t in (e, m):
        ctx.true(np.all(t[1] == 0) and np.all(t[2] == 0), f"{what}: off-diagonal elements")
    # Material extended outward from the inner edge.
    i = np.clip(np.arange(nx), wx, nx - wx - 1)
    j = np.clip(np.arange(ny), wy, ny - wy - 1)
    ext = eps[..., i, :][..., j]
    for a in (0, 3, 4):
        ctx.close(e[a], ext * m[a], 1e-9, f"{what}: element {a} of permittivity is the extended material times the permeability")
    inside = (np.s_[...,] + (slice(wx, nx - wx), slice(wy, ny - wy)))
    for a in (0, 3, 4):
        ctx.close(e[a][inside], np.asarray(eps[inside], complex), 1e-12, f"{what}: interior permittivity")
        ctx.close(m[a][inside], np.ones_like(eps[inside], complex), 1e-12, f"{what}: interior permeability")
    # Stretching factors recovered from the products; sx depends on x only.
    depth = lambda n, w: np.maximum(np.maximum(w - np.arange(n), np.arange(n) - (n - w - 1)), 0) / max(w, 1)
    stretch = lambda d: (1 + pr.a_max * d**pr.p) * (1 + 1j * pr.sigma_max * np.sin(np.pi / 2 * d) ** 2)
    sx, sy = stretch(depth(nx, wx))[:, None], stretch(depth(ny, wy))[None, :]
    ctx.close(m[0], np.broadcast_to(sy / sx, eps.shape), 1e-9, f"{what}: mu_xx = sy / sx")
    ctx.close(m[3], np.broadcast_to(sx / sy, eps.shape), 1e-9, f"{what}: mu_yy = sx / sy")
    ctx.close(m[4], np.broadcast_to(sx * sy, eps.shape), 1e-9, f"{what}: mu_zz = sx sy")
    ctx.close(m[0] * m[3], np.ones(eps.shape), 1e-9, f"{what}: mu_xx mu_yy = 1")
    for a in (0, 3, 4):
        ctx.close(m[a], m[a][..., ::-1, :], 1e-9, f"{what}: mirror symmetric in x")
        ctx.close(m[a], m[a][..., :, ::-1], 1e-9, f"{what}: mirror symmetric in y")
    zz = m[4]
    ctx.true(np.all(zz.imag >= -1e-12), f"{what}: absorbs")
    cx, cy = (nx - 1) // 2, (ny - 1) // 2
    ax = np.abs(zz[..., : cx + 1, :])
    ctx.true(np.all(np.diff(ax, axis=-2) <= 1e-9 * ax.max()), f"{what}: grows outward in x")
    ay = np.abs(zz[..., :, : cy + 1])
    ctx.true(np.all(np.diff(ay, axis=-1) <= 1e-9 * ay.max()), f"{what}: grows outward in y")
    if wx == 0:
        ctx.close(zz, np.broadcast_to(zz[..., :1, :], zz.shape), 1e-12, f"{what}: no absorption along x")
    if wy == 0:
        ctx.close(zz, np.broadcast_to(zz[..., :, :1], zz.shape), 1e-12, f"{what}: no absorption along y")
    ctx.outcome(nx, ny, wx, wy, np.round(zz.ravel()[0], 6))
