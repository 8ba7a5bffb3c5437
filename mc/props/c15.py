"""C15: farfield maps place every order correctly and account for all flux."""
import itertools

TECHNIQUE = "exhaustive enumeration of expansions, grid shapes, batch layouts and axis placements with uniquely labelled data; maps, angles and integrals compared with explicit per-order sums"
BOUNDS = {
    "quick": "unflatten: 8 expansions x 5 grid shapes x 4 batch shapes; layouts: all ordered placements of the two grid axes among 0, 1 or 2 further batch axes, positive and negative, x batched or scalar wavelength; integrals: 5 expansions x 3 grids x upsampling 1..3 x 6 angular regions and their partitions; angles and solid angles of all nodes of 5 wavevector lattices at wavelengths that bring each magnitude to grazing incidence",
    "thorough": "unflatten: 10 expansions x 9 grid shapes; layouts for 3 expansions x 3 grids; integrals: 7 expansions x 5 grids x upsampling 1..5",
}
ASSUMPTIONS = [
    "solid angles are compared at positions whose eight neighbours exist (cells at the border of the map have no defined extent)",
    "with upsampling, cells next to missing positions are interpolated with the missing ones; values there are only required to be additive and to conserve the total",
]
MAX_CHUNK = 10
LATS = ["obl", "left", "sq"]


def coefs(name):
    from mc import lib

    more = {"line": [[0, 0], [2, 0], [-2, 0]], "off": [[1, 1], [2, 1], [1, 3]]}
    return more[name] if name in more else lib.EXP[name]


def cases(tier):
    q = tier == "quick"
    exps = ["one", "x3", "c5", "d7", "b9", "asym", "shuf", "line"] if q else ["one", "x3", "y3", "c5", "d7", "b9", "b15", "asym", "shuf", "line", "off"]
    grids = [(1, 1), (2, 3), (3, 1), (1, 2), (2, 2)] if q else list(itertools.product((1, 2, 3), repeat=2))
    for e in exps:
        for g in grids:
            yield dict(part="flat", exp=e, grid=g)
    for e, g in [("asym", (2, 3))] if q else [("asym", (2, 3)), ("d7", (3, 1)), ("b9", (2, 2))]:
        for extra in ([], [2], [2, 3]):
            nb = 2 + len(extra)
            for axes in itertools.permutations(range(nb), 2):
                for neg in (False, True):
                    for wl in ("scalar", "batch") if extra else ("scalar",):
                        yield dict(part="layout", exp=e, grid=g, extra=extra, axes=axes, neg=neg, wl=wl)
    for e in ("c5", "b9", "d7", "asym", "x3") if q else ("c5", "b9", "d7", "asym", "x3", "shuf", "b15"):
        for g in ((2, 3), (3, 3), (1, 1)) if q else ((2, 3), (3, 3), (1, 1), (4, 2), (1, 5)):
            for up in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                yield dict(part="sum", exp=e, grid=g, up=up)
    for lat in LATS + ["hex"]:
        yield dict(part="angles", lat=lat, deep=not q)


def group(c):
    return (c["part"], c.get("exp"), str(c.get("extra")))


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def labels(shape, complex_=False):
    import numpy as np

    n = int(np.prod(shape))
    x = (np.arange(n) + 1.0).reshape(shape)
    return x + 1j * (x[..., ::-1] + 0.5) if complex_ else x


def place(flat, c, grid):
    """Reference map of flat[..., a, b, order]."""
    import numpy as np

    c = np.asarray(c)
    lo, hi = c.min(axis=0), c.max(axis=0)
    out = np.full(flat.shape[:-3] + tuple((hi - lo + 1) * grid), np.nan, dtype=flat.dtype)
    for a, b in itertools.product(range(grid[0]), range(grid[1])):
        for t, (m, n) in enumerate(c):
            out[..., (m - lo[0]) * grid[0] + a, (n - lo[1]) * grid[1] + b] = flat[..., a, b, t]
    return out


def same(ctx, got, want, msg, tol=1e-9):
    import numpy as np

    got, want = np.asarray(got), np.asarray(want)
    if not ctx.true(got.shape == want.shape, f"{msg}: shape {got.shape} instead of {want.shape}"):
        return
    ctx.true(np.array_equal(np.isnan(got), np.isnan(want)), f"{msg}: missing positions differ")
    m = ~(np.isnan(want) | np.isnan(got))
    ctx.close(got[m], want[m], tol, msg)


def run_flat(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import basis, farfield, jnp

    c = coefs(case["exp"])
    ex = lib.expansion(c)
    g = tuple(case["grid"])
    N = len(c)
    for batch in ((), (2,), (3, 1), (2, 2)):
        for cplx in (False, True):
            x = labels(batch + g + (N,), cplx)
            got = np.asarray(farfield.unflatten(jnp.asarray(x), ex))
            ctx.step()
            ctx.state(case, batch, cplx)
            same(ctx, got, place(x, c, g), f"unflatten batch {batch}")
            vals = got[~np.isnan(got)]
            ctx.true(sorted(vals.real.tolist()) == sorted(x.real.ravel().tolist()), f"every value exactly once, batch {batch}")
    # The map of the wavevectors themselves is an affine grid: position determines wavevector.
    for lat in LATS:
        lv = lib.lattice(lat)
        k = basis.brillouin_zone_in_plane_wavevector(g, lv)
        kt = basis.transverse_wavevectors(k, lv, ex)
        m = np.asarray(farfield.unflatten_transverse_wavevectors(kt, ex, (0, 1)))
        ctx.step(3)
        r = lv.reciprocal
        s1, s2 = 2 * np.pi * np.asarray(r.u) / g[0], 2 * np.pi * np.asarray(r.v) / g[1]
        i, j = np.meshgrid(np.arange(m.shape[0]), np.arange(m.shape[1]), indexing="ij")
        lo = np.min(c, axis=0)
        k0 = np.asarray(k)[0, 0] + lo[0] * g[0] * s1 + lo[1] * g[1] * s2
        want = k0 + i[..., None] * s1 + j[..., None] * s2
        ok = ~np.isnan(m[..., 0])
        ctx.true(ok.sum() == N * g[0] * g[1], "number of wavevectors in the map")
        ctx.close(m[ok], want[ok], 1e-9, f"position determines the wavevector ({lat})")
    ctx.outcome(case["exp"], g, m.shape)


def run_angles(case, ctx):
    """Angles and solid angles of every node of wavevector lattices through the origin, up to grazing incidence."""
    import numpy as np

    from mc import lib
    from mc.lib import farfield, jnp

    lv = lib.lattice(case["lat"])
    b1, b2 = 2 * np.pi * np.asarray(lv.reciprocal.u), 2 * np.pi * np.asarray(lv.reciprocal.v)
    frames = [(b1, b2)] + ([(np.array([2.0, 0.0]), np.array([0.0, 1.5]))] if case["lat"] == "sq" else [])
    for b1, b2 in frames:
        m, n = np.meshgrid(np.arange(-4, 5), np.arange(-3, 4), indexing="ij")
        k = m[..., None] * b1 + n[..., None] * b2
        kt = np.hypot(k[..., 0], k[..., 1])
        # Wavelengths that put each distinct magnitude just inside, at some angle, or just outside the light cone.
        mags = np.unique(np.round(kt[kt > 0], 9))
        w = np.array([2 * np.pi * s / q for q in (mags if case["deep"] else mags[::3]) for s in (0.2, 0.7, 0.99, 0.99999, 1.00001)])
        K = np.broadcast_to(k, w.shape + k.shape)
        with np.errstate(invalid="ignore"):
            pol, az = (np.asarray(x) for x in farfield.angles_from_unflattened_transverse_wavevectors(jnp.asarray(K), jnp.asarray(w)))
            sol = np.asarray(farfield.solid_angle_from_unflattened_transverse_wavevectors(jnp.asarray(K), jnp.asarray(w)))
        s = kt * w[:, None, None] / (2 * np.pi)
        ctx.step(2)
        what = f"lattice of wavevectors ({case['lat']})"
        if not ctx.true(pol.shape == s.shape and sol.shape == s.shape, f"{what}: shapes {pol.shape}, {sol.shape}"):
            return
        clear = np.abs(s - 1) > 1e-9
        ctx.close(np.sin(pol)[clear], np.minimum(s, 1)[clear], 1e-9, f"{what}: sine of the polar angle")
        ctx.close(np.cos(pol)[clear], np.sqrt(np.maximum(1 - s**2, 0))[clear], 1e-7, f"{what}: cosine of the polar angle")
        some = kt > 0
        az = np.broadcast_to(az, s.shape)
        unit = (k[..., 0] + 1j * k[..., 1]) / np.where(some, kt, 1)
        ctx.close(np.exp(1j * az)[:, some], np.broadcast_to(unit, s.shape)[:, some], 1e-9, f"{what}: azimuthal angle")
        inside = clear & (s < 1)
        inside[:, [0, -1]] = inside[:, :, [0, -1]] = False
        area = abs(b1[0] * b2[1] - b1[1] * b2[0])
        want = area * (w[:, None, None] / (2 * np.pi)) ** 2 / np.sqrt(np.maximum(1 - s**2, 1e-12))
        ctx.close((sol / want)[inside], np.ones(inside.sum()), 1e-7, f"{what}: solid angle")
        for i in range(len(w)):
            ctx.state(case["lat"], w[i])
    ctx.outcome(case["lat"])


def layout(case):
    """(axes, position of extras, function building an array from its [extras..., a, b, trailing...] form)."""
    import numpy as np

    axes = tuple(case["axes"])
    nb = 2 + len(case["extra"])
    others = [i for i in range(nb) if i not in axes]

    def build(x):  # x: extras..., a, b, trailing...
        ne = len(case["extra"])
        return np.moveaxis(x, list(range(nb)), others + list(axes)) if nb else x

    return axes, others, build


def run_layout(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import basis, farfield, jnp

    c = coefs(case["exp"])
    ex = lib.expansion(c)
    g, extra = tuple(case["grid"]), tuple(case["extra"])
    N, ns = len(c), 2
    axes, others, build = layout(case)
    lat = "obl"
    lv = lib.lattice(lat)
    k = np.asarray(basis.brillouin_zone_in_plane_wavevector(g, lv))
    kk = build(k.reshape((1,) * len(extra) + g + (2,)))
    x = labels(extra + g + (2 * N, ns))
    flux = build(x)
    ndim = flux.ndim
    ax = tuple(a - ndim for a in axes) if case["neg"] else axes
    ctx.state(case)
    # Labelled flux: [extras, a, b, pol * N + order, source] -> [extras, pol, source, a, b, order]
    y = np.moveaxis(x.reshape(extra + g + (2, N, ns)), (-3, -1, -2), (len(extra), len(extra) + 1, -1))
    want = np.moveaxis(place(y, c, g), (-4, -3), (-2, -1))
    got = farfield.unflatten_flux(jnp.asarray(flux), ex, ax)
    ctx.step()
    same(ctx, got, want, f"flux map with axes {ax}")
    kt = basis.transverse_wavevectors(jnp.asarray(kk), lv, ex)
    kax = tuple(a - kt.ndim for a in axes) if case["neg"] else axes
    km = np.asarray(farfield.unflatten_transverse_wavevectors(kt, ex, kax))
    kref = np.asarray(basis.transverse_wavevectors(jnp.asarray(k), lv, ex))
    kwant = np.moveaxis(place(np.moveaxis(kref, -1, 0), c, g), 0, -1).reshape((1,) * len(extra) + km.shape[-3:])
    same(ctx, km, kwant, f"wavevector map with axes {kax}")
    ctx.step(2)
    if case["wl"] == "batch":
        w = 0.3 + 0.1 * np.arange(int(np.prod(extra))).reshape(extra)
        wl = build(w.reshape(extra + (1, 1)))
    else:
        w = np.full((1,) * len(extra), 0.35)
        wl = np.asarray(0.35)
    pol, az, sol, prof = farfield.farfield_profile(jnp.asarray(flux), jnp.asarray(wl), jnp.asarray(kk), lv, ex, ax)
    ctx.step()
    kx, ky = kwant[..., 0], kwant[..., 1]
    s = np.hypot(kx, ky) * w[..., None, None] / (2 * np.pi)
    same(ctx, pol, np.where(s > 1, np.pi / 2, np.arcsin(np.minimum(s, 1))), "polar angle")
    same(ctx, az, np.broadcast_to(np.arctan2(ky, kx), np.asarray(az).shape), "azimuthal angle")
    sol = np.asarray(sol)
    same(ctx, np.asarray(prof) * sol[..., None, None], np.where(np.isnan(sol)[..., None, None], np.nan, want), "profile times solid angle is the flux")
    b1, b2 = np.asarray(lv.reciprocal.u), np.asarray(lv.reciprocal.v)
    cell = abs(b1[0] * b2[1] - b1[1] * b2[0]) / (g[0] * g[1])
    inner = np.zeros(kx.shape[-2:], bool)
    miss = np.isnan(kx.reshape((-1,) + kx.shape[-2:])[0])
    for i in range(1, miss.shape[0] - 1):
        for j in range(1, miss.shape[1] - 1):
            inner[i, j] = not miss[i - 1 : i + 2, j - 1 : j + 2].any()
    ref = cell * w[..., None, None] ** 2 / np.sqrt(np.maximum(1 - s**2, 0))
    ref = np.broadcast_to(ref, sol.shape)
    sel = np.broadcast_to(inner, sol.shape) & (np.broadcast_to(s, sol.shape) < 0.999)
    if sel.any():
        ctx.close(sol[sel], ref[sel], 1e-7, "solid angle of interior cells")
    direct_sol = farfield.solid_angle_from_unflattened_transverse_wavevectors(jnp.asarray(kwant), jnp.asarray(w))
    same(ctx, np.broadcast_to(np.asarray(direct_sol), sol.shape), sol, "solid angle function")
    # Integrals, exact without upsampling.
    inc = lambda p, a: p < 0.6
    for sources in (ns,):
        tot = farfield.integrated_flux(jnp.asarray(flux), jnp.asarray(wl), jnp.asarray(kk), lv, ex, ax, inc, 1)
        ctx.step()
        sk = np.hypot(kref[..., 0], kref[..., 1])  # a, b, order
        m = np.arcsin(np.minimum(sk * w[..., None, None, None] / (2 * np.pi), 1)) < 0.6  # extras, a, b, order
        m = np.broadcast_to(m, extra + m.shape[-3:])
        z = x.reshape(extra + g + (2, N, ns)).sum(axis=-3)
        ctx.close(tot, (z * m[..., None]).sum(axis=(-4, -3, -2)), 1e-9, f"integrated flux with axes {ax}")
    ctx.outcome(case["extra"], axes, np.asarray(tot).ravel()[0])


REGIONS = {
    "all": lambda p, a: p > -1,
    "none": lambda p, a: p > 9,
    "cone": lambda p, a: p <= 0.5,
    "ring": lambda p, a: (p > 0.5) & (p <= 1.1),
    "rest": lambda p, a: p > 1.1,
    "half": lambda p, a: a > 0.1,
}


def run_sum(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import basis, farfield, jnp

    c = np.asarray(coefs(case["exp"]))
    ex = lib.expansion(c.tolist())
    g = tuple(case["grid"])
    up = case["up"]
    N, ns = len(c), 2
    for lat, wl in (("obl", 0.4), ("left", 0.9)):
        lv = lib.lattice(lat)
        k = basis.brillouin_zone_in_plane_wavevector(g, lv)
        n = g[0] * g[1] * 2 * N * ns
        x = np.cos(1.3 * np.arange(n)).reshape(g + (2 * N, ns)) ** 2 + 0.1
        f = lambda fl, fn: np.asarray(farfield.integrated_flux(jnp.asarray(fl), jnp.asarray(wl), k, lv, ex, (0, 1), fn, up))
        res = {r: f(x, fn) for r, fn in REGIONS.items()}
        ctx.step(len(REGIONS))
        ctx.state(case, lat)
        ctx.close(res["all"], x.sum(axis=(0, 1, 2)), 1e-9, f"total flux ({lat}, upsampling {up})")
        ctx.close(res["none"], np.zeros(ns), 1e-12, "nothing selected")
        ctx.close(res["cone"] + res["ring"] + res["rest"], res["all"], 1e-9, "additive over disjoint regions")
        nh = f(x, lambda p, a: ~REGIONS["half"](p, a))
        ctx.close(res["half"] + nh, res["all"], 1e-9, "additive over complements")
        y = x[::-1, :, ::-1, ::-1].copy()
        ctx.close(f(2 * x - 0.3 * y, REGIONS["ring"]), 2 * res["ring"] - 0.3 * f(y, REGIONS["ring"]), 1e-9, "linear in the flux")
        for r in REGIONS:
            ctx.true(np.all(res[r] >= -1e-12) and np.all(res[r] <= res["all"] * (1 + 1e-9)), f"bounded flux in {r}")
        ctx.step(4)
        # Independent integral: separable linear interpolation with half-pixel centres, where nothing is missing.
        lo, hi = c.min(axis=0), c.max(axis=0)
        full = N == (hi[0] - lo[0] + 1) * (hi[1] - lo[1] + 1)
        if full or up == 1:
            kref = np.asarray(basis.transverse_wavevectors(k, lv, ex))
            km = np.nan_to_num(np.moveaxis(place(np.moveaxis(kref, -1, 0), c, g), 0, -1))
            fm = np.nan_to_num(np.moveaxis(place(np.moveaxis(x.reshape(g + (2, N, ns)), (2, 4), (0, 1)), c, g), (0, 1), (2, 3)))
            W = [interp(s, up) for s in km.shape[:2]]
            ku = np.einsum("ai,bj,ijc->abc", W[0], W[1], km)
            fu = np.einsum("ai,bj,ijps->abps", W[0], W[1], fm) / up**2
            s = np.hypot(ku[..., 0], ku[..., 1]) * wl / (2 * np.pi)
            p, a = np.arcsin(np.minimum(s, 1)), np.arctan2(ku[..., 1], ku[..., 0])
            edge = min(np.abs(p - 0.5).min(), np.abs(p - 1.1).min(), np.abs(a - 0.1).min())
            vague = np.min(s) < 1e-7 or np.min(np.pi - np.abs(a)) < 1e-7  # azimuth undefined or at its branch cut
            if edge > 1e-7:
                for r, fn in REGIONS.items():
                    if r == "half" and vague:
                        continue
                    ctx.close(res[r], (fu * fn(p, a)[..., None, None]).sum(axis=(0, 1, 2)), 1e-9, f"integral over {r} ({lat})")
        ctx.outcome(case["exp"], g, up, lat, np.round(res["cone"], 6).tobytes())


def interp(n, up):
    """Matrix of linear interpolation from n to n * up samples (half-pixel centres, clamped)."""
    import numpy as np

    W = np.zeros((n * up, n))
    for i in range(n * up):
        x = (i + 0.5) / up - 0.5
        x = min(max(x, 0.0), n - 1.0)
        lo = int(np.floor(x))
        t = x - lo
        W[i, lo] += 1 - t
        if t > 0:
            W[i, lo + 1] += t
    return W
