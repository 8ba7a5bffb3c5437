"""C12: amplitudes recovered from fields regenerate exactly those fields."""
import itertools

from mc.engine import deviations

TECHNIQUE = "exhaustive enumeration of layers, grids, batch layouts and of the complete amplitude basis of each layer (the map is linear); fields synthesised by explicit plane-wave sums are converted back by the real code"
BOUNDS = {
    "quick": "all amplitude basis vectors of both directions for 12 media/formulations x {6 lattices, 4 wavevectors, 7 grids, 5 expansions} one at a time; supercells: 7 grid shapes x 3 media x every wavevector, 8 batch layouts; 14 malformed calls",
    "thorough": "as quick with all pairs of deviations; supercells up to 4 x 3",
}
ASSUMPTIONS = ["layers whose modes are linearly independent (tangent fields of small mean make coarse anisotropic vector truncations singular)", "a supercell field is the average over the wavevector grid of the component fields (the package's convention)", "grid axes are given as positive batch axes, or negative ones counted on the field arrays"]
MAX_CHUNK = 12
LAYERS = [
    ("die", "gen", "fft"), ("abs", "uni", "fft"), ("die", "gen", "jones_direct"), ("anis", "gen", "jones_direct"), ("magt", "gen", "fft"), ("gyro", "smooth", "fft"),
    ("met", "disk", "jones"), ("pml", "gen", "jones"), ("anyt", "uni", "fft"), ("magt", "uni", "fft"), ("vac", "uni", "fft"), ("mag", "gx", "jones_direct_fourier"),
]
DIMS = dict(
    layer=list(range(len(LAYERS))),
    lat=["obl", "sq", "rect", "hex", "left", "rot"],
    k=["gen", "zero", "kx", "big"],
    grid=["min", "big", "odd", "wide", "tall", "minx", "miny"],
    exp=["c5", "x3", "asym", "shuf", "one"],
)


def cases(tier):
    for c in deviations(DIMS, 1 if tier == "quick" else 2):
        yield dict(part="single", **c)
    grids = [(2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (1, 1)]
    if tier != "quick":
        grids += [(4, 3), (2, 5), (5, 1)]
    for g in grids:
        for m in (0, 4, 1):
            for lat in ("obl", "left"):
                yield dict(part="bz", grid=g, layer=m, lat=lat, layout="plain")
    for lay in ("first", "last", "mid", "swap", "swapneg", "neg", "one", "nobatch"):
        for g in ((2, 3), (3, 2)):
            yield dict(part="bz", grid=g, layer=0, lat="obl", layout=lay)
    yield dict(part="bad")


def group(c):
    if c["part"] == "single":
        return ("single", c["exp"], c["grid"])
    return (c["part"], str(c.get("grid")), c.get("layout"))


def weight(c):
    return 2 if c["part"] == "single" else 3


_J = {}


def conv(ex, ey, hx, hy, res, axes=None):
    from mc.lib import jax, jnp, sources

    if axes not in _J:
        _J[axes] = jax.jit(lambda a, b, c, d, r: sources.amplitudes_for_fields(a, b, c, d, r, axes))
    return _J[axes](*[jnp.asarray(x) for x in (ex, ey, hx, hy)], res)


def synth(E, H, a, b, kx, ky, x, y):
    """Transverse fields on points (x, y) for amplitudes a, b (columns) of modes E, H: 4 arrays (..., columns)."""
    import numpy as np

    n = len(kx)
    e, h = E @ (a - b), H @ (a + b)
    P = np.exp(1j * (x[..., None] * kx + y[..., None] * ky))
    f = lambda c: P @ c
    return f(e[n:]), f(-e[:n]), f(h[:n]), f(h[n:])


def points(lat, shape, cells=(1, 1)):
    import numpy as np

    u, v = (np.asarray(t, float) for t in lat)
    i, j = np.meshgrid(np.arange(shape[0] * cells[0]) / shape[0], np.arange(shape[1] * cells[1]) / shape[1], indexing="ij")
    return i * u[0] + j * v[0], i * u[1] + j * v[1]


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def run_single(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import fft, fields, jnp

    name, pat, form = LAYERS[case["layer"]]
    k = lib.KS[case["k"]]
    res, A, B, med = lib.cached_layer(name, pat, (8, 7), 0.83, k, case["lat"], case["exp"], form)
    c = lib.EXP[case["exp"]]
    mx, my = (2 * max(abs(a[i]) for a in c) + 1 for i in (0, 1))
    shape = {"min": (mx, my), "big": (mx + 4, my + 3), "odd": (mx + 2, my + 2), "wide": (mx + 7, my + 1), "tall": (mx + 1, my + 6), "minx": (mx, my + 4), "miny": (mx + 5, my)}[case["grid"]]
    q, E, H = lib.impl_modes(res, A)
    n = len(q)
    ctx.state(case)
    I, Z = np.eye(n), np.zeros((n, n))
    a, b = np.hstack([I, Z, 0.7 * I + 0.1]), np.hstack([Z, I, 0.3j * I - 0.2])
    kx, ky = ref.kvec(k, lib.LAT[case["lat"]], c)
    x, y = points(lib.LAT[case["lat"]], shape)
    F = synth(E, H, a, b, kx, ky, x, y)
    ga, gb = conv(*F, lib.strip(res))
    ctx.step()
    ctx.close(ga, a, 1e-6, f"forward amplitudes from fields on {shape}")
    ctx.close(gb, b, 1e-6, f"backward amplitudes from fields on {shape}")
    # The package's own field evaluation regenerates the fields from the recovered amplitudes.
    if "fields" not in _J:
        _J["fields"] = lib.jax.jit(lambda a, b, r, s: fields.fields_on_grid(*fields.fields_from_wave_amplitudes(a, b, r), r, s, (1, 1)), static_argnums=3)
    (ex, ey, _), (hx, hy, _), _ = _J["fields"](ga, gb, lib.strip(res), shape)
    ctx.step()
    for got, want, nm in zip((ex, ey, hx, hy), F, ("Ex", "Ey", "Hx", "Hy")):
        ctx.close(got, want, 1e-6, f"{nm} regenerated on {shape}")
    ctx.outcome(case["layer"], np.round(np.abs(np.asarray(ex).ravel()[0]), 5))


def run_bz(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import basis, jnp

    name, pat, form = LAYERS[case["layer"]]
    g = tuple(case["grid"])
    lat = case["lat"]
    lv = lib.lattice(lat)
    ks = np.asarray(basis.brillouin_zone_in_plane_wavevector(g, lv))
    med = lib.medium(name, pat, (8, 7))
    lay = case["layout"]
    c = lib.EXP["c5"]
    n = 2 * len(c)
    shape = (4, 3)
    # Batch layout: axes of the wavevector grid and an optional further axis of wavelengths.
    wls = np.array([0.83, 1.1]) if lay in ("first", "last", "mid") else np.array([0.83])
    if lay == "plain" or lay in ("swap", "swapneg", "neg", "one", "nobatch"):
        kk, wl, axes = ks, np.asarray(0.83), (0, 1)
        if lay in ("swap", "swapneg"):
            kk, axes = np.swapaxes(ks, 0, 1), (1, 0)
        if lay == "one":
            kk, axes = ks[None], (1, 2)
    elif lay == "first":
        kk, wl, axes = ks[None], wls[:, None, None], (1, 2)
    elif lay == "last":
        kk, wl, axes = ks[:, :, None], wls, (0, 1)
    else:
        kk, wl, axes = ks[:, None], wls[None, :, None], (0, 2)
    res = lib.strip(lib.solve(med, wl, kk, lat, "c5", lib.F(form)))
    bs = res.batch_shape
    ctx.step()
    ctx.state(case)
    cols = 3
    amp = np.arange(int(np.prod(bs)) * n * cols * 2).reshape(bs + (2, n, cols))
    amp = np.cos(1.1 * amp) + 1j * np.sin(0.7 * amp**1.5)
    x, y = points(lib.LAT[lat], shape, g)
    comps = {}
    for idx in np.ndindex(*bs):
        w = float(np.broadcast_to(wl, bs)[idx])
        k = np.broadcast_to(kk, bs + (2,))[idx]
        A, B = lib.ref_ops(med, w, k, lat, "c5")
        q, H = np.asarray(res.eigenvalues)[idx], np.asarray(res.eigenvectors)[idx]
        E = A @ H / q[None, :]
        kx, ky = ref.kvec(k, lib.LAT[lat], c)
        comps[idx] = synth(E, H, amp[idx][0], amp[idx][1], kx, ky, x, y)
    bz = tuple(axes)
    other = [d for d in range(len(bs)) if d not in bz]

    def average(i):
        """Field i averaged over the wavevector grid; array of shape (batch with size-1 grid axes) + (X, Y, cols)."""
        full = np.zeros(bs + comps[next(iter(comps))][0].shape, complex)
        for idx in comps:
            full[idx] = comps[idx][i]
        return full.mean(axis=bz, keepdims=True)

    F = [average(i) for i in range(4)]
    if lay in ("nobatch",):
        F = [f[0, 0] for f in F]
    use = axes
    if lay in ("neg", "swapneg"):
        use = tuple(a - F[0].ndim for a in axes)
    ga, gb = conv(*F, res, axes=use)
    ctx.step()
    ctx.close(ga, amp[..., 0, :, :], 1e-6, f"forward amplitudes of every wavevector, layout {lay} {g}")
    ctx.close(gb, amp[..., 1, :, :], 1e-6, f"backward amplitudes of every wavevector, layout {lay} {g}")
    # A single component is received by its own wavevector only.
    if lay == "plain":
        for idx in comps:
            P = [f / np.prod(g) for f in comps[idx]]
            ga, gb = conv(*P, res, axes=axes)
            ctx.step()
            want = np.zeros(bs + (n, cols), complex)
            want[idx] = amp[idx][0]
            ctx.close(ga, want, 1e-6, f"component of wavevector {idx} only")
            want = np.zeros(bs + (n, cols), complex)
            want[idx] = amp[idx][1]
            ctx.close(gb, want, 1e-6, f"component of wavevector {idx} only (backward)")
    ctx.outcome(lay, g, np.round(np.abs(np.asarray(ga).ravel()[0]), 5))


def run_bad(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import basis, jnp, sources

    med = lib.medium("die", "gen", (8, 7))
    one = lib.strip(lib.solve(med, 0.83, (0.3, 0.1), "obl", "c5"))
    ks = basis.brillouin_zone_in_plane_wavevector((2, 3), lib.lattice("obl"))
    grid = lib.strip(lib.solve(med, 0.83, ks, "obl", "c5"))
    f = lambda s: jnp.ones(s, complex)
    call = lambda shapes, res, axes=None: (lambda: sources.amplitudes_for_fields(*[f(s) for s in shapes], res, axes))
    ok = [
        ([(4, 3, 2)] * 4, one, None), ([(6, 9, 1)] * 4, grid, (0, 1)), ([(1, 1, 8, 9, 1)] * 4, grid, (0, 1)), ([(2, 3, 4, 3, 1)] * 4, grid, None),
    ]
    for i, (s, r, a) in enumerate(ok):
        out = call(s, r, a)()
        ctx.step()
        ctx.state("ok", i)
        ctx.true(np.all(np.isfinite(np.asarray(out[0]))), f"valid call {i}")
    bad = {
        "nx not divisible": ([(7, 9, 1)] * 4, grid, (0, 1)),
        "ny not divisible": ([(6, 8, 1)] * 4, grid, (0, 1)),
        "divisible only for exchanged axes": ([(9, 8, 1)] * 4, grid, (0, 1)),
        "rank two": ([(6, 9)] * 4, one, None),
        "too coarse": ([(2, 3, 1)] * 4, one, None),
        "too coarse in y": ([(4, 2, 1)] * 4, one, None),
        "too coarse per cell": ([(4, 6, 1)] * 4, grid, (0, 1)),
        "ey differs": ([(6, 9, 1), (6, 9, 2), (6, 9, 1), (6, 9, 1)], one, None),
        "hx differs": ([(6, 9, 1), (6, 9, 1), (6, 8, 1), (6, 9, 1)], one, None),
        "hy differs": ([(6, 9, 1), (6, 9, 1), (6, 9, 1), (7, 9, 1)], one, None),
        "ex differs": ([(1, 6, 9, 1), (6, 9, 1), (6, 9, 1), (6, 9, 1)], one, None),
        "batch incompatible": ([(3, 3, 6, 9, 1)] * 4, grid, (0, 1)),
        "duplicate axes": ([(2, 3, 6, 9, 1)] * 4, grid, (0, 0)),
        "axes out of range": ([(2, 3, 6, 9, 1)] * 4, grid, (0, 7)),
    }
    for n, (s, r, a) in bad.items():
        ctx.state(n)
        ctx.raises(call(s, r, a), n)
        ctx.outcome(n)
