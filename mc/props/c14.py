"""C14: Brillouin-zone sampling; a supercell is the union of its folded unit-cell problems."""
import itertools

TECHNIQUE = "exhaustive enumeration of grid shapes, lattices, media and wavevector indices; the supercell problem is solved by the same code and compared with the union of the unit-cell problems, the samples with the defining formula"
BOUNDS = {
    "quick": "grids: all shapes n x 1 and 1 x n up to 200, all shapes up to 9 x 9 for 6 lattices, invalid shapes from a menu of 24; supercells: 6 grid shapes x 7 media/lattices, all sampled wavevectors, spectra and stack response",
    "thorough": "grids: all shapes n x 1 and 1 x n up to 600, all shapes up to 24 x 24 for 6 lattices; supercells: 9 grid shapes x 20 media/lattices",
}
ASSUMPTIONS = ["supercells are solved with the FFT formulation, in which the folding is exact"]
MAX_CHUNK = 4
GRIDS = [(2, 1), (1, 2), (3, 1), (2, 2), (1, 3), (3, 2)]
CONF = [("die", "gen", "obl"), ("magt", "gen", "obl"), ("anyt", "smooth", "left"), ("met", "disk", "hex"), ("die", "uni", "rot"), ("gyro", "gx", "rect"), ("mag", "smooth", "sq")]


def cases(tier):
    n = 9 if tier == "quick" else 24
    for lat in ("sq", "rect", "obl", "hex", "left", "rot"):
        for a in range(1, n + 1):
            yield dict(part="grid", lat=lat, a=a, n=n)
    m = 200 if tier == "quick" else 600
    for a in range(1, m, 20):
        yield dict(part="line", lat="obl", a=a, b=min(a + 20, m + 1))
    yield dict(part="bad")
    grids = GRIDS if tier == "quick" else GRIDS + [(4, 1), (1, 4), (3, 3)]
    conf = CONF if tier == "quick" else [(m, p, l) for m in ("die", "magt", "anyt", "met") for p in ("gen", "smooth") for l in ("obl", "left", "sq")] + CONF
    for g in grids:
        for m, p, l in conf:
            yield dict(part="super", grid=g, med=m, pat=p, lat=l)


def group(c):
    return (c["part"], str(c.get("grid")), c.get("lat") if c["part"] == "grid" else "")


def weight(c):
    return 6 if c["part"] == "super" else 0.3


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def run_grid(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import basis

    lv = lib.lattice(case["lat"])
    b1, b2 = ref.recip(lib.LAT[case["lat"]])
    a = case["a"]
    for b in range(1, case["n"] + 1):
        k = np.asarray(basis.brillouin_zone_in_plane_wavevector((a, b), lv))
        ctx.step()
        ctx.state(case["lat"], a, b)
        i = ((np.arange(a) + 0.5) / a - 0.5)[:, None, None]
        j = ((np.arange(b) + 0.5) / b - 0.5)[None, :, None]
        want = 2 * np.pi * (i * b1 + j * b2)
        if ctx.close(k, want, 1e-9, f"wavevectors of grid {a, b}"):
            ctx.outcome(np.round(k[0, 0], 9).tobytes())
            # One sample per voxel of the zone: fractional coordinates in [-1/2, 1/2), average zero.
            u, v = (np.asarray(x) for x in lib.LAT[case["lat"]])
            f = np.stack([k @ u, k @ v], -1) / (2 * np.pi)
            cell = np.floor((f + 0.5) * [a, b]).astype(int).reshape(-1, 2)
            ctx.true(sorted(map(tuple, cell.tolist())) == sorted(itertools.product(range(a), range(b))), f"grid {a, b} does not tile the zone")


def run_line(case, ctx):
    """Every number of samples along one direction."""
    import numpy as np

    from mc import lib, ref
    from mc.lib import basis

    lv = lib.lattice(case["lat"])
    b1, b2 = ref.recip(lib.LAT[case["lat"]])
    for n in range(case["a"], case["b"]):
        f = (np.arange(n) + 0.5) / n - 0.5
        for g, want in (((n, 1), f[:, None, None] * b1), ((1, n), f[None, :, None] * b2)):
            ctx.step()
            ctx.state(g)
            ctx.close(np.asarray(basis.brillouin_zone_in_plane_wavevector(g, lv)), 2 * np.pi * want, 1e-9, f"wavevectors of grid {g}")
        ctx.outcome(n)


def run_bad(case, ctx):
    from mc import lib
    from mc.lib import basis

    lv = lib.lattice("obl")
    bad = [(), (1,), (3,), (1, 1, 1), (2, 2, 2)]
    for x in (0, -1, -2, -7):
        bad += [(x, 1), (1, x), (x, 3), (3, x), (x, x)]
    for g in bad:
        ctx.state(g)
        ctx.raises(lambda: basis.brillouin_zone_in_plane_wavevector(g, lv), f"grid shape {g}")
        ctx.outcome(g)


def run_super(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import basis, jnp

    n1, n2 = case["grid"]
    u, v = (np.asarray(x, float) for x in lib.LAT[case["lat"]])
    shape = (8, 7)
    wl = 0.9
    coef = np.asarray(lib.EXP["c5"])
    N = len(coef)
    med = lib.medium(case["med"], case["pat"], shape)
    caps = [lib.medium("die", "uni", shape), lib.medium("abs", "uni", shape)]
    ks = np.asarray(basis.brillouin_zone_in_plane_wavevector((n1, n2), lib.lattice(case["lat"])))
    sup = ((n1 * u).tolist(), (n2 * v).tolist())
    tile = lambda x: x if x.shape == (1, 1) else np.tile(x, (n1, n2))
    smed = dict(med, eps=[tile(x) for x in med["eps"]], mu=[tile(x) for x in med["mu"]])
    scoef = np.concatenate([coef * [n1, n2] + [i, j] for i in range(n1) for j in range(n2)])
    ex = lib.expansion(scoef.tolist())
    S = [lib.solve(m, wl, ks[0, 0], sup, ex) for m in (caps[0], smed, caps[1])]
    ctx.step(3)
    ctx.state(case)
    ts = (0.2, 0.31, 0.4)
    P = lib.port(S, ts)
    union = []
    n = n1 * n2 * N
    for b, (i, j) in enumerate(itertools.product(range(n1), range(n2))):
        L = [lib.solve(m, wl, ks[i, j], case["lat"], "c5") for m in (caps[0], med, caps[1])]
        ctx.step(3)
        union += [np.asarray(x.eigenvalues) for x in L[1:2]]
        p = lib.port(L, ts)
        # Rows of the supercell's port matrix belonging to this wavevector.
        idx = np.concatenate([s * n + b * N + np.arange(N) for s in range(4)])
        ctx.close(P[np.ix_(idx, idx)], p, 1e-7, f"response at wavevector {i, j}")
        other = np.setdiff1d(np.arange(4 * n), idx)
        ctx.close(P[np.ix_(other, idx)], np.zeros((4 * n - 4 * N, 4 * N)), 1e-7, f"coupling from wavevector {i, j} to the others")
        ctx.outcome(np.round(p.ravel()[:3], 6).tobytes())
    q2 = np.concatenate(union) ** 2
    s2 = np.asarray(S[1].eigenvalues) ** 2
    ctx.close(lib.match(q2, s2) / np.abs(q2).max(), 0.0, 1e-8, "spectrum of the supercell is the union of the unit cell spectra")
