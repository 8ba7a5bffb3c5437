"""C16: tangent vector fields are tangential, bounded, finite and scale free."""
import itertools

TECHNIQUE = "exhaustive enumeration of all binary patterns on tiny grids (as one batch per scheme and lattice), closed under the symmetry operations that the field must follow; all orientations, duty cycles and phases of one-dimensional patterns; transformations of generic patterns"
SCHEMES = ["jones_direct", "jones", "normal", "pol", "jones_direct_fourier", "jones_fourier", "normal_fourier", "pol_fourier"]
LATS = ["sq", "obl", "hex", "left", "rect", "rot"]
BOUNDS = {
    "quick": "all 512 binary patterns on a 3 x 3 grid for 8 schemes and 2 lattices, all their translations, complements, transposes and quarter turns; 7 orientations x duty cycles x 5 contrasts of one-dimensional patterns for 8 schemes and 6 lattices; 12 transformations of 4 generic patterns, repeated cells with exactly matching orders, and 5 samplings of a smooth pattern",
    "thorough": "also all 4096 binary patterns on a 4 x 3 grid and all 512 for 6 lattices and 3 expansions, ternary 3 x 3 patterns (19683)",
}
ASSUMPTIONS = [
    "orientations other than the cell axes and diagonals are tangential up to the discretisation of the gradient",
    "fields are compared as projectors t t^dagger (sign and phase of a tangent field are immaterial); unit-magnitude normal fields where the underlying field is not close to zero",
    "contrasts are not below 1e-6 (smaller ones count as uniform)",
]
MAX_CHUNK = 4


def cases(tier):
    lats = ["sq", "obl"] if tier == "quick" else LATS
    exps = ["b9"] if tier == "quick" else ["b9", "c5", "x3"]
    for lat in lats:
        for s in SCHEMES:
            for exp in exps:
                yield dict(part="binary", scheme=s, lat=lat, exp=exp, grid=(3, 3), levels=2)
    if tier == "thorough":
        for s in SCHEMES:
            yield dict(part="binary", scheme=s, lat="hex", exp="b9", grid=(4, 3), levels=2)
            yield dict(part="binary", scheme=s, lat="sq", exp="c5", grid=(3, 3), levels=3)
    for s in SCHEMES:
        yield dict(part="stripes", scheme=s, deep=tier == "thorough")
    for s in SCHEMES:
        yield dict(part="generic", scheme=s)
    for lat in LATS:
        yield dict(part="gradient", lat=lat)
    yield dict(part="normalise")


def group(c):
    return (c["part"], c.get("scheme"))


def weight(c):
    return 10 if c["part"] == "stripes" else 6


_J = {}


def field(scheme, exp, arr, lat, steps=None):
    """Tangent field of a batch of patterns: array (..., nx, ny, 2)."""
    import functools

    import numpy as np

    from mc import lib
    from mc.lib import basis, jax, jnp, vector

    key = (scheme, steps)
    if key not in _J:
        fn = vector.VECTOR_FIELD_SCHEMES[scheme]
        if steps:
            kw = dict(fn.keywords)
            fn = functools.partial(vector.compute_tangent_field, use_jones_direct="direct" in scheme, steps=steps, **kw)
        _J[key] = jax.jit(lambda a, e, l: fn(a, e, l))
    lv = lat if isinstance(lat, basis.LatticeVectors) else lib.lattice(lat)
    ex = exp if isinstance(exp, basis.Expansion) else lib.expansion(exp)
    tx, ty = _J[key](jnp.asarray(arr), ex, lv)
    return np.stack([np.asarray(tx), np.asarray(ty)], axis=-1)


def proj(t):
    import numpy as np

    return t[..., :, None] * np.conj(t[..., None, :])


def mag(t):
    import numpy as np

    return np.sqrt(np.sum(np.abs(t) ** 2, axis=-1))


def bounds(ctx, scheme, t, what, varying=None):
    import numpy as np

    m = mag(t)
    ctx.true(np.all(np.isfinite(m)), f"{what}: field not finite")
    ctx.true(np.all(m <= 1 + 1e-6), f"{what}: magnitude {np.nanmax(m):.6f} exceeds one")
    if scheme in ("jones", "jones_fourier"):
        ctx.close(m, np.ones_like(m), 1e-6, f"{what}: magnitude of a Jones field")
    if varying is not None and varying.any():
        mm = m.reshape(m.shape[: varying.ndim] + (-1,)).max(-1)[varying]
        ctx.close(mm, np.ones_like(mm), 1e-6, f"{what}: largest magnitude")


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def same(ctx, scheme, t, want, what, base=None, tol=1e-6):
    """Compares fields as projectors; `base` is the unnormalised field deciding where a unit normal field is defined."""
    import numpy as np

    P, W = proj(t), proj(want)
    if scheme.startswith("normal") and base is not None:
        ok = (mag(base) > 1e-5)[..., None, None]
        P, W = np.where(ok, P, 0), np.where(ok, W, 0)
    ctx.close(P, W, tol, what, scale=1.0)


def run_binary(case, ctx):
    """All patterns on a tiny grid; the field of a transformed pattern is the transformed field of the pattern."""
    import numpy as np

    from mc import lib

    s, lat, (nx, ny), L = case["scheme"], case["lat"], case["grid"], case["levels"]
    n = L ** (nx * ny)
    digits = (np.arange(n)[:, None] // L ** np.arange(nx * ny)) % L
    pats = digits.reshape(n, nx, ny) / (L - 1)
    code = lambda p: (np.rint(p * (L - 1)).astype(int).reshape(len(p), -1) * L ** np.arange(nx * ny)).sum(-1)
    t = field(s, case["exp"], 1 + 2 * pats, lat)
    base = field("pol" + s[s.index("_fourier") :] if "_fourier" in s else "pol", case["exp"], 1 + 2 * pats, lat) if s.startswith("normal") else None
    ctx.step(n)
    for i in range(n):
        ctx.state(s, lat, case["exp"], case["grid"], L, i)
    what = f"{s} on {lat}, all {n} patterns"
    bounds(ctx, s, t, what)
    # Translations of the grid.
    for a, b in itertools.product(range(nx), range(ny)):
        idx = code(np.roll(pats, (a, b), axis=(1, 2)))
        same(ctx, s, t[idx], np.roll(t, (a, b), axis=(1, 2)), f"{what}: translation by {a, b}", None if base is None else base[idx])
    # Complement: same interfaces.
    idx = code(1 - pats)
    same(ctx, s, t[idx], t, f"{what}: complement", base)
    # Contrast, offset, complex scale.
    for al, be in ((1e3, 0.0), (1e-4, 3.0), (-2.0, 1.0), (1.0, -5.0), (0.6 + 0.8j, 0.2j), (1j, 0.0)):
        t2 = field(s, case["exp"], (al * (pats if np.isreal(al) else pats + 0j) + be), lat)
        ctx.step(n)
        same(ctx, s, t2, t, f"{what}: pattern times {al} plus {be}", base)
    # Uniform patterns.
    u = t[[0, n - 1]]
    ctx.close(u, np.broadcast_to(u[:, :1, :1], u.shape), 1e-7, f"{what}: uniform patterns")
    # Scale of the cell.
    lv = lib.lattice(lat)
    for sc in (1e-6, 730.0):
        t3 = field(s, case["exp"], 1 + 2 * pats, type(lv)(u=lv.u * sc, v=lv.v * sc))
        ctx.step(n)
        same(ctx, s, t3, t, f"{what}: cell scaled by {sc}", base)
    # Rotation of the frame (a uniform pattern has no direction to follow; nor has one without visible orders).
    F2 = np.abs(np.fft.fft2(pats))
    vis = sum(F2[:, a % nx, b % ny] for a, b in lib.EXP[case["exp"]] if (a, b) != (0, 0)) > 1e-6
    vis = vis[:, None, None, None]
    for th in (0.7, 2.5):
        R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        t4 = field(s, case["exp"], 1 + 2 * pats, type(lv)(u=R @ np.asarray(lv.u), v=R @ np.asarray(lv.v)))
        ctx.step(n)
        same(ctx, s, vis * t4, vis * (t @ R.T), f"{what}: frame rotated by {th}", base)
    # Exchange of the lattice vectors together with the array axes.
    if nx == ny:
        ex = [[b, a] for a, b in lib.EXP[case["exp"]]]
        t5 = field(s, ex, 1 + 2 * np.swapaxes(pats, 1, 2), type(lv)(u=lv.v, v=lv.u))
        ctx.step(n)
        same(ctx, s, vis * np.swapaxes(t5, 1, 2), vis * t, f"{what}: lattice vectors exchanged", base)
    if lat == "sq" and case["exp"] == "b9" and nx == ny:
        # Quarter turn of the pattern in the square cell.
        idx = code(_turn(pats))
        R = np.array([[0.0, -1.0], [1.0, 0.0]])
        same(ctx, s, vis * t[idx], vis * (_turn(t) @ R.T), f"{what}: quarter turn", None if base is None else base[idx])
    ctx.outcome(s, lat, case["exp"], np.round(float(np.abs(t).sum()), 3))


def _turn(x):
    """Rotates periodic samples by +90 degrees about the origin: new[i, j] = old[j, -i]."""
    import numpy as np

    n = x.shape[1]
    i, j = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
    return x[:, j, (-i) % n]


def run_stripes(case, ctx):
    """One-dimensional patterns of any orientation, duty cycle, phase, contrast and material."""
    import numpy as np

    from mc import lib, ref

    s = case["scheme"]
    orient = [(1, 0), (0, 1), (1, 1), (1, -1), (2, 0), (2, 2), (0, 2)]
    for lat in LATS:
        lv = LATS and lib.LAT[lat]
        gu, gv = ref.kvec((0.0, 0.0), lv, [[1, 0], [0, 1]])
        B = np.stack([gu, gv], axis=-1)  # rows are the reciprocal vectors
        for N, exps in ((12, ("b9",)), (9, ("b15",))) if not case["deep"] else ((12, ("b9", "b15", "d7")), (9, ("b15",)), (16, ("b9",))):
            i, j = np.meshgrid(np.arange(N), np.arange(N), indexing="ij")
            pats, dirs = [], []
            for a, b in orient:
                if max(abs(a), abs(b)) > 1 and N == 9:
                    continue
                ph = (a * i + b * j) % N
                for duty in range(1, N):
                    if not np.any(ph < duty) or np.all(ph < duty):
                        continue
                    for c0, c1 in ((1.0, 2.0), (1.0, 12.0), (2.0, 2.0 + 1e-3), (1.0, -8.0 + 0.5j), (1.5 + 0.2j, 3.0 + 1.1j)):
                        pats.append(np.where(ph < duty, c1, c0) + 0j)
                        dirs.append((a, b))
            pats, dirs = np.array(pats), np.array(dirs)
            for exp in exps:
                t = field(s, exp, pats, lat)
                ctx.step(len(pats))
                what = f"{s}, {lat}, {exp}, stripes on {N} x {N}"
                # Orders of the pattern must be representable for its interfaces to be seen at all.
                orders = {tuple(x) for x in lib.EXP[exp]}
                seen = np.array([tuple(d) in orders for d in dirs])
                bounds(ctx, s, t, what)
                G = dirs @ B
                G = G / np.linalg.norm(G, axis=-1, keepdims=True)
                off = np.abs(np.einsum("pxyc,pc->pxy", t, G)).max(axis=(1, 2))
                vis = np.array([np.abs(np.fft.fft2(p))[tuple(np.mod(d, N))] > 1e-7 * N * N for p, d in zip(pats, dirs)]) & seen
                for d in orient:
                    sel = vis & np.all(dirs == np.array(d), axis=1)
                    ctx.state(s, lat, exp, N, d)
                    if sel.any():
                        ctx.true(off[sel].max() < 1e-5, f"{what}: component across the interfaces {off[sel].max():.3g} for orientation {d}, pattern {int(np.flatnonzero(sel)[off[sel].argmax()])}")
                        m = mag(t[sel])
                        ctx.close(m, np.ones_like(m), 1e-5, f"{what}: magnitude for orientation {d}")
        # Other orientations, up to the discretisation.
        N = 48
        i, j = np.meshgrid(np.arange(N), np.arange(N), indexing="ij")
        od = [(1, 2), (2, 1), (1, -2), (-2, 1)]
        pats = np.array([2 + np.cos(2 * np.pi * (a * i + b * j) / N + p) for a, b in od for p in (0.0, 0.9)])
        G = np.repeat(np.array(od), 2, axis=0) @ B
        G = G / np.linalg.norm(G, axis=-1, keepdims=True)
        exp = [[p, q] for p in (0, 1, -1, 2, -2) for q in (0, 1, -1, 2, -2)]
        t = field(s, exp, pats, lat)
        ctx.step(len(pats))
        off = np.abs(np.einsum("pxyc,pc->pxy", t, G)).max()
        ctx.true(off < 0.05, f"{s}, {lat}: oblique sinusoid has a component {off:.3g} across its fronts")
        # Arrays with a single sample along one direction.
        for shape, d in (((12, 1), (1, 0)), ((1, 12), (0, 1))):
            p = (1 + 2.0 * (np.arange(12) < 5)).reshape(shape)
            e = "x3" if d == (1, 0) else "y3"
            t = field(s, e, p, lat)
            ctx.step()
            g = np.array(d) @ B
            g = g / np.linalg.norm(g)
            ctx.true(np.abs(t @ g).max() < 1e-5 and np.abs(mag(t) - 1).max() < 1e-5, f"{s}, {lat}: array of shape {shape}")
    ctx.outcome(s)


def run_generic(case, ctx):
    """Transformations of generic patterns, converged optimisation, repeated cells."""
    import numpy as np

    from mc import lib

    s = case["scheme"]
    N = 12
    for lat in ("obl", "hex"):
        lv = lib.lattice(lat)
        pats = np.array([lib.pattern(p, (N, N)) + 0j for p in ("gen", "disk", "smooth")] + [lib.medium("abs", "gen", (N, N))["eps"][0] * np.exp(0.3j * lib.pattern("smooth", (N, N)))])
        t = field(s, "b9", pats, lat)
        what = f"{s} on {lat}"
        bounds(ctx, s, t[:3], what)
        if s.startswith("jones") and not s.startswith("jones_direct"):
            ctx.true(np.all(np.isfinite(t[3:])), f"{what}: finite for a complex pattern")  # unit magnitude needs a common phase
        else:
            bounds(ctx, "pol", t[3:], what)
        base = field("pol_fourier" if "fourier" in s else "pol", "b9", pats, lat)
        for sh in ((2, 0), (0, 2), (4, 6), (-2, 8)):
            t2 = field(s, "b9", np.roll(pats, sh, axis=(1, 2)), lat)
            same(ctx, s, t2, np.roll(t, sh, axis=(1, 2)), f"{what}: translation by {sh}", np.roll(base, sh, axis=(1, 2)))
            ctx.state(what, sh)
        for al in (3.0, -1.0, 1e-3, 1e4, np.exp(1j)):
            same(ctx, s, field(s, "b9", al * pats + 0.7, lat), t, f"{what}: times {al:.3g}", base)
            ctx.state(what, str(al))
        for sc in (1e-9, 3.7, 1e5):
            same(ctx, s, field(s, "b9", pats, type(lv)(u=lv.u * sc, v=lv.v * sc)), t, f"{what}: cell scaled by {sc}", base)
            ctx.state(what, "scale", sc)
        perm = [lib.EXP["b9"][i] for i in (3, 1, 0, 8, 2, 7, 5, 6, 4)]
        same(ctx, s, field(s, perm, pats, lat), t, f"{what}: orders permuted", base)
        # The quadratic optimisation converges in one step.
        if s.startswith(("jones_direct", "pol")):
            same(ctx, s, field(s, "b9", pats, lat, steps=3), t, f"{what}: further iterations", base)
        # A repeated cell receives a repeated field, close to that of the single cell.
        for rep in ((2, 1), (1, 2)):
            ex = [[p, q] for p in range(-2 * rep[0] + 1, 2 * rep[0]) for q in range(-2 * rep[1] + 1, 2 * rep[1])]
            big = field(s, ex, np.tile(pats, (1,) + rep), type(lv)(u=lv.u * rep[0], v=lv.v * rep[1]))
            sub = [big[:, a * N : (a + 1) * N, b * N : (b + 1) * N] for a in range(rep[0]) for b in range(rep[1])]
            sb = [x for x in sub]
            bb = field("pol_fourier" if "fourier" in s else "pol", ex, np.tile(pats, (1,) + rep), type(lv)(u=lv.u * rep[0], v=lv.v * rep[1]))[:, :N, :N]
            same(ctx, s, sb[1], sb[0], f"{what}: repeated cell {rep}", bb)
            if s.startswith(("jones_direct", "pol")):
                same(ctx, s, sb[0], t, f"{what}: repeated cell {rep} against the single cell", tol=0.15)
            ctx.state(what, rep)
        # Three repetitions with all orders up to 4 = 3 x 1 + 1: the optimisation grids match and the fields agree exactly.
        for rep in ((3, 1), (1, 3)):
            ex = [[p, q] for p in range(-1 - 3 * (rep[0] > 1), 2 + 3 * (rep[0] > 1)) for q in range(-1 - 3 * (rep[1] > 1), 2 + 3 * (rep[1] > 1))]
            big = field(s, ex, np.tile(pats, (1,) + rep), type(lv)(u=lv.u * rep[0], v=lv.v * rep[1]))
            same(ctx, s, big, np.tile(t, (1,) + rep + (1,)), f"{what}: {rep} repeated cells", np.tile(base, (1,) + rep + (1,)))
            ctx.state(what, rep)
        # The sampling of a smooth pattern does not matter, up to the discretisation of its gradient.
        fine = None
        for nx, ny in ((48, 48), (24, 24), (24, 48), (48, 18), (25, 23)):
            x, y = np.meshgrid(np.arange(nx) / nx, np.arange(ny) / ny, indexing="ij")
            g = 3 + np.cos(2 * np.pi * (x + 0.1)) + 0.8 * np.sin(2 * np.pi * y) + 0.4 * np.cos(2 * np.pi * (x - y))
            r = field(s, "b9", g, lat)
            c = np.fft.fft2(r, axes=(0, 1)) / (nx * ny)
            low = np.array([[c[p % nx, q % ny] for q in range(-4, 5)] for p in range(-4, 5)])
            if fine is None:
                fine = low
            elif s.startswith(("jones_direct", "pol")):
                d = min(np.abs(low - ph * fine).max() for ph in (1, -1))
                ctx.true(d < 0.03, f"{what}: sampled on {nx} x {ny}: coefficients differ by {d:.3g} from those for 48 x 48")
            ctx.state(what, nx, ny)
        ctx.step(25)
    ctx.outcome(s)


def run_gradient(case, ctx):
    """The gradient against its definition for every sampled plane wave (a basis of all patterns)."""
    import numpy as np

    from mc import lib, ref
    from mc.lib import jnp, vector

    u, v = (np.array(x) for x in lib.LAT[case["lat"]])
    area = abs(u[0] * v[1] - u[1] * v[0])
    gu, gv = ref.kvec((0.0, 0.0), (u, v), [[1, 0], [0, 1]])
    B = np.stack([gu, gv], axis=-1) / (2 * np.pi) * np.sqrt(area)  # d(fraction)/dx for the normalised cell
    for nx, ny in ((5, 4), (3, 7), (6, 6)):
        i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
        P = np.array([np.exp(2j * np.pi * (a * i / nx + b * j / ny)) for a in range(nx) for b in range(ny)])
        g = np.asarray(vector.compute_gradient(jnp.asarray(P), lib.lattice(case["lat"])))
        ctx.step()
        d = np.stack([(np.roll(P, -1, 1) - np.roll(P, 1, 1)) / 2 * nx, (np.roll(P, -1, 2) - np.roll(P, 1, 2)) / 2 * ny], axis=-1)
        ctx.close(g, d @ B, 1e-9, f"gradient on {nx} x {ny}, {case['lat']}")
        for n in range(nx * ny):
            ctx.state(case["lat"], nx, ny, n)
    ctx.outcome(case["lat"])


def run_normalise(case, ctx):
    import numpy as np

    from mc import menu
    from mc.lib import jnp, vector

    f = menu.amp(5, 4, 2)
    z = np.where((np.arange(5) % 2 == 0)[:, None, None], f, 0)
    for nm, x in (("dense", f), ("zeros", z), ("all zero", 0 * f), ("tiny", 1e-3 * f), ("large", 1e6 * f), ("real", np.real(f))):
        n = np.asarray(vector.normalize(jnp.asarray(x)))
        e = np.asarray(vector.normalize_elementwise(jnp.asarray(x)))
        jn = np.asarray(vector.normalize_jones(jnp.asarray(x)))
        ctx.step(3)
        ctx.state(nm)
        ctx.true(np.all(np.isfinite(n)) and np.all(np.isfinite(e)) and np.all(np.isfinite(jn)), f"{nm}: finite")
        m = mag(x)
        if m.max() > 0:
            ctx.close(n, x / m.max(), 1e-9, f"normalise {nm}")
        ctx.close(e, x / np.where(m > 0, m, 1)[..., None], 1e-9, f"normalise elementwise {nm}")
        if np.isrealobj(x):
            ctx.close(np.sum(np.abs(jn) ** 2, -1), np.ones_like(m), 1e-6, f"Jones magnitude {nm}")
    ctx.outcome("n")
