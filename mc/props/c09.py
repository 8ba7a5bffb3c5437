"""C09: generated expansions are symmetric, complete, sorted and of the requested size; wavevectors and reciprocal vectors."""
import itertools

TECHNIQUE = "exhaustive enumeration of lattices x requested sizes x truncations; every generated expansion compared with a brute-force enumeration of reciprocal space"
BOUNDS = {
    "quick": "72 lattices (6 angles incl. left-handed and skewed, 4 aspect ratios, 3 orientations) x all sizes 1..40, 57, 101, 160, 300 x 2 truncations x array kinds",
    "thorough": "2 x 10 angles, 7 aspect ratios, 5 orientations x all sizes 1..160 and 8 larger ones x 2 truncations",
}
ASSUMPTIONS = ["orders within 1e-7 (relative) of the circle may fall on either side", "orders of equal magnitude may come in any sequence"]
MAX_CHUNK = 12


def cases(tier):
    q = tier == "quick"
    angles = [90, 60, 35, 115, -75, 170] if q else [90, 60, 35, 115, -75, 170, 12, 45, 120, -150]
    ratios = [1.0, 0.7, 2.6, 6.0] if q else [1.0, 0.7, 2.6, 6.0, 0.2, 1.5, 12.0]
    rots = [0, 33, 200] if q else [0, 33, 200, 90, 287]
    skews = [0] if q else [0, 2]
    for a, r, o, s in itertools.product(angles, ratios, rots, skews):
        yield dict(part="exp", angle=a, ratio=r, rot=o, skew=s, big=not q)
    for a, r, o in itertools.product(angles[:4], ratios[:3], rots[:2]):
        yield dict(part="skew", angle=a, ratio=r, rot=o, skew=3, big=False)


def group(c):
    return c["angle"]


def vectors(c):
    import numpy as np

    t = np.deg2rad(c["rot"])
    g = np.deg2rad(c["angle"])
    u = 1.3 * np.array([np.cos(t), np.sin(t)])
    v = 1.3 * c["ratio"] * np.array([np.cos(t + g), np.sin(t + g)])
    return u, v + c["skew"] * u


def run(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import basis, jnp

    u, v = vectors(case)
    b1, b2 = ref.recip((u, v))
    lv = basis.LatticeVectors(u=jnp.asarray(u), v=jnp.asarray(v))
    rec = lv.reciprocal
    ctx.step()
    dual = np.array([[np.dot(x, y) for y in (np.asarray(rec.u), np.asarray(rec.v))] for x in (u, v)])
    ctx.close(dual, np.eye(2), 1e-9, "reciprocal vectors are dual")
    back = rec.reciprocal
    ctx.close(back.u, u, 1e-8, "reciprocal of the reciprocal")
    ctx.close(back.v, v, 1e-8, "reciprocal of the reciprocal")
    area = abs(b1[0] * b2[1] - b1[1] * b2[0])
    sizes = list(range(1, 41)) + [57, 101, 160, 300]
    if case["big"]:
        sizes = list(range(1, 161)) + [199, 257, 300, 333, 401, 500, 733, 1000]
    # Brute-force window: |coefficient| <= R * |a| for the dual vector a.
    Rmax = np.sqrt(max(sizes) * area / np.pi)
    w1 = int(np.ceil(Rmax * np.linalg.norm(u))) + 1
    w2 = int(np.ceil(Rmax * np.linalg.norm(v))) + 1
    M, N = np.meshgrid(np.arange(-w1, w1 + 1), np.arange(-w2, w2 + 1), indexing="ij")
    mag = np.hypot(M * b1[0] + N * b2[0], M * b1[1] + N * b2[1])
    k0 = np.array([0.37, -0.58])
    for size in sizes:
        for trunc in (basis.Truncation.CIRCULAR, basis.Truncation.PARALLELOGRAMIC):
            lvs = lv if size % 2 else basis.LatticeVectors(u=np.asarray(u), v=np.asarray(v))
            ex = basis.generate_expansion(lvs, size, trunc)
            ctx.step()
            ctx.state(case, size, trunc.value)
            c = np.asarray(ex.basis_coefficients)
            what = f"size {size} {trunc.value}"
            if not ctx.true(c.ndim == 2 and c.shape[1] == 2 and np.issubdtype(c.dtype, np.integer) and ex.num_terms == len(c) and len(c) > 0, f"{what}: coefficients {c.shape} {c.dtype}"):
                continue
            ctx.true(tuple(c[0]) == (0, 0), f"{what}: zeroth order first, got {c[0]}")
            st = set(map(tuple, c.tolist()))
            ctx.true(len(st) == len(c), f"{what}: duplicates")
            ctx.true(all((-a, -b) in st for a, b in st), f"{what}: not symmetric")
            m = np.hypot(*(c[:, :1] * b1 + c[:, 1:] * b2).T)
            ctx.true(np.all(np.diff(m) >= -1e-9 * (1 + m[-1])), f"{what}: not sorted")
            if trunc is basis.Truncation.CIRCULAR:
                R = np.sqrt(size * area / np.pi)
                must = set(zip(M[mag < R * (1 - 1e-7)].tolist(), N[mag < R * (1 - 1e-7)].tolist()))
                may = set(zip(M[mag < R * (1 + 1e-7)].tolist(), N[mag < R * (1 + 1e-7)].tolist()))
                ctx.true(must <= st <= may, f"{what}: circle missing {sorted(must - st)[:4]} extra {sorted(st - may)[:4]}")
            else:
                nu, nv = np.abs(c[:, 0]).max(), np.abs(c[:, 1]).max()
                ctx.true(len(st) == (2 * nu + 1) * (2 * nv + 1), f"{what}: parallelogram ({nu}, {nv}) incomplete, {len(st)} orders")
                lu, lw = np.linalg.norm(b1), np.linalg.norm(b2)
                # (2 nu + 1)(2 nv + 1) = size with nu * |b1| = nv * |b2|
                r = lu / lw
                x = (-(2 + 2 * r) + np.sqrt((2 + 2 * r) ** 2 + 16 * r * (size - 1))) / (8 * r)
                ctx.true(abs(nu - x) <= 0.5 + 1e-6 and abs(nv - x * r) <= 0.5 + 1e-6, f"{what}: half widths ({nu}, {nv}) instead of about ({x:.2f}, {x * r:.2f})")
            ctx.outcome(what, len(c), c[-1].tolist())
            if size in (1, 9, 23, 40):
                kt = np.asarray(basis.transverse_wavevectors(jnp.asarray(k0), lv, ex))
                kx, ky = ref.kvec(k0, (u, v), c)
                ctx.close(kt, np.stack([kx, ky], -1), 1e-10, f"{what}: wavevectors")
                ctx.step()
