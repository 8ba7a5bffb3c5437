"""C18: rotated and shifted beams are rigid motions of the original beam."""
import itertools

TECHNIQUE = "exhaustive enumeration of a grid of angle triples, origins and coordinate layouts; rotation matrices and transported fields compared with an independently composed rigid motion"
BOUNDS = {
    "quick": "all 9^3 angle triples (incl. zero, negative, right angles, beyond pi) for the rotation; 5^3 triples x 4 origins for fields; 5 coordinate ranks; 4 number types",
    "thorough": "13^3 angle triples for the rotation; 8^3 triples x 6 origins for fields",
}
ASSUMPTIONS = ["angles and origins are scalars, as the function requires"]
MAX_CHUNK = 6
A9 = [0.0, 0.4, 1.0, "pi/2", 2.2, "pi", -0.7, -2.9, 5.0]


def _a(x):
    import numpy as np

    return {"pi/2": np.pi / 2, "pi": np.pi, "-pi/2": -np.pi / 2, "2pi": 2 * np.pi}.get(x, x)


def cases(tier):
    q = tier == "quick"
    angles = A9 if q else A9 + ["-pi/2", "2pi", 1e-3, 12.7]
    for p in angles:
        for z in angles:
            yield dict(part="rot", polar=p, az=z, pols=angles)
    fa = [0.0, 0.6, "pi/2", -1.1, 2.5] if q else [0.0, 0.6, "pi/2", -1.1, 2.5, "pi", 4.0, 0.05]
    for p in fa:
        for z in fa:
            yield dict(part="field", polar=p, az=z, pols=fa, origins=4 if q else 6)
    for nd in range(0, 5):
        yield dict(part="rank", nd=nd)
    for dt in ("int", "float32", "np", "py"):
        yield dict(part="type", dtype=dt)


def group(c):
    return (c["part"], str(c.get("polar")))


def rz(t):
    import numpy as np

    c, s = np.cos(t), np.sin(t)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def ry(t):
    import numpy as np

    c, s = np.cos(t), np.sin(t)
    return np.array([[c, 0, s], [0, 1.0, 0], [-s, 0, c]])


def rotation(polar, az, pol):
    """Rotate about y, then z, then about the resulting axis: equals Rz(az) Ry(polar) Rz(pol)."""
    return rz(az) @ ry(polar) @ rz(pol)


def beam(xf, yf, zf, np):
    """A generic vector field without any symmetry."""
    ph = np.exp(1j * (0.7 * zf + 0.2 * xf - 0.1 * yf) - 0.1 * (xf - 0.1) ** 2 - 0.2 * yf**2)
    e = (ph * (1 + 0.3 * xf), ph * (0.2j + 0.1 * zf), ph * 0.4 * yf)
    h = (ph * 0.3 * zf, ph * (1 - 0.2 * yf), ph * (0.1 + 0.5j * xf))
    return e, h


ORIGINS = [(0.0, 0.0, 0.0), (0.3, -0.8, 1.1), (1.5, 0.0, 0.0), (0.0, 0.0, -0.9), (0.0, 2.0, 0.1), (-3.0, 1.0, 4.0)]
_J = {}


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def run_rot(case, ctx):
    import numpy as np
    from fmmax import beams

    from mc.lib import jax

    if "rot" not in _J:
        _J["rot"] = jax.jit(beams.rotation_matrix)
    p, z = _a(case["polar"]), _a(case["az"])
    for t in case["pols"]:
        t = _a(t)
        R = np.asarray(_J["rot"](p, z, t))
        ctx.step()
        ctx.state(p, z, t)
        what = f"angles {p:.3f} {z:.3f} {t:.3f}"
        ctx.close(R, rotation(p, z, t), 1e-10, f"rotation for {what}")
        ctx.close(R @ R.T, np.eye(3), 1e-10, f"orthogonal for {what}")
        ctx.close(np.linalg.det(R), 1.0, 1e-10, f"proper for {what}")
        axis = np.array([np.sin(p) * np.cos(z), np.sin(p) * np.sin(z), np.cos(p)])
        ctx.close(R @ [0, 0, 1], axis, 1e-10, f"propagation axis for {what}")
        ctx.outcome(np.round(R, 6).tobytes())
    ctx.close(beams.rotation_matrix(p, z, 0.3), rotation(p, z, 0.3), 1e-10, "uncompiled rotation")


def transport(o, ang, X, np):
    R = rotation(*ang)
    o = np.asarray(o)
    Xf = np.einsum("ji,...j->...i", R, X - o)
    e, h = beam(Xf[..., 0], Xf[..., 1], Xf[..., 2], np)
    rot = lambda f: np.einsum("ij,j...->i...", R, np.stack(f))
    return rot(e), rot(h)


def coords(shape):
    import numpy as np

    n = int(np.prod(shape, dtype=int))
    a = np.arange(n) + 1.0
    return np.stack([np.cos(2.3 * a), 1.3 * np.sin(1.1 * a), 0.8 * np.cos(0.7 * a + 1)], -1).reshape(shape + (3,))


def call(o, ang, X, jnp, jit=False):
    from fmmax import beams

    from mc.lib import jax

    def f(x, y, z, a, b, c, p, q, r):
        return beams.shifted_rotated_fields(lambda u, v, w: beam(u, v, w, jnp), x, y, z, a, b, c, p, q, r)

    if jit:
        if "f" not in _J:
            _J["f"] = jax.jit(f)
        f = _J["f"]
    e, h = f(*[jnp.asarray(X[..., i]) for i in range(3)], *[jnp.asarray(v) for v in o], *[jnp.asarray(v) for v in ang])
    import numpy as np

    return [np.asarray(v) for v in e], [np.asarray(v) for v in h]


def compare(ctx, got, want, what, tol=1e-9):
    for n, g, w in (("E", got[0], want[0]), ("H", got[1], want[1])):
        ctx.true(len(g) == 3, f"{n} has {len(g)} components")
        for i in range(3):
            ctx.close(g[i], w[i], tol, f"{n}{'xyz'[i]} for {what}")


def run_field(case, ctx):
    import numpy as np

    from mc.lib import jnp

    X = coords((4, 3))
    p, z = _a(case["polar"]), _a(case["az"])
    for t in case["pols"]:
        ang = (p, z, _a(t))
        for o in ORIGINS[: case["origins"]]:
            got = call(o, ang, X, jnp, jit=True)
            ctx.step()
            ctx.state(ang, o)
            compare(ctx, got, transport(o, ang, X, np), f"angles {ang} origin {o}")
            if ang == (0.0, 0.0, 0.0) and o == (0.0, 0.0, 0.0):
                compare(ctx, got, beam(X[..., 0], X[..., 1], X[..., 2], np), "no motion")
    ctx.outcome(p, z, np.round(got[0][0].ravel()[0], 6))


def run_rank(case, ctx):
    import numpy as np

    from mc.lib import jnp

    shape = (2, 3, 1, 2)[: case["nd"]]
    X = coords(shape)
    for ang in ((0.0, 0.0, 0.0), (0.6, -1.1, 2.5)):
        for o in ORIGINS[:2]:
            ctx.state(case, ang, o)
            got = call(o, ang, X, jnp)
            ctx.step()
            compare(ctx, got, transport(o, ang, X, np), f"coordinates of rank {case['nd']}, angles {ang}, origin {o}")


def run_type(case, ctx):
    import numpy as np
    from fmmax import beams

    from mc.lib import jnp

    conv = {"int": int, "float32": lambda v: jnp.asarray(v, jnp.float32), "np": np.float64, "py": float}[case["dtype"]]
    tol = 1e-6 if case["dtype"] == "float32" else 1e-9
    for ang in itertools.product((0, 1, 2), repeat=3):
        R = np.asarray(beams.rotation_matrix(*[conv(a) for a in ang]))
        ctx.step()
        ctx.state(case, ang)
        ctx.close(R, rotation(*ang), tol, f"rotation for {case['dtype']} angles {ang}")
        mixed = np.asarray(beams.rotation_matrix(conv(ang[0]), 0.5, conv(ang[2])))
        ctx.close(mixed, rotation(ang[0], 0.5, ang[2]), tol, f"rotation for mixed angle types {ang}")
    X = coords((2, 2))
    e, h = beams.shifted_rotated_fields(lambda u, v, w: beam(u, v, w, jnp), *[jnp.asarray(X[..., i]) for i in range(3)], *[jnp.asarray(conv(v)) for v in (1, 2, -1)], *[jnp.asarray(conv(v)) for v in (1, 2, 1)])
    ctx.step()
    compare(ctx, (np.asarray(e), np.asarray(h)), transport((1, 2, -1), (1, 2, 1), X, np), f"{case['dtype']} arguments", tol * 10)
