"""C10: Fourier transforms equal their defining sums; shapes are accepted exactly when they resolve the expansion."""
import itertools

TECHNIQUE = "exhaustive enumeration of impulse inputs (a basis of all inputs, the transforms being linear), array shapes, axis placements and expansions, against defining Fourier sums"
BOUNDS = {
    "quick": "all ordered pairs of orders in [-2, 2]^2 as expansions; all array shapes up to 7 x 7 x 6 expansions x every impulse position; all placements of the transformed axes in arrays of rank 2..4; acceptance of every shape up to 8 x 8 for 12 expansions; 4 element types; generated expansions of up to 160 orders on arrays up to 128 x 90",
    "thorough": "all ordered pairs of orders in [-3, 3]^2; all array shapes up to 10 x 10 x 10 expansions; axis placements in arrays of rank 2..5; acceptance of all shapes up to 12 x 12",
}
ASSUMPTIONS = ["linearity is itself checked on dense arrays for each shape"]
MAX_CHUNK = 20
EXPS = ["one", "x3", "c5", "d7", "shuf", "asym"]
MORE = {
    "far": [[0, 0], [3, -2], [-3, 2]],
    "hi": [[2, 1], [3, 1], [3, 2]],
    "b9": [[i, j] for i in (0, 1, -1) for j in (0, 1, -1)],
    "y5": [[0, 0], [0, 1], [0, -1], [0, 2], [0, -2]],
    "neg": [[-2, 0], [-1, -1]],
    "b15": [[i, j] for i in (0, 1, -1, 2, -2) for j in (0, 1, -1)],
}


def coeffs(name):
    from mc import lib

    return MORE[name] if name in MORE else lib.EXP[name]


def cases(tier):
    q = tier == "quick"
    n = 7 if q else 10
    for e in EXPS if q else EXPS + list(MORE):
        for nx in range(1, n + 1):
            yield dict(part="basis", exp=e, nx=nx, ny=n)
    r = range(-2, 3) if q else range(-3, 4)
    for a in itertools.product(r, r):
        yield dict(part="orders", first=a, n=2 if q else 3)
    for e in EXPS + list(MORE):
        yield dict(part="shape", exp=e, n=8 if q else 12)
    for nd in (2, 3, 4) if q else (2, 3, 4, 5):
        for axes in itertools.permutations(range(nd), 2):
            yield dict(part="axes", nd=nd, axes=axes, neg=False)
            yield dict(part="axes", nd=nd, axes=axes, neg=True)
    for e in ("c5", "asym", "far"):
        for dt in ("complex128", "float64", "complex64", "float32", "int32", "bool"):
            yield dict(part="dtype", exp=e, dtype=dt)
    for e in ("one", "x3", "c5", "shuf", "asym", "b9"):
        yield dict(part="product", exp=e)
    for n, shape in ((49, (31, 16)), (160, (33, 40)), (7, (128, 90))) if q else ((49, (31, 16)), (160, (33, 40)), (7, (128, 90)), (300, (64, 50))):
        yield dict(part="large", n=n, shape=list(shape))


def group(c):
    return (c["part"], c.get("exp"))


def need(c):
    return 2 * max(abs(a) for a, _ in c) + 1, 2 * max(abs(b) for _, b in c) + 1


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def dense(shape, k=0):
    import numpy as np

    n = int(np.prod(shape))
    a = np.arange(n) + 1
    return (np.cos(1.7 * a + k) + 1j * np.sin(0.9 * a * a + k)).reshape(shape)


def run_basis(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import fft, jnp

    c = coeffs(case["exp"])
    ex = lib.expansion(c)
    nx = case["nx"]
    mx, my = need(c)
    if nx < mx:
        return
    for ny in range(my, case["ny"] + 1):
        ctx.state(case["exp"], nx, ny)
        imp = np.eye(nx * ny, dtype=complex).reshape(nx * ny, nx, ny)
        want = np.stack([[ref.fcoef(x, m, n) for m, n in c] for x in imp])
        ctx.close(fft.fft(jnp.asarray(imp), ex), want, 1e-10, f"forward transform of impulses on {nx, ny}")
        d = dense((nx, ny))
        ctx.close(fft.fft(jnp.asarray(d), ex), [ref.fcoef(d, m, n) for m, n in c], 1e-10, f"forward transform on {nx, ny}")
        y = np.eye(len(c), dtype=complex)
        inv = np.stack([ref.synth(v, c, nx, ny) for v in y])
        ctx.close(fft.ifft(jnp.asarray(y), ex, (nx, ny)), inv, 1e-10, f"inverse transform on {nx, ny}")
        z = dense((len(c),), 1)
        g = fft.ifft(jnp.asarray(z), ex, (nx, ny))
        ctx.close(g, ref.synth(z, c, nx, ny), 1e-10, f"inverse transform on {nx, ny}")
        ctx.close(fft.fft(g, ex), z, 1e-10, f"round trip on {nx, ny}")
        ctx.close(fft.fourier_convolution_matrix(jnp.asarray(d), ex), ref.conv(d, c), 1e-10, f"convolution matrix on {nx, ny}")
        big = np.stack([ref.conv(x, c) for x in imp[:: max(1, nx * ny // 12)]])
        ctx.close(fft.fourier_convolution_matrix(jnp.asarray(imp[:: max(1, nx * ny // 12)]), ex), big, 1e-10, f"convolution matrices of impulses on {nx, ny}")
        ctx.step(7)
        ctx.outcome(nx, ny, np.round(want.ravel()[-1], 8))


def run_large(case, ctx):
    """Generated expansions with many orders on large arrays."""
    import numpy as np

    from mc import lib, ref
    from mc.lib import basis, fft, jnp

    ex = basis.generate_expansion(lib.lattice("obl"), case["n"], basis.Truncation.CIRCULAR)
    c = np.asarray(ex.basis_coefficients)
    nx, ny = case["shape"]
    d = dense((nx, ny))
    # The defining sums, as two matrix products.
    fx = lambda orders, n: np.exp(-2j * np.pi * np.outer(orders, np.arange(n)) / n)
    coef = np.einsum("ni,ij,nj->n", fx(c[:, 0], nx), d, fx(c[:, 1], ny)) / (nx * ny)
    ctx.close(fft.fft(jnp.asarray(d), ex), coef, 1e-10, f"forward transform, {case}")
    z = dense((len(c),), 1)
    g = np.einsum("n,ni,nj->ij", z, fx(c[:, 0], nx).conj(), fx(c[:, 1], ny).conj())
    ctx.close(fft.ifft(jnp.asarray(z), ex, (nx, ny)), g, 1e-10, f"inverse transform, {case}")
    ctx.close(fft.fft(jnp.asarray(g), ex), z, 1e-10, f"round trip, {case}")
    if nx > 4 * np.abs(c[:, 0]).max() and ny > 4 * np.abs(c[:, 1]).max():
        full = np.fft.fft2(d) / (nx * ny)
        diff = c[:, None, :] - c[None, :, :]
        ctx.close(fft.fourier_convolution_matrix(jnp.asarray(d), ex), full[diff[..., 0] % nx, diff[..., 1] % ny], 1e-10, f"convolution matrix, {case}")
    ctx.step(4)
    ctx.state(case)
    ctx.outcome(np.round(coef, 6).tobytes())


def run_orders(case, ctx):
    """Every ordered pair of Fourier orders as an expansion, on the smallest admissible array and on a larger one."""
    import numpy as np

    from mc import lib, ref
    from mc.lib import fft, jnp

    r = range(-case["n"], case["n"] + 1)
    a = tuple(case["first"])
    for b in itertools.product(r, r):
        if b == a:
            continue
        c = [list(a), list(b)]
        ex = lib.expansion(c)
        mx, my = need(c)
        for s in ((mx, my), (mx + 1, my + 2)):
            d, z = dense(s), dense((2,), 1)
            ctx.close(fft.fourier_convolution_matrix(jnp.asarray(d), ex), ref.conv(d, c), 1e-10, f"convolution matrix of the orders {c} on {s}")
            ctx.close(fft.fft(jnp.asarray(d), ex), [ref.fcoef(d, m, n) for m, n in c], 1e-10, f"forward transform to the orders {c} on {s}")
            ctx.close(fft.ifft(jnp.asarray(z), ex, s), ref.synth(z, c, *s), 1e-10, f"inverse transform of the orders {c} on {s}")
            ctx.state(a, b, s)
            ctx.step(3)
    ctx.outcome(a)


def run_shape(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import fft, jnp

    c = coeffs(case["exp"])
    ex = lib.expansion(c)
    mx, my = need(c)
    got = fft.min_array_shape_for_expansion(ex)
    ctx.true(tuple(got) == (mx, my), f"minimum shape {got} instead of {mx, my}")
    y = jnp.asarray(dense((len(c),)))
    for nx, ny in itertools.product(range(1, case["n"] + 1), repeat=2):
        ctx.state(case["exp"], nx, ny)
        x = jnp.asarray(dense((nx, ny)))
        ok = nx >= mx and ny >= my
        for name, f in (("fft", lambda: fft.fft(x, ex)), ("convolution", lambda: fft.fourier_convolution_matrix(x, ex)), ("ifft", lambda: fft.ifft(y, ex, (nx, ny)))):
            try:
                f()
                good = True
            except Exception:
                good = False
            ctx.step()
            ctx.true(good == ok, f"{name} with shape {nx, ny}: {'accepted' if good else 'rejected'} (needs {mx, my})")
        ctx.outcome(case["exp"], ok)


def run_axes(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import fft, jnp

    nd = case["nd"]
    a0, a1 = case["axes"]
    c = lib.EXP["asym"]
    ex = lib.expansion("asym")
    mx, my = need(c)
    shape = [2, 3, 2, 1, 2][:nd]
    shape[a0], shape[a1] = mx + 1, my
    x = dense(shape)
    ctx.state(case)
    axes = (a0 - nd, a1 - nd) if case["neg"] else (a0, a1)
    got = np.asarray(fft.fft(jnp.asarray(x), ex, axes=axes))
    ctx.step()
    rest = np.moveaxis(x, (a0, a1), (-2, -1))
    want = np.zeros(rest.shape[:-2] + (len(c),), complex)
    for i in np.ndindex(*rest.shape[:-2]):
        want[i] = [ref.fcoef(rest[i], m, n) for m, n in c]
    want = np.moveaxis(want, -1, min(a0, a1))
    ctx.close(got, want, 1e-10, f"transform along axes {axes} of rank {nd}")
    # Inverse transform with the coefficients on axis a0 of an array of rank nd - 1.
    if a0 < nd - 1:
        sh = [2, 3, 2, 1][: nd - 1]
        sh[a0] = len(c)
        y = dense(sh)
        ax = a0 - (nd - 1) if case["neg"] else a0
        inv = np.asarray(fft.ifft(jnp.asarray(y), ex, (mx, my + 1), axis=ax))
        ctx.step()
        yr = np.moveaxis(y, a0, -1)
        want = np.zeros(yr.shape[:-1] + (mx, my + 1), complex)
        for i in np.ndindex(*yr.shape[:-1]):
            want[i] = ref.synth(yr[i], c, mx, my + 1)
        want = np.moveaxis(want, (-2, -1), (a0, a0 + 1))
        ctx.close(inv, want, 1e-10, f"inverse transform along axis {ax} of rank {nd - 1}")
        ctx.close(fft.fft(jnp.asarray(inv), ex, axes=(a0, a0 + 1)), y, 1e-10, "round trip along other axes")


def run_dtype(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import fft, jnp

    c = coeffs(case["exp"])
    ex = lib.expansion(c)
    dt = np.dtype(case["dtype"])
    x = dense((9, 8))
    if dt.kind in "fi":
        x = (x.real * 7).round() if dt.kind == "i" else x.real
    if dt.kind == "b":
        x = x.real > 0.2
    x = x.astype(dt)
    tol = 2e-6 if dt.itemsize <= 4 or dt == np.complex64 else 1e-10
    ctx.state(case)
    w = np.asarray(x, complex)
    s = max(1.0, float(np.abs(w).max()))
    ctx.close(fft.fft(jnp.asarray(x), ex), [ref.fcoef(w, m, n) for m, n in c], tol * s, f"transform of {dt}")
    ctx.close(fft.fourier_convolution_matrix(jnp.asarray(x), ex), ref.conv(w, c), tol * s, f"convolution matrix of {dt}")
    y = np.asarray(x.ravel()[: len(c)])
    ctx.close(fft.ifft(jnp.asarray(y), ex, (8, 9)), ref.synth(np.asarray(y, complex), c, 8, 9), tol * s * len(c), f"inverse transform of {dt}")
    ctx.step(3)


def run_product(case, ctx):
    """The convolution matrix maps the coefficients of f to the truncated coefficients of x f."""
    import numpy as np

    from mc import lib, ref
    from mc.lib import fft, jnp

    c = coeffs(case["exp"])
    ex = lib.expansion(c)
    mx, my = need(c)
    nx, ny = 2 * mx + 3, 2 * my + 2  # no aliasing of the product
    ctx.state(case)
    x = dense((nx, ny))
    m = np.asarray(fft.fourier_convolution_matrix(jnp.asarray(x), ex))
    for j in range(len(c)):
        f = np.zeros(len(c), complex)
        f[j] = 1.0
        field = np.asarray(fft.ifft(jnp.asarray(f), ex, (nx, ny)))
        got = np.asarray(fft.fft(jnp.asarray(field * x), ex))
        ctx.step(2)
        ctx.close(got, m @ f, 1e-10, f"product with order {c[j]}")
