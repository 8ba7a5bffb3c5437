"""C20: precision, dtype and array-type variants change rounding only."""
import os
import subprocess
import sys

from mc.props.c08 import _names

TECHNIQUE = "exhaustive enumeration of representation variants (single precision, 64-bit mode off, forced 64-bit solves, integer / boolean / real / complex dtypes, numpy / jax arrays, memory layouts, Python scalars) of every public call; each variant is compared with the double-precision result of the same values"
NAMES = _names()
SLOW = {"jones_direct", "pol", "jones", "normal", "fourier_iso_vec", "eig_pol_fourier", "eig_jones_direct", "fourier_aniso_vec", "tangent", "scan"}
QSKIP = {"jones_direct", "pol", "normal", "fourier_iso_vec", "eig_pol_fourier"}
FORCE = ["stack", "interior", "scan", "star", "append", "prepend", "solve"]
GROUPS = 5
SOLVES = ["iso", "aniso", "general"]
MEDIA_DTYPES = ["float64", "float32", "int64", "int32", "bool", "complex64", "complex128"]
BOUNDS = {
    "quick": f"{len(NAMES) - len(QSKIP)} public calls x 10 representation variants; third differences of every call along 3 paths; all calls with 64-bit mode off in a fresh process; {len(FORCE)} scattering calls x forced precision x (double, single, mode off)",
    "thorough": f"{len(NAMES)} public calls x 10 variants, compiled as well",
}
ASSUMPTIONS = [
    "single precision agrees to 2e-4 of the largest element (all menu configurations are well conditioned), equivalent double-precision representations to 1e-10",
    "direction labels of lossless propagating modes of numerically solved layers are not compared when the medium is given in single precision",
]
MAX_CHUNK = 9


def cases(tier):
    for g in range(GROUPS):
        yield dict(part="mode32", g=g)
    for n in NAMES:
        if tier == "thorough" or n not in QSKIP:
            yield dict(part="variants", name=n, jit=False)
    if tier == "thorough":
        for n in NAMES:
            yield dict(part="variants", name=n, jit=True)
    for n in FORCE:
        yield dict(part="force", name=n)
    for n in NAMES:
        if n not in SLOW and n != "star":
            yield dict(part="digits", name=n)
    yield dict(part="scalars")
    yield dict(part="real")
    for n in NAMES + ["solve_forced"]:
        if n not in SLOW or tier == "thorough":
            yield dict(part="mixed", name=n)
    for s in SOLVES:
        for p in ("uni", "gen"):
            yield dict(part="media", solver=s, pattern=p)


def group(c):
    return (c["part"], c.get("g"), c.get("jit"), c.get("name") in SLOW, c.get("pattern"))


def weight(c):
    return 40.0 if c["part"] == "mode32" else (8.0 if c.get("name") in SLOW else 2.0)


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def is_rec(x):
    return hasattr(x, "eigenvalues") or hasattr(x, "s11")


def convert(args, f, records):
    """Applies f to the numpy arrays of an argument tree; layer solutions and scattering matrices only if `records`."""
    import numpy as np

    from mc.lib import jax

    one = lambda y: f(y) if isinstance(y, np.ndarray) else y
    return jax.tree_util.tree_map(lambda x: x if is_rec(x) and not records else jax.tree_util.tree_map(one, x), args, is_leaf=is_rec)


def compare(ctx, name, got, want, tol, msg, branch=True):
    """Compares results through gauge-invariant quantities; `branch` includes the direction labels."""
    import numpy as np

    from mc import menu

    a, b = menu.invariants(name, got), menu.invariants(name, want)
    if not ctx.true(len(a) == len(b), f"{msg}: number of outputs"):
        return
    for i, (x, y) in enumerate(zip(a, b)):
        if name in menu.EIGEN and i == 1 and not branch:
            continue
        if x.dtype.kind not in "fc":
            x, y = x.astype(float), y.astype(float)
        if not ctx.true(x.shape == y.shape and (np.isnan(x) == np.isnan(y)).all(), f"{msg}: shape or undefined entries of output {i}"):
            continue
        y = np.nan_to_num(y)
        scale = max(float(np.max(np.abs(y), initial=0.0)), 1e-3)
        ctx.close(np.nan_to_num(x), y, tol, f"{msg}: output {i}", scale=scale)


# Quantities that are physically real (or densities): complexifying them is not meaningful.
def variants(n, args):
    """(label, args, reference args, tolerance, compare direction labels)."""
    import numpy as np

    from mc.lib import jax, jnp

    f32 = lambda x: x.astype({"f": np.float32, "c": np.complex64}.get(x.dtype.kind, x.dtype))
    yield "jax arrays", convert(args, jnp.asarray, True), None, 1e-10, True
    yield "single precision", convert(args, f32, True), None, 2e-4, True
    yield "column-major", convert(args, lambda x: x.copy(order="F"), True), None, 1e-10, True
    yield "strided", convert(args, lambda x: np.repeat(x, 2, axis=-1)[..., ::2] if x.ndim else x, True), None, 1e-10, True
    if n not in ("integrated_flux",):
        ints = convert(args, lambda x: np.rint(2 * x.real).astype(np.int64) if x.dtype.kind in "fc" else x, False)
        flt = convert(ints, lambda x: x.astype(float), False)
        yield "64-bit integers", ints, flt, 1e-10, True
        yield "32-bit integers", convert(ints, lambda x: x.astype(np.int32), False), flt, 2e-4, False
        yield "jax integers", convert(ints, jnp.asarray, False), flt, 1e-10, True
    real = convert(args, lambda x: x.real.copy(), False)
    cplx = lambda keep: convert2(args, lambda x: x.real.astype(complex) if x.dtype.kind == "c" else x.copy())
    yield "real values as complex", cplx(0), real, 1e-10, True
    yield "purely imaginary parts zeroed in place", convert(args, lambda x: x.real + (0j if x.dtype.kind == "c" else 0.0), False), real, 1e-10, True


def convert2(args, f):
    return convert(args, f, False)


def run_variants(case, ctx):
    from mc import menu
    from mc.lib import jax

    n = case["name"]
    fn, args, kw = menu.entry(n)
    call = lambda *a: fn(*a, **kw)
    if case["jit"]:
        call = jax.jit(call)
    base = call(*args)
    for label, a, ref, tol, branch in variants(n, args):
        ctx.state(n, label, case["jit"])
        ctx.step(2)
        compare(ctx, n, call(*a), base if ref is None else call(*ref), tol, f"{n} with {label}", branch)
    ctx.outcome(n)


def run_digits(case, ctx):
    """Double-precision results carry all their digits: third differences along short paths of the arguments are at rounding level of double, not single, precision."""
    import copy

    import numpy as np

    from mc import menu
    from mc.props.c21 import leaves_of

    n, h = case["name"], 5e-5
    fn, args, kw = menu.entry(n)
    for seed in (0.0, 1.0, 2.0):
        outs = []
        for j in range(4):
            a = copy.deepcopy(args)
            for q, x in enumerate(leaves_of([y for y in a if not is_rec(y) and not (isinstance(y, list) and is_rec(y[0]))] if n in ("stack", "interior", "append", "prepend", "amps_for_fields_bz", "amps_for_source") else a)):
                if x.dtype.kind in "fc":
                    x += j * h * np.cos(1.7 * np.arange(x.size) + q + seed).reshape(x.shape) * np.abs(x)
            outs.append([np.nan_to_num(np.asarray(v)) for v in menu.invariants(n, fn(*a, **kw))])
        ctx.step(4)
        ctx.state(n, "digits", seed)
        for i, (a, b, c, d) in enumerate(zip(*outs)):
            if a.dtype.kind in "fc" and a.size:
                ctx.true(a.dtype in (np.float64, np.complex128), f"{n}: output {i} has type {a.dtype}")
                ctx.close(d - 3 * c + 3 * b - a, np.zeros_like(a), 1.5e-8, f"{n}: digits of output {i}", scale=float(np.abs(a).max()) or 1.0)
    ctx.outcome(n)


def run_force(case, ctx):
    """Forcing 64-bit solves changes nothing but rounding, in any precision; result dtypes stay those of the inputs."""
    import numpy as np

    from mc import menu
    from mc.lib import jax

    n = case["name"]
    fn, args, kw = menu.entry(n)
    base = fn(*args, **kw)
    f32 = lambda x: x.astype({"f": np.float32, "c": np.complex64}.get(x.dtype.kind, x.dtype))
    for label, a, tol in (("double", args, 1e-10), ("single", convert(args, f32, True), 2e-4)):
        for force in (False, True):
            k = dict(kw)
            k["force_x64_solve"] = force
            for jit in (False, True):
                call = lambda *x: fn(*x, **k)
                out = (jax.jit(call) if jit else call)(*a)
                ctx.step()
                ctx.state(n, label, force, jit)
                compare(ctx, n, out, base, tol, f"{n} in {label} precision, forced={force}, compiled={jit}")
                if label == "single":
                    for x in jax.tree_util.tree_leaves(out):
                        ctx.true(np.asarray(x).dtype in (np.float32, np.complex64, np.int32, np.int64), f"{n} in single precision, forced={force}: result dtype {np.asarray(x).dtype}")
    ctx.outcome(n)


def run_scalars(case, ctx):
    """Python numbers and zero-dimensional arrays are interchangeable where a number is expected."""
    import numpy as np

    from mc import lib, menu
    from mc.lib import basis, fields, jnp, scattering, sources, utils
    from fmmax import beams

    L = [lib.strip(r) for r in menu._layers()[:3]]
    ts = [0.2, 0.3, 0.15]
    N = L[0].expansion.num_terms
    A = menu.amp(2 * N, 2)
    num = [lambda x: x, np.float64, np.float32, lambda x: np.array(x), jnp.asarray, lambda x: jnp.asarray(x, jnp.float32)]
    leaves = lambda r: [np.asarray(x) for x in __import__("jax").tree_util.tree_leaves(r)]
    calls = {
        "stack": lambda c: scattering.stack_s_matrix(L, [c(t) for t in ts]).s21,
        "interior": lambda c: scattering.stack_s_matrices_interior(L, [c(t) for t in ts])[1][0].s22,
        "append": lambda c: scattering.append_layer(scattering.stack_s_matrix(L[:2], ts[:2]), L[2], c(0.4)).s12,
        "prepend": lambda c: scattering.prepend_layer(scattering.stack_s_matrix(L[:2], ts[:2]), L[2], c(0.4)).s12,
        "set_end": lambda c: scattering.set_end_layer_thickness(scattering.stack_s_matrix(L[:2], ts[:2]), c(0.4)).s22,
        "set_start": lambda c: scattering.set_start_layer_thickness(scattering.stack_s_matrix(L[:2], ts[:2]), c(0.4)).s11,
        "propagate": lambda c: fields.propagate_amplitude(A, c(0.3), L[1]),
        "colocate": lambda c: fields.colocate_amplitudes(A, A, c(0.1), L[1], c(0.3)),
        "layer_fields": lambda c: fields.layer_fields_3d(A, A, L[1], c(0.3), 2, (5, 5), (1, 1))[0],
        "stack_fields": lambda c: fields.stack_fields_3d([(A, A)] * 2, L[:2], [c(t) for t in ts[:2]], [2, 2], (5, 5), (1, 1))[0],
        "auto_grid": lambda c: fields.stack_fields_3d_auto_grid([(A, A)] * 2, L[:2], [c(t) for t in ts[:2]], 0.125, (1, 1))[0],
        "gaussian": lambda c: sources.gaussian_source(c(0.3), jnp.asarray([[0.1, 0.2]]), jnp.asarray(menu.K), L[0].primitive_lattice_vectors, L[0].expansion),
        "rotation": lambda c: beams.rotation_matrix(c(0.4), c(1.1), c(0.7)),
        "interpolate": lambda c: utils.interpolate_permittivity(c(2.5), c(1.5), lib.pattern("gen", (4, 4))),
        "plane_wave": lambda c: basis.plane_wave_in_plane_wavevector(jnp.asarray(0.8), c(0.4), c(0.3), c(2.25)),
        "omega": lambda c: utils.angular_frequency_for_wavelength(c(0.8)),
    }
    for n, f in calls.items():
        want = leaves(f(jnp.asarray))
        for i, c in enumerate(num):
            got = leaves(f(c))
            ctx.step()
            ctx.state(n, i)
            if not ctx.true(len(got) == len(want), f"{n}: number of outputs"):
                continue
            for x, y in zip(got, want):
                ctx.close(x, y, 2e-4 if i in (2, 5) else 1e-10, f"{n} with number type {i}", scale=max(1e-3, float(np.max(np.abs(y)))))
    ctx.outcome("scalars")


def run_real(case, ctx):
    """Imaginary parts are never dropped: every function that is linear in an argument commutes with multiplication by i."""
    import numpy as np

    from mc import menu
    from mc.lib import jax

    linear = {
        "unflatten": [0], "conv": [0], "fft": [0], "fft_axes": [0], "ifft": [0], "ifft_axis": [0], "propagate": [0], "colocate": [0, 1], "wave_fields": [0, 1],
        "grid_fields": [0, 1, 2, 3, 4, 5], "coord_fields": [0, 1, 2, 3, 4, 5], "interior_amps": [-2, -1], "interior_amps_source": [-2, -1], "amps_interior": [-2, -1],
        "layer_fields": [0, 1], "layer_fields_coords": [0, 1], "stack_fields": [0, 1, 2, 3], "stack_fields_coords": [0, 1, 2, 3], "auto_grid": [0, 1, 2, 3],
        "amps_for_fields": [0, 1, 2, 3], "amps_for_fields_bz": [0, 1, 2, 3], "amps_for_source": [0, 1, 2], "polarization": [0, 1, 2], "diag": [0], "solve": [1], "gradient": [0],
        "tpm_fft_an": [0, 1, 2, 3], "normalize": [0], "normalize_elementwise": [0],
    }
    drop = {"grid_fields": 2, "coord_fields": 2, "layer_fields": 2, "layer_fields_coords": 2, "stack_fields": 2, "stack_fields_coords": 2, "auto_grid": 2}
    for n, idx in linear.items():
        fn, args, kw = menu.entry(n)
        leaves, td = jax.tree_util.tree_flatten(args)
        real = list(leaves)
        imag = list(leaves)
        for i in idx:
            real[i] = leaves[i].real.copy()
            imag[i] = 1j * leaves[i].real
        outs = [fn(*jax.tree_util.tree_unflatten(td, l), **kw) for l in (real, imag)]
        ctx.step(2)
        ctx.state(n)
        if n in drop:
            outs = [o[: drop[n]] for o in outs]
        for x, y in zip(*[jax.tree_util.tree_leaves(o) for o in outs]):
            x, y = np.asarray(x), np.asarray(y)
            if x.dtype.kind not in "fc" or np.isnan(x).all():
                continue
            ctx.close(np.nan_to_num(y), 1j * np.nan_to_num(x), 1e-10, f"{n} of imaginary arguments", scale=max(1e-3, float(np.max(np.abs(np.nan_to_num(x))))))
    ctx.outcome("real")


def run_mixed(case, ctx):
    """One argument real and the others complex, or one in single precision: every combination of dtypes of the arguments is accepted and means the same."""
    import numpy as np

    from mc import menu
    from mc.lib import jax

    n = case["name"]
    fn, args, kw = menu.entry(n.replace("_forced", ""))
    if n.endswith("_forced"):
        kw = {**kw, "force_x64_solve": True}
    leaves, td = jax.tree_util.tree_flatten(args, is_leaf=is_rec)
    num = [i for i, x in enumerate(leaves) if isinstance(x, np.ndarray) and x.dtype.kind in "fc"][:8]
    put = lambda l, i, x: [*l[:i], x, *l[i + 1 :]]
    run = lambda l: fn(*jax.tree_util.tree_unflatten(td, l), **kw)
    base = run(leaves)
    for i in num:
        x = leaves[i]
        if x.dtype.kind == "c":
            ctx.state(n, i, "real")
            ctx.step(2)
            compare(ctx, n, run(put(leaves, i, x.real.copy())), run(put(leaves, i, x.real.astype(complex))), 1e-10, f"{n} with argument {i} alone of real dtype", False)
            others = [v.real.astype(float) if j in num and j != i and v.dtype.kind == "c" else v for j, v in enumerate(leaves)]
            if len(num) > 1:
                cplx = [v.astype(complex) if j in num and j != i and leaves[j].dtype.kind == "c" else v for j, v in enumerate(others)]
                ctx.state(n, i, "complex")
                ctx.step(2)
                compare(ctx, n, run(others), run(cplx), 1e-10, f"{n} with argument {i} alone of complex dtype", False)
        ctx.state(n, i, "single")
        ctx.step()
        compare(ctx, n, run(put(leaves, i, x.astype({"f": np.float32, "c": np.complex64}[x.dtype.kind]))), base, 2e-4, f"{n} with argument {i} alone in single precision")
    ctx.outcome(n)


def run_media(case, ctx):
    """Lossless media described by arrays of any numeric dtype, at wavelengths with propagating and with evanescent orders only."""
    import itertools

    import numpy as np

    from mc import lib, menu
    from mc.lib import F, fmm, jnp

    g = (6, 7)
    uni = case["pattern"] == "uni"
    den = np.ones((1, 1)) if uni else (lib.pattern("gen", g) > 0.5).astype(float)
    level = lambda lo, hi: np.rint(lo + (hi - lo) * den)
    solvers = {
        "iso": lambda a: fmm.eigensolve_isotropic_media(wl, k, menu.lv(), a(1, 4), ex, f),
        "aniso": lambda a: fmm.eigensolve_anisotropic_media(wl, k, menu.lv(), a(1, 4), a(0, 0), a(0, 0), a(2, 5), a(1, 3), ex, f),
        "general": lambda a: fmm.eigensolve_general_anisotropic_media(wl, k, menu.lv(), a(1, 4), a(0, 0), a(0, 0), a(2, 5), a(1, 3), a(1, 2), a(0, 0), a(0, 0), a(2, 2), a(1, 1), ex, f),
    }
    for wlv, kv, en, dt in itertools.product((0.83, 2.6, 40.0), ((0.0, 0.0), (0.31, -0.17)), ("c5", "b9"), MEDIA_DTYPES):
        if dt == "bool" and case["solver"] != "iso":
            continue  # tensor components that are negated have no boolean form
        ex, f, wl, k = lib.expansion(en), F.FFT, np.array(wlv), np.array(kv)
        make = (lambda lo, hi: np.full_like(den, float(hi > 0))) if dt == "bool" else level
        out = [np.asarray(x) for x in menu.eig_invariants(solvers[case["solver"]](lambda lo, hi: make(lo, hi).astype(dt)))]
        ref = [np.asarray(x) for x in menu.eig_invariants(solvers[case["solver"]](lambda lo, hi: make(lo, hi).astype(complex)))]
        ctx.step(2)
        ctx.state(case["solver"], case["pattern"], wlv, kv, en, dt)
        for i, (x, y) in enumerate(zip(out, ref)):
            if i == 1 and not uni and dt in ("float32", "complex64", "int32", "bool"):
                continue  # single-precision rounding of the medium can hide that a mode is lossless
            msg = f"{case['solver']} {case['pattern']} medium of dtype {dt}, wavelength {wlv}, k {kv}, {en}: item {i}"
            if ctx.true(bool(np.isfinite(x).all()), f"{msg} is not finite"):
                ctx.close(x, y, 1e-3 if dt in ("float32", "complex64", "int32", "bool") else 1e-9, msg, scale=max(1e-3, float(np.max(np.abs(y), initial=0.0))))
    ctx.outcome(case["solver"], case["pattern"])


def run_mode32(case, ctx):
    """A fresh process with 64-bit mode off reproduces the double-precision results."""
    import tempfile

    import numpy as np

    from mc import menu

    names = [n for n in NAMES + ["auto_grid", "generate_circular", "generate_parallelogramic"] if n not in SLOW]
    names = names[case["g"] - 1 :: GROUPS - 1] if case["g"] else sorted(SLOW)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "r.npz")
        p = subprocess.run([sys.executable, "-B", "-W", "ignore", "-m", "mc.props.c20", path] + names, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), capture_output=True, text=True)
        if not ctx.true(p.returncode == 0, f"calls with 64-bit mode off failed: {p.stderr[-600:]}"):
            return
        with np.load(path) as z:
            got = {k: z[k] for k in z.files}
    for n in names:
        for k, want in images(n, menu.call(n)).items():
            x = got.get(k)
            ctx.step()
            ctx.state(k)
            if not ctx.true(x is not None and x.shape == want.shape and x.dtype.itemsize <= (8 if x.dtype.kind != "c" else 8), f"{k} with 64-bit mode off: shape or dtype"):
                continue
            ctx.true((np.isnan(x) == np.isnan(want)).all(), f"{k} with 64-bit mode off: undefined entries")
            x, want = np.nan_to_num(x), np.nan_to_num(want)
            ctx.close(x, want, 5e-4, f"{k} with 64-bit mode off", scale=max(1e-3, float(np.max(np.abs(want), initial=0.0))))
        if n in FORCE:
            for k, want in images(n, menu.call(n)).items():
                x = got.get(k + ":forced")
                if ctx.true(x is not None, f"{k} with 64-bit mode off and forced precision"):
                    ctx.close(np.nan_to_num(x), np.nan_to_num(want), 5e-4, f"{k} with 64-bit mode off and forced precision", scale=max(1e-3, float(np.max(np.abs(want), initial=0.0))))
    ctx.outcome(case["g"])


def images(n, out):
    import numpy as np

    from mc import menu

    if hasattr(out, "basis_coefficients"):
        return {n + ":0": np.asarray(out.basis_coefficients).astype(np.int32)}
    return {f"{n}:{i}": x for i, x in enumerate(menu.invariants(n, out))}


def _main(path, names):
    from mc import env

    env.load(x64=False)
    import jax
    import numpy as np

    # mc.lib loads the package in 64-bit mode; the arguments are built there and then cast.
    from mc import lib, menu  # noqa: F401

    entries = {n: menu.entry(n) for n in names}
    jax.config.update("jax_enable_x64", False)
    jax.clear_caches()
    res = {}
    f32 = lambda x: x.astype({"f": np.float32, "c": np.complex64}.get(x.dtype.kind, x.dtype))
    for n in names:
        fn, a, kw = entries[n]
        if n not in ("generate_circular", "generate_parallelogramic"):
            a = convert(a, f32, True)
        for k, v in images(n, fn(*a, **kw)).items():
            res[k] = v
        if n in FORCE:
            for k, v in images(n, fn(*a, **{**kw, "force_x64_solve": True})).items():
                res[k + ":forced"] = v
    np.savez(path, **res)


if __name__ == "__main__":
    _main(sys.argv[1], sys.argv[2:])
