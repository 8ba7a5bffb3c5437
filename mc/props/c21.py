"""C21: calls have no memory and do not modify their arguments."""
import itertools
import json
import os
import subprocess
import sys

from mc.props.c08 import _names

TECHNIQUE = "exhaustive enumeration of call histories: every ordered pair of public calls in one process, both orders of first calls in fresh processes, and interleavings with changed, mutated and shared arguments; outputs compared to rounding and arguments inspected after every call"
SLOW = ["eig_jones_direct", "eig_pol_fourier", "fourier_iso_vec", "fourier_aniso_vec", "scan", "jones_direct", "pol", "jones", "normal", "tangent"]
NAMES = _names() + ["auto_grid", "generate_circular", "generate_parallelogramic", "min_shape"]
FAST = [n for n in NAMES if n not in SLOW]
TRIPLES = ["transverse_wavevectors", "conv", "fft", "ifft", "wave_fields", "grid_fields", "interior_amps", "eig_uniform", "eig_fft", "stack", "append", "amps_for_fields", "gaussian", "farfield_profile", "pml", "interpolate", "generate_circular", "generate_parallelogramic"]
FAMILIES = {
    "basis": ["reciprocal", "unit_cell_coordinates", "plane_wave", "brillouin", "transverse_wavevectors", "generate_circular", "generate_parallelogramic", "min_shape", "conv", "fft", "fft_axes", "ifft", "ifft_axis", "beam", "rotation_matrix", "pml", "diag", "omega", "adjoint", "atleast_nd", "interpolate", "solve", "normalize_jones", "normalize_elementwise", "normalize", "gradient", "dirac", "gaussian", "unflatten"],
    "far": ["farfield_profile", "angles", "solid_angle", "integrated_flux", "unflatten", "unflatten_flux", "unflatten_wavevectors", "transverse_wavevectors", "brillouin", "reciprocal"],
    "fields": ["propagate", "colocate", "amp_flux", "dir_flux", "mode_flux", "wave_fields", "conversion", "grid_fields", "coord_fields", "interior_amps", "interior_amps_source", "amps_interior", "stack_fields", "stack_fields_coords", "layer_fields", "layer_fields_coords", "auto_grid", "ifft"],
    "fmm": ["eig_uniform", "eig_fft", "eig_aniso_uniform", "eig_aniso", "eig_gen", "eig_gen_uniform", "fourier_iso", "fourier_aniso", "oskp", "sk_uniform", "sk_patterned", "k_patterned", "tp_fft", "tp_vec", "tp_fft_an", "tpm_fft_an", "tp_vec_an", "tpm_vec_an", "conv"],
    "scat": ["stack", "interior", "star", "append", "prepend", "set_end", "set_start", "solve", "amps_for_fields", "amps_for_fields_bz", "dirac", "gaussian", "amps_for_source", "polarization", "emission", "interior_amps", "wave_fields", "amp_flux"],
}
NPAIRS = sum(len(v) ** 2 for v in FAMILIES.values())
BOUNDS = {
    "quick": f"{NPAIRS} ordered pairs (all pairs within each of {len(FAMILIES)} families of public calls); {len(NAMES)} calls each repeated, interleaved with one changed argument at a time, with arguments changed in place, read-only; both orders of first calls in fresh processes",
    "thorough": f"all {len(NAMES)}^2 ordered pairs and all {len(TRIPLES)}^3 ordered triples",
}
ASSUMPTIONS = ["outputs are compared to 1e-9 (layer solutions through gauge-invariant quantities), arguments bit for bit"]
MAX_CHUNK = 30
GROUPS = 4


def cases(tier):
    for g in range(GROUPS):
        yield dict(part="orders", g=g)
    for n in NAMES:
        if tier == "thorough" or n not in ("jones_direct", "pol", "jones", "normal", "fourier_iso_vec"):  # part of the larger calls
            yield dict(part="single", name=n)
    if tier == "quick":
        for f in FAMILIES:
            for n in FAMILIES[f]:
                yield dict(part="pairs", first=n, pool=f)
    else:
        for n in NAMES:
            yield dict(part="pairs", first=n, pool="all")
        for n in TRIPLES:
            yield dict(part="triples", first=n)


def order_groups():
    rest = [n for n in NAMES if n not in SLOW]
    return [SLOW] + [[n for n in rest if family(n) in fs] for fs in (("basis", "far", "slow"), ("fields",), ("fmm", "scat"))]


def family(n):
    return next((f for f in FAMILIES if n in FAMILIES[f]), "slow")


def group(c):
    if c["part"] == "orders":
        return c["part"], c["g"]
    if c["part"] == "single":
        return "single" if family(c["name"]) != "slow" else "slow", family(c["name"]), SLOW.index(c["name"]) % 3 if c["name"] in SLOW else ""
    return c["part"], c.get("pool")


def weight(c):
    if c["part"] == "orders":
        return 100.0
    if c["part"] == "single":
        return 20.0 if c["name"] in SLOW else 1.0
    return {"fields": 2.0, "fmm": 2.0, "scat": 2.0}.get(c.get("pool"), 0.3)


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def leaves_of(x):
    """All array leaves of an argument tree, including those stored as static data."""
    import numpy as np

    from mc.lib import basis, jax

    out = []
    for l in jax.tree_util.tree_leaves(x, is_leaf=lambda v: isinstance(v, basis.Expansion)):
        out.append(l.basis_coefficients if isinstance(l, basis.Expansion) else l)
    return [l for l in out if isinstance(l, np.ndarray)]


def snapshot(args, kw):
    return [(a.tobytes(), a.shape, a.dtype) for a in leaves_of((args, kw))], (_shape(args), _shape(kw))


def _shape(x):
    """Identity structure of the caller's containers."""
    if isinstance(x, (list, tuple)):
        return [id(x), len(x)] + [_shape(v) for v in x]
    if isinstance(x, dict):
        return [id(x), sorted(x)] + [_shape(v) for v in x.values()]
    if hasattr(x, "__dataclass_fields__"):
        return [id(x)] + [_shape(getattr(x, f)) for f in x.__dataclass_fields__]
    return id(x)


_ENV = {}


def entry(name):
    """One argument set per process and call, reused by every history."""
    from mc import menu

    if name not in _ENV:
        _ENV[name] = menu.entry(name)
    return _ENV[name]


def raw(name, out):
    """Comparable image of a result: tree structure, shapes, dtypes and gauge-invariant values."""
    import numpy as np

    from mc import menu
    from mc.lib import basis, jax

    if isinstance(out, basis.Expansion):
        return ["", np.asarray(out.basis_coefficients)]
    return [jax.tree_util.tree_structure(out)] + [np.asarray(x) for x in menu.invariants(name, out)]


def same(a, b):
    """Equal structure, shapes, dtypes and values to rounding (vectorised kernels may round differently for differently aligned memory)."""
    import numpy as np

    if a[0] != b[0] or len(a) != len(b):
        return False
    for x, y in zip(a[1:], b[1:]):
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.kind in "fc":
            if x.size and not np.max(np.abs(np.nan_to_num(x) - np.nan_to_num(y))) <= 1e-9 * max(1.0, np.max(np.abs(np.nan_to_num(x)))):
                return False
        elif not np.array_equal(x, y):
            return False
    return True


def settings():
    """Process-wide settings and random states."""
    import random
    import warnings

    import numpy as np

    from mc.lib import jax

    r = np.random.get_state()
    return (hash(r[1].tobytes()), r[2], hash(random.getstate()), tuple(np.geterr().items()), hash(tuple(sorted(os.environ.items()))), jax.config.jax_enable_x64, str(jax.config.jax_default_matmul_precision), str(jax.config.jax_debug_nans), len(warnings.filters), os.getcwd())


_REF = {}


def _containers(x, kind):
    """A copy of nested arguments with every list or tuple turned into the given kind."""
    if isinstance(x, (list, tuple)):
        return kind(_containers(v, kind) for v in x)
    if isinstance(x, dict):
        return {n: _containers(v, kind) for n, v in x.items()}
    return x


def call(ctx, name, args=None, what="", kwargs=None):
    fn, a, kw = entry(name)
    kw = kw if kwargs is None else kwargs
    a = a if args is None else args
    before, state = snapshot(a, kw), settings()
    out = fn(*a, **kw)
    r = raw(name, out)
    ctx.step()
    after = snapshot(a, kw)
    ctx.true(settings() == state, f"{name} changed process-wide settings{what}")
    ctx.true(before[0] == after[0], f"{name} changed the contents of its arguments{what}")
    ctx.true(before[1] == after[1], f"{name} changed the containers it was given{what}")
    return r


def reference(ctx, name):
    if name not in _REF:
        _REF[name] = call(ctx, name)
    return _REF[name]


def run_pairs(case, ctx):
    a = case["first"]
    pool = FAMILIES.get(case["pool"], NAMES)
    reference(ctx, a)
    for b in pool:
        rb = reference(ctx, b)
        call(ctx, a)
        got = call(ctx, b)
        ctx.state(a, b)
        ctx.true(same(got, rb), f"{b} after {a} differs from its first result")
    ctx.outcome(a)


def run_triples(case, ctx):
    a = case["first"]
    for b, c in itertools.product(TRIPLES, TRIPLES):
        rc = reference(ctx, c)
        call(ctx, a)
        call(ctx, b)
        ctx.true(same(call(ctx, c), rc), f"{c} after {a}, {b} differs from its first result")
        ctx.state(a, b, c)
    ctx.outcome(a)


def run_single(case, ctx):
    """Repeats, interleavings with one changed argument at a time, and arguments changed in place by the caller."""
    import copy

    import numpy as np

    from mc import menu

    n = case["name"]
    fn, args, kw = entry(n)
    r0 = reference(ctx, n)
    ctx.true(same(call(ctx, n), r0), f"{n}: repeated call differs")
    arrs = [i for i, x in enumerate(leaves_of(args)) if x.dtype.kind in "fc"]
    if n in SLOW:
        arrs = arrs[:2]
    for i in arrs[:8]:
        # Another argument set with one array changed; its result must not depend on what was called before.
        other = copy.deepcopy(args)
        x = leaves_of(other)[i]
        x *= 1.0625
        try:
            r1 = call(ctx, n, other)
        except Exception:
            continue
        ctx.state(n, i)
        ctx.true(same(call(ctx, n), r0), f"{n}: result after a call with another argument {i} differs")
        ctx.true(same(call(ctx, n, other), r1), f"{n}: second result with the other argument {i} differs")
        # The caller changes the same array object in place: the result follows the contents, not the object.
        x /= 1.0625
        restored = x.tobytes() == leaves_of(args)[i].tobytes()
        if restored:
            ctx.true(same(call(ctx, n, other), r0), f"{n}: result after restoring argument {i} in place differs")
    # Read-only and non-contiguous arguments are accepted and give the same values.
    # Lists instead of tuples and the reverse, wherever accepted, give the same values and are left alone.
    for kind in (list, tuple):
        other, okw = _containers(copy.deepcopy(args), kind), _containers(copy.deepcopy(kw), kind)
        try:
            r1 = call(ctx, n, list(other), f" ({kind.__name__}s)", okw)
        except Exception:
            continue
        ctx.state(n, kind.__name__)
        ctx.true(same(r1, r0), f"{n}: {kind.__name__}s as containers give another result")
    ro = copy.deepcopy(args)
    for x in leaves_of(ro):
        x.setflags(write=False)
    ctx.true(same(call(ctx, n, ro, " (read only)"), r0), f"{n}: read-only arguments give another result")
    ctx.outcome(n)


def run_orders(case, ctx):
    """First calls in fresh processes, in two opposite orders: results agree."""
    import numpy as np

    names = order_groups()[case["g"]]
    outs = []
    import tempfile

    with tempfile.TemporaryDirectory() as d:
        ps = []
        for k, order in enumerate((names, ["-"] + names[::-1])):
            path = os.path.join(d, f"{k}.npz")
            ps.append((subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-m", "mc.props.c21", path] + order, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))), path, order))
        for p, path, order in ps:
            if not ctx.true(p.wait() == 0, f"calls in the order {order} failed"):
                return
            with np.load(path) as z:
                outs.append({k: z[k] for k in z.files})
            ctx.step(len(order))
    ctx.step(len(outs[0]))
    if not ctx.true(sorted(outs[0]) == sorted(outs[1]), f"calls that are accepted depend on the order of calls: {sorted(set(outs[0]) ^ set(outs[1]))[:6]}"):
        return
    for k in outs[0]:
        a, b = outs[0][k], outs[1][k]
        ctx.state(k)
        if not ctx.true(a.shape == b.shape and a.dtype == b.dtype, f"{k}: shape or dtype in opposite order of first calls"):
            continue
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not ctx.true((fa == fb).all(), f"{k}: undefined entries in opposite order of first calls"):
            continue
        a, b = np.where(fa, a, 0), np.where(fb, b, 0)
        ctx.close(b, a, 1e-8, f"{k} in opposite order of first calls")
    ctx.outcome(case["g"])


KINDS = ["", "scaled", "reversed", "sign", "slightly", "swapped", "number"]


def changed(args, kind, slow):
    """Argument sets that differ from `args` in one array (or number, or order of an expansion) only; many preserve the size, sum, norm or leading digits of the array."""
    import copy

    import numpy as np

    from mc.lib import basis, jax

    if not kind:
        yield "", args
        return
    if kind == "number":
        for i, a in enumerate(args):
            if isinstance(a, (int, float)) and not isinstance(a, bool):
                for d in (1, 7):
                    yield f"{i}:{d}", [*args[:i], a + d, *args[i + 1 :]]
            if isinstance(a, basis.Truncation):
                for b in basis.Truncation:
                    if b != a:
                        yield f"{i}:{b.name}", [*args[:i], b, *args[i + 1 :]]
            if isinstance(a, basis.Expansion) and len(a.basis_coefficients) > 2:
                c = np.asarray(a.basis_coefficients)
                yield f"{i}:orders", [*args[:i], basis.Expansion(basis_coefficients=np.concatenate([c[:1], c[:0:-1]])), *args[i + 1 :]]
        return
    n = [i for i, x in enumerate(leaves_of(args)) if x.dtype.kind in "fc"]
    for i in n[: 2 if slow else 8]:
        other = copy.deepcopy(args)
        x = leaves_of(other)[i]
        if kind == "scaled":
            x *= 1.0625
        elif kind == "slightly":
            x *= 1 + 1e-5
        elif x.ndim == 0:
            continue
        elif kind == "reversed":
            x[...] = x.ravel()[::-1].reshape(x.shape).copy()
        elif kind == "sign":
            x.reshape(-1)[-1] *= -1
        elif kind == "swapped":
            x[...] = np.roll(x, 1, axis=-1)
        yield i, other


def _main(path, names):
    import numpy as np

    from mc import menu

    res = {}
    reverse = names[0] == "-"
    names = [n for n in names if n != "-"]
    for n in names:
        fn, args, kw = menu.entry(n)
        calls = [(f"{n}:{k}:{j}", a) for k in KINDS if not (n in SLOW and k not in ("", "reversed")) for j, a in changed(args, k, n in SLOW)]
        for key, a in calls[::-1] if reverse else calls:
            try:
                out = fn(*a, **kw)
            except Exception as e:
                res[key + ":error"] = np.array(len(type(e).__name__))
                continue
            if hasattr(out, "basis_coefficients"):
                res[key + ":0"] = np.asarray(out.basis_coefficients)
            else:
                for i, x in enumerate(menu.invariants(n, out)):
                    res[f"{key}:{i}"] = x
    np.savez(path, **res)


if __name__ == "__main__":
    _main(sys.argv[1], sys.argv[2:])
