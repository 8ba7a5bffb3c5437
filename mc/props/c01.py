"""C01: all build histories of a stack's scattering matrix agree with direct interface matching."""
from mc.engine import words

TECHNIQUE = "breadth-first exploration of build histories: every expression tree over (direct, scan, append, prepend, star, set-end, set-start) that yields a sub-word of every layer word, states merged by canonical form, each compared with one dense interface-matching system"

# letter -> (medium, pattern, thickness, formulation)
LETTERS = {
    "v": ("vac", "uni", 0.35, "fft"),
    "p": ("die", "gen", 0.27, "fft"),
    "a": ("abs", "smooth", 0.41, "fft"),
    "z": ("die", "disk", 0.0, "fft"),
    "t": ("met", "gen", 30.0, "fft"),
    "x": ("magt", "gen", 0.22, "fft"),
    "j": ("die", "disk", 0.31, "jones_direct"),
    "u": ("anis", "uni", 0.5, "fft"),
    "T": ("abs", "uni", 60.0, "fft"),
    "g": ("gyro", "gen", 0.33, "fft"),
    "m": ("mag", "gen", 0.24, "fft"),
    "l": ("mll", "gen", 0.19, "fft"),
    "y": ("die", "gx", 0.29, "jones_direct"),
    "Y": ("anis", "gy", 0.26, "pol"),
    "q": ("pml", "gen", 0.32, "fft"),
    "G": ("gyab", "gen", 0.28, "fft"),
}
CONFIGS = {
    "main": dict(lat="obl", exp="c5", wl=0.83, k=(0.31, -0.17), shape=(8, 7)),
    "sub": dict(lat="hex", exp="d7", wl=2.7, k=(0.1, 0.05), shape=(6, 6)),
    "one": dict(lat="sq", exp="one", wl=0.6, k=(0.0, 0.0), shape=(3, 3)),
}
# Deep stacks, built by a few routes only.
LONG = ["vpaxzj", "pxavpaxv", "vpzpaxjupagv", "papapapapapapapapapa"]
# Thicknesses used by the edit operations.
EDITS = (0.0, 0.63, 25.0)
BOUNDS = {
    "quick": "all words of length 1-3 over 6 layer letters (+ length 4 over 2, and 4 stacks of 6 to 20 layers by 8 routes); every build expression tree (direct, scan, append, prepend, star) of words up to length 3, merged states at length 4; all end-thickness edits",
    "thorough": "all words of length 1-3 over 9 letters, length 4 over 4, three configurations; every build expression tree up to length 4",
}
ASSUMPTIONS = [
    "floating point comparison at 1e-7 relative to the largest block element",
    "the reference interface-matching system is solved in the implementation's own mode basis, with electric mode fields from an independent operator",
]
MAX_CHUNK = 70


def cases(tier):
    if tier == "quick":
        for w in words("vpatxj", (1, 2, 3)):
            yield dict(w="".join(w), cfg="main", trees=3)
        for w in words("pa", (4,)):
            yield dict(w="".join(w), cfg="main", trees=2)
        for w in words("zTu", (1, 2, 3)):
            yield dict(w="".join(w), cfg="sub", trees=2)
        for w in words("vpz", (2, 3)):
            yield dict(w="".join(w), cfg="one", trees=2)
        for w in LONG:
            yield dict(w=w, cfg="main", trees=0)
    else:
        for w in LONG:
            for r in (1, 2):
                yield dict(w=w * r, cfg="main", trees=0)
        for cfg in CONFIGS:
            for w in words("vpatxjzuT", (1, 2, 3)):
                yield dict(w="".join(w), cfg=cfg, trees=3)
        for w in words("vpax", (4,)):
            yield dict(w="".join(w), cfg="main", trees=4)
        for w in words("ptz", (4,)):
            yield dict(w="".join(w), cfg="sub", trees=4)
        for w in words("pa", (5,)):
            yield dict(w="".join(w), cfg="main", trees=3)


def group(c):
    return c["cfg"]


def weight(c):
    return len(c["w"]) ** 3


_JIT = {}


def run(case, ctx):
    import dataclasses

    import numpy as np

    from mc import lib, ref
    from mc.lib import jax, jnp, scattering

    if not _JIT:
        for n in ("append_layer", "prepend_layer", "redheffer_star_product", "set_end_layer_thickness", "set_start_layer_thickness", "stack_s_matrix", "stack_s_matrix_scan", "stack_s_matrices_interior"):
            _JIT[n] = jax.jit(getattr(scattering, n))
    cfg = CONFIGS[case["cfg"]]
    w = case["w"]
    n = len(w)
    full, lay, mod, ts = [], [], [], []
    for c in w:
        med, pat, t, form = LETTERS[c]
        res, A, B, m = lib.cached_layer(med, pat, cfg["shape"], cfg["wl"], cfg["k"], cfg["lat"], cfg["exp"], form)
        full.append(res)
        # The tangent field is informational; without it all layers share one container structure.
        lay.append(dataclasses.replace(res, tangent_vector_field=None))
        mod.append(lib.impl_modes(res, A))
        ts.append(t)
    jts = [jnp.asarray(t) for t in ts]

    refs = {}

    def reference(i, j, ti=None, tj=None):
        key = (i, j, ti, tj)
        if key not in refs:
            L = [mod[l] + (ts[l],) for l in range(i, j + 1)]
            if ti is not None:
                L[0] = mod[i] + (ti,)
            if tj is not None:
                L[-1] = mod[j] + (tj,)
            refs[key] = ref.s_blocks(L)
        return refs[key]

    def check(s, i, j, how, ti=None, tj=None):
        want = reference(i, j, ti, tj)
        for name, b in zip(("s11", "s12", "s21", "s22"), want):
            ctx.close(getattr(s, name), b, 1e-7, f"{name} of layers {i}..{j} of '{w}' built by {how}")
        t0 = ts[i] if ti is None else ti
        t1 = ts[j] if tj is None else tj
        ctx.close(s.start_layer_thickness, t0, 1e-12, f"recorded start thickness, {how}")
        ctx.close(s.end_layer_thickness, t1, 1e-12, f"recorded end thickness, {how}")
        for r, l in ((s.start_layer_solve_result, i), (s.end_layer_solve_result, j)):
            ctx.close(r.eigenvectors, mod[l][2], 1e-12, f"recorded outer layer modes, {how}")
        ctx.state(case["cfg"], w, i, j, ti, tj, how if n <= 3 else how[:40])
        ctx.outcome(np.round(np.asarray(s.s11), 6).tobytes(), np.round(np.asarray(s.s21), 6).tobytes())

    # All substacks, built by every expression tree up to case["trees"] layers; above that, the operands are
    # one representative per (interval, last operation) - states that were already compared with the reference.
    if not case["trees"]:
        return run_long(ctx, w, lay, jts, ts, check)
    built = {}
    for length in range(1, n + 1):
        for i in range(0, n - length + 1):
            j = i + length - 1
            out = []
            s = _JIT["stack_s_matrix"](lay[i : j + 1], jts[i : j + 1])
            ctx.step()
            out.append((s, "direct"))
            batched = jax.tree_util.tree_map(lambda *x: jnp.asarray(np.stack(x)), *lay[i : j + 1])
            out.append((_JIT["stack_s_matrix_scan"](batched, jnp.asarray(ts[i : j + 1])), "scan"))
            ctx.step()
            if length > 1:
                for s0, h in built[(i, j - 1)]:
                    out.append((_JIT["append_layer"](s0, lay[j], jts[j]), f"append({h})"))
                for s0, h in built[(i + 1, j)]:
                    out.append((_JIT["prepend_layer"](s0, lay[i], jts[i]), f"prepend({h})"))
                for m_ in range(i, j):
                    for a, ha in built[(i, m_)]:
                        for b, hb in built[(m_ + 1, j)]:
                            out.append((_JIT["redheffer_star_product"](a, b), f"star({ha},{hb})"))
                ctx.step(len(out))
            for s, h in out:
                check(s, i, j, h)
            if length >= case["trees"]:
                keep = {}
                for s, h in out:
                    keep.setdefault(h.split("(")[0], (s, h))
                out = list(keep.values())
            built[(i, j)] = out

    # Before/after pairs for every layer.
    pairs = _JIT["stack_s_matrices_interior"](lay, jts)
    eager = scattering.stack_s_matrices_interior(full, jts) if len(set(w)) == n else ()
    ctx.step(2)
    for l, (before, after) in enumerate(eager):
        check(before, 0, l, f"uncompiled interior before {l}")
        check(after, l, n - 1, f"uncompiled interior after {l}")
    ctx.true(len(pairs) == n, f"one before/after pair per layer, got {len(pairs)}")
    for l, (before, after) in enumerate(pairs):
        check(before, 0, l, f"interior before {l}")
        check(after, l, n - 1, f"interior after {l}")

    # Thickness edits of the outer layers: all sequences of two edits, from each last build operation.
    if n > 1:
        for s, h in [built[(0, n - 1)][0], built[(0, n - 1)][-1]]:
            for t in EDITS:
                # An edit that would amplify evanescent waves is numerically meaningless: only thicken thick layers.
                if t < ts[-1] and ts[-1] > 5 or t < ts[0] and ts[0] > 5:
                    continue
                e = _JIT["set_end_layer_thickness"](s, jnp.asarray(t))
                b = _JIT["set_start_layer_thickness"](s, jnp.asarray(t))
                check(e, 0, n - 1, f"set_end({t})<-{h}", tj=t)
                check(b, 0, n - 1, f"set_start({t})<-{h}", ti=t)
                ctx.step(2)
                if t > 5:
                    continue
                for t2 in EDITS:
                    check(_JIT["set_start_layer_thickness"](e, jnp.asarray(t2)), 0, n - 1, f"set_start({t2})<-set_end({t})", ti=t2, tj=t)
                    check(_JIT["set_end_layer_thickness"](b, jnp.asarray(t2)), 0, n - 1, f"set_end({t2})<-set_start({t})", ti=t, tj=t2)
                    ctx.step(2)
    for blk in built[(0, n - 1)]:
        ctx.true(bool(np.all(np.isfinite(np.asarray(blk[0].s11)))), "finite")


def run_long(ctx, w, lay, jts, ts, check):
    """A deep stack by every route whose cost does not grow with the number of expression trees."""
    import functools

    import numpy as np

    from mc.lib import jax, jnp

    n = len(w)
    star, one = _JIT["redheffer_star_product"], lambda i: _JIT["stack_s_matrix"]([lay[i]], [jts[i]])
    check(_JIT["stack_s_matrix"](lay, jts), 0, n - 1, "direct")
    check(_JIT["stack_s_matrix_scan"](jax.tree_util.tree_map(lambda *x: jnp.asarray(np.stack(x)), *lay), jnp.asarray(ts)), 0, n - 1, "scan")
    check(functools.reduce(lambda s, i: _JIT["append_layer"](s, lay[i], jts[i]), range(1, n), one(0)), 0, n - 1, "append chain")
    check(functools.reduce(lambda s, i: _JIT["prepend_layer"](s, lay[i], jts[i]), range(n - 2, -1, -1), one(n - 1)), 0, n - 1, "prepend chain")
    check(functools.reduce(star, [one(i) for i in range(n)]), 0, n - 1, "star chain")
    check(functools.reduce(lambda b, a: star(a, b), [one(i) for i in range(n - 1, -1, -1)]), 0, n - 1, "reversed star chain")

    def tree(i, j):
        return one(i) if i == j else star(tree(i, (i + j) // 2), tree((i + j) // 2 + 1, j))

    check(tree(0, n - 1), 0, n - 1, "balanced star tree")
    s, lo, hi = one(n // 2), n // 2, n // 2
    while (lo, hi) != (0, n - 1):
        if lo > 0:
            lo -= 1
            s = _JIT["prepend_layer"](s, lay[lo], jts[lo])
        if hi < n - 1:
            hi += 1
            s = _JIT["append_layer"](s, lay[hi], jts[hi])
        check(s, lo, hi, "growing from the middle")
    pairs = _JIT["stack_s_matrices_interior"](lay, jts)
    ctx.true(len(pairs) == n, "one before/after pair per layer")
    for l, (before, after) in enumerate(pairs):
        check(before, 0, l, f"interior before {l}")
        check(after, l, n - 1, f"interior after {l}")
    ctx.step(6 * n)
