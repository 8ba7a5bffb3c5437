"""C04: Lorentz reciprocity at opposite wavevectors; reversal of the layer order."""
from mc.engine import words
from mc.props.c01 import CONFIGS, LETTERS

TECHNIQUE = "exhaustive enumeration of layer words; full response (port) matrices at +k and -k compared as bilinear forms"
BOUNDS = {
    "quick": "all words of length 1-2 over 9 reciprocal letters and length 3 over 4, at 3 wavevectors, all pairs of excitations; reversal of all words of length 1-2 over 9 letters and length 3 over 5 letters including nonreciprocal ones; stacks of two or more layers built by 6 routes (direct, prepending, star products of single layers and of halves, both members of interior pairs)",
    "thorough": "all words of length 1-3 over 9 reciprocal letters at 4 wavevectors in 2 configurations; reversal of all words of length 1-4 over 6 letters",
}
ASSUMPTIONS = [
    "reciprocity is required for formulations whose truncated operators preserve it (Laurent rule; vector rule for one-dimensional patterns)",
    "electric mode fields at the outer planes come from an independent operator",
]
MAX_CHUNK = 45
_JIT = {}


def routes(lay, ts, how):
    """The stack built by one of the documented ways."""
    from mc import lib
    from mc.lib import jax, jnp, scattering

    if how == "direct":
        return lib.stack(lay, ts)
    if not _JIT:
        for n in ("append_layer", "prepend_layer", "redheffer_star_product"):
            _JIT[n] = jax.jit(getattr(scattering, n))
    ts = [jnp.asarray(t, dtype=float) for t in ts]
    if how == "prepend":
        s = lib.stack(lay[-1:], ts[-1:])
        for l, t in zip(lay[-2::-1], ts[-2::-1]):
            s = _JIT["prepend_layer"](s, l, t)
        return s
    if how == "star":  # from single layers
        s = lib.stack(lay[:1], ts[:1])
        for l, t in zip(lay[1:], ts[1:]):
            s = _JIT["redheffer_star_product"](s, lib.stack([l], [t]))
        return s
    if how == "halves":  # two multi-layer halves
        n = len(lay) // 2
        return _JIT["redheffer_star_product"](lib.stack(lay[:n], ts[:n]), lib.stack(lay[n:], ts[n:]))
    if how == "before":
        return lib.interior(lay, ts)[-1][0]
    return lib.interior(lay, ts)[0][1]


ROUTES = ("direct", "prepend", "star", "halves", "before", "after")
KVECS = {"gen": None, "zero": (0.0, 0.0), "axis": (0.4, 0.0), "big": (2.3, 1.9)}


def cases(tier):
    if tier == "quick":
        for k in ("gen", "zero", "big"):
            for w in words("vpatmqyYu", (1, 2)):
                yield dict(part="rec", w="".join(w), cfg="main", k=k)
        for w in words("pamy", (3,)):
            yield dict(part="rec", w="".join(w), cfg="main", k="gen")
        for w in words("uzl", (1, 2)):
            yield dict(part="rec", w="".join(w), cfg="sub", k="gen")
        for w in words("vpatxgjGz", (1, 2)):
            yield dict(part="rev", w="".join(w), cfg="main")
        for w in words("pxgjt", (3,)):
            yield dict(part="rev", w="".join(w), cfg="main")
    else:
        for cfg in ("main", "sub"):
            for k in KVECS:
                for w in words("vpatmqyYu", (1, 2, 3)):
                    yield dict(part="rec", w="".join(w), cfg=cfg, k=k)
            for w in words("pxgjtz", (1, 2, 3, 4)):
                yield dict(part="rev", w="".join(w), cfg=cfg)


def group(c):
    return (c["part"], c["cfg"], len(c["w"]))


def run(case, ctx):
    import dataclasses

    import numpy as np

    from mc import lib
    from mc.lib import jnp

    cfg = CONFIGS[case["cfg"]]
    w = case["w"]

    def build(k, word, how="direct"):
        lay, ops, ts = [], [], []
        for ch in word:
            med, pat, t, form = LETTERS[ch]
            res, A, B, m = lib.cached_layer(med, pat, cfg["shape"], cfg["wl"], k, cfg["lat"], cfg["exp"], form)
            lay.append(dataclasses.replace(res, tangent_vector_field=None))
            ops.append(A)
            ts.append(t)
        s = routes(lay, ts, how)
        ctx.step()
        ctx.state(case["cfg"], word, k, how)
        return s, ops, lay, ts

    if case["part"] == "rec":
        k = KVECS[case["k"]] or cfg["k"]
        sp, ap, _, _ = build(k, w)
        sm, am, _, _ = build(tuple(-x for x in k), w)
        op = lib.port_from_s(sp, ap[0], ap[-1])
        om = lib.port_from_s(sm, am[0], am[-1])
        p = lib.perm_minus(cfg["exp"])
        n = len(p)
        full = np.concatenate([np.asarray(p) + n * b for b in range(4)])
        # e1^T P h2 - h1^T P e2 takes the same value on both faces, for all pairs of solutions.
        ctx.close(op.T[np.ix_(full, full)], om, 1e-7, f"Lorentz reciprocity of '{w}'")
        if case["k"] == "gen" and len(w) > 1:
            for how in ROUTES[1:]:
                o2 = lib.port_from_s(build(k, w, how)[0], ap[0], ap[-1])
                ctx.close(o2.T[np.ix_(full, full)], om, 1e-7, f"Lorentz reciprocity of '{w}' built by {how}")
        ctx.true(bool(np.all(np.isfinite(op))), "finite response")
        ctx.outcome(np.round(op, 6).tobytes())
    else:
        s, _, lay, ts = build(cfg["k"], w)
        for how in ROUTES if len(w) > 1 else ROUTES[:1]:
            r, _, _, _ = build(cfg["k"], w[::-1], how)
            for a, b in (("s11", "s22"), ("s12", "s21"), ("s21", "s12"), ("s22", "s11")):
                ctx.close(getattr(r, a), getattr(s, b), 1e-7, f"{a} of the reversed stack '{w}' built by {how}")
            ctx.close(r.start_layer_thickness, s.end_layer_thickness, 1e-12, f"recorded start thickness, {how}")
            ctx.close(r.end_layer_thickness, s.start_layer_thickness, 1e-12, f"recorded end thickness, {how}")
            ctx.close(r.start_layer_solve_result.eigenvalues, s.end_layer_solve_result.eigenvalues, 1e-12, f"recorded start layer, {how}")
            ctx.close(r.end_layer_solve_result.eigenvalues, s.start_layer_solve_result.eigenvalues, 1e-12, f"recorded end layer, {how}")
        ctx.outcome(np.round(np.asarray(s.s11), 6).tobytes())
