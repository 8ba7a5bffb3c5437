"""C02: reconstructed interior amplitudes and fields solve the boundary value problem; all evaluation routes agree."""
from mc.engine import deviations, words
from mc.props.c01 import CONFIGS, LETTERS

TECHNIQUE = "exhaustive enumeration of layer words with the full excitation basis (all 4N incoming waves at once) and of evaluation routes by deviation bound, against the interface-matching solution, an independent propagator and explicit Fourier sums"
BOUNDS = {
    "quick": "all words of length 1-3 over 5 letters and 3 stacks of 6 to 12 layers with all 4N excitation basis vectors, every interface and interior plane; all evaluation-route configurations with <= 1 deviation from the default in 8 dimensions and <= 2 in the 4 that place the points",
    "thorough": "all words of length 1-3 over 9 letters in 3 configurations, length 4 over 3; route configurations with <= 3 deviations",
}
ASSUMPTIONS = [
    "fields compared at 1e-6 relative to the largest field of the excitation",
    "between interfaces Maxwell's equations are checked with a matrix exponential of an independent operator",
]
MAX_CHUNK = 60

ROUTE = dict(
    w=["vpa", "p", "xv", "tp", "jvz"],
    lat=["obl", "sq", "left"],
    exp=["c5", "one", "asym", "x3"],
    k=["gen", "zero", "big"],
    shape=[(5, 5), (7, 5), (6, 9)],
    cells=[(2, 3), (1, 1), (1, 2), (3, 1)],
    znum=["234", "111", "521"],
    coords=["s23", "s", "s4", "s122"],
)


def cases(tier):
    if tier == "quick":
        for w in words("vpaxt", (1, 2, 3)):
            yield dict(part="word", w="".join(w), cfg="main")
        for w in words("jzu", (1, 2)):
            yield dict(part="word", w="".join(w), cfg="sub")
        for w in ("vpaxzj", "pxavpaxv", "vpzpaxjupagv"):
            yield dict(part="word", w=w, cfg="main")
        for c in deviations(ROUTE, 1):
            yield dict(part="route", **c)
        # Pairs of deviations in the dimensions that place the evaluation points.
        for c in deviations({k: ROUTE[k][:3] if k in ("lat", "k", "cells", "shape") else ROUTE[k][:1] for k in ROUTE}, 2):
            yield dict(part="route", **c)
    else:
        for cfg in CONFIGS:
            for w in words("vpatxjzuT", (1, 2, 3)):
                yield dict(part="word", w="".join(w), cfg=cfg)
        for w in words("pat", (4,)):
            yield dict(part="word", w="".join(w), cfg="main")
        for c in deviations(ROUTE, 3):
            yield dict(part="route", **c)


def group(c):
    if c["part"] == "route":
        return ("route", c["exp"] != "c5", c["lat"], c["shape"])
    return ("word", c["cfg"], len(c["w"]))


def weight(c):
    return 4 if c["part"] == "route" else len(c["w"]) ** 2


_JIT = {}


def run(case, ctx):
    from mc import lib
    from mc.lib import fields, jax, jnp, scattering

    if not _JIT:
        _JIT["int"] = jax.jit(scattering.stack_s_matrices_interior)
        _JIT["amp"] = jax.jit(fields.stack_amplitudes_interior)
        _JIT["col"] = jax.jit(lambda a, b, z, r, t: fields.fields_from_wave_amplitudes(*fields.colocate_amplitudes(a, b, z_offset=z, layer_solve_result=r, layer_thickness=t), r))
    if case["part"] == "word":
        run_word(case, ctx)
    else:
        run_route(case, ctx)


def _stack(case, cfg, ctx):
    import dataclasses

    from mc import lib
    from mc.lib import jnp

    lay, ops, ts = [], [], []
    for c in case["w"]:
        med, pat, t, form = LETTERS[c]
        res, A, B, m = lib.cached_layer(med, pat, cfg["shape"], cfg["wl"], cfg["k"], cfg["lat"], cfg["exp"], form)
        lay.append(dataclasses.replace(res, tangent_vector_field=None))
        ops.append((A, B, m))
        ts.append(t)
    return lay, ops, ts, [jnp.asarray(t) for t in ts]


def run_word(case, ctx):
    import numpy as np
    import scipy.linalg as sla

    from mc import lib, ref
    from mc.lib import jnp

    cfg = CONFIGS[case["cfg"]]
    lay, ops, ts, jts = _stack(case, cfg, ctx)
    L = len(lay)
    c = lib.EXP[cfg["exp"]]
    N2 = 2 * len(c)
    om = 2 * np.pi / cfg["wl"]
    kx, ky = ref.kvec(cfg["k"], lib.LAT[cfg["lat"]], c)
    fwd = np.hstack([np.eye(N2), np.zeros((N2, N2))]).astype(complex)
    bwd = np.hstack([np.zeros((N2, N2)), np.eye(N2)]).astype(complex)
    amps = _JIT["amp"](_JIT["int"](lay, jts), jnp.asarray(fwd), jnp.asarray(bwd))
    ctx.step(2)
    ctx.true(len(amps) == L, "one amplitude pair per layer")
    ctx.close(amps[0][0], fwd, 1e-8, "prescribed forward wave in the first layer")
    ctx.close(amps[-1][1], bwd, 1e-8, "prescribed backward wave in the last layer")
    prev = None
    for l in range(L):
        a, b = amps[l]
        A, B, med = ops[l]
        big = lambda x: np.broadcast_to(x, (16, 16)) if x.shape == (1, 1) else x
        eta = ref.conv(big(1 / med["eps"][4]), c)
        nu = ref.conv(big(1 / med["mu"][4]), c)
        t = ts[l]
        dz = min(0.04, t) if t else 0.0
        zs = [0.0, dz, 0.37 * t, max(t - dz, 0.0), t]
        F = {}
        for z in zs:
            (ex, ey, ez), (hx, hy, hz) = [[np.asarray(x) for x in f] for f in _JIT["col"](a, b, jnp.asarray(z), lay[l], jts[l])]
            ctx.step()
            F[z] = (np.vstack([-ey, ex]), np.vstack([hx, hy]), ez, hz)
            ctx.state(case["w"], case["cfg"], l, z)
        scale = max(1e-3, max(np.abs(F[z][i]).max() for z in zs for i in (0, 1)))
        for z in zs:
            e, h, ez, hz = F[z]
            N = N2 // 2
            ctx.true(np.all(np.isfinite(e)) and np.all(np.isfinite(h)), f"finite fields in layer {l}")
            wez = -eta @ (kx[:, None] * h[N:] - ky[:, None] * h[:N]) / om
            whz = nu @ (kx[:, None] * (-e[:N]) - ky[:, None] * e[N:]) / om
            ctx.close(ez, wez, 1e-6, f"Ez in layer {l} at z={z}", scale=scale * 10)
            ctx.close(hz, whz, 1e-6, f"Hz in layer {l} at z={z}", scale=scale * 10)
        if dz:
            G = np.zeros((2 * N2, 2 * N2), complex)
            G[:N2, N2:] = 1j * A
            G[N2:, :N2] = 1j * B
            P = sla.expm(G * dz)
            for z1, z2 in ((0.0, dz), (zs[3], t)):
                v = P @ np.vstack(F[z1][:2])
                ctx.close(np.vstack(F[z2][:2]), v, 1e-6, f"Maxwell between z={z1:.3g} and {z2:.3g} in layer {l}", scale=max(scale, np.abs(v).max()))
        if prev is not None:
            e, h = F[0.0][:2]
            pe, ph, psc = prev
            ctx.close(e, pe, 1e-6, f"tangential E across interface {l-1}|{l}", scale=max(scale, psc))
            ctx.close(h, ph, 1e-6, f"tangential H across interface {l-1}|{l}", scale=max(scale, psc))
        prev = F[t][0], F[t][1], scale
    ctx.outcome(np.round(np.asarray(amps[-1][0]), 6).tobytes())


def run_route(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import fields, jnp

    cfg = dict(lat=case["lat"], exp=case["exp"], wl=0.83, k=lib.KS[case["k"]], shape=(8, 7))
    lay, ops, ts, jts = _stack(case, cfg, ctx)
    lat = lib.LAT[case["lat"]]
    c = lib.EXP[case["exp"]]
    N2 = 2 * len(c)
    shape = tuple(case["shape"])
    cells = tuple(case["cells"])
    znum = [int(z) for z in case["znum"]][: len(lay)]
    # Two excitations with all orders.
    r = np.arange(N2)
    fwd = np.stack([np.exp(1j * r) / (1 + r), 0 * r + 0.2], axis=1).astype(complex)
    bwd = np.stack([0.1j * np.cos(r), np.sin(1 + r) + 0j], axis=1).astype(complex)
    amps = fields.stack_amplitudes_interior(_JIT["int"](lay, jts), jnp.asarray(fwd), jnp.asarray(bwd))
    ctx.step(2)

    kx, ky = ref.kvec(cfg["k"], lat, c)

    def fourier(l, z):
        (e, h) = _JIT["col"](amps[l][0], amps[l][1], jnp.asarray(z), lay[l], jts[l])
        return [np.asarray(x) for x in e], [np.asarray(x) for x in h]

    def at(coef, x, y):
        ph = np.exp(1j * (np.multiply.outer(x, kx) + np.multiply.outer(y, ky)))
        return np.tensordot(ph, coef, axes=(-1, 0))

    # Reference coordinates.
    i = np.arange(shape[0] * cells[0])[:, None] / shape[0]
    j = np.arange(shape[1] * cells[1])[None, :] / shape[1]
    gx = i * lat[0][0] + j * lat[1][0]
    gy = i * lat[0][1] + j * lat[1][1]
    cs = tuple(int(d) for d in case["coords"][1:])
    n = int(np.prod(cs, dtype=int))
    px = (0.37 + 0.61 * np.arange(n) - 0.9).reshape(cs)
    py = (-0.21 + 0.33 * np.arange(n) ** 2).reshape(cs)

    def want(l, x, y):
        zs = np.linspace(0, ts[l], znum[l]) if znum[l] > 1 else np.zeros(1)
        E, H = [], []
        for z in zs:
            e, h = fourier(l, float(z))
            E.append([at(q, x, y) for q in e])
            H.append([at(q, x, y) for q in h])
        E, H = np.asarray(E), np.asarray(H)  # (z, comp, coords..., batch)
        perm = (1,) + tuple(range(2, E.ndim - 1)) + (0, E.ndim - 1)
        return E.transpose(perm), H.transpose(perm), zs

    tol = 1e-7
    WE, WH, WZ, PE, PH = [], [], [], [], []
    z0 = 0.0
    for l in range(len(lay)):
        e, h = fourier(l, 0.3 * ts[l])
        eg, hg, (x, y) = fields.fields_on_grid(tuple(map(jnp.asarray, e)), tuple(map(jnp.asarray, h)), lay[l], shape, cells)
        sc = max(1e-3, np.abs(np.asarray(e)).max() * len(c), np.abs(np.asarray(h)).max() * len(c))
        ctx.close(x, gx, 1e-12, "grid x coordinates")
        ctx.close(y, gy, 1e-12, "grid y coordinates")
        ctx.close(np.asarray(eg), np.asarray([at(q, gx, gy) for q in e]), tol, f"E on grid, layer {l}", scale=sc)
        ctx.close(np.asarray(hg), np.asarray([at(q, gx, gy) for q in h]), tol, f"H on grid, layer {l}", scale=sc)
        ec, hc, (x, y) = fields.fields_on_coordinates(tuple(map(jnp.asarray, e)), tuple(map(jnp.asarray, h)), lay[l], jnp.asarray(px), jnp.asarray(py))
        ctx.close(x, px, 1e-12, "given x coordinates")
        ctx.close(np.asarray(ec), np.asarray([at(q, px, py) for q in e]), tol, f"E on coordinates, layer {l}", scale=sc)
        ctx.close(np.asarray(hc), np.asarray([at(q, px, py) for q in h]), tol, f"H on coordinates, layer {l}", scale=sc)
        we, wh, wz = want(l, gx, gy)
        ef, hf, (x, y, z) = fields.layer_fields_3d(amps[l][0], amps[l][1], lay[l], jts[l], znum[l], shape, cells)
        ctx.close(ef, we, tol, f"layer {l} E 3-D", scale=sc)
        ctx.close(hf, wh, tol, f"layer {l} H 3-D", scale=sc)
        ctx.close(z, wz, 1e-9, f"layer {l} z")
        pe, ph, _ = want(l, px, py)
        ef, hf, (x, y, z) = fields.layer_fields_3d_on_coordinates(amps[l][0], amps[l][1], lay[l], jts[l], znum[l], jnp.asarray(px), jnp.asarray(py))
        ctx.close(ef, pe, tol, f"layer {l} E at coordinates", scale=sc)
        ctx.close(hf, ph, tol, f"layer {l} H at coordinates", scale=sc)
        ctx.close(z, wz, 1e-9, f"layer {l} z")
        WE.append(we), WH.append(wh), PE.append(pe), PH.append(ph), WZ.append(wz + z0)
        z0 += ts[l]
        ctx.step(4)
        ctx.state(case["w"], l, shape, cells, znum, cs, case["lat"], case["exp"], case["k"])
    sc = max(np.abs(np.concatenate([q.ravel() for q in WE + WH])).max(), 1e-3)
    ef, hf, (x, y, z) = fields.stack_fields_3d(amps, lay, jts, znum, shape, cells)
    ctx.close(ef, np.concatenate(WE, axis=-2), tol, "stack E 3-D", scale=sc)
    ctx.close(hf, np.concatenate(WH, axis=-2), tol, "stack H 3-D", scale=sc)
    ctx.close(z, np.concatenate(WZ), 1e-9, "stack z")
    ctx.close(x, gx, 1e-12, "stack x")
    ef, hf, (x, y, z) = fields.stack_fields_3d_on_coordinates(amps, lay, jts, znum, jnp.asarray(px), jnp.asarray(py))
    ctx.close(ef, np.concatenate(PE, axis=-2), tol, "stack E at coordinates", scale=sc)
    ctx.close(hf, np.concatenate(PH, axis=-2), tol, "stack H at coordinates", scale=sc)
    ctx.close(z, np.concatenate(WZ), 1e-9, "stack z")
    ctx.step(2)
    # Automatic grid: spacing chosen so that no rounding ambiguity arises.
    if max(ts) < 5 and min(ts) > 0:
        sp = 0.117
        rnd = lambda v: int(np.round(v / sp))
        ashape = (rnd(np.hypot(*lat[0])), rnd(np.hypot(*lat[1])))
        azn = [rnd(t) for t in ts]
        ef, hf, (x, y, z) = fields.stack_fields_3d_auto_grid(amps, lay, jts, sp, cells)
        e2, h2, (x2, y2, z2) = fields.stack_fields_3d(amps, lay, jts, azn, ashape, cells)
        ctx.step(2)
        ctx.close(ef, e2, 1e-9, "automatic grid E", scale=sc)
        ctx.close(hf, h2, 1e-9, "automatic grid H", scale=sc)
        ctx.close(x, x2, 1e-12, "automatic grid x")
        ctx.close(z, z2, 1e-9, "automatic grid z")
    ctx.outcome(np.round(np.asarray(WE[0]).ravel()[:8], 6).tobytes())
