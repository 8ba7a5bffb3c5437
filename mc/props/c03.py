"""C03: power balance of stacks and agreement of all flux routes."""
from mc.engine import words
from mc.props.c01 import CONFIGS, LETTERS

TECHNIQUE = "exhaustive enumeration of layer words and of the full excitation space (Hermitian flux form) against an independent power balance"
BOUNDS = {
    "quick": "every mode and pair of modes of 7 layers at 3 wavelengths and 2 wavevectors; all words of length 1-2 over 7 lossless letters, length 3 over 3; all words of length 1-2 over 7 letters with absorbing media; the flux form over all 4N excitations at 5 planes per layer",
    "thorough": "all words of length 1-3 over 7 lossless letters and over 7 absorbing/mixed letters in 2 configurations",
}
ASSUMPTIONS = [
    "conservation is required for formulations whose truncated operators preserve it (Laurent rule; vector rule for one-dimensional patterns)",
    "split into directional flux is compared only where no mode carries a flux too small to have a sign",
]
MAX_CHUNK = 30
LOSSLESS = set("vpzugmlyY")


def cases(tier):
    for l in "vpglmyY" if tier == "quick" else "vpgmlyYatqG":
        for wl in (0.61, 1.3, 4.0) if tier == "quick" else (0.45, 0.61, 0.83, 1.3, 2.2, 4.0, 30.0):
            for k in ("zero", "gen"):
                yield dict(part="pairs", w=l, cfg="main", wl=wl, k=k)
    if tier == "quick":  # absorbing layers, where evanescent modes carry a little power
        for l in "atG":
            for wl in (0.61, 4.0, 30.0):
                yield dict(part="pairs", w=l, cfg="main", wl=wl, k="gen")
    if tier == "quick":
        for w in words("vpgmlyY", (1, 2)):
            yield dict(w="".join(w), cfg="main")
        for w in words("pgl", (3,)):
            yield dict(w="".join(w), cfg="main")
        for w in words("vpatqGg", (1, 2)):
            yield dict(w="".join(w), cfg="main")
        for w in words("uza", (2,)):
            yield dict(w="".join(w), cfg="sub")
        for w in words("vj", (1, 2)):  # formulations without exact conservation: flux routes only
            yield dict(w="".join(w), cfg="main", routes_only=True)
    else:
        for cfg in ("main", "sub"):
            for w in words("vpgmlyY", (1, 2, 3)):
                yield dict(w="".join(w), cfg=cfg)
            for w in words("vpatqGg", (1, 2, 3)):
                yield dict(w="".join(w), cfg=cfg)
            for w in words("vjx", (1, 2)):
                yield dict(w="".join(w), cfg=cfg, routes_only=True)


def group(c):
    return (c["cfg"], len(c["w"]), c.get("part"))


def weight(c):
    return len(c["w"]) ** 2


_JIT = {}


def run_pairs(case, ctx):
    """One layer, with evanescent orders that carry exactly no power alone: every pair of a forward and a backward mode, and every mode alone."""
    import itertools

    import numpy as np

    from mc import lib
    from mc.lib import fields, jax, jnp

    if "pairs" not in _JIT:
        _JIT["pairs"] = [
            lambda a, b, r: (fields.fields_from_wave_amplitudes(a, b, r), fields.amplitude_poynting_flux(a, b, r), fields.directional_poynting_flux(a, b, r)),
        ]
        _JIT["pairs"].append(jax.jit(_JIT["pairs"][0]))
    cfg = CONFIGS[case["cfg"]]
    med, pat, _, form = LETTERS[case["w"]]
    r = lib.strip(lib.cached_layer(med, pat, cfg["shape"], case["wl"], lib.KS[case["k"]], cfg["lat"], cfg["exp"], form)[0])
    n = r.eigenvalues.shape[-1]
    cols = [(i, None) for i in range(n)] + [(None, j) for j in range(n)] + list(itertools.product(range(n), range(n)))
    a, b = np.zeros((n, len(cols)), complex), np.zeros((n, len(cols)), complex)
    for c, (i, j) in enumerate(cols):
        if i is not None:
            a[i, c] = 1.0
        if j is not None:
            b[j, c] = 0.8 + 0.5j
        ctx.state(case["w"], case["wl"], case["k"], i, j)
    for jit in (0, 1):
        ((ex, ey, _), (hx, hy, _)), am, di = _JIT["pairs"][jit](jnp.asarray(a), jnp.asarray(b), r)
        ctx.step(len(cols))
        ex, ey, hx, hy = (np.asarray(x) for x in (ex, ey, hx, hy))
        e, h = np.vstack([-ey, ex]), np.vstack([hx, hy])
        flux = np.real(np.conj(e) * h)
        sc = np.maximum(np.abs(e).max(axis=0) * np.abs(h).max(axis=0), 1e-9)[None, :]
        for nm, (x, y) in (("amplitude", am), ("directional", di)):
            ctx.close((np.asarray(x) + np.asarray(y)) / sc, flux / sc, 1e-7, f"{nm} flux of pairs of modes of layer '{case['w']}' at wavelength {case['wl']}, k {case['k']}")
        # A mode on its own carries its power in the direction given by the sign of its flux.
        df, db = (np.asarray(x).sum(0) for x in di)
        tot = flux.sum(0)
        own = (np.abs(e).max(axis=0) * np.abs(h).max(axis=0))[: 2 * n]
        for c in range(2 * n):
            if abs(tot[c]) > 1e-7 * own[c]:
                want = (tot[c], 0.0) if tot[c] > 0 else (0.0, tot[c])
                ctx.close(np.array([df[c], db[c]]) / own[c], np.array(want) / own[c], 1e-9, f"direction of the power of {'forward' if c < n else 'backward'} mode {c % n} of layer '{case['w']}' at wavelength {case['wl']}")
    ctx.outcome(case["w"], case["wl"], case["k"], np.round(np.asarray(r.eigenvalues)[:2], 6).tobytes())


def run(case, ctx):
    if case.get("part") == "pairs":
        return run_pairs(case, ctx)
    import numpy as np

    from mc import lib
    from mc.lib import fields, jax, jnp, scattering
    from mc.props.c02 import _stack

    if not _JIT:
        _JIT["int"] = jax.jit(scattering.stack_s_matrices_interior)
        _JIT["amp"] = jax.jit(fields.stack_amplitudes_interior)
        _JIT["eig"] = jax.jit(fields.eigenmode_poynting_flux)

        def col(a, b, z, r, t):
            a, b = fields.colocate_amplitudes(a, b, z_offset=z, layer_solve_result=r, layer_thickness=t)
            return (
                a,
                b,
                fields.fields_from_wave_amplitudes(a, b, r),
                fields.amplitude_poynting_flux(a, b, r),
                fields.directional_poynting_flux(a, b, r),
            )

        _JIT["col"] = jax.jit(col)
        _JIT["grid"] = jax.jit(lambda e, h, r: fields.fields_on_grid(e, h, r, (7, 9), (1, 1)))

    cfg = CONFIGS[case["cfg"]]
    w = case["w"]
    lay, ops, ts, jts = _stack(case, cfg, ctx)
    c = lib.EXP[cfg["exp"]]
    N2 = 2 * len(c)
    N = N2 // 2
    fwd = np.hstack([np.eye(N2), np.zeros((N2, N2))]).astype(complex)
    bwd = np.hstack([np.zeros((N2, N2)), np.eye(N2)]).astype(complex)
    # Two further excitations that mix everything, for the elementwise flux comparisons.
    r = np.arange(N2)
    mixf = np.stack([np.exp(1j * r) / (1 + r), np.exp(0.3j * r * r)], axis=1)
    mixb = np.stack([0.4 * np.exp(-0.7j * r), 1j * np.cos(r) + 0.3], axis=1)
    fwd = np.hstack([fwd, mixf])
    bwd = np.hstack([bwd, mixb])
    amps = _JIT["amp"](_JIT["int"](lay, jts), jnp.asarray(fwd), jnp.asarray(bwd))
    ctx.step(2)
    last = None
    conserve = not case.get("routes_only")
    for l in range(len(w)):
        A, B, med = ops[l]
        t = ts[l]
        q, Ev, Hv = lib.impl_modes(lay[l], A)
        mode_flux = np.sum(np.real(np.conj(Ev) * Hv), axis=0)
        fscale = max(1.0, np.abs(mode_flux).max())
        ctx.close(_JIT["eig"](lay[l]), mode_flux, 1e-7, f"flux of each mode of layer {l}", scale=fscale)
        signed = np.abs(mode_flux).min() > 1e-6 * fscale
        for z in (0.0, 0.11 * t, 0.5 * t, 0.83 * t, t):
            a, b, ((ex, ey, _), (hx, hy, _)), (af, ab), (df, db) = _JIT["col"](amps[l][0], amps[l][1], jnp.asarray(z), lay[l], jts[l])
            ctx.step()
            ctx.state(w, case["cfg"], l, z)
            a, b, ex, ey, hx, hy, af, ab, df, db = (np.asarray(x) for x in (a, b, ex, ey, hx, hy, af, ab, df, db))
            e, h = np.vstack([-ey, ex]), np.vstack([hx, hy])
            flux = np.real(np.conj(e) * h)
            sc = np.maximum(np.abs(e).max(axis=0) * np.abs(h).max(axis=0), 1e-6)[None, :]
            ctx.close((af + ab) / sc, flux / sc, 1e-7, f"flux from amplitudes, layer {l} z={z:.3g}")
            ctx.close((df + db) / sc, flux / sc, 1e-7, f"directional flux, layer {l} z={z:.3g}")
            # The two decompositions themselves.
            ae, be, ah, bh = Ev @ a, Ev @ b, Hv @ a, Hv @ b
            sc2 = np.maximum((np.abs(ae).max(0) + np.abs(be).max(0)) * (np.abs(ah).max(0) + np.abs(bh).max(0)), 1e-6)[None, :]
            cross = 0.5 * np.real(np.conj(bh) * ae - np.conj(be) * ah)
            ctx.close(af / sc2, (np.real(np.conj(ae) * ah) + cross) / sc2, 1e-7, "forward eigenmode flux")
            ctx.close(ab / sc2, (-np.real(np.conj(be) * bh) + cross) / sc2, 1e-7, "backward eigenmode flux")
            if signed:
                m = (mode_flux > 0)[:, None]
                fe = Ev @ (a * m) - Ev @ (b * ~m)
                fh = Hv @ (a * m) + Hv @ (b * ~m)
                wf = 0.5 * np.real(np.conj(e) * fh + np.conj(h) * fe)
                ctx.close(df / sc2, wf / sc2, 1e-7, "forward directional flux")
            # Real-space average of the Poynting vector.
            if z in (0.0, 0.5 * t):
                zero = np.zeros_like(ex)
                (gx, gy, _), (mx, my, _), _ = _JIT["grid"]((ex, ey, zero), (hx, hy, zero), lay[l])
                S = np.real(np.asarray(gx) * np.conj(np.asarray(my)) - np.asarray(gy) * np.conj(np.asarray(mx))).mean(axis=(0, 1))
                ctx.close(S / sc[0], flux.sum(0) / sc[0], 1e-7 * N2, f"real-space average, layer {l} z={z:.3g}")
                ctx.step()
            if not conserve:
                continue
            n = 2 * N2
            E, H = e[:, :n], h[:, :n]
            P = 0.5 * (E.conj().T @ H + H.conj().T @ E)
            if last is not None:
                D = last - P
                sc3 = max(1.0, np.abs(P).max(), np.abs(last).max())
                ev = np.linalg.eigvalsh((D + D.conj().T) / 2)
                lossless = w[l] in LOSSLESS or z == 0.0
                if lossless:
                    ctx.close(P, last, 1e-7, f"power at z={z:.3g} of layer {l} ('{w[l]}') equals power at the previous plane", scale=sc3)
                else:
                    ctx.true(ev.min() >= -1e-7 * sc3, f"power increases by {-ev.min():.3g} up to z={z:.3g} of layer {l} ('{w[l]}')")
                    if 0.1 < t < 2:
                        ctx.true(ev.max() > 1e-9, f"layer {l} ('{w[l]}') absorbs")
            last = P
    ctx.outcome(np.round(last, 6).tobytes() if last is not None else w)
