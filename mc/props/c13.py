"""C13: fields of embedded current sources satisfy jump and radiation conditions."""
import itertools

from mc.engine import words

TECHNIQUE = "exhaustive enumeration of stacks, source planes and of the complete source basis (3 current components x all orders); each solution checked against the jump, continuity and radiation conditions with independent operators, reciprocity between all pairs of source planes, profiles against quadrature"
BOUNDS = {
    "quick": "all stacks of 2 and 3 layers over 5 letters and of 4 layers over 2, every source interface, every current component and order; reciprocity for all pairs of planes of 23 stacks; profiles: 6 lattices x 4 wavevectors x 5 locations x 3 widths",
    "thorough": "all stacks of 2 and 3 layers over 11 letters, 4 layers over 4, three configurations; reciprocity for 286 stacks",
}
ASSUMPTIONS = ["an out-of-plane current at the end of a layer polarises that layer (the package's convention)", "reciprocity with out-of-plane currents is checked for planes that follow uniform layers"]
MAX_CHUNK = 40


def cases(tier):
    if tier == "quick":
        for w in words("vpaxY", (2, 3)):
            yield dict(part="jump", w="".join(w).replace("Y", "j"), cfg="main")
        for w in words("pu", (4,)):
            yield dict(part="jump", w="".join(w), cfg="main")
        for w in words("ztu", (2, 3)):
            yield dict(part="jump", w="".join(w), cfg="sub")
        rec = ["vpv", "vav", "uvpv", "vpua", "umv", "vuv", "vYv", "qvpq", "vlv", "vyu", "vpav", "apvpu", "uau", "vmu", "vTv", "vzv", "qqv", "vvv", "pvp", "puv", "vpp", "mup", "pam"]
    else:
        for cfg in ("main", "sub", "one"):
            for w in words("vpaxjztugqy", (2, 3)):
                yield dict(part="jump", w="".join(w), cfg=cfg)
        for w in words("vpax", (4,)):
            yield dict(part="jump", w="".join(w), cfg="main")
        rec = [a + "".join(w) + b for a in "vuaqp" for b in "vuaqp" for w in words("vpuqmlYy", (1,))] + ["v" + "".join(w) + "u" for w in words("pvum", (2, 3))] + ["vTv", "vzv"]
    for w in rec:
        yield dict(part="recip", w=w)
    for lat in ("sq", "rect", "obl", "hex", "left", "rot"):
        for k in ("gen", "zero", "kx", "big"):
            yield dict(part="profile", lat=lat, k=k)
    for s in (0, 1, 2):
        yield dict(part="shift", s=s)
    for w in ("vpu", "apv", "vvxv"):
        yield dict(part="split", w=w)


def group(c):
    return (c["part"], c.get("cfg"), len(c.get("w", "")))


def weight(c):
    return {"jump": 1.5, "recip": 2, "profile": 0.5, "shift": 2, "split": 3}[c["part"]]


_J = {}


def emit(nb):
    """jitted (layers, thicknesses, jx, jy, jz) -> (six amplitudes, interior amplitudes) for a source after layer nb - 1."""
    from mc.lib import fields, jax, scattering, sources

    if nb not in _J:

        def f(L, t, jx, jy, jz):
            sb = scattering.stack_s_matrices_interior(L[:nb], t[:nb])
            sa = scattering.stack_s_matrices_interior(L[nb:], t[nb:])
            amps = sources.amplitudes_for_source(jx, jy, jz, sb[-1][0], sa[0][1])
            return amps, fields.stack_amplitudes_interior_with_source(sb, sa, amps[2], amps[3])

        _J[nb] = jax.jit(f)
    return _J[nb]


def layers(w, cfg, k=None):
    from mc import lib
    from mc.props.c01 import CONFIGS, LETTERS

    c = CONFIGS[cfg]
    out = []
    for ch in w:
        m, p, t, f = LETTERS[ch]
        res, A, B, med = lib.cached_layer(m, p, c["shape"], c["wl"], tuple(k or c["k"]), c["lat"], c["exp"], f)
        q, E, H = lib.impl_modes(res, A)
        out.append((lib.strip(res), q, E, H, t, med))
    return c, out


def fields_at(a, b, lay, where):
    """(e, h) at the start or end of a layer."""
    import numpy as np

    _, q, E, H, t, _ = lay
    X = np.exp(1j * q * t)[:, None]
    if where == "start":
        return E @ (a - X * b), H @ (a + X * b)
    return E @ (X * a - b), H @ (X * a + b)


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def basis_currents(N):
    """All unit currents: jx, jy, jz arrays (N, 3 N + 2), the last two columns dense."""
    import numpy as np

    I, Z = np.eye(N, dtype=complex), np.zeros((N, N), complex)
    r = np.arange(N)[:, None]
    d = np.hstack([np.exp(1.3j * r), np.cos(r + 0.5) - 0.4j])
    return np.hstack([I, Z, Z, d]), np.hstack([Z, I, Z, 0.3 * d[::-1]]), np.hstack([Z, Z, I, 0.5j * d])


def run_jump(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import jnp

    c, L = layers(case["w"], case["cfg"])
    coef = lib.EXP[c["exp"]]
    N = len(coef)
    om = 2 * np.pi / c["wl"]
    kx, ky = ref.kvec(c["k"], lib.LAT[c["lat"]], coef)
    jx, jy, jz = basis_currents(N)
    ts = [jnp.asarray(x[4]) for x in L]
    for nb in range(1, len(L)):
        amps, inter = emit(nb)([x[0] for x in L], ts, jnp.asarray(jx), jnp.asarray(jy), jnp.asarray(jz))
        ctx.step(2)
        ctx.state(case["w"], case["cfg"], nb)
        what = f"source after layer {nb - 1} of {case['w']}"
        b0, ab, bb, aa, ba, aN = (np.asarray(x) for x in amps)
        inter = [(np.asarray(x), np.asarray(y)) for x, y in inter]
        if not ctx.true(len(inter) == len(L), f"{what}: {len(inter)} layers"):
            continue
        # Returned amplitudes are those of the named layers; nothing comes in from outside.
        scale = max(1.0, max(float(np.abs(x).max()) for p in inter for x in p))
        for got, want, nm in (
            (b0, inter[0][1], "b_0"), (ab, inter[nb - 1][0], "a_before"), (bb, inter[nb - 1][1], "b_before"),
            (aa, inter[nb][0], "a_after"), (ba, inter[nb][1], "b_after"), (aN, inter[-1][0], "a_N"),
        ):
            ctx.close(got, want, 1e-7, f"{what}: {nm}", scale=scale)
        ctx.close(inter[0][0], 0 * inter[0][0], 1e-9, f"{what}: wave incoming from the start", scale=scale)
        ctx.close(inter[-1][1], 0 * inter[-1][1], 1e-9, f"{what}: wave incoming from the end", scale=scale)
        ez = L[nb - 1][5]["eps"][4]
        ez = np.broadcast_to(ez, (16, 16)) if ez.shape == (1, 1) else ez
        pz = ref.conv(1 / ez, coef) @ jz
        for i in range(len(L) - 1):
            e1, h1 = fields_at(*inter[i], L[i], "end")
            e2, h2 = fields_at(*inter[i + 1], L[i + 1], "start")
            de, dh = np.zeros_like(e1), np.zeros_like(h1)
            if i == nb - 1:  # e = [-Ey; Ex], h = [Hx; Hy]
                de = np.vstack([-ky[:, None] * pz, kx[:, None] * pz]) / om
                dh = np.vstack([jy, -jx])
            s = max(scale, float(np.abs(e1).max()), float(np.abs(h1).max()))
            ctx.close(e2 - e1, de, 1e-7, f"{what}: electric jump at interface {i}", scale=s)
            ctx.close(h2 - h1, dh, 1e-7, f"{what}: magnetic jump at interface {i}", scale=s)
        ctx.outcome(case["w"], nb, np.round(np.abs(b0[0, 0]), 6))


def run_recip(case, ctx):
    """Reaction of source i on the field of source j equals the reverse, at opposite in-plane wavevectors."""
    import numpy as np

    from mc import lib, ref
    from mc.lib import jnp

    w = case["w"]
    k = (0.31, -0.17)
    c, L1 = layers(w, "main", k)
    _, L2 = layers(w, "main", (-k[0], -k[1]))
    coef = lib.EXP[c["exp"]]
    N = len(coef)
    om = 2 * np.pi / c["wl"]
    perm = lib.perm_minus(c["exp"])
    ts = [jnp.asarray(x[4]) for x in L1]
    I, Z = np.eye(N, dtype=complex), np.zeros((N, N), complex)
    cur = [np.hstack(x) for x in ((I, Z, Z), (Z, I, Z), (Z, Z, I))]
    planes = list(range(1, len(L1)))
    uni = [L1[nb - 1][5]["eps"][4].shape == (1, 1) for nb in planes]

    def response(L, kk):
        """out[(i, j)]: fields (Ex, Ey, Ez) stacked (3N, columns) at plane j due to the unit currents at plane i."""
        kx, ky = ref.kvec(kk, lib.LAT[c["lat"]], coef)
        out = {}
        for nb in planes:
            _, inter = emit(nb)([x[0] for x in L], ts, *[jnp.asarray(x) for x in cur])
            ctx.step(2)
            inter = [(np.asarray(x), np.asarray(y)) for x, y in inter]
            for nj in planes:
                e, h = fields_at(*inter[nj - 1], L[nj - 1], "end")
                ezm = L[nj - 1][5]["eps"][4]
                ezm = np.broadcast_to(ezm, (16, 16)) if ezm.shape == (1, 1) else ezm
                # -i w Dz = i kx Hy - i ky Hx
                Ez = ref.conv(1 / ezm, coef) @ (kx[:, None] * h[N:] - ky[:, None] * h[:N]) / (-om)
                out[nb, nj] = np.vstack([e[N:], -e[:N], Ez])
        return out

    P, M = response(L1, k), response(L2, (-k[0], -k[1]))
    flip = np.concatenate([np.asarray(perm) + i * N for i in range(3)])
    for a, i in enumerate(planes):
        for b, j in enumerate(planes):
            ctx.state(w, i, j)
            # In-plane currents: the tangential electric field is single valued (also at the source itself, jz = 0).
            keep = np.arange(3 * N) < 2 * N
            zi = keep | (uni[a] and i != j)
            zj = keep | (uni[b] and i != j)
            # sum_G E_i(G) at j from source index s: reaction <E_s, J_t>, with J_t of wavevector -k: order G pairs with -G.
            R1 = P[i, j]  # rows: field component at plane j, columns: current component at plane i
            R2 = M[j, i][np.ix_(flip, flip)].T
            s = max(1.0, float(np.abs(R1[np.ix_(zj, zi)]).max()))
            ctx.close(R1[np.ix_(zj, zi)], R2[np.ix_(zj, zi)], 1e-6, f"reciprocity of planes {i} and {j} in {w}", scale=s)
    ctx.outcome(w, np.round(np.abs(P[1, 1][0, 0]), 6))


def run_profile(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import jnp, sources

    lat, k = case["lat"], lib.KS[case["k"]]
    loc = np.array([[0.0, 0.0], [0.3, -0.2], [-0.45, 0.6], [1.7, 0.1], [0.3, 0.8]])
    for exp in ("c5", "asym"):
        coef = lib.EXP[exp]
        kx, ky = ref.kvec(k, lib.LAT[lat], coef)
        ph = np.exp(-1j * (kx[:, None] * loc[:, 0] + ky[:, None] * loc[:, 1]))
        d = sources.dirac_delta_source(jnp.asarray(loc), jnp.asarray(k), lib.lattice(lat), lib.expansion(exp))
        ctx.step()
        ctx.state(case, exp)
        ctx.close(d, ph, 1e-9, "point source")
        for fwhm in (0.1, 0.5, 1.3):
            g = sources.gaussian_source(jnp.asarray(fwhm), jnp.asarray(loc), jnp.asarray(k), lib.lattice(lat), lib.expansion(exp))
            ctx.step()
            # Quadrature of the unit-area profile that falls to one half at half its full width.
            x = np.linspace(-5, 5, 4001) * fwhm
            prof = 2.0 ** (-((x / (fwhm / 2)) ** 2))
            prof = prof / prof.sum()
            F = lambda q: np.array([np.sum(prof * np.cos(v * x)) for v in q])
            ctx.close(g, ph * (F(kx) * F(ky))[:, None], 1e-7, f"Gaussian source of width {fwhm}")
        ctx.outcome(lat, case["k"], exp)


def run_shift(case, ctx):
    """Translating a source translates its field: in laterally uniform stacks the emitted amplitudes pick up the phase."""
    import numpy as np

    from mc import lib, ref
    from mc.lib import jnp, sources

    w = ["vuv", "uvT", "vvu"][case["s"]]
    c, L = layers(w, "main")
    coef = lib.EXP[c["exp"]]
    kx, ky = ref.kvec(c["k"], lib.LAT[c["lat"]], coef)
    lv, ex = lib.lattice(c["lat"]), lib.expansion(c["exp"])
    ts = [jnp.asarray(x[4]) for x in L]
    locs = np.array([[0.0, 0.0], [0.25, -0.4], [1.05, 0.1], [-0.3, 0.9]])
    src = sources.dirac_delta_source(jnp.asarray(locs), jnp.asarray(c["k"]), lv, ex)
    ctx.step()
    for comp in range(3):
        cur = [src if i == comp else 0 * src for i in range(3)]
        for nb in (1, 2):
            _, inter = emit(nb)([x[0] for x in L], ts, *cur)
            ctx.step()
            ctx.state(w, comp, nb)
            for i, lay in enumerate(L):
                e, h = fields_at(*[np.asarray(x) for x in inter[i]], lay, "end")
                for f, nm in ((e, "e"), (h, "h")):
                    for s, (dx, dy) in enumerate(locs):
                        p = np.tile(np.exp(-1j * (kx * dx + ky * dy)), 2)
                        ctx.close(f[:, s], f[:, 0] * p, 1e-7, f"{nm} in layer {i} of {w} for a source moved by {dx, dy}", scale=max(1.0, float(np.abs(f).max())))
    ctx.outcome(w)


def run_split(case, ctx):
    """Where a layer is cut to host the source does not matter: the source at depth z of a layer, cut at z, with extra cuts elsewhere."""
    import numpy as np

    from mc import lib
    from mc.lib import jnp

    w = case["w"]
    c, L = layers(w, "main")
    N = len(lib.EXP[c["exp"]])
    jx, jy, jz = (jnp.asarray(x) for x in basis_currents(N))
    mid = 1
    t = L[mid][4]
    for z in (0.0, 0.3 * t, t):
        # Source at depth z of layer `mid`; the cut pieces are split further in two ways.
        outs = []
        for extra in ((), ("before",), ("after",), ("before", "after")):
            W = [(x[0], x[4]) for x in L[:mid]]
            W += [(L[mid][0], z / 2), (L[mid][0], z / 2)] if "before" in extra else [(L[mid][0], z)]
            nb = len(W)
            W += [(L[mid][0], (t - z) / 3), (L[mid][0], 2 * (t - z) / 3)] if "after" in extra else [(L[mid][0], t - z)]
            W += [(x[0], x[4]) for x in L[mid + 1 :]]
            amps, inter = emit(nb)([x[0] for x in W], [jnp.asarray(x[1]) for x in W], jx, jy, jz)
            ctx.step()
            ctx.state(w, z, extra)
            outs.append((np.asarray(amps[0]), np.asarray(amps[5])))
        for o in outs[1:]:
            ctx.close(o[0], outs[0][0], 1e-7, f"b_0 for source at depth {z} of {w}", scale=max(1.0, float(np.abs(outs[0][0]).max())))
            ctx.close(o[1], outs[0][1], 1e-7, f"a_N for source at depth {z} of {w}", scale=max(1.0, float(np.abs(outs[0][1]).max())))
        ctx.outcome(w, z, np.round(np.abs(outs[0][0].ravel()[0]), 6))
