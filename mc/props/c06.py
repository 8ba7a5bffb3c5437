"""C06: equivalent descriptions of one medium or stack give the same physics."""
from mc.engine import words
from mc.props.c01 import CONFIGS, LETTERS

TECHNIQUE = "exhaustive enumeration of all equivalent descriptions of each medium and of all splittings of each stack; all members of a class compared"
FORMS = ["fft", "jones_direct", "jones", "normal", "pol", "jones_direct_fourier", "jones_fourier", "normal_fourier", "pol_fourier"]
MEDIA = ["vac", "die", "abs", "met", "anis", "gyro", "anyt", "mag", "magt", "pml"]
BOUNDS = {
    "quick": "10 constant media x all interfaces x uniform/two constant grids x 9 formulations; patterned isotropic media through 3 interfaces; one-dimensional patterns through all formulation/interface pairs; tilings up to 3x2; every split of each layer of all words of length 1-3 over 4 letters with zero-thickness layers at every position; every patterned interface with a user-supplied tangent field (constant and varying) times 6 overall factors; lossless layers index-matched with their neighbour over 4 wavelengths x 3 wavevectors x 3 lattices; permittivity interpolation on an 8x8x7 lattice of materials and densities",
    "thorough": "as quick in 3 configurations, with words up to length 3 over 6 letters and splits into three parts",
}
ASSUMPTIONS = ["patterned media are compared across interfaces where the truncated problems coincide (Laurent rule, or one-dimensional patterns)"]
MAX_CHUNK = 40
EPS = [1.0, 2.25, 12.0, -8.0, [2.1, 0.3], [-9.0, 0.8], [0.5, 2.0], [2.1, -0.3]]
SCALE_MEDIA = [("die", "iso"), ("abs", "iso"), ("die", "aniso"), ("anyt", "aniso"), ("die", "gen"), ("magt", "gen")]
SCALES = [(1.0, 0.0), (20.0, 0.0), (0.05, 0.0), (0.01, 0.0), (1.0, 2.0), (0.05, 0.7)]
SWEEP_WL = (0.51, 0.61, 0.73, 0.97)
SWEEP_K = ((0.0, 0.0), (0.3, 0.2), (1.1, -0.4))
DENS = [0.0, 1e-3, 0.25, 0.5, 0.75, 0.9995, 1.0]


def cases(tier):
    for cfg in ("main", "one") if tier == "quick" else CONFIGS:
        for m in MEDIA:
            for f in FORMS if cfg == "main" or tier != "quick" else FORMS[:1]:
                for shape in ((8, 7), (5, 6)) if tier != "quick" or f == "fft" else ((8, 7),):
                    yield dict(part="const", med=m, cfg=cfg, form=f, shape=shape)
    for cfg in ("main",) if tier == "quick" else ("main", "sub"):
        for m in ("die", "abs", "met"):
            for pat in ("gen", "disk"):
                yield dict(part="iface", med=m, pat=pat, cfg=cfg)
        for m in ("die", "anis"):
            for pat in ("gx", "gy"):
                for f in FORMS[1:]:
                    yield dict(part="one_d", med=m, pat=pat, form=f, cfg=cfg)
        for m in ("die", "anyt", "magt"):
            for n in ([2, 1], [1, 2], [2, 2], [3, 1], [3, 2]):
                yield dict(part="tile", med=m, n=n, cfg=cfg)
    alpha = "vpax" if tier == "quick" else "vpaxjt"
    for w in words(alpha, (1, 2, 3)):
        yield dict(part="split", w="".join(w), cfg="main", three=tier != "quick")
    if tier != "quick":
        for w in words("puz", (1, 2, 3)):
            yield dict(part="split", w="".join(w), cfg="sub", three=True)
    for cfg in ("main",) if tier == "quick" else CONFIGS:
        for m, kind in SCALE_MEDIA:
            for const in (False, True):
                yield dict(part="scale", med=m, kind=kind, const=const, cfg=cfg)
    for lat in ("sq", "obl", "hex"):
        for m in ("vac", "die") if tier == "quick" else ("vac", "die", "mag"):
            for k in SWEEP_K:
                yield dict(part="sweep", med=m, lat=lat, k=list(k))
    for a in range(len(EPS)):
        yield dict(part="interp", a=a)


def group(c):
    if "form" in c:
        return (c["cfg"], c["form"], c.get("shape") != (5, 6))
    if c["part"] == "sweep":
        return ("sweep", c["med"])
    return (c["part"], c.get("cfg"), len(c.get("w", "")))


def run(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import F, jax, jnp, scattering, utils

    if case["part"] == "interp":
        conv = lambda v: complex(*v) if isinstance(v, list) else v
        a = conv(EPS[case["a"]])
        for bb in EPS:
            b = conv(bb)
            for d in DENS:
                for mk in (lambda v: v, jnp.asarray, lambda v: np.full((2, 1), v)):
                    r = np.asarray(utils.interpolate_permittivity(mk(a), mk(b), jnp.asarray(d)))
                    ctx.step()
                    ctx.state(a, b, d)
                    sc = max(abs(a), abs(b))
                    ctx.true(np.all(np.isfinite(r)), f"finite interpolation of {a} and {b} at {d}")
                    if d in (0.0, 1.0):
                        ctx.close(r, np.broadcast_to(a if d else b, r.shape), 1e-12, f"end point of {a}, {b} at {d}", scale=sc)
                    if min(a.imag, b.imag) >= 0:
                        ctx.true(r.imag.min() >= -1e-12 * sc, f"passive: {a}, {b}, {d} -> {r.ravel()[0]}")
                    na, nb = np.sqrt(complex(a)), np.sqrt(complex(b))
                    ctx.close(r, np.broadcast_to((d * na + (1 - d) * nb) ** 2, r.shape), 1e-12, "linear in the refractive index", scale=sc)
        # Densities as arrays, elementwise.
        dd = jnp.asarray(DENS).reshape(1, -1)
        full = np.asarray(utils.interpolate_permittivity(a, 2.25, dd))
        for i, d in enumerate(DENS):
            ctx.close(full[0, i], utils.interpolate_permittivity(a, 2.25, jnp.asarray(d)), 1e-12, "elementwise")
        ctx.outcome(np.round(full, 9).tobytes())
        return

    if case["part"] == "sweep":
        # A lossless homogeneous layer between the same medium and an absorber, over wavelengths, angles and lattices.
        m = lib.medium(case["med"], "uni", None)
        arr = {n: tuple(np.broadcast_to(x, (8, 7)) for x in m[n]) for n in ("eps", "mu")}
        for wl in SWEEP_WL:
            args = (wl, tuple(case["k"]), case["lat"], "b9")
            ref = lib.solve(m, *args)
            ab = lib.cached_layer("abs", "uni", None, *args, "fft")[0]
            base = lib.port([ref, ref, ab], (0.3, 0.27, 0.4))
            for kind in ("iso", "aniso", "gen")[("iso", "aniso", "gen").index(m["kind"]) :]:
                for form, desc in (("fft", {}), ("fft", arr), ("jones", arr), ("jones_direct_fourier", arr)):
                    r = lib.solve(dict(m, **desc), *args, form=F(form), kind=kind)
                    how = f"{case['med']} via {kind}, {form}, {'array' if desc else 'uniform'}, wavelength {wl}"
                    q, q0 = np.asarray(r.eigenvalues), np.asarray(ref.eigenvalues)
                    ctx.close(lib.match(q, q0), 0.0, 1e-6, f"propagation constants with their direction, {how}", scale=max(1.0, np.abs(q0).max()))
                    ctx.close(lib.port([ref, r, ab], (0.3, 0.27, 0.4)), base, 1e-7, f"response, {how}")
                    ctx.step(2)
                    ctx.state(case, wl, kind, form, bool(desc))
        ctx.outcome(np.round(base, 6).tobytes())
        return

    cfg = CONFIGS[case["cfg"]]
    args = (cfg["wl"], cfg["k"], cfg["lat"], cfg["exp"])
    vac, _, _, _ = lib.cached_layer("vac", "uni", cfg["shape"], *args, "fft")
    ab, _, _, _ = lib.cached_layer("abs", "smooth", cfg["shape"], *args, "fft")
    T = (0.35, 0.27, 0.41)

    def response(r):
        return lib.port([vac, r, ab], T), lib.port([r, vac], T[:2])

    def compare(r, base, how):
        q0, (p0, p1) = base
        q = np.asarray(r.eigenvalues)
        ctx.step(3)
        ctx.state(case, how)
        ctx.close(lib.match(q**2, q0**2), 0.0, 1e-7, f"propagation constants, {how}", scale=max(1.0, np.abs(q0**2).max()))
        a, b = response(r)
        ctx.close(a, p0, 1e-7, f"response of a stack, {how}")
        ctx.close(b, p1, 1e-7, f"response as an outer layer, {how}")

    if case["part"] == "const":
        m = lib.medium(case["med"], "uni", None)
        kinds = ["iso", "aniso", "gen"][["iso", "aniso", "gen"].index(m["kind"]) :]
        r0 = lib.solve(m, *args)
        base = (np.asarray(r0.eigenvalues), response(r0))
        shape = tuple(case["shape"])
        mm = {n: tuple(np.broadcast_to(x, shape) for x in m[n]) for n in ("eps", "mu")}
        for kind in kinds:
            if case["form"] == "fft":
                compare(lib.solve(m, *args, kind=kind), base, f"uniform via {kind}")
            elif kind == "aniso" and case["form"] != "jones_direct":
                continue  # the anisotropic interface is a thin wrapper of the general one
            compare(lib.solve(dict(m, **mm), *args, form=F(case["form"]), kind=kind), base, f"constant array {shape} via {kind}, {case['form']}")
        ctx.outcome(np.round(base[1][0], 6).tobytes())
    elif case["part"] == "iface":
        m = lib.medium(case["med"], case["pat"], cfg["shape"])
        r0 = lib.solve(m, *args)
        base = (np.asarray(r0.eigenvalues), response(r0))
        for kind in ("aniso", "gen"):
            compare(lib.solve(m, *args, kind=kind), base, f"patterned via {kind}")
        ctx.outcome(np.round(base[1][0], 6).tobytes())
    elif case["part"] == "one_d":
        m = lib.medium(case["med"], case["pat"], cfg["shape"])
        r0 = lib.solve(m, *args, form=F("jones_direct"))
        base = (np.asarray(r0.eigenvalues), response(r0))
        for kind in ("iso", "aniso", "gen") if case["med"] == "die" else ("aniso", "gen"):
            if kind == "aniso" and case["form"] != "jones_direct":
                continue
            compare(lib.solve(m, *args, form=F(case["form"]), kind=kind), base, f"1-D via {kind}, {case['form']}")
        ctx.outcome(np.round(base[1][0], 6).tobytes())
    elif case["part"] == "scale":
        # Only the direction of a user-supplied tangent field matters, not its overall size or phase.
        m = lib.medium(case["med"], "gen", cfg["shape"])

        def field(c):
            def fn(arr, expansion, primitive_lattice_vectors):
                tx, ty = lib.custom_field(arr, expansion, primitive_lattice_vectors)
                if case["const"]:
                    tx, ty = 0 * tx + 0.5, 0 * ty + 0.8 + 0.3j
                return c * tx, c * ty

            return fn

        base = None
        for size, phase in SCALES:
            c = size * np.exp(1j * phase)
            r = lib.solve(m, *args, form=field(c), kind=case["kind"], jit=False)
            if base is None:
                base = (np.asarray(r.eigenvalues), response(r))
            else:
                compare(r, base, f"tangent field times {c}")
        ctx.outcome(np.round(base[1][0], 6).tobytes())
    elif case["part"] == "tile":
        m = lib.medium(case["med"], "gen", cfg["shape"])
        n1, n2 = case["n"]
        r0 = lib.solve(m, *args)
        base = (np.asarray(r0.eigenvalues), response(r0))
        tiled = {n: tuple(np.tile(x, (n1, n2)) for x in m[n]) for n in ("eps", "mu")}
        lat = lib.LAT[cfg["lat"]]
        big = (tuple(n1 * np.asarray(lat[0])), tuple(n2 * np.asarray(lat[1])))
        coef = [[n1 * a, n2 * b] for a, b in lib.EXP[cfg["exp"]]]
        r = lib.solve(dict(m, **tiled), cfg["wl"], cfg["k"], big, coef)
        q0, (p0, p1) = base
        ctx.close(lib.match(np.asarray(r.eigenvalues) ** 2, q0**2), 0.0, 1e-7, "propagation constants of the repeated cell", scale=np.abs(q0**2).max())
        v2 = lib.solve(lib.medium("vac", "uni", None), cfg["wl"], cfg["k"], big, coef)
        ctx.close(lib.port([r, v2], T[:2]), p1, 1e-7, "response of the repeated cell")
        ctx.step(3)
        ctx.state(case)
        ctx.outcome(np.round(p1, 6).tobytes())
    elif case["part"] == "split":
        w = case["w"]
        lay, ts = [], []
        for ch in w:
            med, pat, t, form = LETTERS[ch]
            lay.append(lib.cached_layer(med, pat, cfg["shape"], *args, form)[0])
            ts.append(t)
        base = lib.port(lay, ts)
        zero = lib.cached_layer("die", "disk", cfg["shape"], *args, "fft")[0]
        for i in range(len(w)):
            for f in ((0.3,), (0.0,)) + (((0.2, 0.5),) if case["three"] else ()):
                parts = list(f) + [1 - sum(f)]
                l2 = lay[:i] + [lay[i]] * len(parts) + lay[i + 1 :]
                t2 = ts[:i] + [ts[i] * x for x in parts] + ts[i + 1 :]
                ctx.close(lib.port(l2, t2), base, 1e-6, f"layer {i} of '{w}' split as {parts}")
                ctx.step()
                ctx.state(w, i, f)
        for i in range(len(w) + 1):
            ctx.close(lib.port(lay[:i] + [zero] + lay[i:], ts[:i] + [0.0] + ts[i:]), base, 1e-6, f"zero-thickness layer at {i} of '{w}'")
            ctx.step()
            ctx.state(w, i, "zero")
        ctx.outcome(np.round(base, 6).tobytes())
