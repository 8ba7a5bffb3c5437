"""C07: batched computations equal the element-by-element computations."""
import itertools

from mc.engine import deviations

TECHNIQUE = "exhaustive enumeration of batch-shape assignments of every argument; every batch element compared with the unbatched computation of the same code and with an independent operator"
S = [(), (3,), (2, 1), (1,), (1, 3), (2, 3)]
BOUNDS = {
    "quick": "eigensolves: all assignments of batch shapes with <= 2 batched arguments for one medium and <= 1 (plus all-batched) for 6 others; stacks, fields, fluxes, sources: every single batched input among (wavelength, 3 layers, amplitudes) and 7 mixed assignments; helper functions: all pairs of shapes",
    "thorough": "eigensolves: all assignments of 4 shapes to 4 arguments for 7 media; stacks: <= 3 deviations",
}
ASSUMPTIONS = ["forward and backward amplitudes have equal shapes, thicknesses are scalars (as documented)"]
MAX_CHUNK = 5
# Stack cases of the quick tier with several batched inputs (wavelength, layer 0, 1, 2, amplitudes).
PAIRS = [
    ((), (3,), (2, 1), (), ()),
    ((), (2, 1), (), (3,), ()),
    ((2, 1), (), (3,), (), ()),
    ((3,), (), (), (), (2, 1)),
    ((), (), (1, 3), (), (2, 1)),
    ((1,), (), (2, 3), (), ()),
    ((2, 1), (3,), (1,), (2, 3), (1, 3)),
]
MEDS = {
    "die": ("die", "gen", "fft", "iso"),
    "magt": ("magt", "gen", "fft", "gen"),
    "uni": ("abs", "uni", "fft", "iso"),
    "anu": ("anyt", "uni", "fft", "aniso"),
    "vec": ("die", "gen", "jones_direct", "iso"),
    "avec": ("magt", "gen", "pol", "gen"),
    "ani": ("anyt", "gen", "fft", "aniso"),
}


def _compatible(*shapes):
    n = max(len(s) for s in shapes)
    for dims in zip(*[(1,) * (n - len(s)) + tuple(s) for s in shapes]):
        if len(set(dims) - {1}) > 1:
            return False
    return True


def cases(tier):
    names = ("wl", "k", "lat", "eps")
    if tier == "quick":
        for med in ("die", "magt"):
            for c in deviations({n: [(), (3,), (2, 1)] for n in names}, 2 if med == "die" else 1):
                yield dict(part="eig", med=med, **c)
        for med in ("uni", "anu", "vec", "avec", "ani", "magt"):
            alts = [(), (3,), (2, 3)] if med in ("uni", "anu", "ani") else [(), (2, 1)]
            for c in deviations({n: alts for n in names}, 1):
                yield dict(part="eig", med=med, **c)
            yield dict(part="eig", med=med, wl=(3,), k=(2, 1), lat=(1, 1), eps=(1, 3))
        for c in itertools.chain(
            deviations(dict(wl=[(), (3,), (2, 3)], e0=[(), (3,), (2, 1)], e1=[(), (3,), (2, 3)], e2=[(), (2, 1)], amp=[(), (3,), (2, 1)]), 1),
            [dict(zip(("wl", "e0", "e1", "e2", "amp"), v)) for v in PAIRS],
        ):
            yield dict(part="stack", **c)
    else:
        for med in MEDS:
            for v in itertools.product(S[:4], repeat=4):
                yield dict(part="eig", med=med, **dict(zip(names, v)))
        for c in deviations(dict(wl=S, e0=S, e1=S, e2=S, amp=S), 3):
            if _compatible(*[c[n] for n in ("wl", "e0", "e1", "e2", "amp")]):
                yield dict(part="stack", **c)
    for a in S:
        for b in S:
            if _compatible(a, b):
                yield dict(part="util", a=a, b=b)


def group(c):
    return (c["part"], c.get("med"), str(c.get("eps")) if c.get("med") == "die" else "")


def weight(c):
    return {"stack": 8, "eig": 4 if c.get("med") in ("vec", "avec") else 1.5, "util": 1}[c["part"]]


def _vals(shape, lo, hi, phase=0.0):
    import numpy as np

    n = int(np.prod(shape, dtype=int))
    if n == 1:
        return np.full(shape, lo)
    return (lo + (hi - lo) * ((np.arange(n) * 0.618 + phase) % 1.0)).reshape(shape)


def _elem(x, idx, full, trailing):
    import numpy as np

    x = np.asarray(x)
    x = np.broadcast_to(x, tuple(full) + x.shape[x.ndim - trailing :])
    return x[idx]


def element(res, idx, full):
    """One batch element of a layer result as an unbatched result."""
    from mc.lib import basis, fmm, jnp

    g = lambda x, t: jnp.asarray(_elem(x, idx, full, t))
    lv = res.primitive_lattice_vectors
    return fmm.LayerSolveResult(
        g(res.wavelength, 0), g(res.in_plane_wavevector, 1), basis.LatticeVectors(g(lv.u, 1), g(lv.v, 1)), res.expansion,
        g(res.eigenvalues, 1), g(res.eigenvectors, 2), g(res.z_permittivity_matrix, 2), g(res.inverse_z_permittivity_matrix, 2),
        g(res.z_permeability_matrix, 2), g(res.inverse_z_permeability_matrix, 2), g(res.transverse_permeability_matrix, 2),
        None if res.tangent_vector_field is None else tuple(g(t, 2) for t in res.tangent_vector_field),
    )


def run(case, ctx):
    {"eig": run_eig, "stack": run_stack, "util": run_util}[case["part"]](case, ctx)


_J = {}


def run_eig(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import F, basis, jax, jnp, vector

    name, pat, form, kind = MEDS[case["med"]]
    sh = {n: tuple(case[n]) for n in ("wl", "k", "lat", "eps")}
    grid = (8, 7)
    exp = "c5"
    full = np.broadcast_shapes(*sh.values())
    med = lib.medium(name, pat, grid)
    wl = _vals(sh["wl"], 0.83, 1.4)
    kk = np.stack([_vals(sh["k"], 0.31, -0.5), _vals(sh["k"], -0.17, 0.6, 0.3)], axis=-1)
    ref_lat = lib.LAT["obl"]
    s1, s2 = _vals(sh["lat"], 1.0, 1.3), _vals(sh["lat"], 0.0, 0.2, 0.4)
    u = np.stack([s1 * ref_lat[0][0], s1 * ref_lat[0][1] + s2], axis=-1)
    v = np.stack([s1 * ref_lat[1][0] - s2, s1 * ref_lat[1][1]], axis=-1)
    f = _vals(sh["eps"], 1.0, 1.5, 0.2)[..., None, None]
    eps = [f * x for x in med["eps"]]
    mu = [np.broadcast_to(x, eps[0].shape) for x in med["mu"]]
    lv = basis.LatticeVectors(u=jnp.asarray(u), v=jnp.asarray(v))
    res = lib.solve(dict(med, eps=eps, mu=mu), wl, kk, lv, exp, F(form), kind=kind)
    ctx.step()
    ctx.state(case)
    c = lib.EXP[exp]
    N = len(c)
    ctx.true(res.batch_shape == full and res.eigenvalues.shape == full + (2 * N,), f"batch shape {res.batch_shape} for {sh}")
    kt = basis.transverse_wavevectors(jnp.asarray(kk), lv, lib.expansion(exp))
    ctx.step()
    ctx.true(np.asarray(kt).shape == np.broadcast_shapes(sh["k"], sh["lat"]) + (N, 2), "shape of transverse wavevectors")
    if form != "fft":
        if form not in _J:
            _J[form] = jax.jit(vector.VECTOR_FIELD_SCHEMES[form])
    first = True
    for idx in np.ndindex(*full):
        g = lambda x, s, t=0: np.broadcast_to(x, full + x.shape[x.ndim - t :] if t else full)[idx]
        w1, k1 = float(g(wl, 0)), g(kk, 0, 1)
        lat = (tuple(g(u, 0, 1)), tuple(g(v, 0, 1)))
        m1 = dict(med, eps=[g(x, 0, 2) for x in eps], mu=[g(x, 0, 2) for x in mu])
        one = element(res, idx, full)
        tvf = lib.tvf_of(one)
        if tvf is not None:
            want = _J[form](jnp.asarray(m1["eps"][0] if kind == "iso" else (m1["eps"][0] + m1["eps"][3]) / 2), lib.expansion(exp), lib.lattice(lat))
            for i in (0, 1):
                ctx.close(tvf[i], want[i], 1e-6, f"tangent field of element {idx}")
        A, B = lib.ref_ops(m1, w1, k1, lat, exp, tvf, kind=kind)
        M = B @ A
        q, H = np.asarray(one.eigenvalues), np.asarray(one.eigenvectors)
        R = M @ H - H * (q**2)[None, :]
        sc = np.linalg.norm(M, 2)
        ctx.close(R / (sc * np.linalg.norm(H, axis=0)[None, :]), 0 * R, 1e-8, f"modes of batch element {idx} solve its own equations")
        ctx.close(lib.match(np.linalg.eigvals(M) / sc, q**2 / sc), 0.0, 1e-7, f"propagation constants of element {idx}")
        ctx.close(one.wavelength, w1, 1e-12, "recorded wavelength")
        ctx.close(one.in_plane_wavevector, k1, 1e-12, "recorded wavevector")
        ctx.close(one.primitive_lattice_vectors.u, lat[0], 1e-12, "recorded lattice")
        ctx.close(one.omega_script_k_matrix, A * 2 * np.pi / w1, 1e-8, f"matrices of element {idx}")
        big = lambda x: np.broadcast_to(x, (16, 16)) if x.shape == (1, 1) else x
        ctx.close(one.inverse_z_permittivity_matrix, ref.conv(1 / big(m1["eps"][4]), c), 1e-8, f"inverse z permittivity of element {idx}")
        ctx.close(one.inverse_z_permeability_matrix, ref.conv(1 / big(m1["mu"][4]), c), 1e-8, f"inverse z permeability of element {idx}")
        kx, ky = ref.kvec(k1, lat, c)
        ctx.close(_elem(kt, idx, full, 2), np.stack([kx, ky], -1), 1e-9, f"wavevectors of element {idx}")
        if first:
            r1 = lib.solve(m1, w1, k1, lat, exp, F(form), kind=kind)
            ctx.close(lib.match(np.asarray(r1.eigenvalues) ** 2 / sc, q**2 / sc), 0.0, 1e-8, "unbatched call")
            first = False
    ctx.outcome(np.round(np.asarray(res.eigenvalues).ravel()[:4], 6).tobytes(), str(sh))


def _stack_fns():
    """name -> function(layers, thicknesses, fwd, bwd, current) -> pytree of arrays, batch dims leading."""
    from mc.lib import fields, jnp, scattering, sources

    def blocks(s):
        return (s.s11, s.s12, s.s21, s.s22)

    def parts(L, t, f, b, j):
        a = scattering.stack_s_matrix(L[:1], t[:1])
        s = scattering.append_layer(a, L[1], t[1])
        p = scattering.prepend_layer(scattering.stack_s_matrix(L[1:], t[1:]), L[0], t[0])
        st = scattering.redheffer_star_product(scattering.stack_s_matrix(L[:2], t[:2]), scattering.stack_s_matrix(L[2:], t[2:]))
        e = scattering.set_end_layer_thickness(p, t[0])
        d = scattering.set_start_layer_thickness(st, t[1])
        return blocks(s), blocks(p), blocks(st), blocks(e), blocks(d)

    def interior(L, t, f, b, j):
        si = scattering.stack_s_matrices_interior(L, t)
        amps = fields.stack_amplitudes_interior(si, f, b)
        return tuple((blocks(x), blocks(y)) for x, y in si), amps

    def infield(L, t, f, b, j):
        # Waves in the middle layer.
        z = jnp.asarray(0.13)
        a2, b2 = fields.colocate_amplitudes(f, b, z_offset=z, layer_solve_result=L[1], layer_thickness=t[1])
        e, h = fields.fields_from_wave_amplitudes(a2, b2, L[1])
        fl = fields.amplitude_poynting_flux(a2, b2, L[1]), fields.directional_poynting_flux(a2, b2, L[1]), fields.eigenmode_poynting_flux(L[1])
        return a2, b2, e, h, fl, fields.propagate_amplitude(f, z, L[1])

    def space(L, t, f, b, j):
        e, h = fields.fields_from_wave_amplitudes(f, b, L[1])
        eg, hg, _ = fields.fields_on_grid(e, h, L[1], (5, 4), (2, 1))
        x = jnp.asarray([[0.1, 0.5, -0.4], [0.3, 0.2, 1.1]])
        ec, hc, _ = fields.fields_on_coordinates(e, h, L[1], x, x[::-1] + 0.2)
        e3, h3, _ = fields.layer_fields_3d(f, b, L[1], t[1], 3, (5, 4), (1, 2))
        return eg, hg, ec, hc, tuple(e3), tuple(h3)

    def source(L, t, f, b, j):
        sb = scattering.stack_s_matrices_interior(L[:1], t[:1])
        sa = scattering.stack_s_matrices_interior(L[1:], t[1:])
        amps = sources.amplitudes_for_source(j, 0.3 * j[..., ::-1, :], 0.1j * j, sb[-1][0], sa[0][1])
        return amps, fields.stack_amplitudes_interior_with_source(sb, sa, amps[2], amps[3])

    return dict(parts=parts, interior=interior, infield=infield, space=space, source=source)


def run_stack(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import jax, jnp, sources

    if "fns" not in _J:
        _J["fns"] = {n: jax.jit(f) for n, f in _stack_fns().items()}
    exp, grid = "x3", (4, 3)
    exp = "c5"
    N = len(lib.EXP[exp])
    wl_sh = tuple(case["wl"])
    wl = _vals(wl_sh, 0.83, 1.1)
    kk = np.stack([_vals(wl_sh, 0.31, 0.6), _vals(wl_sh, -0.17, 0.2, 0.3)], axis=-1)
    L = []
    for name, pat, key in (("die", "gen", "e0"), ("abs", "smooth", "e1"), ("abs", "uni", "e2")):
        m = lib.medium(name, pat, (8, 7))
        f = _vals(tuple(case[key]), 1.0, 1.4, 0.1)[..., None, None]
        L.append(lib.strip(lib.solve(dict(m, eps=[f * x for x in m["eps"]], mu=None and m["mu"] or m["mu"]), wl, kk, "obl", exp)))
        ctx.step()
    full = np.broadcast_shapes(wl_sh, *[tuple(case[x]) for x in ("e0", "e1", "e2", "amp")])
    am = tuple(case["amp"])
    r = np.arange(2 * N * 2).reshape(2 * N, 2)
    fwd = _vals(am, 1.0, 2.0)[..., None, None] * np.exp(0.7j * r) / (1 + r)
    bwd = _vals(am, 0.5, 1.5, 0.4)[..., None, None] * np.cos(1.0 + r) + 0j
    cur = _vals(am, 1.0, 2.0, 0.2)[..., None, None] * np.exp(1.1j * r[:N])
    ts = [jnp.asarray(x) for x in (0.21, 0.34, 0.27)]
    out = {}
    for n, fn in _J["fns"].items():
        out[n] = fn(L, ts, jnp.asarray(fwd), jnp.asarray(bwd), jnp.asarray(cur))
        ctx.step()
    ctx.state(case)
    trail = lambda n, x: None
    for idx in np.ndindex(*full):
        L1 = [element(x, idx, full) for x in L]
        a1 = [jnp.asarray(_elem(x, idx, full, 2)) for x in (fwd, bwd, cur)]
        for n, fn in _J["fns"].items():
            want = fn(L1, ts, *a1)
            leaves, tw = jax.tree_util.tree_flatten(want)
            got, tg = jax.tree_util.tree_flatten(out[n])
            if not ctx.true(len(got) == len(leaves), f"structure of {n}"):
                continue
            for i, (a, b) in enumerate(zip(got, leaves)):
                a, b = np.asarray(a), np.asarray(b)
                nb = a.ndim - b.ndim
                ok = nb >= 0 and a.shape[nb:] == b.shape and _compatible(a.shape[:nb], full) and nb <= len(full)
                if ctx.true(ok, f"{n}[{i}] has shape {a.shape} for batch {full}, elements {b.shape}"):
                    ctx.close(_elem(a, idx, full, b.ndim), b, 1e-7, f"{n}[{i}] element {idx} for shapes {case}")
    ctx.outcome(str(case))


_TF = []


def run_util(case, ctx):
    import numpy as np

    from mc import lib, ref
    from mc.lib import basis, fft, jax, jnp, pml, sources, utils, vector

    sa, sb = tuple(case["a"]), tuple(case["b"])
    full = np.broadcast_shapes(sa, sb)
    ctx.state(case)
    c = lib.EXP["c5"]
    ex = lib.expansion("c5")
    # Batched wavevector and lattice helpers.
    wl, th = _vals(sa, 0.8, 1.3), _vals(sb, 0.2, 1.2, 0.3)
    az, ep = _vals(sb, 0.1, 3.0, 0.6), _vals(sa, 1.0, 4.0, 0.4)
    got = np.asarray(basis.plane_wave_in_plane_wavevector(jnp.asarray(wl), jnp.asarray(th), jnp.asarray(az), jnp.asarray(ep)))
    kt = 2 * np.pi / wl * np.sqrt(ep) * np.sin(th)
    ctx.close(got, np.stack(np.broadcast_arrays(kt * np.cos(az), kt * np.sin(az)), -1), 1e-10, "plane wave wavevector")
    s = _vals(sa, 1.0, 1.5)
    u = np.stack([s, 0.2 * s], -1)
    v = np.stack([-0.1 * s, 0.8 + 0 * s], -1)
    lv = basis.LatticeVectors(u=jnp.asarray(u), v=jnp.asarray(v))
    r = lv.reciprocal
    for i in np.ndindex(*sa):
        b1, b2 = ref.recip((u[i], v[i]))
        ctx.close(np.asarray(r.u)[i], b1, 1e-10, "reciprocal vectors")
        ctx.close(np.asarray(r.v)[i], b2, 1e-10, "reciprocal vectors")
    x, y = basis.unit_cell_coordinates(lv, (3, 4), (2, 1))
    for i in np.ndindex(*sa):
        ii, jj = np.meshgrid(np.arange(6) / 3, np.arange(4) / 4, indexing="ij")
        ctx.close(np.asarray(x)[i], ii * u[i][0] + jj * v[i][0], 1e-10, "coordinates")
        ctx.close(np.asarray(y)[i], ii * u[i][1] + jj * v[i][1], 1e-10, "coordinates")
    # Localised sources.
    kk = np.stack([_vals(sb, 0.3, 1.0), _vals(sb, -0.4, 0.7, 0.5)], -1)
    loc = np.asarray([[0.1, 0.2], [0.5, -0.3], [0.0, 0.4]])
    d = np.asarray(sources.dirac_delta_source(jnp.asarray(loc), jnp.asarray(kk), lv, ex))
    g = np.asarray(sources.gaussian_source(jnp.asarray(0.3), jnp.asarray(loc), jnp.asarray(kk), lv, ex))
    ctx.true(d.shape == full + (5, 3) and g.shape == full + (5, 3), f"source shapes {d.shape} {g.shape}")
    for i in np.ndindex(*full):
        k1 = _elem(kk, i, full, 1)
        lat = (_elem(u, i, full, 1), _elem(v, i, full, 1))
        kx, ky = ref.kvec(k1, lat, c)
        ph = np.exp(-1j * (np.multiply.outer(kx, loc[:, 0]) + np.multiply.outer(ky, loc[:, 1])))
        sg = 0.3 / (2 * np.sqrt(2 * np.log(2)))
        ctx.close(_elem(d, i, full, 2), ph, 1e-9, "point source coefficients")
        ctx.close(_elem(g, i, full, 2), ph * np.exp(-0.5 * sg**2 * (kx**2 + ky**2))[:, None], 1e-9, "gaussian source coefficients")
    # Transforms of batched arrays.
    arr = lib.pattern("gen", (6, 5)) * _vals(sa, 1.0, 2.0)[..., None, None] + 0.1j
    F_, C_ = np.asarray(fft.fft(jnp.asarray(arr), ex)), np.asarray(fft.fourier_convolution_matrix(jnp.asarray(arr), ex))
    I_ = np.asarray(fft.ifft(jnp.asarray(F_), ex, (6, 5)))
    for i in np.ndindex(*sa):
        f1 = np.asarray([ref.fcoef(arr[i], *o) for o in c])
        ctx.close(F_[i], f1, 1e-10, "fft")
        ctx.close(C_[i], ref.conv(arr[i], c), 1e-10, "convolution matrix")
        ctx.close(I_[i], ref.synth(f1, c, 6, 5), 1e-10, "ifft")
    # Absorbing boundaries and linear algebra helpers.
    e, m = pml.apply_uniaxial_pml(jnp.asarray(arr), pml.PMLParams(num_x=2, num_y=1))
    for i in np.ndindex(*sa):
        e1, m1 = pml.apply_uniaxial_pml(jnp.asarray(arr[i]), pml.PMLParams(num_x=2, num_y=1))
        for a, b in zip(tuple(e) + tuple(m), tuple(e1) + tuple(m1)):
            ctx.close(_elem(a, i, sa, 2), b, 1e-12, "absorbing boundary of a batch element")
    mat = np.moveaxis(np.asarray([[1.0 + 0 * s, s, 0.3 * s], [0.2 * s, 2.0 + s, s], [0.5 + 0 * s, 0.1 * s, 3.0 + 0 * s]]), (0, 1), (-2, -1))
    w, V = utils.eig(jnp.asarray(mat))
    dg = np.asarray(utils.diag(jnp.asarray(mat[..., 0])))
    adj = np.asarray(utils.matrix_adjoint(jnp.asarray(mat + 1j * mat[..., ::-1])))
    for i in np.ndindex(*sa):
        ctx.close(mat[i] @ np.asarray(V)[i], np.asarray(V)[i] * np.asarray(w)[i][None, :], 1e-9, "eigendecomposition of a batch element")
        ctx.close(dg[i], np.diag(mat[i][..., 0]), 1e-12, "diag")
        ctx.close(adj[i], np.conj((mat + 1j * mat[..., ::-1])[i].T), 1e-12, "adjoint")
    # Gradients and tangent fields of batched patterns in batched cells.
    u2, v2 = _vals(sb, 0.9, 1.4)[..., None] * np.asarray([1.0, 0.15]), _vals(sb, 0.8, 1.2, 0.4)[..., None] * np.asarray([-0.2, 1.0])
    lv2 = basis.LatticeVectors(u=jnp.asarray(u2), v=jnp.asarray(v2))
    lv3 = basis.LatticeVectors(u=jnp.asarray([1.0, 0.15]), v=jnp.asarray([-0.2, 1.1]))
    pat = np.stack([lib.pattern(n, (6, 5)) for n in ("gen", "disk", "smooth")])[(np.arange(int(np.prod(sa))) % 3).reshape(sa)] * _vals(sa, 1.0, 2.0)[..., None, None]
    gr = np.asarray(vector.compute_gradient(jnp.asarray(pat), lv3))
    for i in np.ndindex(*sa):
        ctx.close(gr[i], vector.compute_gradient(jnp.asarray(pat[i]), lv3), 1e-10, "gradient of a batch element")
    if not _TF:
        _TF.extend(jax.jit(f) for f in (vector.VECTOR_FIELD_SCHEMES["pol"], vector.VECTOR_FIELD_SCHEMES["jones"]))
    for fn in _TF:
        tx, ty = fn(jnp.asarray(pat), ex, lv2)
        if not ctx.true(tx.shape == ty.shape == full + (6, 5), f"shape of tangent fields {tx.shape}, {ty.shape}"):
            continue
        for i in np.ndindex(*full):
            one = fn(jnp.asarray(_elem(pat, i, full, 2)), ex, basis.LatticeVectors(u=jnp.asarray(_elem(u2, i, full, 1)), v=jnp.asarray(_elem(v2, i, full, 1))))
            ctx.close(np.stack([np.asarray(tx)[i], np.asarray(ty)[i]]), np.stack(one), 1e-6, "tangent field of a batch element")
            ctx.step()
    ctx.step(12)
    ctx.outcome(str(case))
