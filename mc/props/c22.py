"""C22: malformed requests are rejected; valid ones are accepted and return the documented shapes."""
import itertools

TECHNIQUE = "exhaustive enumeration of argument shapes over small alphabets (batch shapes of every solver input, grid sizes, axis tuples, grid shapes, list lengths, trailing dimensions): the implementation must accept exactly the combinations that a reference predicate accepts, with the predicted result shapes"
BATCH = [(), (1,), (2,), (3,), (2, 1), (1, 3), (2, 3)]
BATCH_S = [(), (2,), (3,), (2, 1)]
BOUNDS = {
    "quick": "all 7^4 batch shapes of (wavelength, wavevector, lattice, permittivity) for the uniform isotropic solver, all 4^4 for the other solvers; all axis tuples of length <= 3 in [-6, 5] for <= 5 dimensions; all grids up to 7 x 7 for 6 expansions; all zone grid shapes of length <= 3 in [-1, 3]; list lengths 0..3; every field of a layer solution corrupted; a table of malformed arguments of every public call",
    "thorough": "also 7^4 batch shapes for the anisotropic solvers and patterned media",
}
ASSUMPTIONS = ["an error of any exception type counts as rejection", "ScatteringMatrix contents and internal matrix helpers are not validated by the library and are not required to be"]
MAX_CHUNK = 6


def cases(tier):
    for w in range(len(BATCH)):
        for k in range(len(BATCH)):
            yield dict(part="batch", solver="iso_uni", w=w, k=k, alpha="full")
    for s in ("iso_fft", "aniso_uni", "aniso_fft", "gen_uni", "gen_fft"):
        a = BATCH if tier == "thorough" else BATCH_S
        for w in range(len(a)):
            for k in range(len(a)):
                yield dict(part="batch", solver=s, w=w, k=k, alpha="full" if tier == "thorough" else "short")
    for nd in range(1, 6):
        yield dict(part="axes", ndim=nd)
    for e in ("one", "x3", "y3", "c5", "b9", "b15"):
        yield dict(part="grid", exp=e)
    yield dict(part="zone")
    yield dict(part="lists")
    yield dict(part="record")
    yield dict(part="amplitudes")
    yield dict(part="tensors")
    yield dict(part="containers")
    for n in sorted(TABLE):
        yield dict(part="table", name=n)


def group(c):
    return (c["part"], c.get("solver"), c.get("exp"))


def weight(c):
    return {"batch": 1.0, "grid": 25.0, "amplitudes": 15.0, "axes": 1.0, "table": 2.0}.get(c["part"], 8.0)


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def broadcast(*shapes):
    """Reference: NumPy broadcasting of shapes, or None."""
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        dims = {s[i - n + len(s)] for s in shapes if i - n + len(s) >= 0}
        big = dims - {1}
        if len(big) > 1:
            return None
        out.append(big.pop() if big else 1)
    return tuple(out)


def accepts(ctx, fn, want, msg):
    """`fn()` must succeed iff `want`; returns the result or None."""
    ctx.step()
    ctx.traces += 1
    try:
        r = fn()
    except Exception as e:
        if want:
            ctx.fail.append(f"{msg}: valid, but rejected: {type(e).__name__}: {str(e)[:300]}")
        return None
    if not want:
        ctx.fail.append(f"{msg}: malformed, but accepted")
        return None
    return r


def run_batch(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import F, basis, fmm, jax, jnp

    B = BATCH if case["alpha"] == "full" else BATCH_S
    ex = lib.expansion("x3")
    N = 3
    kind, pat = case["solver"].split("_")
    g = (1, 1) if pat == "uni" else (6, 3)
    w, k = B[case["w"]], B[case["k"]]
    med = lib.medium({"iso": "abs", "aniso": "anyt", "gen": "magt"}[kind], "uni" if pat == "uni" else "gen", g)
    fn = {"iso": fmm.eigensolve_isotropic_media, "aniso": fmm.eigensolve_anisotropic_media, "gen": fmm.eigensolve_general_anisotropic_media}[kind]
    comps = {"iso": med["eps"][:1], "aniso": med["eps"], "gen": med["eps"] + med["mu"]}[kind]
    for l, p in itertools.product(B, B):
        want = broadcast(w, k, l, p)
        spec = lambda s, d: jax.ShapeDtypeStruct(s, d)
        args = [
            spec(w, float), spec(k + (2,), float),
            basis.LatticeVectors(u=spec(l + (2,), float), v=spec(l + (2,), float)),
            *[spec(p + g, complex) for _ in comps],
        ]
        call = lambda *a: fn(*a, ex, F.FFT)
        msg = f"{case['solver']} wavelength {w} wavevector {k} lattice {l} permittivity {p}"
        r = accepts(ctx, lambda: jax.eval_shape(call, *args), want is not None, msg)
        ctx.state(case["solver"], w, k, l, p)
        if r is None:
            continue
        ctx.true(r.eigenvalues.shape == want + (2 * N,), f"{msg}: eigenvalues {r.eigenvalues.shape}")
        ctx.true(r.eigenvectors.shape == want + (2 * N, 2 * N), f"{msg}: eigenvectors {r.eigenvectors.shape}")
        ctx.true(r.batch_shape == want, f"{msg}: batch shape {r.batch_shape}")
        for a, s in (("wavelength", ()), ("in_plane_wavevector", (2,)), ("z_permittivity_matrix", (N, N)), ("inverse_z_permittivity_matrix", (N, N)), ("z_permeability_matrix", (N, N)), ("inverse_z_permeability_matrix", (N, N)), ("transverse_permeability_matrix", (2 * N, 2 * N))):
            x = getattr(r, a)
            ok = len(x.shape) == len(want) + len(s) and tuple(x.shape[len(want):]) == s and broadcast(x.shape[: len(want)], want) == want
            ctx.true(ok, f"{msg}: {a} has shape {x.shape}")
    ctx.outcome(case["solver"])


def run_axes(case, ctx):
    """Axis arguments: accepted iff in range and distinct, negative ones counted from the end."""
    import numpy as np

    from mc import lib
    from mc.lib import fft, jnp, utils

    nd = case["ndim"]
    rng = range(-6, 6)
    for n in (1, 2, 3):
        for axes in itertools.product(rng, repeat=n):
            ok = all(-nd <= a < nd for a in axes) and len({a % nd for a in axes}) == n
            r = accepts(ctx, lambda: utils.absolute_axes(axes, nd), ok, f"absolute_axes({axes}, {nd})")
            ctx.state(nd, axes)
            if r is not None:
                ctx.true(tuple(r) == tuple(a % nd for a in axes), f"absolute_axes({axes}, {nd}) = {r}")
    if nd > 4:
        return
    ex = lib.expansion("c5")
    base = (7, 6, 5, 4)[:nd]
    for axes in itertools.product(range(-5, 5), repeat=2):
        ok = all(-nd <= a < nd for a in axes) and len({a % nd for a in axes}) == 2
        pos = tuple(a % nd for a in axes)
        # Only the order of the axes in which the grid's first axis comes first is defined by the library's own use.
        if ok and pos[0] > pos[1]:
            continue
        r = accepts(ctx, lambda: fft.fft(jnp.ones(base), ex, axes=axes), ok, f"fft axes {axes} of {base}")
        ctx.state("fft", nd, axes)
        if r is not None:
            want = tuple(d for i, d in enumerate(base) if i not in pos)
            want = want[: pos[0]] + (5,) + want[pos[0] :]
            ctx.true(r.shape == want, f"fft axes {axes} of {base}: shape {r.shape} instead of {want}")
    for axis in range(-6, 6):
        ok = -nd <= axis < nd
        s = list(base)
        if ok:
            s[axis % nd] = 5
        r = accepts(ctx, lambda: fft.ifft(jnp.ones(s), ex, shape=(4, 3), axis=axis), ok, f"ifft axis {axis} of {s}")
        if r is not None:
            a = axis % nd
            ctx.true(r.shape == tuple(s[:a]) + (4, 3) + tuple(s[a + 1 :]), f"ifft axis {axis} of {s}: {r.shape}")
            if nd > 1:
                bad = list(s)
                bad[a] = 6
                accepts(ctx, lambda: fft.ifft(jnp.ones(bad), ex, shape=(4, 3), axis=axis), False, f"ifft of {bad} along {axis}")
    ctx.outcome(nd)


NEED = {"one": (1, 1), "x3": (3, 1), "y3": (1, 3), "c5": (3, 3), "b9": (3, 3), "b15": (5, 3)}


def run_grid(case, ctx):
    """Real-space grids are accepted iff they can hold the expansion."""
    import numpy as np

    from mc import lib
    from mc.lib import basis, fft, fields, fmm, jax, jnp, sources

    ex = lib.expansion(case["exp"])
    n = ex.num_terms
    need = NEED[case["exp"]]
    conv = tuple(2 * d - 1 for d in need)
    lv = lib.lattice("obl")
    layer = lib.solve(lib.medium("abs", "uni", (1, 1)), 0.8, (0.1, 0.2), lv, case["exp"])
    got = fft.min_array_shape_for_expansion(ex)
    for s in itertools.product(range(1, 8), repeat=2):
        ok = all(a >= b for a, b in zip(s, got))
        must = all(a >= b for a, b in zip(s, need))  # smaller grids cannot represent the orders
        ctx.true(must or not ok, f"minimum shape {got} for {case['exp']} is too small")
        x = jnp.ones(s)
        e3 = (jnp.ones((n, 2)),) * 3
        r = accepts(ctx, lambda: fft.fft(x, ex), ok, f"fft of {s} for {case['exp']}")
        if r is not None:
            ctx.true(r.shape == (n,), "fft shape")
        r = accepts(ctx, lambda: fft.ifft(jnp.ones((2, n)), ex, shape=s), ok, f"ifft to {s} for {case['exp']}")
        if r is not None:
            ctx.true(r.shape == (2,) + s, "ifft shape")
        r = accepts(ctx, lambda: fft.fourier_convolution_matrix(x, ex), ok, f"convolution matrix of {s}")
        if r is not None:
            ctx.true(r.shape == (n, n), "convolution matrix shape")
        if s != (1, 1):
            accepts(ctx, lambda: jax.eval_shape(lambda y: fmm.eigensolve_isotropic_media(jnp.asarray(0.8), jnp.zeros(2), lv, y, ex, lib.F.FFT), x), ok, f"eigensolve on {s} for {case['exp']}")
        r = accepts(ctx, lambda: jax.eval_shape(lambda: fields.fields_on_grid(e3, e3, layer, shape=s, num_unit_cells=(2, 1))), ok, f"fields on grid {s}")
        if r is not None:
            ctx.true(all(f.shape == (2 * s[0], s[1], 2) for f in r[0] + r[1]) and all(c.shape == (2 * s[0], s[1]) for c in r[2]), f"fields on grid {s}: shapes {[f.shape for f in r[0]]} {[c.shape for c in r[2]]}")
        f = jnp.ones(s + (2,))
        r = accepts(ctx, lambda: jax.eval_shape(lambda: sources.amplitudes_for_fields(f, f, f, f, layer)), ok, f"amplitudes for fields on {s}")
        if r is not None:
            ctx.true(all(a.shape == (2 * n, 2) for a in r), "amplitudes for fields shape")
        ctx.state(case["exp"], s)
    ctx.outcome(case["exp"])


def run_zone(case, ctx):
    """Zone grids, unit cell counts and supercell fields."""
    from mc import lib
    from mc.lib import basis, fields, jax, jnp, sources

    lv = lib.lattice("obl")
    for n in range(4):
        for s in itertools.product(range(-1, 4), repeat=n):
            ok = n == 2 and min(s) >= 1
            r = accepts(ctx, lambda: basis.brillouin_zone_in_plane_wavevector(s, lv), ok, f"zone grid {s}")
            ctx.state("zone", s)
            if r is not None:
                ctx.true(r.shape == s + (2,), f"zone grid {s}: shape {r.shape}")
    for z in itertools.product((1, 2, 3), repeat=2):
        layer = jax.eval_shape(lambda: lib.solve(lib.medium("abs", "uni", (1, 1)), 0.8, basis.brillouin_zone_in_plane_wavevector(z, lv), lv, "x3"))
        for s in itertools.product((3, 4, 6, 9), repeat=2):
            ok = s[0] % z[0] == 0 and s[1] % z[1] == 0 and s[0] // z[0] >= 3
            f = jax.ShapeDtypeStruct(s + (2,), complex)
            r = accepts(ctx, lambda: jax.eval_shape(lambda a, l: sources.amplitudes_for_fields(a, a, a, a, l, brillouin_grid_axes=(0, 1)), f, layer), ok, f"supercell fields {s} on a {z} zone grid")
            ctx.state("supercell", z, s)
            if r is not None:
                ctx.true(all(a.shape == z + (6, 2) for a in r), f"supercell fields {s} on {z}: {[a.shape for a in r]}")
    ctx.outcome("zone")


def run_lists(case, ctx):
    """Numbers of layers, thicknesses, amplitudes and z samples must agree."""
    from mc import lib, menu
    from mc.lib import fields, jax, jnp, scattering

    L = [lib.cached_layer(m, "uni", (1, 1), 0.8, (0.1, 0.2), "obl", "x3", "fft")[0] for m in ("vac", "die", "abs")]
    L = [lib.strip(x) for x in L]
    t = [jnp.asarray(0.1 * (i + 1)) for i in range(4)]
    A = (jnp.ones((6, 2)), jnp.ones((6, 2)))
    co = (jnp.zeros((4,)), jnp.zeros((4,)))
    for nl, nt in itertools.product(range(1, 4), range(0, 5)):
        for f in ("stack_s_matrix", "stack_s_matrices_interior"):
            fn = getattr(scattering, f)
            r = accepts(ctx, lambda: fn(L[:nl], t[:nt]), nl == nt, f"{f} with {nl} layers and {nt} thicknesses")
            if r is not None and f == "stack_s_matrices_interior":
                ctx.true(len(r) == nl and all(len(p) == 2 for p in r), "number of interior scattering matrices")
        ctx.state("s", nl, nt)
        if nt:
            st = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *(L[:nl]))
            accepts(ctx, lambda: jax.eval_shape(scattering.stack_s_matrix_scan, st, jnp.ones(nt)), nl == nt, f"scan with {nl} layers and {nt} thicknesses")
    for na, nl, nt, nz in itertools.product(range(1, 4), repeat=4):
        ok = na == nl == nt == nz
        r = accepts(ctx, lambda: fields.stack_fields_3d([A] * na, L[:nl], t[:nt], [2] * nz, (3, 1), (1, 1)), ok, f"stack_fields_3d with {na} amplitudes, {nl} layers, {nt} thicknesses, {nz} samples")
        ctx.state("f", na, nl, nt, nz)
        if r is not None:
            ctx.true(r[0][0].shape == (3, 1, 2 * nl, 2), f"stack_fields_3d shape {r[0][0].shape}")
        r = accepts(ctx, lambda: fields.stack_fields_3d_on_coordinates([A] * na, L[:nl], t[:nt], [2] * nz, *co), ok, f"stack_fields_3d_on_coordinates with {na} amplitudes, {nl} layers, {nt} thicknesses, {nz} samples")
        if r is not None:
            ctx.true(r[0][0].shape == (4, 2 * nl, 2), f"stack_fields_3d_on_coordinates shape {r[0][0].shape}")
    for na, nl, nt in itertools.product(range(1, 4), repeat=3):
        accepts(ctx, lambda: fields.stack_fields_3d_auto_grid([A] * na, L[:nl], t[:nt], 0.3, (1, 1)), na == nl == nt, f"stack_fields_3d_auto_grid with {na} amplitudes, {nl} layers, {nt} thicknesses")
    ctx.outcome("lists")


def corruptions(s):
    """Shapes that differ from `s` (a tuple of dims > 1 at the end) in one way."""
    out = [("extra batch", (3,) + s)]
    if len(s):
        out += [("last + 1", s[:-1] + (s[-1] + 1,)), ("last - 1", s[:-1] + (s[-1] - 1,)), ("dropped", s[1:])]
    if len(s) > 1:
        out += [("penultimate + 1", s[:-2] + (s[-2] + 1, s[-1])), ("penultimate - 1", s[:-2] + (s[-2] - 1, s[-1]))]
    return [(k, v) for k, v in out if 0 not in v]


def run_record(case, ctx):
    """Every field of a layer solution is validated."""
    import dataclasses

    from mc import lib
    from mc.lib import basis, fmm, jax, jnp

    lv = lib.lattice("obl")
    for zone in ((), (2, 3)):
        k = basis.brillouin_zone_in_plane_wavevector(zone, lv) if zone else jnp.asarray((0.1, 0.2))
        r = lib.solve(lib.medium("magt", "gen", (6, 5)), 0.8, k, lv, "c5")
        accepts(ctx, lambda: dataclasses.replace(r), True, "valid record")
        for name in ("wavelength", "in_plane_wavevector", "eigenvalues", "eigenvectors", "z_permittivity_matrix", "inverse_z_permittivity_matrix", "z_permeability_matrix", "inverse_z_permeability_matrix", "transverse_permeability_matrix"):
            x = getattr(r, name)
            trail = {"wavelength": 0, "in_plane_wavevector": 1, "eigenvalues": 1}.get(name, 2)
            bad = corruptions(x.shape[len(zone):])
            bad = [(m, x.shape[: len(zone)] + s) for m, s in bad if m != "extra batch" and m != "dropped" and not 1 in s]
            bad += [("dropped", x.shape[1:])] if x.ndim else []
            bad += [("extra batch", (2,) + x.shape), ("extra singleton", (1,) + x.shape)]
            if name in ("eigenvalues", "eigenvectors"):
                bad += [("single mode", x.shape[:-1] + (1,))]
            if zone:
                bad += [("batch", (4,) + x.shape[1:]), ("batch", (2, 4) + x.shape[2:]), ("batch swapped", (3, 2) + x.shape[2:])]
            for m, s in bad:
                accepts(ctx, lambda: dataclasses.replace(r, **{name: jnp.ones(s)}), False, f"record with {name} {m}: {s} for batch {zone}")
                ctx.state(zone, name, m)
        for comp in ("u", "v"):
            for s in [(3,) + zone + (2,), zone + (3,)] + ([(4, 3, 2)] if zone else []):
                accepts(ctx, lambda: dataclasses.replace(r, primitive_lattice_vectors=basis.LatticeVectors(**{"u": r.primitive_lattice_vectors.u, "v": r.primitive_lattice_vectors.v, comp: jnp.ones(s)})), False, f"record with lattice {comp} {s} for batch {zone}")
        for e in ("x3", "b9"):
            accepts(ctx, lambda: dataclasses.replace(r, expansion=lib.expansion(e)), False, f"record with another expansion {e}")
        tf = jnp.ones(zone + (6, 5))
        accepts(ctx, lambda: dataclasses.replace(r, tangent_vector_field=(tf, tf)), True, "record with a tangent field")
        bad = jnp.ones((2,) + zone + (6, 5))
        accepts(ctx, lambda: dataclasses.replace(r, tangent_vector_field=(bad, bad)), False, "record with a tangent field of another rank")
        accepts(ctx, lambda: dataclasses.replace(r, tangent_vector_field=(bad, tf)), False, "record with a tangent field component of another rank")
    ctx.outcome("record")


def run_amplitudes(case, ctx):
    """Amplitudes must have 2 N rows (fields N rows) and compatible batch shapes."""
    from mc import lib
    from mc.lib import fields, jax, jnp, sources

    layer = lib.strip(lib.cached_layer("abs", "uni", (1, 1), 0.8, (0.1, 0.2), "obl", "x3", "fft")[0])
    t = jnp.asarray(0.3)
    for rows, ns in itertools.product((1, 2, 3, 5, 6, 7, 12), (1, 2, 3)):
        a = jnp.ones((rows, ns))
        ok = rows == 6
        calls = dict(
            propagate=lambda: fields.propagate_amplitude(a, t, layer),
            colocate=lambda: fields.colocate_amplitudes(a, a, t, layer, t),
            flux=lambda: fields.amplitude_poynting_flux(a, a, layer),
            directional=lambda: fields.directional_poynting_flux(a, a, layer),
            wave=lambda: fields.fields_from_wave_amplitudes(a, a, layer),
            layer=lambda: fields.layer_fields_3d(a, a, layer, t, 2, (3, 1), (1, 1)),
        )
        for n, f in calls.items():
            r = accepts(ctx, f, ok, f"{n} with amplitudes ({rows}, {ns})")
            ctx.state(n, rows, ns)
            if r is None:
                continue
            shapes = {"propagate": [(6, ns)], "colocate": [(6, ns)] * 2, "flux": [(6, ns)] * 2, "directional": [(6, ns)] * 2, "wave": [(3, ns)] * 6}.get(n)
            if shapes:
                ctx.true([x.shape for x in jax.tree_util.tree_leaves(r)] == shapes, f"{n}: shapes {[x.shape for x in jax.tree_util.tree_leaves(r)]}")
        if rows in (3, 6) and ns > 1:
            b = jnp.ones((rows, ns + 2))
            if rows == 6:
                accepts(ctx, lambda: fields.amplitude_poynting_flux(a, b, layer), False, "flux with differing numbers of amplitudes")
                accepts(ctx, lambda: fields.fields_from_wave_amplitudes(a, b, layer), False, "fields with differing numbers of amplitudes")
                accepts(ctx, lambda: fields.colocate_amplitudes(a, b, t, layer, t), False, "colocation with differing numbers of amplitudes")
        f3 = (a,) * 3
        okf = rows == 3
        r = accepts(ctx, lambda: fields.fields_on_grid(f3, f3, layer, shape=(4, 2), num_unit_cells=(1, 2)), okf, f"fields_on_grid with ({rows}, {ns})")
        if r is not None:
            ctx.true(all(x.shape == (4, 4, ns) for x in r[0] + r[1]), "fields_on_grid shape")
        x = jnp.zeros((5, 2))
        r = accepts(ctx, lambda: fields.fields_on_coordinates(f3, f3, layer, x, x), okf, f"fields_on_coordinates with ({rows}, {ns})")
        if r is not None:
            ctx.true(all(v.shape == (5, 2, ns) for v in r[0] + r[1]), f"fields_on_coordinates shape {r[0][0].shape}")
        r = accepts(ctx, lambda: sources.polarization_terms(a, a, a, layer), okf, f"polarization_terms with ({rows}, {ns})")
    x, y = jnp.zeros((5, 2)), jnp.zeros((2, 5))
    f3 = (jnp.ones((3, 2)),) * 3
    accepts(ctx, lambda: fields.fields_on_coordinates(f3, f3, layer, x, y), False, "coordinates of differing shape")
    one = jnp.ones((6,))
    for n, f in dict(propagate=lambda: fields.propagate_amplitude(one, t, layer), flux=lambda: fields.amplitude_poynting_flux(one, one, layer), wave=lambda: fields.fields_from_wave_amplitudes(one, one, layer)).items():
        accepts(ctx, f, False, f"{n} with one-dimensional amplitudes")
    ctx.outcome("amplitudes")


def run_tensors(case, ctx):
    """Tensor elements must share one shape; trailing dimensions of vectors must be two."""
    from mc import lib
    from mc.lib import F, basis, fmm, jax, jnp

    ex, lv = lib.expansion("x3"), lib.lattice("obl")
    S = jax.ShapeDtypeStruct
    V = basis.LatticeVectors(u=S((2,), float), v=S((2,), float))
    for kind, fn, n in (("aniso", fmm.eigensolve_anisotropic_media, 5), ("gen", fmm.eigensolve_general_anisotropic_media, 10)):
        for base in ((1, 1), (6, 4), (2, 6, 4)):
            for i in range(n):
                for s in [(6, 4), (1, 1), (2, 6, 4), (1, 6, 4), (6, 5), (4, 6), (2, 1, 1)]:
                    shapes = [base] * n
                    shapes[i] = s
                    for form in (F.FFT,):
                        accepts(ctx, lambda: jax.eval_shape(lambda w, k, v, *p: fn(w, k, v, *p, ex, form), S((), float), S((2,), float), V, *[S(x, complex) for x in shapes]), s == base, f"{kind} with element {i} of shape {s} among {base}")
                    ctx.state(kind, base, i, s)
    for kind, fn, n in (("iso", fmm.eigensolve_isotropic_media, 1), ("aniso", fmm.eigensolve_anisotropic_media, 5), ("gen", fmm.eigensolve_general_anisotropic_media, 10)):
        for base in ((1, 1), (6, 4)):
            for d in (1, 2, 3):
                args = [S((), float), S((d,), float), V, *[S(base, complex)] * n]
                accepts(ctx, lambda: jax.eval_shape(lambda w, k, v, *p: fn(w, k, v, *p, ex, F.FFT), *args), d == 2, f"{kind} with a wavevector of {d} components")
            args = [S((), float), S((2,), float), V, *[S((6,), complex)] * n]
            accepts(ctx, lambda: jax.eval_shape(lambda w, k, v, *p: fn(w, k, v, *p, ex, F.FFT), *args), False, f"{kind} with one-dimensional permittivity")
            for form in ("fft", None, 3, basis.Truncation.CIRCULAR):
                if base != (1, 1):
                    args = [S((), float), S((2,), float), V, *[S(base, complex)] * n]
                    accepts(ctx, lambda: jax.eval_shape(lambda w, k, v, *p: fn(w, k, v, *p, ex, form), *args), False, f"{kind} with formulation {form!r}")
    ctx.outcome("tensors")


def run_containers(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import basis, jax, jnp, pml

    for s in itertools.chain.from_iterable(itertools.product((1, 2, 3), repeat=n) for n in range(0, 4)):
        ok = len(s) == 2 and s[-1] == 2
        accepts(ctx, lambda: basis.Expansion(basis_coefficients=np.arange(int(np.prod(s))).reshape(s)), ok, f"expansion coefficients of shape {s}")
        ok = len(s) >= 1 and s[-1] == 2
        for a, b in ((s, s), (s, s[:-1] + (2,)), (s[:-1] + (2,), s)):
            good = len(a) >= 1 and len(b) >= 1 and a[-1] == 2 and b[-1] == 2
            accepts(ctx, lambda: basis.LatticeVectors(u=jnp.ones(a), v=jnp.ones(b)), good, f"lattice vectors of shapes {a}, {b}")
        ctx.state("container", s)
        for d in (1, 2, 3):
            if len(s) and s[-1] == d:
                accepts(ctx, lambda: basis.transverse_wavevectors(jnp.ones(s), lib.lattice("obl"), lib.expansion("c5")), d == 2, f"transverse wavevectors for in-plane wavevector of shape {s}")
    for t in ("CIRCULAR", None, 0, lib.F.FFT):
        accepts(ctx, lambda: basis.generate_expansion(lib.lattice("obl"), 9, t), False, f"truncation {t!r}")
    for s in itertools.product(range(1, 6), repeat=2):
        for w in itertools.product(range(0, 4), repeat=2):
            ok = 2 * w[0] < s[0] and 2 * w[1] < s[1]
            r = accepts(ctx, lambda: jax.eval_shape(lambda x: pml.apply_uniaxial_pml(x, pml.PMLParams(num_x=w[0], num_y=w[1])), jnp.ones(s)), ok, f"absorbing layers of {w} cells on a grid {s}")
            ctx.state("pml", s, w)
            if r is not None:
                ctx.true([len(x) for x in r] == [5, 5] and all(x.shape == s for x in r[0] + r[1]), "shapes of the absorbing layer tensors")
    ctx.outcome("containers")


# Malformed variants of menu calls: name -> list of (leaf index, corruptions) that must be rejected.
A_, R_ = ("last + 1", "last - 1"), ("penultimate + 1", "penultimate - 1")
TABLE = {
    "reciprocal": [(0, A_), (1, A_)],
    "unit_cell_coordinates": [(0, A_), (1, A_)],
    "brillouin": [(0, A_), (1, A_)],
    "beam": [(0, A_ + ("dropped",)), (1, A_ + ("dropped",)), (2, A_ + ("dropped",)), (3, ("extra batch",)), (4, ("extra batch",)), (5, ("extra batch",))],
    "farfield_profile": [(0, R_ + ("dropped",)), (2, R_ + ("dropped", "extra batch"))],
    "integrated_flux": [(0, R_ + ("dropped",)), (2, R_ + ("dropped", "extra batch"))],
    "unflatten": [(0, A_)],
    "unflatten_flux": [(0, R_)],
    "unflatten_wavevectors": [(0, A_ + R_)],
    "ifft": [(0, A_)],
    "ifft_axis": [(0, R_)],
    "conv": [(0, ("dropped",))],
    "amps_for_fields": [(i, A_ + R_ + ("dropped", "extra batch")) for i in range(4)],
    "amps_for_fields_bz": [(i, A_ + R_ + ("dropped", "extra batch")) for i in range(4)],
    "dirac": [(0, A_ + ("dropped", "extra batch")), (1, A_), (2, A_), (3, A_)],
    "gaussian": [(1, A_ + ("dropped", "extra batch")), (2, A_), (3, A_), (4, A_)],
    "amps_for_source": [(0, A_ + R_ + ("dropped", "extra batch")), (1, A_ + R_ + ("dropped", "extra batch")), (2, A_ + R_ + ("dropped", "extra batch"))],
    "polarization": [(0, A_ + R_ + ("dropped", "extra batch")), (1, A_ + R_ + ("dropped", "extra batch")), (2, A_ + R_ + ("dropped", "extra batch"))],
    "interior_amps": [(-2, R_ + ("dropped",)), (-1, R_ + ("dropped",))],
    "amps_interior": [(-2, R_ + ("dropped",)), (-1, R_ + ("dropped",))],
    "interior_amps_source": [(-2, R_ + ("dropped",)), (-1, R_ + ("dropped",))],
    "jones_direct": [(0, ("dropped",)), (1, A_), (2, A_)],
    "gradient": [(0, ("dropped",)), (1, A_), (2, A_)],
    "normalize_jones": [(0, A_)],
    "solve": [(0, A_ + R_ + ("dropped",)), (1, R_)],
    "pml": [(0, ("dropped",))],
    "stack_fields_coords": [(-1, A_ + ("dropped",)), (-2, A_ + ("dropped",))],
    "layer_fields_coords": [(-1, A_ + ("dropped",)), (-2, A_ + ("dropped",))],
    "coord_fields": [(0, R_), (3, R_), (-1, A_ + ("dropped",)), (-2, A_ + ("dropped",))],
    "grid_fields": [(i, R_) for i in range(6)],
    "scan": [(-1, ("last + 1", "last - 1", "extra batch"))],
}


def run_table(case, ctx):
    import numpy as np

    from mc import menu
    from mc.lib import jax, jnp

    n = case["name"]
    fn, a, kw = menu.entry(n)
    a = jax.tree_util.tree_map(lambda x: jnp.asarray(x) if isinstance(x, np.ndarray) else x, a)
    leaves, td = jax.tree_util.tree_flatten(a)
    accepts(ctx, lambda: jax.eval_shape(lambda: fn(*a, **kw)), True, f"{n} (valid)")
    for i, which in TABLE[n]:
        i = i % len(leaves)
        for m, s in corruptions(tuple(leaves[i].shape)):
            if m not in which:
                continue
            ls = list(leaves)
            ls[i] = jnp.asarray(np.resize(np.asarray(leaves[i]), s))
            accepts(ctx, lambda: jax.eval_shape(lambda: fn(*jax.tree_util.tree_unflatten(td, ls), **kw)), False, f"{n} with argument leaf {i} {m}: {s}")
            ctx.state(n, i, m)
    ctx.outcome(n)
