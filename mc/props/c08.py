"""C08: compilation, vectorisation and container round trips do not change results."""
import itertools

TECHNIQUE = "exhaustive enumeration of call histories of compiled functions over near-identical static arguments (every ordered pair and triple shares one compilation cache), of all containers under tree transformations, and of all public functions compiled versus called directly"
BOUNDS = {
    "quick": "all ordered pairs of 22 near-identical expansions, 14 PML parameter sets, 9 formulations and 6 layer solutions sharing one compilation cache; all 7 containers under flatten/unflatten, identity and labelling maps, pickling, copying; all public functions compiled; 13 vectorised functions in up to 4 in/out axis layouts",
    "thorough": "also all ordered pairs and triples of 22 expansions and 14 PML parameter sets with a cache of their own; ahead-of-time compilation of all functions",
}
ASSUMPTIONS = ["compiled and direct results are compared at 1e-9 of the largest element (rounding), layer solutions through their operators"]
MAX_CHUNK = 7


def cases(tier):
    for order in ("forward", "reverse"):
        yield dict(part="expansion", order=order)
        yield dict(part="pml", order=order)
    if tier == "thorough":  # Every pair and triple with a cache of its own.
        for depth in (2, 3):
            for first in range(len(expansions())):
                yield dict(part="expansion", first=first, depth=depth)
            for first in range(len(PMLS)):
                yield dict(part="pml", first=first, depth=depth)
    for order in ("forward", "reverse"):
        yield dict(part="formulation", order=order)
    for order in ("forward", "reverse"):
        yield dict(part="layer", order=order)
    for c in CONTAINERS:
        yield dict(part="container", what=c)
    for n in NAMES_JIT:
        if tier == "thorough" or n not in ("eig_pol_fourier", "fourier_iso_vec", "pol", "jones", "normal"):  # see "formulation"
            yield dict(part="jit", name=n)
    for f in VMAPS:
        yield dict(part="vmap", fn=f)
    for f in FLOW:
        yield dict(part="flow", fn=f)
    if tier == "thorough":
        for n in NAMES_JIT:
            yield dict(part="lower", name=n)


def _names():
    # Kept here as literals so that enumeration does not import the code under test.
    skip = {"generate_circular", "generate_parallelogramic", "min_shape", "auto_grid"}  # result shapes depend on values
    import re, os

    src = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "menu.py")).read()
    block = src.split("NAMES = [", 1)[1].split("]", 1)[0]
    return [n for n in re.findall(r'"([a-z0-9_]+)"', block) if n not in skip]


NAMES_JIT = _names()
CONTAINERS = ["lattice", "expansion", "truncation", "formulation", "layer", "layer_tvf", "smatrix", "pml"]
VMAPS = ["wavelength", "wavevector", "lattice", "permittivity", "thickness", "layers", "layers_in1", "stack_of", "amplitudes", "source", "nested", "general", "scan"]
FLOW = ["cond", "scan_layers", "fori", "checkpoint", "map"]


def group(c):
    return (c["part"], c.get("depth"), c.get("order"))


def weight(c):
    return {"formulation": 60, "layer": 15, "expansion": 15, "vmap": 6, "flow": 6, "jit": 2, "lower": 2}.get(c["part"], 1)


def expansions():
    """Near-identical expansions: (list, dtype, memory order)."""
    base = [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]]
    swap = [base[i] for i in (0, 2, 1, 3, 4)]
    out = [
        (base, "int64", "C"),
        (swap, "int64", "C"),
        ([base[i] for i in (1, 0, 2, 3, 4)], "int64", "C"),
        ([[0, 0], [1, 0], [-2, 0], [0, 1], [0, -1]], "int64", "C"),  # hash(-1) == hash(-2)
        ([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -2]], "int64", "C"),
        ([[0, 0], [0, 1], [0, -1], [1, 0], [-1, 0]], "int64", "C"),  # components exchanged
        (base, "int32", "C"),
        (swap, "int32", "C"),
        (base, "int64", "F"),
        (swap, "int64", "F"),
        (base, "int64", "view"),
        (base[:4], "int64", "C"),
        (base + [[1, 1]], "int64", "C"),
        (base + [[1, -1]], "int64", "C"),
        (base + [[-1, 1]], "int64", "C"),
        ([[1, 0]], "int64", "C"),
        ([[1, 0], [0, 0]], "int32", "C"),  # same bytes as the previous one
        ([[1, 0]], "int32", "C"),
        ([[2, 0], [0, 0]], "int32", "C"),
        ("large", "int64", "C"),
        ("large2", "int64", "C"),
        ("large3", "int64", "C"),
    ]
    return out


def make_expansion(spec):
    import numpy as np

    from mc.lib import basis

    c, dt, mem = spec
    if isinstance(c, str):
        c2 = [[i, j] for i in range(-13, 14) for j in range(-11, 12)]
        if c == "large2":  # Two orders in the middle exchanged.
            c2[300], c2[301] = c2[301], c2[300]
        if c == "large3":
            c2[300] = [14, 0]
        c = c2
    a = np.asarray(c, dtype=dt)
    if mem == "F":
        a = np.asfortranarray(a)
    if mem == "view":
        big = np.zeros((a.shape[0], 4), dtype=dt)
        big[:, ::2] = a
        a = big[:, ::2]
    return basis.Expansion(basis_coefficients=a)


PMLS = [
    dict(num_x=2, num_y=1), dict(num_x=1, num_y=2), dict(num_x=2, num_y=2), dict(num_x=2, num_y=1, a_max=4.0001), dict(num_x=2, num_y=1, p=3.9999),
    dict(num_x=2, num_y=1, sigma_max=1.0001), dict(num_x=2, num_y=1, a_max=4), dict(num_x=2, num_y=1, sigma_max=1), dict(num_x=2, num_y=1, a_max=1.0, sigma_max=4.0),
    dict(num_x=0, num_y=1), dict(num_x=2, num_y=0), dict(num_x=2, num_y=1, p=1.0, sigma_max=4.0), dict(num_x=2, num_y=1, sigma_max=-1.0), dict(num_x=2, num_y=1, sigma_max=-2.0),
]


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


_DIRECT = {}


def histories(case, n):
    """Call histories sharing one compilation cache each.

    An "order" history first calls all variants in order (every earlier variant is then in the cache when a later one is
    called, in both orders over the two histories), then walks through all ordered pairs with a full cache.
    """
    if "order" in case:
        idx = list(range(n))
        if case["order"] == "reverse":
            idx = idx[::-1]
        yield tuple(idx + [x for i in idx for j in idx for x in (i, j)])
    else:
        for rest in itertools.product(range(n), repeat=case["depth"] - 1):
            yield (case["first"],) + rest


def _exp_fn(a, e):
    from mc.lib import basis, fft, jnp
    from mc import lib

    lv = lib.lattice("obl")
    return fft.fft(a, e), basis.transverse_wavevectors(jnp.asarray((0.1, 0.2)), lv, e), fft.ifft(jnp.arange(e.num_terms) + 1.0, e, (32, 30))


def run_expansion(case, ctx):
    from mc import lib, menu
    from mc.lib import jax
    import numpy as np

    specs = expansions()
    a = lib.jnp.asarray(menu.amp(32, 30))

    def direct(i):
        if i not in _DIRECT:
            _DIRECT[i] = [np.asarray(x) for x in _exp_fn(a, make_expansion(specs[i]))]
        return _DIRECT[i]

    n = len(specs)
    for seq in histories(case, n):
        f = jax.jit(lambda a, e: _exp_fn(a, e))
        for n_, i in enumerate(seq):
            out = f(a, make_expansion(specs[i]))
            ctx.step()
            ctx.state("exp", tuple(sorted(set(seq[:n_]))), i)
            for g, w in zip(out, direct(i)):
                ctx.close(g, w, 1e-9, f"compiled call {n_} of {seq[: n_ + 1]} at expansion {i}: {str(specs[i])[:60]}")
    # Structures are equal exactly when the expansions are (shape and content).
    for i, j in itertools.product(range(n), repeat=2):
        ei, ej = make_expansion(specs[i]), make_expansion(specs[j])
        same = ei.basis_coefficients.shape == ej.basis_coefficients.shape and np.array_equal(ei.basis_coefficients, ej.basis_coefficients)
        ti, tj = jax.tree_util.tree_structure(ei), jax.tree_util.tree_structure(ej)
        if not same:
            ctx.true(ti != tj, f"different expansions {i} and {j} have equal structures")
        elif ei.basis_coefficients.dtype == ej.basis_coefficients.dtype:
            ctx.true(ti == tj and hash(ti) == hash(tj), f"equal expansions {i} and {j} have different structures")
    ctx.outcome("exp", str(case))


def run_pml(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import jax, pml

    a = lib.jnp.asarray(lib.medium("die", "gen", (7, 6))["eps"][0])

    def direct(i):
        if ("pml", i) not in _DIRECT:
            _DIRECT["pml", i] = [np.asarray(x) for x in jax.tree_util.tree_leaves(pml.apply_uniaxial_pml(a, pml.PMLParams(**PMLS[i])))]
        return _DIRECT["pml", i]

    for seq in histories(case, len(PMLS)):
        f = jax.jit(lambda a, p: pml.apply_uniaxial_pml(a, p))
        for n_, i in enumerate(seq):
            ctx.state("pml", tuple(sorted(set(seq[:n_]))), i)
            out = jax.tree_util.tree_leaves(f(a, pml.PMLParams(**PMLS[i])))
            ctx.step()
            for g, w in zip(out, direct(i)):
                ctx.close(g, w, 1e-9, f"compiled calls {seq[: n_ + 1]} at parameters {PMLS[i]}")
    for i, j in itertools.product(range(len(PMLS)), repeat=2):
        p, q = pml.PMLParams(**PMLS[i]), pml.PMLParams(**PMLS[j])
        tp, tq = jax.tree_util.tree_structure(p), jax.tree_util.tree_structure(q)
        full = lambda d: {**dict(a_max=4.0, p=4.0, sigma_max=1.0), **d}
        ctx.true((tp == tq) == (full(PMLS[i]) == full(PMLS[j])), f"parameter sets {PMLS[i]} and {PMLS[j]}: structures equal is {tp == tq}")
        if tp == tq:
            ctx.true(hash(tp) == hash(tq), "hash of equal structures")
    ctx.outcome("pml", str(case))


def run_formulation(case, ctx):
    """All formulations through one compilation cache, in both orders, with repeats."""
    from mc import lib, menu
    from mc.lib import F, basis, fmm, jax

    forms = list(F)
    forms = forms if case["order"] == "forward" else forms[::-1]
    ex, lv = lib.expansion("c5"), lib.lattice("obl")
    med = lib.medium("abs", "gen", (10, 9))
    eps = lib.jnp.asarray(med["eps"][0])

    def fn(e, form):
        return fmm.fourier_matrices_patterned_isotropic_media(lv, e, ex, form)

    f = jax.jit(fn)
    first = {}
    for form in forms + forms:
        out = menu.invariants("", f(eps, form))
        ctx.step()
        ctx.state("form", case["order"], form.value, form in first)
        if form not in first:
            first[form] = out
            for g, w in zip(out, menu.invariants("", fn(eps, form))):
                ctx.close(g, w, 1e-8, f"compiled formulation {form}")
            ctx.step()
            rt = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(form), [])
            ctx.true(rt is form, f"round trip of {form} gives {rt}")
        else:
            for g, w in zip(out, first[form]):
                ctx.equal(g, w, f"repeated compiled call with {form}")
    for a, b in itertools.product(forms, forms):
        ta, tb = jax.tree_util.tree_structure(a), jax.tree_util.tree_structure(b)
        ctx.true((ta == tb) == (a == b), f"structures of {a}, {b}")
    for t in basis.Truncation:
        ctx.true(jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(t), []) is t, f"round trip of {t}")
    ctx.outcome(case["order"])


def _variants():
    """Layer solutions with the same array shapes and different static content or values."""
    import dataclasses

    from mc import lib

    out = []
    for exp in ("c5", "shuf", [[0, 0], [1, 0], [-1, 0], [1, 1], [-1, -1]], [[0, 0], [2, 0], [-2, 0], [0, 1], [0, -1]]):
        for m in ("die",):
            out.append(lib.strip(lib.solve(lib.medium(m, "gen", (10, 9)), 0.83, (0.31, -0.17), "obl", exp)))
    # Same arrays, only the expansion differs.
    out.append(dataclasses.replace(out[0], expansion=lib.expansion("shuf")))
    out.append(dataclasses.replace(out[0], expansion=lib.expansion([[0, 0], [1, 0], [-1, 0], [0, -1], [0, 1]])))
    return out


def _layer_fn(r, a, b):
    from mc.lib import fields

    e, h = fields.fields_from_wave_amplitudes(a, b, r)
    return e, h, fields.fields_on_grid(e, h, r, (6, 5), (1, 1)), fields.amplitude_poynting_flux(a, b, r)


def run_layer(case, ctx):
    from mc import menu
    from mc.lib import jax

    V = _variants()
    a, b = menu.amp(10, 1), menu.amp(10, 1, ph=1.0)
    want = [menu.invariants("", _layer_fn(r, a, b)) for r in V]
    ctx.step(len(V))
    idx = list(range(len(V)))
    if case["order"] == "reverse":
        idx = idx[::-1]
    f = jax.jit(lambda r, a, b: _layer_fn(r, a, b))
    for i in idx + idx:
        for g, w in zip(menu.invariants("", f(V[i], a, b)), want[i]):
            ctx.close(g, w, 1e-9, f"compiled fields of layer solution {i} after {idx[:i]}")
        ctx.step()
        ctx.state("layer", case["order"], i)
    ctx.outcome(case["order"])


def _container(what):
    from mc import lib
    from mc.lib import F, basis, pml

    if what == "lattice":
        return lib.lattice("obl")
    if what == "expansion":
        return lib.expansion("b9")
    if what == "truncation":
        return basis.Truncation.PARALLELOGRAMIC
    if what == "formulation":
        return F.JONES_DIRECT_FOURIER
    if what == "pml":
        return pml.PMLParams(num_x=3, num_y=5, a_max=2.5, p=3.5, sigma_max=0.3)
    if what == "layer":
        return lib.solve(lib.medium("magt", "gen", (8, 7)), 0.83, (0.31, -0.17), "obl", "c5")
    if what == "layer_tvf":
        return lib.solve(lib.medium("die", "gen", (8, 7)), 0.83, (0.31, -0.17), "obl", "c5", F.POL)
    if what == "smatrix":
        L = [lib.solve(lib.medium(m, "gen", (8, 7)), 0.83, (0.31, -0.17), "obl", "c5") for m in ("magt", "die", "abs")]
        return lib.stack(L, (0.1, 0.2, 0.4))
    raise KeyError(what)


def flat_fields(x, path=""):
    """{path: value} of all (nested) dataclass fields."""
    import dataclasses
    import enum

    if dataclasses.is_dataclass(x):
        out = {}
        for f in dataclasses.fields(x):
            out.update(flat_fields(getattr(x, f.name), path + "." + f.name))
        return out
    if isinstance(x, (tuple, list)):
        out = {}
        for i, v in enumerate(x):
            out.update(flat_fields(v, f"{path}[{i}]"))
        return out
    return {path: x}


def _same(ctx, a, b, msg):
    import numpy as np

    fa, fb = flat_fields(a), flat_fields(b)
    if not ctx.true(type(a) is type(b) and list(fa) == list(fb), f"{msg}: fields {list(fb)} instead of {list(fa)}"):
        return
    for k in fa:
        if hasattr(fa[k], "shape"):
            ctx.equal(fb[k], fa[k], f"{msg}: field {k}")
        else:
            ctx.true(fa[k] == fb[k] and type(fa[k]) is type(fb[k]), f"{msg}: field {k}: {fb[k]!r} instead of {fa[k]!r}")


def run_container(case, ctx):
    import copy
    import pickle

    import numpy as np

    from mc.lib import jax

    x = _container(case["what"])
    tu = jax.tree_util
    leaves, td = tu.tree_flatten(x)
    w = case["what"]
    _same(ctx, x, tu.tree_unflatten(td, leaves), f"{w}: flatten and rebuild")
    _same(ctx, x, tu.tree_map(lambda v: v, x), f"{w}: identity map")
    _same(ctx, x, jax.jit(lambda v: v)(x) if leaves else tu.tree_map(lambda v: v, x), f"{w}: identity under compilation")
    _same(ctx, x, copy.deepcopy(x), f"{w}: deep copy")
    _same(ctx, x, pickle.loads(pickle.dumps(x)), f"{w}: pickling")
    _same(ctx, x, copy.copy(x), f"{w}: copy")
    np_x = jax.device_get(x)
    _same(ctx, x, np_x, f"{w}: host copy")
    _same(ctx, x, jax.device_put(np_x), f"{w}: device copy")
    ctx.step(8)
    td2 = tu.tree_structure(copy.deepcopy(x))
    ctx.true(td == td2 and hash(td) == hash(td2), f"{w}: structure of an equal container")
    # Every leaf returns to its own field.
    arrays = {k: v for k, v in flat_fields(x).items() if hasattr(v, "shape") and "basis_coefficients" not in k}
    ctx.true(len(leaves) == len(arrays), f"{w}: {len(leaves)} leaves for {len(arrays)} array fields")
    for i in range(len(leaves)):
        lab = [v + (1000.0 if j == i else 0.0) for j, v in enumerate(leaves)]
        y = flat_fields(tu.tree_unflatten(td, lab))
        ctx.step()
        ctx.state(w, i)
        hit = [k for k in arrays if not np.array_equal(np.asarray(y[k]), np.asarray(arrays[k]))]
        ctx.true(len(hit) == 1 and np.array_equal(np.asarray(y[hit[0]]), np.asarray(leaves[i] + 1000.0)), f"{w}: changing leaf {i} changed fields {hit}")
    # Each array field can be reached through the leaves.
    ph = tu.tree_map(lambda v: None, x)
    ctx.true(type(ph) is type(x), f"{w}: placeholder leaves")
    shapes = jax.eval_shape(lambda v: v, x) if leaves else x
    ctx.true([s.shape for s in tu.tree_leaves(shapes)] == [v.shape for v in leaves], f"{w}: abstract evaluation")
    ctx.state(w)
    ctx.outcome(w, len(leaves))


def run_jit(case, ctx):
    from mc import menu
    from mc.lib import jax

    n = case["name"]
    fn, args, kw = menu.entry(n)
    dev = jax.tree_util.tree_map(jax.numpy.asarray, args)
    direct = menu.invariants(n, fn(*dev, **kw))
    comp = fn_out = jax.jit(lambda *a: fn(*a, **kw))(*dev)
    ctx.step(2)
    comp = menu.invariants(n, fn_out)
    ctx.state(n)
    ctx.true(len(direct) == len(comp), f"{n}: number of results")
    import numpy as np

    for i, (g, w) in enumerate(zip(comp, direct)):
        bad = np.isnan(w)
        if not ctx.true(g.shape == w.shape and g.dtype == w.dtype and np.array_equal(np.isnan(g), bad), f"{n}: compiled result {i} has {g.shape} {g.dtype} instead of {w.shape} {w.dtype}, or other missing values"):
            continue
        ctx.close(np.where(bad, 0, g), np.where(bad, 0, w), 1e-8, f"{n}: compiled result {i}")
    # The structure of the result is preserved.
    ctx.outcome(n, tuple(x.shape for x in comp))


def run_lower(case, ctx):
    from mc import menu
    from mc.lib import jax

    n = case["name"]
    fn, args, kw = menu.entry(n)
    dev = jax.tree_util.tree_map(jax.numpy.asarray, args)
    f = jax.jit(lambda *a: fn(*a, **kw)).lower(*dev).compile()
    out, direct = menu.invariants(n, f(*dev)), menu.invariants(n, fn(*dev, **kw))
    ctx.step(2)
    ctx.state(n)
    import numpy as np

    for g, w in zip(out, direct):
        ctx.close(np.nan_to_num(g), np.nan_to_num(w), 1e-8, f"{n}: ahead-of-time compilation")


def _solve1(wl, k, u, v, eps, ex, kind="iso", med=None):
    from mc.lib import F, basis, fmm

    return fmm.eigensolve_isotropic_media(wl, k, basis.LatticeVectors(u=u, v=v), eps, ex, F.FFT)


def run_vmap(case, ctx):
    import numpy as np

    from mc import lib, menu
    from mc.lib import F, basis, fields, fmm, jax, jnp, scattering, sources

    tm = jax.tree_util.tree_map
    ex = lib.expansion("c5")
    u, v = (jnp.asarray(x) for x in lib.LAT["obl"])
    wl, k = jnp.asarray(0.83), jnp.asarray((0.31, -0.17))
    eps = jnp.asarray(lib.medium("abs", "gen", (10, 9))["eps"][0])
    WL = jnp.asarray([0.83, 0.9, 1.1])
    KK = jnp.asarray([[0.31, -0.17], [0.0, 0.4], [1.0, 0.2]])
    UU, EE = u * jnp.asarray([1.0, 1.1, 0.9])[:, None], eps * jnp.asarray([1.0, 1.3, 1.6])[:, None, None]
    name = case["fn"]

    def compare(batched, loop, inv=menu.eig_invariants, what=""):
        n = len(loop)
        for i in range(n):
            got = inv(tm(lambda x: x[i], batched))
            want = inv(loop[i])
            ctx.step()
            ctx.state(name, what, i)
            ctx.true(len(got) == len(want), f"{name}{what}: number of results")
            for j, (g, w) in enumerate(zip(got, want)):
                ctx.close(g, w, 1e-8, f"vectorised over {name}{what}, element {i}, result {j}")

    leaves = lambda t: [np.asarray(x) for x in jax.tree_util.tree_leaves(t)]
    base = (wl, k, u, v, eps)
    alts = dict(wavelength=(0, WL), wavevector=(1, KK), lattice=(2, UU), permittivity=(4, EE))
    if name in alts:
        pos, vals = alts[name]
        f = lambda x: _solve1(*base[:pos], x, *base[pos + 1 :], ex)
        loop = [f(vals[i]) for i in range(3)]
        compare(jax.vmap(f)(vals), loop)
        compare(jax.jit(jax.vmap(f))(vals), loop, what=" compiled")
        compare(jax.vmap(jax.jit(f))(vals), loop, what=" of compiled")
        compare(jax.vmap(f, in_axes=vals.ndim - 1)(jnp.moveaxis(vals, 0, -1)), loop, what=" along the last axis")
    elif name == "thickness":
        L = [lib.cached_layer(m, "gen", (10, 9), 0.83, (0.31, -0.17), "obl", "c5", "fft")[0] for m in ("magt", "die", "abs")]
        ts = jnp.asarray([[0.1, 0.2, 0.3], [0.0, 0.5, 0.1], [0.4, 0.4, 0.4]])
        f = lambda t: scattering.stack_s_matrix(L, [t[0], t[1], t[2]])
        loop = [f(ts[i]) for i in range(3)]
        compare(jax.vmap(f)(ts), loop, leaves)
        compare(jax.jit(jax.vmap(f, in_axes=1))(ts.T), loop, leaves, " along the last axis")
        g = lambda s, t: scattering.append_layer(s, L[0], t)
        S = jax.vmap(f)(ts)
        compare(jax.vmap(g)(S, ts[:, 0]), [g(loop[i], ts[i, 0]) for i in range(3)], leaves, " of appended layers")
        compare(jax.vmap(g, in_axes=(0, None))(S, ts[0, 0]), [g(loop[i], ts[0, 0]) for i in range(3)], leaves, " of stacks only")
    elif name in ("layers", "layers_in1"):
        f = lambda w: _solve1(w, *base[1:], ex)
        R = jax.vmap(f)(WL)
        loop = [f(x) for x in WL]
        a, b = jnp.asarray(menu.amp(10, 2)), jnp.asarray(menu.amp(10, 2, ph=1.0))
        one = [tm(lambda x: x[i], R) for i in range(3)]
        ax = 0
        if name == "layers_in1":
            # Move the mapped axis of every leaf to the last position.
            R = tm(lambda x: jnp.moveaxis(x, 0, -1), R, is_leaf=lambda x: hasattr(x, "shape")) if False else R
            outs = jax.vmap(lambda r: (fields.eigenmode_poynting_flux(r), fields.field_conversion_matrix(r)), out_axes=1)(R)
            loop1 = [(fields.eigenmode_poynting_flux(r), fields.field_conversion_matrix(r)) for r in one]
            compare(tm(lambda x: jnp.moveaxis(x, 1, 0), outs), loop1, leaves, " with results along axis 1")
        for nm, fn in {
            "flux": lambda r: fields.amplitude_poynting_flux(a, b, r), "fields": lambda r: fields.fields_from_wave_amplitudes(a, b, r),
            "conv": fields.field_conversion_matrix, "propagate": lambda r: fields.propagate_amplitude(a, jnp.asarray(0.3), r),
            "omega": lambda r: r.omega_script_k_matrix, "same": lambda r: r, "stack": lambda r: scattering.stack_s_matrix([r, r], [jnp.asarray(0.1), jnp.asarray(0.2)]),
            "grid": lambda r: fields.layer_fields_3d(a, b, r, jnp.asarray(0.3), 2, (5, 4), (1, 1)),
        }.items():
            compare(jax.vmap(fn)(R), [fn(r) for r in one], leaves, f" ({nm})")
    elif name == "stack_of":
        # Whole pipeline per element.
        def f(w, e):
            r = _solve1(w, k, u, v, e, ex)
            r0 = fmm.eigensolve_isotropic_media(w, k, basis.LatticeVectors(u=u, v=v), jnp.ones((1, 1)), ex, F.FFT)
            s = scattering.stack_s_matrix([r0, r, r0], [jnp.asarray(x) for x in (0.1, 0.3, 0.2)])
            return s.s11, s.s12, s.s21, s.s22

        loop = [f(WL[i], EE[i]) for i in range(3)]
        compare(jax.vmap(f)(WL, EE), loop, leaves)
        compare(jax.vmap(f, in_axes=(0, None))(WL, EE[1]), [f(WL[i], EE[1]) for i in range(3)], leaves, " wavelengths only")
    elif name == "amplitudes":
        L = [lib.cached_layer(m, "gen", (10, 9), 0.83, (0.31, -0.17), "obl", "c5", "fft")[0] for m in ("magt", "die")]
        t = [jnp.asarray(0.1), jnp.asarray(0.2)]
        S = scattering.stack_s_matrices_interior(L, t)
        A = jnp.asarray(menu.amp(3, 10, 2))
        f = lambda a: fields.stack_fields_3d(fields.stack_amplitudes_interior(S, a, 0.5 * a), L, t, [2, 3], (5, 4), (1, 1))
        compare(jax.vmap(f)(A), [f(x) for x in A], leaves)
        g = lambda S, a: fields.stack_amplitudes_interior(S, a, 0.5 * a)
        compare(jax.vmap(g, in_axes=(None, 0))(S, A), [g(S, x) for x in A], leaves, " with stacks as arguments")
    elif name == "source":
        L = [lib.cached_layer(m, "gen", (10, 9), 0.83, (0.31, -0.17), "obl", "c5", "fft")[0] for m in ("magt", "die")]
        s0, s1 = (scattering.stack_s_matrix([r], [jnp.asarray(0.2)]) for r in L)
        loc = jnp.asarray([[[0.1, 0.2]], [[0.3, 0.1]], [[-0.4, 0.0]]])
        lv = basis.LatticeVectors(u=u, v=v)

        def f(x):
            d = sources.dirac_delta_source(x, k, lv, ex)
            return sources.amplitudes_for_source(d, 0 * d, 0.5 * d, s0, s1)

        compare(jax.vmap(f)(loc), [f(x) for x in loc], leaves)
        g = lambda e: sources.amplitudes_for_fields(e, 0.5 * e, 0.2j * e, 1.5 * e, L[1])
        Ef = jnp.asarray(menu.amp(3, 7, 6, 1))
        compare(jax.vmap(g)(Ef), [g(x) for x in Ef], leaves, " (fields)")
    elif name == "nested":
        f = lambda w, kk: _solve1(w, kk, u, v, eps, ex)
        R = jax.vmap(jax.vmap(f, in_axes=(None, 0)), in_axes=(0, None))(WL[:2], KK)
        for i in range(2):
            compare(tm(lambda x: x[i], R), [f(WL[i], KK[j]) for j in range(3)], what=f" row {i}")
    elif name == "general":
        m = lib.medium("magt", "gen", (10, 9))
        es = [jnp.asarray(x) for x in m["eps"] + m["mu"]]
        lv = basis.LatticeVectors(u=u, v=v)
        f = lambda w, s: fmm.eigensolve_general_anisotropic_media(w, k, lv, *[s * e for e in es[:5]], *es[5:], ex, F.FFT)
        sc = jnp.asarray([1.0, 1.2, 1.4])
        compare(jax.vmap(f)(WL, sc), [f(WL[i], sc[i]) for i in range(3)])
        g = lambda e: fmm.eigensolve_isotropic_media(wl, k, lv, e, ex, F.JONES_DIRECT)
        compare(jax.vmap(g)(EE), [g(e) for e in EE], what=" (vector formulation)")
    elif name == "scan":
        L = [lib.cached_layer(m, "gen", (10, 9), 0.83, (0.31, -0.17), "obl", "c5", "fft")[0] for m in ("magt", "die", "abs")]
        st = tm(lambda *x: jnp.stack(x), *L)
        ts = jnp.asarray([[0.1, 0.2, 0.3], [0.0, 0.5, 0.1], [0.4, 0.4, 0.4]])
        f = lambda t: scattering.stack_s_matrix_scan(st, t)
        compare(jax.vmap(f)(ts), [f(t) for t in ts], leaves)
    ctx.outcome(name)


def run_flow(case, ctx):
    import numpy as np

    from mc import lib
    from mc.lib import jax, jnp, scattering

    tm = jax.tree_util.tree_map
    L = [lib.strip(lib.cached_layer(m, "gen", (10, 9), 0.83, (0.31, -0.17), "obl", "c5", "fft")[0]) for m in ("magt", "die", "abs")]
    t = [jnp.asarray(x) for x in (0.1, 0.2, 0.3)]
    name = case["fn"]
    leaves = lambda s: [np.asarray(x) for x in jax.tree_util.tree_leaves(s)]
    same = lambda a, b, m: [ctx.close(x, y, 1e-8, m) for x, y in zip(leaves(a), leaves(b))]
    want = scattering.stack_s_matrix(L, t)
    ctx.state(name)
    ctx.step(3)
    if name == "cond":
        f = jax.jit(lambda p, a, b: jax.lax.cond(p, lambda: scattering.append_layer(a, L[2], t[2]), lambda: scattering.append_layer(b, L[2], t[2])))
        a, b = scattering.stack_s_matrix(L[:2], t[:2]), scattering.stack_s_matrix(L[1::-1], t[1::-1])
        same(f(True, a, b), want, "conditional, first branch")
        same(f(False, a, b), scattering.append_layer(b, L[2], t[2]), "conditional, second branch")
        r = jax.jit(lambda p: jax.lax.cond(p, lambda: L[0], lambda: L[1]))
        same(r(True), L[0], "conditional layer")
        same(r(False), L[1], "conditional layer")
    elif name == "scan_layers":
        st = tm(lambda *x: jnp.stack(x), *L[1:])
        s0 = scattering.stack_s_matrix(L[:1], t[:1])
        out, hist = jax.lax.scan(lambda s, x: (scattering.append_layer(s, *x),) * 2, s0, (st, jnp.stack(t[1:])))
        same(out, want, "scan over layers")
        same(tm(lambda x: x[0], hist), scattering.stack_s_matrix(L[:2], t[:2]), "history of the scan")
    elif name == "fori":
        s0 = scattering.stack_s_matrix(L[:1], t[:1])
        out = jax.lax.fori_loop(0, 3, lambda i, s: scattering.append_layer(s, L[1], t[1]), s0)
        w = scattering.stack_s_matrix([L[0]] + [L[1]] * 3, [t[0]] + [t[1]] * 3)
        same(out, w, "loop")
    elif name == "checkpoint":
        same(jax.checkpoint(lambda l, x: scattering.stack_s_matrix(l, x))(L, t), want, "rematerialisation")
    elif name == "map":
        st = tm(lambda *x: jnp.stack(x), *L)
        out = jax.lax.map(lambda r: scattering.stack_s_matrix([L[0], r], t[:2]), st)
        for i in range(3):
            same(tm(lambda x: x[i], out), scattering.stack_s_matrix([L[0], L[i]], t[:2]), f"map element {i}")
    ctx.outcome(name)
