"""C11: results do not depend on the coordinate frame, unit of length or choice of cell."""
import itertools

from mc.engine import deviations

TECHNIQUE = "exhaustive enumeration of a finite group of frame changes (rotations, mirrors, scalings, translations, cell re-choices, wavevector folding, order permutations) applied to every configuration within a deviation bound; operators, stack responses, fluxes and fields of both frames compared through the known representation of each change"
BOUNDS = {
    "quick": "35 frame changes x (13 configurations for the Laurent rule, 3 vector formulations); stacks and fields for every change in a magnetic medium and in 3 media where the orders are unchanged",
    "thorough": "35 frame changes x all configurations with <= 2 deviations in medium, pattern, lattice, wavevector, expansion and formulation; all compositions of two frame changes",
}
ASSUMPTIONS = [
    "vector formulations: translations by multiples of the coarse optimisation grid; reversal of one axis only for rectangular cells; cell re-choices and mirrors only where the tangent field is equivariant (rotations, scalings, exchange of axes, permutations)",
]
MAX_CHUNK = 12

ROT = ["r30", "r90", "r180", "r217"]
MIR = ["m0", "m35", "m90"]
SCA = ["s1e-9", "s0.037", "s12", "s1000"]
TRA = ["t1,0", "t0,1", "t3,2", "t-1,4"]
TRV = ["t2,0", "t0,4", "t6,2"]
CELL = ["swap", "negu", "negv", "neguv", "shear_uv", "shear_vu", "shear-uv"]
KSH = ["k1,0", "k0,1", "k-1,2", "k2,-1"]
PERM = ["prev", "pcyc", "pneg"]
ALL = ROT + MIR + SCA + TRA + CELL + KSH + PERM
VEC = ROT + ["s0.037", "s1000"] + TRV + ["swap", "prev", "pcyc"]
DIMS = dict(
    med=["abs", "die", "met", "anis", "gyro", "anyt", "magt"],
    pat=["gen", "disk", "uni"],
    lat=["obl", "sq", "left"],
    k=["gen", "zero", "bz"],
    exp=["c5", "asym"],
)


def cases(tier):
    if tier == "quick":
        confs = [c for c in deviations(DIMS, 1)]
        confs += [dict(DIMS_DEF, med=m, pat="uni") for m in ("anyt", "magt", "die")]
        for c in confs:
            for T in ALL:
                yield dict(part="op", T=T, form="fft", **c)
        for form in ("jones_direct", "pol"):
            for T in VEC:
                yield dict(part="op", T=T, form=form, **dict(DIMS_DEF))
        for T in VEC:
            yield dict(part="op", T=T, form="pol", **dict(DIMS_DEF, med="anyt"))
    else:
        for c in deviations(DIMS, 2):
            for T in ALL:
                yield dict(part="op", T=T, form="fft", **c)
        for form in ("jones_direct", "jones", "normal", "pol", "jones_direct_fourier", "jones_fourier", "normal_fourier", "pol_fourier"):
            for med in ("abs", "die", "anyt", "magt"):
                for lat in ("obl", "sq"):
                    for T in VEC:
                        yield dict(part="op", T=T, form=form, **dict(DIMS_DEF, med=med, lat=lat))
        for T in ALL:
            for T2 in ALL:
                yield dict(part="op", T=T + "|" + T2, form="fft", **dict(DIMS_DEF, med="magt"))
                yield dict(part="op", T=T + "|" + T2, form="fft", **DIMS_DEF)
    for T in ALL:
        same = T in ROT + MIR + SCA + TRA  # the orders are unchanged
        for med in (("abs", "magt", "anyt") if same else ("magt",)) if tier == "quick" else ("abs", "magt", "anyt", "met", "pml"):
            yield dict(part="stack", T=T, form="fft", **dict(DIMS_DEF, med=med))
    for form in FIELD_FORMS:
        for lat, exp in (("rect", "b15"), ("obl", "d15"), ("rot", "b15")) if tier == "quick" else itertools.product(("sq", "rect", "obl", "hex", "left", "rot"), ("b9", "b15", "d15", "asym")):
            yield dict(part="field", form=form, lat=lat, exp=exp)
    for T in ("r30", "s12", "t2,0", "swap"):
        yield dict(part="stack", T=T, form="jones_direct", **DIMS_DEF)


FIELD_T = ["r30", "r90", "s0.037", "s1000", "swap", "negu", "negv", "neguv", "prev", "t10,0", "t0,12"]
FIELD_FORMS = ["jones_direct", "jones", "normal", "pol", "jones_direct_fourier", "jones_fourier", "normal_fourier", "pol_fourier"]
DIMS_DEF = {n: v[0] for n, v in DIMS.items()}


def group(c):
    if c["part"] == "field":
        return c["part"], c["form"]
    # Cases that share compiled functions: same kind of medium, formulation and expansion change.
    T = c["T"] if c["T"][0] in "nkp" or c["T"].startswith("s") and c["T"][1] in "wh" else "id"
    return (c["part"], T, c["form"], c["med"] in ("anyt", "anis", "gyro"), c["med"] in ("magt", "pml"), c["pat"] == "uni", c["exp"])


def weight(c):
    if c["part"] == "field":
        return 10.0
    return (1.0 if c["part"] == "op" else 3.0) * (4 if c["form"] != "fft" else 1)


class Conf:
    """A configuration: lattice (u, v), k, wavelength, medium arrays, orders, and the map of h/e vectors from the original."""

    def __init__(self, med, wl, k, u, v, coef):
        import numpy as np

        self.med, self.wl, self.k, self.u, self.v, self.coef = med, wl, np.asarray(k, float), np.asarray(u, float), np.asarray(v, float), [list(x) for x in coef]
        n = len(coef)
        self.V = np.eye(2 * n, dtype=complex)  # new e (or h) coefficients = V @ old ones
        self.length = 1.0  # new lengths / old lengths
        self.M = np.eye(2)  # r' = M r * length + shift
        self.shift = np.zeros(2)

    def apply(self, T):
        import numpy as np

        n = len(self.coef)
        arrs = list(self.med["eps"]) + list(self.med["mu"])
        uni = arrs[0].shape == (1, 1)
        if T[0] in "rm" and T[1:].isdigit():
            th = np.deg2rad(float(T[1:]))
            c, s = np.cos(th), np.sin(th)
            M = np.array([[c, -s], [s, c]]) if T[0] == "r" else np.array([[np.cos(2 * th), np.sin(2 * th)], [np.sin(2 * th), -np.cos(2 * th)]])
            self.u, self.v, self.k = M @ self.u, M @ self.v, M @ self.k
            new = []
            for t in (arrs[:5], arrs[5:]):
                X = np.array([[t[0], t[1]], [t[2], t[3]]])
                X = np.einsum("ab,bc...,dc->ad...", M, X, M)
                new += [X[0, 0], X[0, 1], X[1, 0], X[1, 1], t[4]]
            arrs = new
            self.V = np.kron(M if T[0] == "r" else -M, np.eye(n)) @ self.V
            self.M = M @ self.M
            self.shift = M @ self.shift
        elif T[0] == "s" and T[1].isdigit():
            s = float(T[1:])
            self.u, self.v, self.k, self.wl = s * self.u, s * self.v, self.k / s, s * self.wl
            self.length *= s
            self.shift = s * self.shift
        elif T[0] == "t":
            a, b = (int(x) for x in T[1:].split(","))
            if not uni:
                nx, ny = arrs[0].shape
                arrs = [np.roll(x, (a, b), axis=(0, 1)) for x in arrs]
                G = np.array(self.coef)
                # In a frame without gauge phase for k: fields keep their coefficient times exp(-i (k + G) d).
                d = a / nx * self.u + b / ny * self.v
                ph = np.exp(-2j * np.pi * (G[:, 0] * a / nx + G[:, 1] * b / ny) - 1j * (self.k @ d))
                self.V = np.kron(np.eye(2), np.diag(ph)) @ self.V
                self.shift = self.shift + d
        elif T == "swap":
            arrs = [x.T for x in arrs]
            self.u, self.v = self.v, self.u
            self.coef = [[b, a] for a, b in self.coef]
        elif T.startswith("neg"):
            for ax, ch in enumerate("uv"):
                if ch in T[3:]:
                    arrs = [x if uni else np.roll(np.flip(x, ax), 1, axis=ax) for x in arrs]
                    if ax == 0:
                        self.u = -self.u
                        self.coef = [[-a, b] for a, b in self.coef]
                    else:
                        self.v = -self.v
                        self.coef = [[a, -b] for a, b in self.coef]
        elif T.startswith("shear"):
            sgn = -1 if "-" in T else 1
            if not uni:
                m = arrs[0].shape[0]
                i, j = np.meshgrid(np.arange(m), np.arange(m), indexing="ij")
            if T.endswith("uv"):  # u' = u + sgn v
                self.u = self.u + sgn * self.v
                self.coef = [[a + sgn * b, b] for a, b in self.coef]
                if not uni:
                    arrs = [x[i, (j + sgn * i) % m] for x in arrs]
            else:  # v' = v + u
                self.v = self.v + self.u
                self.coef = [[a, a + b] for a, b in self.coef]
                if not uni:
                    arrs = [x[(i + j) % m, j] for x in arrs]
        elif T[0] == "k":
            a, b = (int(x) for x in T[1:].split(","))
            area = self.u[0] * self.v[1] - self.u[1] * self.v[0]
            bu = 2 * np.pi * np.array([self.v[1], -self.v[0]]) / area
            bv = 2 * np.pi * np.array([-self.u[1], self.u[0]]) / area
            self.k = self.k + a * bu + b * bv
            self.coef = [[x - a, y - b] for x, y in self.coef]
        elif T[0] == "p":
            idx = {"prev": list(range(n))[::-1], "pcyc": [(i + 2) % n for i in range(n)], "pneg": [0] + list(range(n - 1, 0, -1))}[T]
            self.coef = [self.coef[i] for i in idx]
            self.V = np.kron(np.eye(2), np.eye(n)[idx]) @ self.V
        else:
            raise KeyError(T)
        self.med = dict(self.med, eps=tuple(arrs[:5]), mu=tuple(arrs[5:]))
        # Rotated anisotropic tensors of isotropic media stay isotropic.
        return self


GRID = (12, 12)


def build(case):
    from mc import lib

    med = lib.medium(case["med"], case["pat"], GRID)
    u, v = lib.LAT[case["lat"]]
    return Conf(med, 0.83, lib.KS[case["k"]], u, v, lib.EXP[case["exp"]])


def solve_conf(c, form, med=None, kind=None):
    from mc import lib
    from mc.lib import F

    return lib.solve(med or c.med, c.wl, c.k, (tuple(c.u), tuple(c.v)), c.coef, F(form), kind=kind)


_MEMO = {}


def solved(case):
    key = (case["med"], case["pat"], case["lat"], case["k"], case["exp"], case["form"])
    if key not in _MEMO:
        if len(_MEMO) > 40:
            _MEMO.clear()
        _MEMO[key] = solve_conf(build(case), case["form"])
    return _MEMO[key]


def run(case, ctx):
    globals()["run_" + case["part"]](case, ctx)


def operators(r):
    """(squared propagation operator, omega script k) on magnetic coefficients."""
    import numpy as np

    q, W = np.asarray(r.eigenvalues), np.asarray(r.eigenvectors)
    Wi = np.linalg.inv(W)
    return W @ np.diag(q**2) @ Wi, np.asarray(r.omega_script_k_matrix), W @ np.diag(q) @ Wi


def run_op(case, ctx):
    import numpy as np

    from mc import lib

    old = solved(case)
    c = build(case)
    for T in case["T"].split("|"):
        c.apply(T)
    new = solve_conf(c, case["form"])
    ctx.step(2)
    ctx.state(case["T"], [case[n] for n in DIMS], case["form"])
    V, Vi = c.V, np.linalg.inv(c.V)
    s2 = c.length**2
    (o2, oa, o1), (n2, na, n1) = operators(old), operators(new)
    msg = f"after {case['T']}"
    sc = lambda x: float(np.abs(x).max())
    ctx.close(n2 * s2, V @ o2 @ Vi, 1e-7, f"operator of the modes {msg}", scale=sc(o2))
    ctx.close(na * s2, V @ oa @ Vi, 1e-7, f"relation of electric and magnetic fields {msg}", scale=sc(oa))
    ctx.close(n1 * c.length, V @ o1 @ Vi, 1e-6, f"propagation operator {msg}", scale=sc(o1))
    ctx.true(lib.match(np.asarray(new.eigenvalues) * c.length / 10, np.asarray(old.eigenvalues) / 10) < 1e-6, f"propagation constants {msg}")
    ctx.outcome(case["T"], case["med"], np.round(sc(o2), 4))


def run_field(case, ctx):
    """Tangent fields of a generic pattern follow every change of frame; the cells, grids and expansions have unequal extents along the two lattice vectors."""
    import numpy as np

    from mc import lib
    from mc.lib import basis, jax, jnp, vector

    exp = [[b, a] for a, b in lib.EXP["b15"]] if case["exp"] == "d15" else lib.EXP[case["exp"]]
    shape = (20, 24)
    fn = jax.jit(lambda a, e, l: vector.VECTOR_FIELD_SCHEMES[case["form"]](a, e, l))

    def field(c):
        arr = c.med["eps"][0].real
        tx, ty = fn(jnp.asarray(arr), lib.expansion(c.coef), basis.LatticeVectors(u=jnp.asarray(c.u), v=jnp.asarray(c.v)))
        return np.stack([np.asarray(tx), np.asarray(ty)])

    def conf():
        u, v = lib.LAT[case["lat"]]
        d = 1 + 2.0 * lib.pattern("gen", shape) + 0j
        return Conf(dict(eps=(d, 0 * d, 0 * d, d, d), mu=(np.ones((1, 1)),) * 5), 0.83, (0.0, 0.0), u, v, exp)

    proj = lambda t: np.einsum("axy,bxy->abxy", t, t.conj())
    old = field(conf())
    ctx.true(bool(np.isfinite(old).all()) and float(np.abs(old).max()) > 0.5, "tangent field is finite and not zero")
    u, v = (np.asarray(x) for x in lib.LAT[case["lat"]])
    for T in FIELD_T:
        if T in ("negu", "negv") and abs(u @ v) > 1e-9:
            continue  # forward differences along oblique axes are not symmetric under the reversal of one of them
        c = conf()
        if T[0] == "r":
            M = np.round(_rotation(T), 15)
            c.u, c.v = M @ c.u, M @ c.v
            want = np.einsum("ab,bxy->axy", M, old)
        else:
            c.apply(T)
            f = {"swap": lambda x: x.T, "negu": lambda x: np.roll(np.flip(x, 0), 1, 0), "negv": lambda x: np.roll(np.flip(x, 1), 1, 1), "neguv": lambda x: np.roll(np.flip(x, (0, 1)), 1, (0, 1)), "t10,0": lambda x: np.roll(x, 10, 0), "t0,12": lambda x: np.roll(x, 12, 1)}.get(T, lambda x: x)
            want = np.stack([f(x) for x in old])
        new = field(c)
        ctx.step()
        ctx.state(case, T)
        if ctx.true(new.shape == want.shape, f"{case['form']} field after {T}: shape"):
            ctx.close(proj(new), proj(want), 1e-6, f"{case['form']} field after {T}", scale=1.0)
    ctx.outcome(case["form"], case["lat"], np.round(old.ravel()[:2], 6).tobytes())


def _rotation(T):
    import numpy as np

    th = np.deg2rad(float(T[1:]))
    return np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])


def run_stack(case, ctx):
    """Response, per-order flux and fields of a stack of three layers in both frames."""
    import numpy as np

    from mc import lib
    from mc.lib import F, fields, jnp

    c0, c1 = build(case), build(case)
    for T in case["T"].split("|"):
        c1.apply(T)
    ends = [lib.medium("abs", "uni", GRID), lib.medium("anyt", "uni", GRID)]
    pts = np.array([[0.1, 0.2], [-0.3, 0.55], [0.71, -0.2], [0.0, 0.0]])
    out = []
    for c in (c0, c1):
        L = [solve_conf(c, "fft", _turn(c, ends[0])), solve_conf(c, case["form"]), solve_conf(c, "fft", _turn(c, ends[1]))]
        ts = [x * c.length for x in (0.2, 0.3, 0.1)]
        P = lib.port([x for x in L], ts)
        n2 = P.shape[0] // 2
        # Forward field with prescribed magnetic coefficients in the middle layer.
        H = np.asarray(L[1].eigenvectors)
        h0 = np.cos(1.3 * np.arange(n2))[:, None] + 0.3j * np.sin(np.arange(n2))[:, None]
        a = np.linalg.solve(H, c.V @ h0)
        b = np.linalg.solve(H, c.V @ (0.4 * h0[::-1]))
        e, h = _fwa(L[1], a, b)
        (ex, ey, ez), (hx, hy, hz) = e, h
        R = c.M
        p = (pts @ R.T) * c.length + c.shift
        E, Hf, _ = fields.fields_on_coordinates(tuple(e), tuple(h), L[1], jnp.asarray(p[:, 0]), jnp.asarray(p[:, 1]))
        fl = [np.asarray(x) for x in fields.amplitude_poynting_flux(jnp.asarray(a), jnp.asarray(b), L[1])]
        out.append((P, np.stack([np.asarray(x)[:, 0] for x in E]), np.stack([np.asarray(x)[:, 0] for x in Hf]), fl, L))
        ctx.step(5)
    ctx.state(case["T"], case["med"], case["form"], "stack")
    msg = f"after {case['T']}"
    V = np.kron(np.eye(2), c1.V)
    ctx.close(out[1][0], V @ out[0][0] @ np.linalg.inv(V), 1e-6, f"stack response {msg}", scale=max(1.0, float(np.abs(out[0][0]).max())))
    det = np.linalg.det(c1.M)
    Em, Hm = out[0][1], out[0][2]
    se, sh = float(np.abs(Em).max()), float(np.abs(Hm).max())
    ctx.close(out[1][1][:2], c1.M @ Em[:2], 1e-6, f"transverse electric field {msg}", scale=se)
    ctx.close(out[1][1][2], Em[2], 1e-6, f"normal electric field {msg}", scale=se)
    ctx.close(out[1][2][:2], det * c1.M @ Hm[:2], 1e-6, f"transverse magnetic field {msg}", scale=sh)
    ctx.close(out[1][2][2], det * Hm[2], 1e-6, f"normal magnetic field {msg}", scale=sh)
    for i in (0, 1):
        ctx.close(out[1][3][i].sum(), out[0][3][i].sum(), 1e-6, f"power {i} {msg}", scale=max(1.0, float(np.abs(out[0][3][i]).sum())))
    ctx.outcome(case["T"], case["med"], np.round(float(np.abs(out[0][0]).max()), 5))


def _turn(c, med):
    """The medium `med`, given in the original frame, in the frame of `c`."""
    import numpy as np

    M = c.M
    new = []
    for t in (med["eps"], med["mu"]):
        X = np.einsum("ab,bc...,dc->ad...", M, np.array([[t[0], t[1]], [t[2], t[3]]]), M)
        new.append((X[0, 0], X[0, 1], X[1, 0], X[1, 1], t[4]))
    return dict(med, eps=new[0], mu=new[1])


_J = {}


def _fwa(r, a, b):
    from mc.lib import fields, jax, jnp

    if "f" not in _J:
        _J["f"] = jax.jit(fields.fields_from_wave_amplitudes)
    return _J["f"](jnp.asarray(a), jnp.asarray(b), r)
