"""Independent reference model (plain numpy, complex128, explicit sums). Imports nothing from fmmax.

Conventions: fields exp(-i w t), c = eps0 = mu0 = 1, w = 2 pi / wavelength, order (m, n) of the expansion has
in-plane wavevector k0 + 2 pi (m b1 + n b2). In a layer, with e = [-Ey; Ex] and h = [Hx; Hy] (Fourier coefficients),
Maxwell's curl equations are
    d/dz e = i A h,   A = w M - scriptK / w      (scriptK built with inv([[eps_zz]]))
    d/dz h = i B e,   B = w E - K / w            (K built with inv([[mu_zz]]))
where [-Dy; Dx] = E [-Ey; Ex] and [Bx; By] = M [Hx; Hy]. The time average power through a plane is Re(e^H h) up to a constant.
"""
import numpy as np


def recip(lat):
    (ux, uy), (vx, vy) = np.asarray(lat[0], float), np.asarray(lat[1], float)
    det = ux * vy - uy * vx
    return np.array([vy, -vx]) / det, np.array([-uy, ux]) / det


def kvec(k0, lat, coeffs):
    b1, b2 = recip(lat)
    c = np.asarray(coeffs)
    k = np.asarray(k0, float)[None, :] + 2 * np.pi * (
        c[:, :1] * b1[None, :] + c[:, 1:] * b2[None, :]
    )
    return k[:, 0], k[:, 1]


def fcoef(x, m, n):
    """Fourier coefficient (m, n) of the sampled array x, as the defining sum."""
    x = np.asarray(x)
    nx, ny = x.shape
    px = np.exp(-2j * np.pi * m * np.arange(nx) / nx)
    py = np.exp(-2j * np.pi * n * np.arange(ny) / ny)
    return px @ x @ py / (nx * ny)


def conv(x, coeffs):
    c = np.asarray(coeffs)
    N = len(c)
    cache = {}
    out = np.zeros((N, N), complex)
    for i in range(N):
        for j in range(N):
            d = (int(c[i, 0] - c[j, 0]), int(c[i, 1] - c[j, 1]))
            if d not in cache:
                cache[d] = fcoef(x, *d)
            out[i, j] = cache[d]
    return out


def synth(coef, coeffs, nx, ny):
    """Samples of the (periodic part of the) field with the given Fourier coefficients."""
    c = np.asarray(coeffs)
    i = np.arange(nx)[:, None] / nx
    j = np.arange(ny)[None, :] / ny
    out = np.zeros((nx, ny), complex)
    for a, (m, n) in zip(coef, c):
        out += a * np.exp(2j * np.pi * (m * i + n * j))
    return out


def block(a, b, c, d):
    return np.block([[a, b], [c, d]])


def E_fft(xx, xy, yx, yy, coeffs):
    # [-Dy; Dx] = E [-Ey; Ex] with Dx = xx Ex + xy Ey, Dy = yx Ex + yy Ey.
    return block(
        conv(yy, coeffs), -conv(yx, coeffs), -conv(xy, coeffs), conv(xx, coeffs)
    )


def M_fft(xx, xy, yx, yy, coeffs):
    return block(
        conv(xx, coeffs), conv(xy, coeffs), conv(yx, coeffs), conv(yy, coeffs)
    )


def E_vec_iso(eps, tx, ty, coeffs):
    """Vector factorisation, isotropic media: Laurent rule along the field (tx, ty), inverse rule across it."""
    eps = np.asarray(eps)
    e = conv(eps, coeffs)
    delta = e - np.linalg.inv(conv(1 / eps, coeffs))
    d2 = np.abs(tx) ** 2 + np.abs(ty) ** 2
    d2 = np.where(np.isclose(d2, 0), 1.0, d2)
    z = np.zeros_like(e)
    P = block(
        conv(np.abs(tx) ** 2 / d2, coeffs),
        conv(np.conj(tx) * ty / d2, coeffs),
        conv(tx * np.conj(ty) / d2, coeffs),
        conv(np.abs(ty) ** 2 / d2, coeffs),
    )
    return block(e, z, z, e) - block(delta, z, z, delta) @ P


def _rot(tensor, T, coeffs):
    """C = F(T) [laurent, laurent; laurent, inverse-rule] F(T^-1) for T^-1 tensor T in real space."""
    nx, ny = tensor.shape[:2]
    R = np.zeros_like(tensor, dtype=complex)
    Ti = np.zeros_like(T)
    for i in range(nx):
        for j in range(ny):
            R[i, j] = np.linalg.inv(T[i, j]) @ tensor[i, j] @ T[i, j]
    det = np.abs(T[..., 0, 0] * T[..., 1, 1] - T[..., 0, 1] * T[..., 1, 0])
    det = np.where(np.isclose(det, 0), 1.0, det)
    Ti[..., 0, 0] = T[..., 1, 1] / det
    Ti[..., 0, 1] = -T[..., 0, 1] / det
    Ti[..., 1, 0] = -T[..., 1, 0] / det
    Ti[..., 1, 1] = T[..., 0, 0] / det
    f = lambda x: conv(x, coeffs)
    C = block(
        f(R[..., 0, 0]), f(R[..., 0, 1]), f(R[..., 1, 0]), np.linalg.inv(f(1 / R[..., 1, 1]))
    )
    FT = block(f(T[..., 0, 0]), f(T[..., 0, 1]), f(T[..., 1, 0]), f(T[..., 1, 1]))
    FTi = block(f(Ti[..., 0, 0]), f(Ti[..., 0, 1]), f(Ti[..., 1, 0]), f(Ti[..., 1, 1]))
    return FT @ C @ FTi


def _mat2(a, b, c, d):
    return np.stack(
        [np.stack([a, b], axis=-1), np.stack([c, d], axis=-1)], axis=-2
    ).astype(complex)


def E_vec_aniso(xx, xy, yx, yy, tx, ty, coeffs):
    T = _mat2(ty, np.conj(tx), -tx, np.conj(ty))
    return _rot(_mat2(yy, -yx, -xy, xx), T, coeffs)


def M_vec_aniso(xx, xy, yx, yy, tx, ty, coeffs):
    T = _mat2(tx, -np.conj(ty), ty, np.conj(tx))
    return _rot(_mat2(xx, xy, yx, yy), T, coeffs)


def AB(E, M, epsz, muz, kx, ky, omega):
    """Maxwell operators for given transverse matrices and convolution matrices of eps_zz and mu_zz."""
    ez = np.linalg.inv(epsz)
    mz = np.linalg.inv(muz)
    KX, KY = np.diag(kx), np.diag(ky)
    sk = block(KY @ ez @ KY, -KY @ ez @ KX, -KX @ ez @ KY, KX @ ez @ KX)
    k = block(KX @ mz @ KX, KX @ mz @ KY, KY @ mz @ KX, KY @ mz @ KY)
    return omega * M - sk / omega, omega * E - k / omega


def modes(A, B):
    """Modes of d/dz (e, h): q, e-vectors, h-vectors (columns) with Im q >= 0."""
    q2, H = np.linalg.eig(B @ A)
    q = np.sqrt(q2.astype(complex))
    q = np.where(np.imag(q) < 0, -q, q)
    return q, A @ H / q[None, :], H


def port_from_layers(layers):
    """Port matrix of a stack [(q, Evec, Hvec, thickness)...] from one dense interface-matching system.

    Ports: in = [e + h at the front plane; e - h at the back plane], out = [e - h front; e + h back].
    """
    L = len(layers)
    n = layers[0][1].shape[0]  # 2 * number of orders
    size = 2 * n * L
    mat = np.zeros((size, size), complex)
    rhs = np.zeros((size, 2 * n), complex)
    front, back = [], []
    for q, Ev, Hv, t in layers:
        X = np.exp(1j * q * t)
        front.append((np.hstack([Ev, -Ev * X]), np.hstack([Hv, Hv * X])))
        back.append((np.hstack([Ev * X, -Ev]), np.hstack([Hv * X, Hv])))
    col = lambda l: slice(2 * n * l, 2 * n * (l + 1))
    r = 0
    mat[r : r + n, col(0)] = front[0][0] + front[0][1]
    rhs[r : r + n, :n] = np.eye(n)
    r += n
    for l in range(L - 1):
        for c in (0, 1):
            mat[r : r + n, col(l)] = back[l][c]
            mat[r : r + n, col(l + 1)] = -front[l + 1][c]
            r += n
    mat[r : r + n, col(L - 1)] = back[-1][0] - back[-1][1]
    rhs[r : r + n, n:] = np.eye(n)
    sol = np.linalg.solve(mat, rhs)
    out_f = (front[0][0] - front[0][1]) @ sol[col(0)]
    out_b = (back[-1][0] + back[-1][1]) @ sol[col(L - 1)]
    return np.vstack([out_f, out_b])


def port_from_ops(layers):
    """Port matrix for a stack of [(A, B, thickness)...]."""
    return port_from_layers([modes(A, B) + (t,) for A, B, t in layers])


def s_blocks(layers):
    """(s11, s12, s21, s22) for layers [(q, Evec, Hvec, thickness)...] by one dense solve.

    Amplitudes: forward at the start of a layer, backward at the end of a layer.
    """
    L = len(layers)
    n = layers[0][1].shape[0]
    if L == 1:
        z = np.zeros((n, n), complex)
        return np.eye(n, dtype=complex), z, z.copy(), np.eye(n, dtype=complex)
    # Unknowns: b_0, (a_l, b_l) for interior layers, a_N. Knowns: a_0, b_N.
    size = 2 * n * (L - 1)
    mat = np.zeros((size, size), complex)
    rhs = np.zeros((size, 2 * n), complex)

    def colA(l):
        return None if l == 0 else slice(n + 2 * n * (l - 1), n + 2 * n * (l - 1) + n)

    def colB(l):
        if l == 0:
            return slice(0, n)
        if l == L - 1:
            return None
        return slice(n + 2 * n * (l - 1) + n, n + 2 * n * l)

    r = 0
    for l in range(L - 1):
        q, Ev, Hv, t = layers[l]
        X = np.exp(1j * q * t)
        q2, E2, H2, t2 = layers[l + 1]
        X2 = np.exp(1j * q2 * t2)
        # end of layer l equals start of layer l + 1
        for Vl, Vn, sg in ((Ev, E2, -1), (Hv, H2, 1)):
            rows = slice(r, r + n)
            if colA(l) is None:
                rhs[rows, :n] -= Vl * X
            else:
                mat[rows, colA(l)] += Vl * X
            mat[rows, colB(l)] += sg * Vl
            mat[rows, colA(l + 1)] -= Vn
            if colB(l + 1) is None:
                rhs[rows, n:] += sg * Vn * X2
            else:
                mat[rows, colB(l + 1)] -= sg * Vn * X2
            r += n
    sol = np.linalg.solve(mat, rhs)
    b0 = sol[colB(0)]
    aN = sol[colA(L - 1)]
    return aN[:, :n], aN[:, n:], b0[:, :n], b0[:, n:]
