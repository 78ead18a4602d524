"""Independent reference Fourier Modal Method solver (numpy only).

It shares no code and no algorithm with nannos: it works on the electric field
in the (Ex, Ey) basis, obtains Fourier coefficients from explicit DFT sums,
couples the layers with one global linear system (no S-matrix recursion) and
computes powers from the fields by the definition of the Poynting vector.

Units: eps0 = mu0 = 1, time dependence exp(-i w t), w = 2 pi / wavelength.
"""
import numpy as np


def dft_coeffs(u, d1, d2):
    """Fourier coefficients of the sampled array u at integer index arrays d1, d2."""
    Nx, Ny = u.shape
    k1, i1 = np.unique(d1, return_inverse=True)
    k2, i2 = np.unique(d2, return_inverse=True)
    A = np.exp(-2j * np.pi * np.outer(k1, np.arange(Nx)) / Nx) / Nx
    B = np.exp(-2j * np.pi * np.outer(np.arange(Ny), k2) / Ny) / Ny
    F = A @ u @ B
    return F[i1.reshape(np.shape(d1)), i2.reshape(np.shape(d2))]


def toeplitz(u, harm):
    d1 = harm[0][:, None] - harm[0][None, :]
    d2 = harm[1][:, None] - harm[1][None, :]
    return dft_coeffs(np.asarray(u, complex), d1, d2)


def normal_projection(t, harm):
    """t: (complex) tangential field; the orthogonal direction gets the inverse rule."""
    tx, ty = [np.asarray(c, complex) for c in t]
    n2 = abs(tx) ** 2 + abs(ty) ** 2
    n = (-np.conj(ty), np.conj(tx))
    return [[toeplitz(n[i] * np.conj(n[j]) / n2, harm) for j in range(2)] for i in range(2)]


def effective_tensor(eps, harm, rule="laurent", t=None):
    """(Exx, Exy, Eyx, Eyy, Ezz_inv) matrices mapping E harmonics to D harmonics."""
    eps = np.asarray(eps, complex)
    nh = harm.shape[1]
    I = np.eye(nh)
    Z = np.zeros((nh, nh), complex)
    if eps.ndim == 0:
        return eps * I, Z, Z, eps * I, I / eps
    if eps.ndim == 4:
        T = np.block([[toeplitz(eps[i, j], harm) for j in range(2)] for i in range(2)])
        Ezz = toeplitz(eps[2, 2], harm)
        if rule != "laurent":
            nu = np.moveaxis(np.linalg.inv(np.moveaxis(eps[:2, :2], (0, 1), (2, 3))), (2, 3), (0, 1))
            N = np.linalg.inv(np.block([[toeplitz(nu[i, j], harm) for j in range(2)] for i in range(2)]))
            if rule == "vector":
                P = np.block(normal_projection(t, harm))
            else:
                P = np.kron(np.diag([1.0, 0.0] if rule == "li_x" else [0.0, 1.0]), I)
            T = T - (T - N) @ P
        return T[:nh, :nh], T[:nh, nh:], T[nh:, :nh], T[nh:, nh:], np.linalg.inv(Ezz)
    E = toeplitz(eps, harm)
    Einv = np.linalg.inv(E)
    if rule == "laurent":
        return E, Z, Z, E, Einv
    N = np.linalg.inv(toeplitz(1 / eps, harm))
    if rule == "li_x":  # discontinuities normal to x
        return N, Z, Z, E, Einv
    if rule == "li_y":
        return E, Z, Z, N, Einv
    if rule == "vector":
        P = normal_projection(t, harm)
        D = E - N
        return (
            E - D @ P[0][0],
            -D @ P[0][1],
            -D @ P[1][0],
            E - D @ P[1][1],
            Einv,
        )
    raise KeyError(rule)


def csqrt(x):
    q = np.sqrt(np.asarray(x, complex))
    return np.where((q.imag < 0) | ((q.imag == 0) & (q.real < 0)), -q, q)


class RefLayer:
    def __init__(self, eps, h, kx, ky, w, harm, rule="laurent", t=None):
        self.eps = np.asarray(eps, complex)
        self.h = float(h)
        nh = len(kx)
        Exx, Exy, Eyx, Eyy, Ei = effective_tensor(eps, harm, rule, t)
        self.E4 = (Exx, Exy, Eyx, Eyy)
        self.Ei = Ei
        X, Y = np.diag(kx), np.diag(ky)
        I = np.eye(nh)
        P = np.block(
            [
                [X @ Ei @ Y / w, w * I - X @ Ei @ X / w],
                [Y @ Ei @ Y / w - w * I, -Y @ Ei @ X / w],
            ]
        )
        Q = np.block(
            [
                [-X @ Y / w - w * Eyx, X @ X / w - w * Eyy],
                [-Y @ Y / w + w * Exx, X @ Y / w + w * Exy],
            ]
        )
        self.uniform = self.eps.ndim == 0
        if self.uniform:
            q = csqrt(self.eps * w**2 - kx**2 - ky**2)
            self.q = np.concatenate([q, q])
            self.W = np.eye(2 * nh, dtype=complex)
        else:
            l, self.W = np.linalg.eig(P @ Q)
            q = np.sqrt(l)
            self.q = np.where(q.imag < 0, -q, q)
        self.V = Q @ self.W / self.q
        self.X = np.exp(1j * self.q * self.h)

    @property
    def cond(self):
        return 1.0 if self.uniform else np.linalg.cond(self.W)


class RefSim:
    """layers: list of (eps, thickness, rule, t)."""

    def __init__(self, layers, wavelength, angles_deg, reciprocal, harm):
        harm = np.asarray(harm, int)
        self.harm = harm
        nh = self.nh = harm.shape[1]
        th, ph, ps = [np.deg2rad(a) for a in angles_deg]
        w = self.w = 2 * np.pi / wavelength
        n0 = csqrt(complex(np.asarray(layers[0][0])))
        self.n0 = n0
        k = w * n0 * np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph)])
        r = np.asarray(reciprocal, float)
        kx = self.kx = k[0] + r[0, 0] * harm[0] + r[0, 1] * harm[1]
        ky = self.ky = k[1] + r[1, 0] * harm[0] + r[1, 1] * harm[1]
        self.layers = [RefLayer(e, h, kx, ky, w, harm, rule, t) for e, h, rule, t in layers]
        # incident wave: unit p/s combination in the superstrate, |H| = 1
        p = np.array([np.cos(th) * np.cos(ph), np.cos(th) * np.sin(ph), -np.sin(th)])
        s = np.array([-np.sin(ph), np.cos(ph), 0.0])
        self.pol = np.cos(ps) * p + np.sin(ps) * s
        self.i0 = int(np.where((harm[0] == 0) & (harm[1] == 0))[0][0])
        a0 = np.zeros(2 * nh, complex)
        a0[self.i0], a0[nh + self.i0] = self.pol[0] / n0, self.pol[1] / n0
        self.a0 = a0
        self.inc = np.real(np.cos(th) / n0)
        self._solve()

    def _solve(self):
        L = self.layers
        n = 2 * self.nh
        nl = len(L)
        # unknown blocks: b0, (a1,b1), ..., (a_{nl-2}, b_{nl-2}), a_last
        ncol = n * (2 * nl - 2)
        M = np.zeros((ncol, ncol), complex)
        rhs = np.zeros(ncol, complex)

        def col(l, which):
            if l == 0:
                return 0 if which == "b" else None
            if l == nl - 1:
                return n * (2 * nl - 3) if which == "a" else None
            return n * (2 * l - 1) + (0 if which == "a" else n)

        for i in range(nl - 1):
            A, B = L[i], L[i + 1]
            r0 = 2 * n * i
            sl0, sl1 = slice(r0, r0 + n), slice(r0 + n, r0 + 2 * n)
            ca, cb = col(i, "a"), col(i, "b")
            if ca is None:
                rhs[sl0] -= A.W @ (A.X * self.a0)
                rhs[sl1] -= A.V @ (A.X * self.a0)
            else:
                M[sl0, ca : ca + n] += A.W * A.X
                M[sl1, ca : ca + n] += A.V * A.X
            M[sl0, cb : cb + n] += A.W
            M[sl1, cb : cb + n] += -A.V
            ca, cb = col(i + 1, "a"), col(i + 1, "b")
            M[sl0, ca : ca + n] -= B.W
            M[sl1, ca : ca + n] -= B.V
            if cb is not None:
                M[sl0, cb : cb + n] -= B.W * B.X
                M[sl1, cb : cb + n] += B.V * B.X
        x = np.linalg.solve(M, rhs)
        self.amps = []
        for l in range(nl):
            ca, cb = col(l, "a"), col(l, "b")
            a = self.a0 if ca is None else x[ca : ca + n]
            b = np.zeros(n, complex) if cb is None else x[cb : cb + n]
            self.amps.append((a, b))

    # fields -------------------------------------------------------------
    def _from_tangential(self, L, et, ht):
        nh = self.nh
        ex, ey, hx, hy = et[:nh], et[nh:], ht[:nh], ht[nh:]
        ez = L.Ei @ (self.ky * hx - self.kx * hy) / self.w
        hz = (self.kx * ey - self.ky * ex) / self.w
        return np.array([[ex, ey, ez], [hx, hy, hz]])

    def fields(self, l, z):
        """array (2, 3, nh): E and H harmonics at depth z in layer l."""
        L = self.layers[l]
        a, b = self.amps[l]
        f, g = a * np.exp(1j * L.q * z), b * np.exp(1j * L.q * (L.h - z))
        return self._from_tangential(L, L.W @ (f + g), L.V @ (f - g))

    def displacement(self, l, z):
        L = self.layers[l]
        E = self.fields(l, z)[0]
        Exx, Exy, Eyx, Eyy = L.E4
        dz = (self.ky * self.fields(l, z)[1][0] - self.kx * self.fields(l, z)[1][1]) / self.w
        return np.array([Exx @ E[0] + Exy @ E[1], Eyx @ E[0] + Eyy @ E[1], dz])

    def flux_orders(self, F):
        E, H = F
        return np.real(E[0] * np.conj(H[1]) - E[1] * np.conj(H[0]))

    def efficiencies(self):
        L0 = self.layers[0]
        b0 = self.amps[0][1]
        Fr = self._from_tangential(L0, L0.W @ b0, -(L0.V @ b0))
        R = -self.flux_orders(Fr) / self.inc
        LN = self.layers[-1]
        aN = self.amps[-1][0]
        Ft = self._from_tangential(LN, LN.W @ aN, LN.V @ aN)
        T = self.flux_orders(Ft) / self.inc
        return R, T

    def reflected_field(self):
        """E harmonics of the reflected wave at z = 0 of the first layer."""
        L0 = self.layers[0]
        b = self.amps[0][1] * L0.X
        return self._from_tangential(L0, L0.W @ b, -(L0.V @ b))[0]

    @property
    def cond(self):
        return max(l.cond for l in self.layers)

    @property
    def cond_v(self):
        return max(1.0 if l.uniform else np.linalg.cond(l.V) for l in self.layers)

    @property
    def min_q(self):
        return min(np.min(np.abs(l.q)) for l in self.layers) / self.w
