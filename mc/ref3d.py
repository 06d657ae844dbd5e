"""Independent float64 reference of the 3-D solid harmonic scattering transform (no kymatio import)."""
import math
from functools import lru_cache
import numpy as np


def freqs(n):
    return np.rint(np.fft.fftfreq(n) * n)


def legendre(l, m, x):
    """Associated Legendre function P_l^m, 0 <= m <= l, with Condon-Shortley phase, by recursion."""
    p = np.ones_like(x)
    for i in range(m):
        p = -(2 * i + 1) * np.sqrt(np.maximum(0, 1 - x * x)) * p
    if l == m:
        return p
    q = (2 * m + 1) * x * p
    for n in range(m + 2, l + 1):
        p, q = q, ((2 * n - 1) * x * q - (n + m - 1) * p) / (n - m)
    return q


def harmonic(l, m, costheta, phi):
    a = abs(m)
    y = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - a) / math.factorial(l + a)) * legendre(l, a, costheta) * np.exp(1j * a * phi)
    return y if m >= 0 else (-1) ** a * np.conj(y)


def norm(l):
    if l % 2 == 0:
        d = 1
        for k in range(l + 1, 0, -2):
            d *= k
        return 1. / (2 * math.pi * math.sqrt(l + .5) * d)
    return 1. / (2 ** (.5 * (l + 3)) * math.sqrt(math.pi * (2 * l + 1)) * math.factorial((l + 1) // 2))


@lru_cache(maxsize=256)
def solid(M, N, O, sigma, l):
    """Array (2l+1, M, N, O): Fourier transforms of the wavelets m = -l..l (axis 0 of the volume is z)."""
    z = (freqs(M) * 2 * np.pi / M)[:, None, None] + np.zeros((M, N, O))
    y = (freqs(N) * 2 * np.pi / N)[None, :, None] + np.zeros((M, N, O))
    x = (freqs(O) * 2 * np.pi / O)[None, None, :] + np.zeros((M, N, O))
    r = np.sqrt(x * x + y * y + z * z)
    g = np.exp(-.5 * (r * sigma) ** 2)
    if l == 0:
        return g[None].astype(complex)
    with np.errstate(all='ignore'):
        ct = np.where(r > 0, -z / np.where(r > 0, r, 1), 0.)
    phi = np.arctan2(y, x)
    out = np.array([harmonic(l, m, ct, phi) for m in range(-l, l + 1)])
    return out * ((sigma * r) ** l * g * norm(l) * (2 * np.pi) ** 1.5) * (-1j) ** l


class Ref3D:
    def __init__(self, J, shape, L=3, sigma_0=1, max_order=2, rotation_covariant=True, integral_powers=(.5, 1., 2.)):
        self.__dict__.update(J=J, shape=tuple(shape), L=L, sigma_0=sigma_0, max_order=max_order,
                             rot=rotation_covariant, powers=integral_powers)

    def paths(self):
        out = [(a,) for a in range(self.J + 1)]
        if self.max_order == 2:
            out += [(a, b) for a in range(self.J + 1) for b in range(a + 1, self.J + 1)]
        return out

    def U(self, x, l, j):
        h = solid(*self.shape, self.sigma_0 * 2 ** j, l)
        xh = np.fft.fftn(x, axes=(-3, -2, -1))
        if not self.rot:
            return np.abs(np.fft.ifftn(xh * h[0], axes=(-3, -2, -1)))
        return np.sqrt(sum(np.abs(np.fft.ifftn(xh * f, axes=(-3, -2, -1))) ** 2 for f in h))

    def integral(self, U):
        return np.stack([(U ** p).sum((-3, -2, -1)) for p in self.powers], -1)

    def __call__(self, x):
        """{(path, l): (batch, powers)}"""
        out = {}
        for l in range(self.L + 1):
            for a in range(self.J + 1):
                u = self.U(x, l, a)
                out[(a,), l] = self.integral(u)
                if self.max_order == 2:
                    for b in range(a + 1, self.J + 1):
                        out[(a, b), l] = self.integral(self.U(u, l, b))
        return out


def volumes(shape, rng, dense=1):
    M, N, O = shape
    out = []
    for p in [(0, 0, 0), (M // 2, N // 2, O // 2), (M - 1, 0, 1 % O)]:
        d = np.zeros(shape); d[p] = 1; out.append(d)
    g = np.exp(-.5 * ((np.arange(M) - M / 2.3)[:, None, None] ** 2 / 2 + (np.arange(N) - N / 2)[None, :, None] ** 2 + (np.arange(O) - O / 3)[None, None, :] ** 2 / 3))
    out += [g, np.ones(shape), np.add.outer(np.add.outer(np.arange(M) / M, -np.arange(N) / N), np.sin(np.arange(O)))]
    for _ in range(dense):
        out.append(rng.standard_normal(shape))
    return np.array(out)
