"""Independent float64 reference of the 2-D scattering transform (no kymatio import)."""
import math
from functools import lru_cache
import numpy as np
from .ref1d import reflect_index


def padded(M, J):
    return (M // 2 ** J + 2) * 2 ** J


@lru_cache(maxsize=512)
def gabor(M, N, sigma, theta, xi, slant):
    """Periodized oriented Gabor function on the grid (rows u, columns v)."""
    out = np.zeros((M, N), complex)
    c, s = math.cos(theta), math.sin(theta)
    for a in range(-2, 3):
        for b in range(-2, 3):
            u = (np.arange(M) + a * M)[:, None].astype(float)
            v = (np.arange(N) + b * N)[None, :].astype(float)
            along, across = u * c + v * s, -u * s + v * c
            out += np.exp(-(along ** 2 + slant ** 2 * across ** 2) / (2 * sigma ** 2) + 1j * xi * along)
    return out / (2 * math.pi * sigma ** 2 / slant)


@lru_cache(maxsize=2048)
def psi(M, N, j, t, L):
    theta = (math.ceil(L / 2) - 1 - t) * math.pi / L if L % 2 == 0 else (int(L - L / 2 - 1) - t) * math.pi / L
    args = (M, N, .8 * 2 ** j, theta)
    g = gabor(*args, .75 * math.pi / 2 ** j, 4. / L)
    m = gabor(*args, 0., 4. / L)
    return np.fft.fft2(g - m * (g.sum() / m.sum())).real


@lru_cache(maxsize=128)
def phi(M, N, J):
    return np.fft.fft2(gabor(M, N, .8 * 2 ** (J - 1), 0., 0., 1.)).real


def crop(H, k):
    """The low frequencies -M/2**(k+1) <= f < M/2**(k+1) of a filter."""
    M, N = H.shape
    m, n = M >> k, N >> k
    rows = np.rint(np.fft.fftfreq(m) * m).astype(int) % M
    cols = np.rint(np.fft.fftfreq(n) * n).astype(int) % N
    return H[np.ix_(rows, cols)]


class Ref2D:
    def __init__(self, J, shape, L=8, max_order=2, pre_pad=False):
        self.J, (self.M, self.N), self.L, self.max_order, self.pre_pad = J, shape, L, max_order, pre_pad
        self.Mp, self.Np = padded(self.M, J), padded(self.N, J)

    def paths(self):
        J, L = self.J, self.L
        out = [()] + [(a,) for a in range(J * L)]
        if self.max_order == 2:
            out += [(a, b) for a in range(J * L) for b in range(J * L) if b // L > a // L]
        return out

    def pad(self, x):
        if self.pre_pad:
            return np.asarray(x, float)
        r = reflect_index(self.M, self.Mp, (self.Mp - self.M) // 2)
        c = reflect_index(self.N, self.Np, (self.Np - self.N) // 2)
        return np.asarray(x, float)[..., r, :][..., :, c]

    def average(self, U, k):
        S = np.fft.ifft2(np.fft.fft2(U) * crop(phi(self.Mp, self.Np, self.J), k)).real
        s = 2 ** (self.J - k)
        return S[..., ::s, ::s][..., 1:-1, 1:-1]

    def __call__(self, x):
        X = self.pad(x)
        out = {(): self.average(X, 0)}
        Xh = np.fft.fft2(X)
        L = self.L
        for a in range(self.J * L):
            j1 = a // L
            U1 = np.abs(np.fft.ifft2(Xh * psi(self.Mp, self.Np, j1, a % L, L)))[..., ::2 ** j1, ::2 ** j1]
            out[(a,)] = self.average(U1, j1)
            if self.max_order < 2:
                continue
            U1h = np.fft.fft2(U1)
            for b in range((j1 + 1) * L, self.J * L):
                j2 = b // L
                U2 = np.abs(np.fft.ifft2(U1h * crop(psi(self.Mp, self.Np, j2, b % L, L), j1)))
                U2 = U2[..., ::2 ** (j2 - j1), ::2 ** (j2 - j1)]
                out[(a, b)] = self.average(U2, j2)
        return out


def images(M, N, rng, dense=1):
    out = []
    for p in [(0, 0), (M // 2, N // 3), (M - 1, N - 1), (0, N - 1), (M - 2, 1)]:
        d = np.zeros((M, N)); d[p] = 1; out.append(d)
    u, v = np.mgrid[0:M, 0:N].astype(float)
    out += [np.ones((M, N)), u / M - .5 * v / N, np.cos(.9 * u + .4 * v), np.sin(.35 * u - .8 * v), (-1.) ** (u + v)]
    for _ in range(dense):
        out.append(rng.standard_normal((M, N)))
    return np.array(out)
