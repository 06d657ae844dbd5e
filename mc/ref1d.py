"""Independent float64 reference of the 1-D scattering transform (no kymatio import)."""
import math
from functools import lru_cache
import numpy as np

SIGMA0, ALPHA, R = 0.1, 5., math.sqrt(.5)


def parse_T(T, J, N):
    if T is None:
        return 2 ** J, 'local'
    if T == 'global':
        return 2 ** J, 'global'
    if T == 0:
        return 2 ** J, False
    return T, 'local'


def wavelets(J, Q):
    """[(xi, sigma, j)] of one filterbank, in order of decreasing center frequency."""
    ratio = 2. ** (-1. / Q)
    xi = max(1. / (1. + 2. ** (3. / Q)), .35)
    bw = (1 - ratio) / (1 + ratio) / math.sqrt(2 * math.log(1 / R))
    sigma, smin = xi * bw, SIGMA0 / 2 ** J
    out = []
    if sigma <= smin:
        xi = sigma
    else:
        out.append((xi, sigma))
        # constant-Q region: stop as soon as the bandwidth is within one step of the minimum
        while sigma > smin / ratio:
            xi, sigma = xi * ratio, sigma * ratio
            out.append((xi, sigma))
    elbow = xi
    for q in range(1, Q):
        out.append((elbow * (1 - q / Q), smin))
    return [(x, s, subsampling(x, s)) for x, s in out]


def subsampling(xi, sigma):
    edge = min(abs(xi) + ALPHA * sigma, .5)
    return int(math.floor(-math.log2(edge))) - 1


@lru_cache(maxsize=4096)
def gabor(P, xi, sigma):
    f = np.arange(P) / P
    g = np.zeros(P)
    for p in range(-5, 6):
        g += np.exp(-(f + p - xi) ** 2 / (2 * sigma ** 2))
    return g


@lru_cache(maxsize=4096)
def morlet(P, xi, sigma):
    lo = gabor(P, 0., sigma)
    h = gabor(P, xi, sigma)
    h = h - (h[0] / lo[0]) * lo
    return h / np.abs(np.fft.ifft(h)).sum()


@lru_cache(maxsize=4096)
def lowpass(P, sigma):
    lo = gabor(P, 0., sigma)
    return lo / np.abs(np.fft.ifft(lo)).sum()


def level(h, k):
    """The filter at resolution 2**-k: its impulse response decimated by 2**k (and rescaled)."""
    if k == 0:
        return h
    t = np.fft.ifft(h)
    return np.fft.fft(t[::2 ** k]) * 2 ** k


@lru_cache(maxsize=4096)
def geometry(N, T):
    """(padded length, pad_left)"""
    g = np.abs(np.fft.ifft(lowpass(N, SIGMA0 / T)))
    half = N // 2
    tail = [g[t:half].sum() for t in range(half)]
    n = next((t + 1 for t in range(half) if tail[t] <= 1e-3), half)
    jp = min(math.ceil(math.log2(N + 2 * 3 * n)), math.floor(math.log2(3 * N - 2)))
    P = 2 ** jp
    return P, (P - N) // 2


def bounds(i, k):
    """ceil-halving k times of the border index i equals the ceiling of i / 2**k"""
    return -((-i) // 2 ** k)


def reflect_index(N, P, left):
    idx = []
    for t in range(-left, P - left):
        if N == 1:
            idx.append(0)
            continue
        m = t % (2 * (N - 1))
        idx.append(m if m < N else 2 * (N - 1) - m)
    return np.array(idx)


class Ref1D:
    def __init__(self, J, N, Q=1, T=None, stride=None, max_order=2):
        Q = (Q, 1) if isinstance(Q, int) else (tuple(Q) + (1,))[:2]
        self.J, self.N, self.Q, self.max_order = J, N, Q, max_order
        self.T, self.average = parse_T(T, J, N)
        self.log2_T = int(math.floor(math.log2(self.T)))
        self.log2_stride = self.log2_T if stride is None else int(math.log2(stride))
        self.P, self.left = geometry(N, self.T)
        self.psi1, self.psi2 = wavelets(J, Q[0]), wavelets(J, Q[1])
        self.local = self.average == 'local'
        self._lev = {}

    def filt(self, kind, n, k):
        key = (kind, n, k)
        if key not in self._lev:
            if kind == 0:
                h = lowpass(self.P, SIGMA0 / self.T)
            else:
                xi, sigma, _ = (self.psi1 if kind == 1 else self.psi2)[n]
                h = morlet(self.P, xi, sigma)
            self._lev[key] = level(h, k)
        return self._lev[key]

    def paths(self):
        out = [()]
        out += [(n1,) for n1 in range(len(self.psi1))]
        if self.max_order == 2:
            out += [(n1, n2) for n1 in range(len(self.psi1)) for n2 in range(len(self.psi2))
                    if self.psi2[n2][2] > self.psi1[n1][2]]
        return out

    def pad(self, x):
        return np.asarray(x, dtype=np.float64)[..., reflect_index(self.N, self.P, self.left)]

    def out_bounds(self, k):
        return bounds(self.left, k), bounds(self.left + self.N, k)

    def finish(self, U, k, order):
        """U sampled at 2**k -> coefficient"""
        if self.local:
            S = np.fft.ifft(np.fft.fft(U) * self.filt(0, 0, k)).real[..., ::2 ** (self.log2_stride - k)]
            a, b = self.out_bounds(self.log2_stride)
            return S[..., a:b]
        if self.average == 'global':
            return U.sum(-1, keepdims=True)
        a, b = self.out_bounds(k)
        return U[..., a:b]

    def moduli(self, x):
        """Generator of (path, U, k): moduli before averaging, width first in n1."""
        X = self.pad(x)
        yield (), X, 0
        Xh = np.fft.fft(X)
        for n1, (_, _, j1) in enumerate(self.psi1):
            k1 = min(j1, self.log2_stride) if self.local else j1
            U1 = np.abs(np.fft.ifft(Xh * self.filt(1, n1, 0)))[..., ::2 ** k1]
            yield (n1,), U1, k1
            if self.max_order < 2:
                continue
            U1h = np.fft.fft(U1)
            for n2, (_, _, j2) in enumerate(self.psi2):
                if j2 > j1:
                    k2 = min(j2, self.log2_stride) if self.local else j2
                    U2 = np.abs(np.fft.ifft(U1h * self.filt(2, n2, k1)))[..., ::2 ** (k2 - k1)]
                    yield (n1, n2), U2, k2

    def __call__(self, x):
        return {n: self.finish(U, k, len(n)) for n, U, k in self.moduli(x)}


def signals(N, rng=None, dense=1, impulses=None):
    """A batch of generating signals of length N: impulses, constant, alternating, ramp, chirp, seeded."""
    rows = []
    pos = range(N) if impulses is None or impulses >= N else \
        sorted(set([0, 1, N // 2, N - 2, N - 1] + [int(i * N / impulses) for i in range(impulses)]))
    for t in pos:
        if 0 <= t < N:
            d = np.zeros(N); d[t] = 1.
            rows.append(d)
    t = np.arange(N)
    rows += [np.ones(N), (-1.) ** t, t / N - .3, np.cos(2 * np.pi * (.01 * t + .2 * t * t / N)),
             np.sin(2 * np.pi * .07 * t), np.cos(2 * np.pi * .3 * t) * (t > N // 3)]
    if rng is not None:
        for _ in range(dense):
            rows.append(rng.standard_normal(N))
    return np.array(rows)
