"""Independent float64 reference of joint time-frequency scattering (no kymatio import)."""
import math
import numpy as np
from .ref1d import Ref1D, parse_T, wavelets, morlet, lowpass, level, SIGMA0


class RefJTFS:
    def __init__(self, J, J_fr, Q, N, T=None, stride=None, Q_fr=1, F=None, stride_fr=None):
        self.t = Ref1D(J, N, Q, T, stride, 2)
        Q1 = self.t.Q[0]
        self.J_fr = J_fr
        self.F, self.average_fr = parse_T(F, J_fr, (J + 1) * Q1)
        self.log2_F = int(math.floor(math.log2(self.F)))
        self.ls_fr = self.log2_F if stride_fr is None else int(math.log2(stride_fr))
        K = max(J_fr, self.log2_F)
        self.P_fr = (((J + 1) * Q1 + int(8 * min(self.F, 2 ** J_fr))) >> K) << K if float(self.F).is_integer() else \
            int(((J + 1) * Q1 + 8 * min(self.F, 2 ** J_fr)) // 2 ** K) * 2 ** K
        w = wavelets(J_fr, Q_fr)
        # n_fr = 0: low-pass of width 2**J_fr; then positive spins; then negative spins
        self.psi_fr = [(0., SIGMA0 / 2 ** J_fr, J_fr)] + w + [(-x, s, j) for x, s, j in w]
        self.local_fr = self.average_fr == 'local'

    def filt_fr(self, n):
        xi, sigma, j = self.psi_fr[n]
        return lowpass(self.P_fr, sigma) if n == 0 else morlet(self.P_fr, xi, sigma)

    def frequency(self, X, spins):
        """X (B, n1, t) -> {n_fr: (|Y|, k_fr)} over all spins or nonnegative ones"""
        n1_max = X.shape[1]
        Xp = np.zeros((X.shape[0], self.P_fr, X.shape[2]), complex)
        Xp[:, :n1_max] = X
        Xh = np.fft.fft(Xp, axis=1)
        for n, (xi, _, j) in enumerate(self.psi_fr):
            if xi < 0 and not spins:
                continue
            k = min(j, self.ls_fr) if self.local_fr else j
            yield n, np.abs(np.fft.ifft(Xh * self.filt_fr(n)[None, :, None], axis=1))[:, ::2 ** k], k, n1_max

    def average_frequency(self, Y, n, k, n1_max):
        xi, _, j = self.psi_fr[n]
        if self.average_fr == 'global':
            return Y.sum(1, keepdims=True), n1_max
        if self.average_fr is False:
            return Y, 2 ** j
        if n == 0 and self.log2_F <= self.J_fr:
            return Y, 2 ** k
        h = level(lowpass(self.P_fr, SIGMA0 / self.F), k)
        Z = np.fft.ifft(np.fft.fft(Y, axis=1) * h[None, :, None], axis=1).real
        return Z[:, ::2 ** (self.ls_fr - k)], 2 ** self.ls_fr

    def __call__(self, x):
        """{joint key: (rows, n1_max, n1_stride)}; rows are not unpadded in frequency. () maps to S0."""
        t = self.t
        glob = t.average == 'global'
        X = t.pad(x)
        Xh = np.fft.fft(X)
        out = {(): (t.finish(X, 0, 0), None, None)}
        U1 = []
        for n1, (_, _, j1) in enumerate(t.psi1):
            k1 = min(j1, t.log2_stride) if t.local else j1
            U1.append((np.abs(np.fft.ifft(Xh * t.filt(1, n1, 0)))[..., ::2 ** k1], j1, k1))
        S1 = np.stack([np.fft.ifft(np.fft.fft(u) * t.filt(0, 0, k)).real[..., ::2 ** (t.log2_stride - k)] for u, _, k in U1], 1)
        a, b = t.out_bounds(t.log2_stride)
        for n, Y, k, m in self.frequency(S1, False):
            Y = Y.sum(-1, keepdims=True) if glob else Y
            Z, s = self.average_frequency(Y, n, k, m)
            out[(n,)] = (Z if glob else Z[..., a:b], m, s)
        for n2, (_, _, j2) in enumerate(t.psi2):
            k2 = min(j2, t.log2_stride) if t.local else j2
            rows = [np.fft.ifft(np.fft.fft(u) * t.filt(2, n2, k1))[..., ::2 ** (k2 - k1)] for u, j1, k1 in U1 if j1 < j2]
            if not rows:
                continue
            for n, Y, k, m in self.frequency(np.stack(rows, 1), True):
                if glob:
                    Y = Y.sum(-1, keepdims=True)
                elif t.local:
                    Y = np.fft.ifft(np.fft.fft(Y) * t.filt(0, 0, k2)).real[..., ::2 ** (t.log2_stride - k2)]
                Z, s = self.average_frequency(Y, n, k, m)
                if not glob:
                    c, d = (a, b) if t.local else t.out_bounds(k2)
                    Z = Z[..., c:d]
                out[(n2, n)] = (Z, m, s)
        return out
