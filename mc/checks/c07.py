import numpy as np
from ..core import Violation, close, SEED
from ..ref3d import solid, freqs

LEVEL = 'exploration'
RULE = 'one evaluation = one published wavelet or Gaussian (all bins); all (J, L, shape, sigma_0) of the lattice; distinct_nontrivial = distinct (configuration, l, j, m)'
ASSUMPTIONS = ['filters are single precision: tolerance 1e-5 of each filter maximum']


def cases(tier, seed):
    deep = tier == 'thorough'
    shapes = [(8, 8, 8), (7, 7, 7), (6, 8, 10), (9, 4, 5), (5, 12, 6), (16, 8, 8), (4, 4, 4), (3, 5, 7), (2, 3, 4), (12, 12, 12), (17, 16, 15)] + [(a, b, c) for a in (4, 5, 8, 9) for b in (3, 6, 7) for c in (4, 5, 10, 11)] + [(32, 32, 32)]
    if deep:
        shapes += [(a, b, c) for a in (1, 2, 3, 6, 11) for b in (1, 2, 5, 9) for c in (1, 2, 8, 13)] + [(33, 20, 21), (48, 48, 48)]
    for s in shapes:
        for sigma in (1, .5, 1.5, 3, .8):
            yield dict(kind='fourier', shape=s, sigma=sigma, J=3 if not deep else 4, L=5 if not deep else 8, cost=int(np.prod(s)))
    for n in list(range(1, 71 if not deep else 201)) + [127, 128, 129]:
        for axis in range(3):
            yield dict(kind='fourier', shape=[2, 3, 2][:axis] + [n] + [2, 3, 2][axis + 1:], sigma=1.2, J=1, L=2, cost=1)
    for n in (20, 24, 25, 32) + ((33, 40) if deep else ()):
        yield dict(kind='space', n=n, L=3, cost=n)


def run_case(case, rep):
    if case['kind'] == 'space':
        return space(case['n'], case['L'], rep)
    from kymatio.numpy import HarmonicScattering3D
    shape, s0, J, L = tuple(case['shape']), case['sigma'], case['J'], case['L']
    w = 'J=%d L=%d shape=%s sigma_0=%s' % (J, L, shape, s0)
    S = HarmonicScattering3D(J, shape, L=L, sigma_0=s0)
    if len(S.filters) != L + 1:
        raise Violation('%s: %d orders' % (w, len(S.filters)))
    k = [freqs(n) * 2 * np.pi / n for n in shape]
    r2 = k[0][:, None, None] ** 2 + k[1][None, :, None] ** 2 + k[2][None, None, :] ** 2
    for l in range(L + 1):
        F = np.asarray(S.filters[l])
        if F.shape != (J + 1, 2 * l + 1) + shape:
            raise Violation('%s l=%d: filters of shape %s' % (w, l, F.shape))
        for j in range(J + 1):
            h = solid(*shape, s0 * 2 ** j, l)
            top = max(float(np.abs(h).max()), 1e-3)
            wl = '%s l=%d j=%d' % (w, l, j)
            close(F[j], h, 0, 1e-5 * top, wl)
            P = (np.abs(F[j].astype(complex)) ** 2).sum(0)
            # radial: the sum over m depends on |omega| only (Unsoeld), and vanishes at 0 for l > 0
            key = np.round(r2, 9).ravel()
            o = np.argsort(key, kind='stable')
            ks, ps = key[o], P.ravel()[o]
            same = np.abs(np.diff(ks)) < 1e-9
            if same.any() and np.abs(np.diff(ps))[same].max() > 1e-5 * max(P.max(), 1e-6):
                raise Violation('%s: power spectrum summed over m is not radial (%g)' % (wl, np.abs(np.diff(ps))[same].max()))
            if l > 0 and np.abs(F[j][:, 0, 0, 0]).max() > 1e-6:
                raise Violation('%s: non-zero mean' % wl)
            c = (-1j) ** l
            for m in range(1, l + 1):
                close(F[j][l - m] / c, (-1) ** m * np.conj(F[j][l + m] / c), 0, 2e-5 * top, '%s symmetry between m=%d and -m' % (wl, m))
            for m in range(2 * l + 1):
                rep.eval((J, L, shape, s0, l, j, m))
    G = np.asarray(S.gaussian_filters)
    for j in range(len(G)):
        close(G[j], np.exp(-.5 * r2 * (s0 * 2 ** j) ** 2), 0, 1e-5, '%s Gaussian %d' % (w, j))
        rep.eval((J, L, shape, s0, 'gaussian', j))
    if len(G) < J + 1:
        raise Violation('%s: %d Gaussians' % (w, len(G)))
    rep.sample(dict(w=w, peak=[float(np.abs(f).max()) for f in S.filters]))


def space(n, L, rep):
    """Signal-space filters are the inverse transforms of the Fourier-space ones (well-resolved widths)."""
    from kymatio.scattering3d.filter_bank import solid_harmonic_filter_bank, gaussian_filter_bank
    for sigma in (1.6, 2.):
        a = solid_harmonic_filter_bank(n, n, n, 0, L, sigma, fourier=True)
        b = solid_harmonic_filter_bank(n, n, n, 0, L, sigma, fourier=False)
        for l in range(L + 1):
            fa = np.fft.ifftn(a[l], axes=(-3, -2, -1))
            close(fa, b[l], 0, 2e-3 * float(np.abs(b[l]).max()), 'signal-space solid harmonics n=%d sigma=%s l=%d' % (n, sigma, l))
            rep.eval(('space', n, sigma, l))
        ga = np.fft.ifftn(gaussian_filter_bank(n, n, n, 0, sigma, fourier=True), axes=(-3, -2, -1))
        gb = gaussian_filter_bank(n, n, n, 0, sigma, fourier=False)
        close(ga, gb, 0, 1e-3 * float(np.abs(gb).max()), 'signal-space Gaussian n=%d sigma=%s' % (n, sigma))
        if abs(gb.sum() - 1) > 1e-3:
            raise Violation('signal-space Gaussian has mass %s' % gb.sum())
        rep.eval(('space gaussian', n, sigma))
