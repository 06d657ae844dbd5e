import math
import numpy as np
from ..core import Violation, close
from .. import ref1d

LEVEL = 'exploration'
RULE = ('one evaluation = one published filter at one resolution (all its frequency bins) of one configuration; all (J, Q1, Q2, T, N) '
        'of the lattice are built; distinct_nontrivial = distinct (configuration, filter, level)')
ASSUMPTIONS = ['unit L1 norm is required for N_padded resolving the filter; the aliased Nyquist edge is part of the formula']


def cases(tier, seed):
    deep = tier == 'thorough'
    Js = range(1, 12 if not deep else 14)
    for J in Js:
        Ns = sorted({2 ** J, 2 ** J + 1, 3 * 2 ** (J - 1), 2 ** (J + 1), 2 ** (J + 1) - 1} | ({16, 33, 64, 100} if J < 5 else set()))
        for N in Ns:
            if N < 4 or N > (4096 if not deep else 16384):
                continue
            yield dict(J=J, N=N, Qs=[1, 2, 3, 4, 5, 6, 8, 12, 16, [1, 2], [2, 2], [4, 2], [8, 2], [8, 3], [16, 4]] + ([24, 32, [32, 2]] if deep else []), cost=N)


def run_case(case, rep):
    from kymatio.numpy import Scattering1D
    J, N = case['J'], case['N']
    for Q in case['Qs']:
        Qk = tuple(Q) if isinstance(Q, list) else Q
        Qt = (Qk, 1) if isinstance(Qk, int) else Qk
        Ts = [None, 0, 'global', 1, 2 ** J // 2, 2 ** J - 1, 2 * 2 ** J, N, N - .5]
        for T in Ts:
            if isinstance(T, (int, float)) and T and not (1 <= T <= N):
                continue
            try:
                S = Scattering1D(J, N, Q=Qk, T=T)
            except AssertionError:
                # documented domain: the filterbank refuses second orders that would alias
                a, b = ref1d.wavelets(J, Qt[0]), ref1d.wavelets(J, Qt[1])
                if all(x1 > x2 for x1, _, j1 in a for x2, _, j2 in b if j1 < j2) and all(x < .5 / 2 ** j for x, _, j in a):
                    raise Violation('J=%s Q=%s T=%s N=%s: valid configuration rejected' % (J, Q, T, N))
                break
            check(S, J, N, Qt, T, rep)


def check(S, J, N, Q, T, rep):
    w = 'J=%s Q=%s T=%s N=%s' % (J, Q, T, N)
    Tp, average = ref1d.parse_T(T, J, N)
    P, left = ref1d.geometry(N, Tp)
    l0 = np.asarray(S.phi_f['levels'][0])
    if l0.shape != (P,):
        raise Violation('%s: padded length %s instead of %d' % (w, l0.shape, P))
    if (S.pad_left, S.pad_right) != (left, P - N - left):
        raise Violation('%s: padding %s' % (w, (S.pad_left, S.pad_right)))
    log2_T = int(math.floor(math.log2(Tp)))
    banks = [ref1d.wavelets(J, q) for q in Q]
    # resolutions the cascade reaches
    k1s = {min(j, log2_T) if average == 'local' else j for _, _, j in banks[0]}
    full = []
    if average == 'local':
        smax = log2_T
    for order, (bank, psis) in enumerate(zip(banks, (S.psi1_f, S.psi2_f)), 1):
        if len(psis) != len(bank):
            raise Violation('%s: %d wavelets at order %d instead of %d' % (w, len(psis), order, len(bank)))
        for n, ((xi, sigma, j), psi) in enumerate(zip(bank, psis)):
            wn = '%s psi%d[%d]' % (w, order, n)
            if abs(psi['xi'] - xi) > 1e-9 or abs(psi['sigma'] - sigma) > 1e-9 or psi['j'] != j:
                raise Violation('%s: (xi, sigma, j) = (%r, %r, %r), documented (%r, %r, %r)' % (wn, psi['xi'], psi['sigma'], psi['j'], xi, sigma, j))
            if n and not psis[n - 1]['xi'] > psi['xi']:
                raise Violation('%s: center frequencies do not decrease' % wn)
            h = np.asarray(psi['levels'][0])
            close(h, ref1d.morlet(P, xi, sigma), 1e-7, 1e-9, wn + ' frequency response')
            t = np.fft.ifft(h)
            if abs(h[0]) > 1e-9:
                raise Violation('%s: mean %g' % (wn, h[0]))
            if abs(np.abs(t).sum() - 1) > 1e-6:
                raise Violation('%s: L1 norm %g' % (wn, np.abs(t).sum()))
            # maximal subsampling without aliasing of the essential band
            if order == 2:
                need = [k for k in range(0, j + 1) if any(j1 < j and (min(j1, kk) == k) for _, _, j1 in banks[0]
                        for kk in (range(log2_T + 1) if average == 'local' else [99]))]
            else:
                need = [0]
            for k in need:
                if k >= len(psi['levels']):
                    raise Violation('%s: resolution 2**-%d is reachable but missing' % (wn, k))
            for k, lev in enumerate(psi['levels']):
                close(np.asarray(lev), h.reshape(2 ** k, -1).sum(0), 1e-7, 1e-9, '%s level %d' % (wn, k))
                rep.eval((J, N, Q, T, order, n, k))
        full.append(psis)
    # low-pass
    sigma_low = .1 / Tp
    if abs(S.phi_f['sigma'] - sigma_low) > 1e-9 or S.phi_f['j'] != log2_T or S.phi_f['xi'] != 0:
        raise Violation('%s: low-pass (xi, sigma, j) = %s' % (w, (S.phi_f['xi'], S.phi_f['sigma'], S.phi_f['j'])))
    h = np.asarray(S.phi_f['levels'][0])
    close(h, ref1d.lowpass(P, sigma_low), 1e-7, 1e-9, w + ' phi')
    if abs(h[0] - 1) > 1e-6:
        raise Violation('%s: low-pass DC gain %g' % (w, h[0]))
    for k, lev in enumerate(S.phi_f['levels']):
        close(np.asarray(lev), h.reshape(2 ** k, -1).sum(0), 1e-7, 1e-9, '%s phi level %d' % (w, k))
        rep.eval((J, N, Q, T, 'phi', k))
    if average == 'local' and len(S.phi_f['levels']) <= log2_T and P >= 2 ** log2_T:
        # every stride 2**k, k <= log2_T, averages moduli sampled at up to 2**min(j, k)
        jmax = max(j for b in banks for _, _, j in b)
        if len(S.phi_f['levels']) <= min(jmax, log2_T):
            raise Violation('%s: low-pass missing at resolution %d' % (w, min(jmax, log2_T)))
    # joint coverage of all frequencies: low-pass + wavelets (both spins for real signals)
    for psis, q in zip(full, Q):
        A = h ** 2
        B = sum(np.asarray(p['levels'][0]) ** 2 for p in psis)
        Brev = np.roll(B[::-1], 1)
        lp = A + .5 * (B + Brev)
        if T is None and P >= 2 ** (J + 1):
            f = np.abs(np.fft.fftfreq(P))
            m = f <= psis[0]['xi'] + 1e-12
            if lp[m].min() < .1:
                raise Violation('%s: a frequency below %.3f is not covered (%.2g)' % (w, psis[0]['xi'], lp[m].min()))
            rep.extra['max_-min_coverage'] = max(rep.extra.get('max_-min_coverage', -9.), -float(lp[m].min()))
            if P >= 4 * 2 ** J and psis[0]['sigma'] > .1 / 2 ** J and lp.max() > 1 + 1e-5:
                raise Violation('%s: Littlewood-Paley sum %.6g exceeds 1' % (w, lp.max()))
    rep.sample(dict(J=J, N=N, Q=Q, T=T, phi_levels=len(S.phi_f['levels']), psi2=[(p['xi'], p['sigma'], p['j'], len(p['levels'])) for p in S.psi2_f]))
