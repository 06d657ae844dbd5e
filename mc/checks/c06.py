import math
import numpy as np
from ..core import Violation, close, SEED
from .. import ref2d

LEVEL = 'exploration'
RULE = 'one evaluation = one published filter at one resolution (all bins); all (J, L, M, N) of the lattice; distinct_nontrivial = distinct (configuration, filter, level)'
ASSUMPTIONS = ['single-precision filters normalised with 3.1415: tolerance 1e-4 of the filter maximum']


def cases(tier, seed):
    deep = tier == 'thorough'
    top = 5 if not deep else 6
    for J in range(1, top + 1):
        lens = sorted({2 ** J, 2 ** J + 1, 2 ** (J + 1) - 1, 2 ** (J + 1), 3 * 2 ** J} | ({7, 10, 20} if J <= 2 else set()))
        for M in lens:
            for N in lens:
                if J >= 3 and (M, N) not in [(lens[0], lens[0]), (lens[0], lens[2]), (lens[3], lens[0]), (lens[3], lens[3]), (lens[1], lens[4])] and not deep:
                    continue
                if M >= 2 ** J and N >= 2 ** J:
                    for L in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16) if J < 4 else (2, 3, 5, 8) if J == 4 else (1, 4):
                        yield dict(J=J, L=L, M=M, N=N, cost=4 ** J * L * M * N / 100)


    for n in list(range(4, 131 if not deep else 301)) + [255, 256, 257, 511, 512, 513]:
        yield dict(J=2, L=3, M=n, N=5, cost=50)
        yield dict(J=1, L=2, M=3, N=n, cost=50)


def run_case(case, rep):
    from kymatio.numpy import Scattering2D
    J, L, M, N = (case[k] for k in 'JLMN')
    w = 'J=%d L=%d shape=%s' % (J, L, (M, N))
    S = Scattering2D(J, (M, N), L=L)
    Mp, Np = ref2d.padded(M, J), ref2d.padded(N, J)
    if len(S.psi) != J * L:
        raise Violation('%s: %d wavelets' % (w, len(S.psi)))
    for i, f in enumerate(S.psi):
        j, t = divmod(i, L)
        wf = '%s psi[%d]' % (w, i)
        if f['j'] != j or f['theta'] != t:
            raise Violation('%s: j=%s theta=%s instead of %s' % (wf, f['j'], f['theta'], (j, t)))
        need = j if j else 1    # levels 0 .. j-1 are reached by paths j1 < j2
        if len(f['levels']) < need:
            raise Violation('%s: %d levels, %d reachable' % (wf, len(f['levels']), need))
        h = ref2d.psi(Mp, Np, j, t, L)
        s = float(np.abs(h).max())
        for k, lev in enumerate(f['levels']):
            lev = np.asarray(lev)
            if np.iscomplexobj(lev):
                raise Violation('%s: not real in Fourier' % wf)
            close(lev, ref2d.crop(h, k), 1e-4, 1e-6, '%s level %d' % (wf, k), scale=s)
            if abs(lev[0, 0]) > 2e-5 * max(s, 1):
                raise Violation('%s level %d: mean %g' % (wf, k, lev[0, 0]))
            rep.eval((J, L, M, N, i, k))
        # the wavelet peaks where the orientation says
        if Mp >= 3 * 2 ** J:
            theta = (int(L - L / 2 - 1) - t) * math.pi / L
            pk = np.unravel_index(int(np.asarray(f['levels'][0]).argmax()), (Mp, Np))
            fr = np.array([np.fft.fftfreq(Mp)[pk[0]], np.fft.fftfreq(Np)[pk[1]]]) * 2 * math.pi
            want = .75 * math.pi / 2 ** j * np.array([math.cos(theta), math.sin(theta)])
            d = np.abs(np.angle(np.exp(1j * (fr - want))))
            if d.max() > .35 * math.pi / 2 ** j + 2 * math.pi / min(Mp, Np):
                raise Violation('%s: peaks at frequency %s, orientation wants %s' % (wf, fr, want))
    h = ref2d.phi(Mp, Np, J)
    if S.phi['j'] != J or len(S.phi['levels']) < J:
        raise Violation('%s: low-pass j=%s with %d levels' % (w, S.phi['j'], len(S.phi['levels'])))
    for k, lev in enumerate(S.phi['levels']):
        close(np.asarray(lev), ref2d.crop(h, k), 1e-4, 1e-6, '%s phi level %d' % (w, k), scale=float(h.max()))
        if abs(np.asarray(lev)[0, 0] - 1) > 2e-2:
            raise Violation('%s: low-pass DC gain %g' % (w, np.asarray(lev)[0, 0]))
        rep.eval((J, L, M, N, 'phi', k))
    # rotations of one another: on a square grid and even L, orientation t + L/2 is the quarter turn of t
    if M == N and L % 2 == 0:
        for j in range(J):
            for t in range(L // 2):
                a = np.asarray(S.psi[j * L + t]['levels'][0])
                b = np.asarray(S.psi[j * L + t + L // 2]['levels'][0])
                # theta decreases by pi/2: (u, v) -> (v, -u) on frequencies
                rot = np.roll(a[::-1, :], 1, axis=0).T
                # frequencies are only sampled symmetrically away from Nyquist
                m = np.ones_like(b, bool)
                if Mp % 2 == 0:
                    m[Mp // 2, :] = False; m[:, Np // 2] = False
                d = np.abs(np.where(m, rot - b, 0)).max()
                d2 = np.abs(np.where(m, np.roll(np.roll(rot[::-1, ::-1], 1, 0), 1, 1) - b, 0)).max()
                if min(d, d2) > 1e-4 * max(1., float(np.abs(b).max())):
                    raise Violation('%s: psi[j=%d, theta=%d] and its quarter turn differ by %g' % (w, j, t, min(d, d2)))
                rep.add('rotation_pairs')
    rep.sample(dict(w=w, padded=(Mp, Np), dc=float(np.asarray(S.phi['levels'][0])[0, 0])))
