import math
import numpy as np
from ..core import Violation, close, SEED
from ..ref1d import parse_T, geometry, wavelets, lowpass, level, reflect_index

LEVEL = 'exploration'
RULE = ('one evaluation = one (N, J, Q, T, stride) whose complete batch of N unit impulses was transformed: every path length, every zeroth-order '
        'value and every alignment is checked; all N of the interval are enumerated; distinct_nontrivial = distinct (N, T, stride, output length) geometries')
ASSUMPTIONS = ['alignment is judged for impulses further than 4T from both borders (nearer ones overlap their mirror image)']


def cases(tier, seed):
    deep = tier == 'thorough'
    top = 140 if not deep else 600
    for N in range(2, top + 1):
        yield dict(N=N, cost=N)
    for N in [255, 256, 257, 511, 512, 513, 1000, 1023, 1025] + ([2047, 2048, 2049, 4095, 4097] if deep else []):
        yield dict(N=N, cost=N)


def grid(P, left, N, s):
    return [p for p in range(0, P, s) if left <= p < left + N]


def run_case(case, rep):
    from kymatio.numpy import Scattering1D
    N = case['N']
    eye = np.eye(N)
    if N > 300:
        eye = eye[::max(1, N // 60)]
    for J in range(1, int(math.log2(N)) + 1):
        Ts = [None, 1, 2, 3, 2.5, 2 ** J - 1, N, 0, 'global'] + ([2 ** J + 1, N - 1, N / 2, (N + 2 ** J) // 2] if J in (1, 2, 3) else [])
        seen = []
        for T in Ts:
            if T in seen or (isinstance(T, (int, float)) and T and not (1 <= T <= N)):
                continue
            seen.append(T)
            Tp, average = parse_T(T, J, N)
            log2_T = int(math.floor(math.log2(Tp)))
            P, left = geometry(N, Tp)
            if left >= N or P - N - left >= N:
                raise AssertionError('reference geometry')
            sl = [None] + ([2 ** k for k in range(log2_T + 1) if N <= 300 or k in (0, 1, log2_T // 2)] if average == 'local' else [])
            for stride in sl:
                w = 'N=%d J=%d T=%s stride=%s' % (N, J, T, stride)
                S = Scattering1D(J, N, T=T, stride=stride, max_order=2, out_type='dict')
                if S.pad_left != left or S.pad_left + N + S.pad_right != P or max(S.pad_left, S.pad_right) > N - 1:
                    raise Violation('%s: padding (%d, %d) for padded length %d' % (w, S.pad_left, S.pad_right, P))
                S.max_order = 1
                y = S(eye)
                s = 2 ** log2_T if stride is None else stride
                if average == 'local':
                    g = grid(P, left, N, s)
                    lens = {n: len(g) for n in y}
                    xp = eye[:, reflect_index(N, P, left)]
                    h = lowpass(P, .1 / Tp)
                    full = np.fft.ifft(np.fft.fft(xp) * h).real
                    err = close(y[()], full[:, g], 1e-6, 1e-9, w + ' zeroth order')
                    rep.maximum('relative_error', err)
                    gs = np.array(g) - left
                    if gs.size and len(eye) == N:
                        m = int(math.ceil(4 * Tp))
                        for t in range(m, N - m):
                            k = int(np.argmax(y[()][t]))
                            if abs(gs[k] - t) > np.abs(gs - t).min():
                                raise Violation('%s: impulse at %d peaks at output %d (time %d)' % (w, t, k, gs[k]))
                            rep.add('alignments')
                elif average == 'global':
                    lens = {n: 1 for n in y}
                else:
                    bank = wavelets(J, 1)
                    lens = {n: (N if n == () else len(grid(P, left, N, 2 ** bank[n[0]][2]))) for n in y}
                    close(y[()], eye, 1e-9, 1e-12, w + ' zeroth order with T=0')
                for n, c in y.items():
                    if c.shape != (len(eye), lens[n]):
                        raise Violation('%s path %s: shape %s, expected length %d' % (w, n, c.shape, lens[n]))
                rep.eval((N, T, stride, tuple(sorted(set(lens.values())))))
    rep.sample(dict(N=N, padded=P, left=left, lengths=sorted(set(lens.values()))))
