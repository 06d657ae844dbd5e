import itertools
import numpy as np
from ..core import Violation, SEED
from ..ref1d import parse_T, geometry

LEVEL = 'exploration'
RULE = ('one evaluation = one transformed signal (one element of the translation or rotation group applied to one signal): 3-D: every circular shift and every rotation of the grid; '
        '2-D: every circular shift by multiples of 2**J of the padded image, from which the complete circular map of every path is assembled (each entry seen through every window that shows it), '
        'then the four quarter turns of that map; 1-D and joint: every shift by multiples of the stride that keeps the support away from the borders. distinct_nontrivial = distinct (configuration, group element)')
ASSUMPTIONS = ['2-D rotations to 5e-3 for second order with J >= 3: the filters of lowest resolution are cropped at the Nyquist frequency', 'even-sized volumes are rotated only where the filters vanish at the Nyquist frequency (sigma_0 = 2)']


def cases(tier, seed):
    deep = tier == 'thorough'
    # 3-D translations
    shapes = [(4, 4, 4), (3, 4, 5), (5, 2, 3), (6, 6, 6), (1, 4, 8)] + ([(8, 8, 8), (7, 6, 5), (9, 9, 9)] if deep else [])
    for shape in shapes:
        for J, L, cov, mo in ((1, 1, True, 2), (0, 2, True, 2), (2, 2, False, 2), (1, 3, True, 1)):
            for pw in ([.5, 1., 2.], [3.]):
                yield dict(kind='t3', shape=list(shape), J=J, L=L, cov=cov, mo=mo, powers=pw, sigma_0=1, cost=int(np.prod(shape)))
    for n in list(range(1, 71 if not deep else 131)):
        for axis in range(3):
            yield dict(kind='t3', shape=[2, 3, 2][:axis] + [n] + [2, 3, 2][axis + 1:], J=1, L=1, cov=True, mo=2, powers=[1., 2.], sigma_0=1, cost=n)
    # 3-D rotations
    for shape, s0 in (((3, 3, 3), 1), ((5, 5, 5), 1), ((7, 7, 7), 1), ((8, 8, 8), 2), ((12, 12, 12), 2), ((5, 5, 7), 1), ((3, 5, 7), 1), ((8, 8, 12), 2)) + (
            (((9, 9, 9), 1), ((16, 16, 16), 2), ((11, 11, 11), 1), ((7, 9, 7), 1)) if deep else ()):
        for J, L, mo in ((0, 1, 2), (1, 2, 2), (2, 3, 2), (1, 4, 1)):
            yield dict(kind='r3', shape=list(shape), J=J, L=L, mo=mo, sigma_0=s0, cost=int(np.prod(shape)) * L)
    # 2-D
    for J, L, N in [(1, 2, 8), (1, 4, 8), (1, 3, 10), (2, 2, 16), (2, 4, 16), (2, 8, 16), (2, 3, 20), (2, 6, 24), (3, 4, 32), (3, 2, 40)] + (
            [(1, 8, 32), (2, 8, 64), (3, 8, 64), (4, 4, 64), (4, 6, 96), (3, 5, 48)] if deep else []):
        yield dict(kind='p2', J=J, L=L, N=[N, N], mo=2, cost=N * N * J * L)
        yield dict(kind='p2', J=J, L=L, N=[N, N + 2 ** J], mo=1 if J == 1 else 2, cost=N * N * J * L)
    # 1-D
    for J, Q, N in [(1, 1, 128), (2, 1, 128), (2, [2, 1], 200), (3, 1, 256), (3, [3, 1], 700), (4, 1, 512), (4, [2, 2], 1200), (3, [1, 1], 257)] + (
            [(4, [4, 1], 1600), (5, 1, 1000), (4, 1, 777), (3, [4, 2], 900), (5, [2, 2], 2500), (2, [6, 1], 1000)] if deep else []):
        for T in (None, 2, 2 ** J, 2 ** (J - 1) + 1 if J > 1 else 1, 0) + ((2 ** (J + 1),) if N > 20 * 2 ** (J + 1) else ()):
            for stride in ((None, 1) if T != 0 else (None,)):
                yield dict(kind='s1', J=J, Q=Q, N=N, T=T, stride=stride, cost=N)
    for J, Q, N in [(1, 1, 128), (2, 1, 200), (2, 1, 256), (2, [2, 1], 512), (3, 1, 400), (3, [3, 1], 2000), (4, 1, 1000), (4, [2, 2], 2000), (3, [1, 1], 513)] + (
            [(4, [4, 1], 5000), (5, 1, 2600), (4, 1, 1400), (3, [4, 2], 2000), (4, [2, 2], 3000)] if deep else []):
        yield dict(kind='s1', J=J, Q=Q, N=N, T='global', stride=None, cost=N)
    for J, J_fr, Q, N in [(2, 1, 1, 128), (3, 2, 2, 512), (3, 3, 4, 1024)] + ([(4, 3, 4, 2048)] if deep else []):
        for fmt in ('time', 'joint'):
            for T in (None, 'global'):
                yield dict(kind='sj', J=J, J_fr=J_fr, Q=Q, N=N, T=T, fmt=fmt, cost=N * 4)


def rng(tag):
    return np.random.RandomState([SEED % (2 ** 31), tag])


def worst(a, b):
    return float(np.abs(a - b).max())


# ------------------------------------------------------------------ 3-D
def t3(c, rep):
    from kymatio.numpy import HarmonicScattering3D
    shape = tuple(c['shape'])
    S = HarmonicScattering3D(J=c['J'], shape=shape, L=c['L'], sigma_0=c['sigma_0'], max_order=c['mo'], rotation_covariant=c['cov'],
                             method='integral', integral_powers=c['powers'])
    shifts = list(itertools.product(*(range(n) for n in shape)))
    imp = np.zeros(shape); imp[0, 0, 0] = 1
    pair = imp.copy(); pair[tuple(n // 2 for n in shape)] -= 2; pair[tuple(n // 3 for n in shape)] += .5
    for name, x in (('impulse', imp), ('three impulses', pair), ('dense', rng(1).standard_normal(shape))):
        ref = None
        for i in range(0, len(shifts), 64):
            y = S(np.stack([np.roll(x, s, (0, 1, 2)) for s in shifts[i:i + 64]]))
            if ref is None:
                ref = y[0]
            lim = 1e-4 * np.abs(ref) + 1e-5 * np.abs(ref).max() + 1e-30
            bad = np.abs(y - ref) > lim
            if bad.any():
                k = np.argwhere(bad)[0]
                raise Violation('%s shifted by %s: coefficient %s is %r instead of %r' % (
                    name, shifts[i + k[0]], tuple(k[1:]), float(y[tuple(k)]), float(ref[tuple(k[1:])])))
        for s in shifts:
            rep.eval((c, name, s))
    rep.sample(dict(shifts=len(shifts), coefficients=int(ref.size)))


def rotations(shape):
    """All rotations of the grid of this shape: signed axis permutations of determinant 1."""
    for perm in itertools.permutations(range(3)):
        if any(shape[perm[i]] != shape[i] for i in range(3)):
            continue
        P = np.zeros((3, 3), int)
        for i, p in enumerate(perm):
            P[i, p] = 1
        for signs in itertools.product((1, -1), repeat=3):
            if round(np.linalg.det(P * np.array(signs)[:, None])) == 1:
                yield perm, signs


def rotate(x, perm, signs):
    y = x.transpose(perm)
    for a, s in enumerate(signs):
        if s < 0:
            y = np.roll(np.flip(y, a), 1, a)          # u -> -u modulo n, the origin fixed
    return y


def r3(c, rep):
    from kymatio.numpy import HarmonicScattering3D
    shape = tuple(c['shape'])
    S = HarmonicScattering3D(J=c['J'], shape=shape, L=c['L'], sigma_0=c['sigma_0'], max_order=c['mo'], rotation_covariant=True,
                             method='integral', integral_powers=[.5, 1., 2.])
    group = list(rotations(shape))
    x = rng(2).standard_normal(shape)
    corner = np.zeros(shape); corner[0, 0, 1] = 1; corner[1, 0, 0] = -2; corner[1, 1, 2] = .7
    for name, x in (('dense', x), ('three impulses', corner)):
        ref = S(x[None])[0]
        y = S(np.stack([rotate(x, *g) for g in group]))
        lim = 2e-4 * np.abs(ref) + 2e-5 * np.abs(ref).max()
        bad = np.abs(y - ref) > lim
        rep.maximum('relative_difference', (np.abs(y - ref) / (np.abs(ref) + .1 * np.abs(ref).max())).max())
        if bad.any():
            k = np.argwhere(bad)[0]
            raise Violation('%s rotated by %s: coefficient %s is %r instead of %r' % (
                name, group[k[0]], tuple(k[1:]), float(y[tuple(k)]), float(ref[tuple(k[1:])])))
        for g in group:
            rep.eval((c, name, g))
    rep.sample(dict(rotations=len(group), coefficients=int(ref.size)))


# ------------------------------------------------------------------ 2-D
def torus(S, x, J, rep, key, paths):
    """The circular map of every path, assembled from all shifts; overlapping observations must agree."""
    M, N = x.shape
    m, n = M >> J, N >> J
    F = None
    for a in range(m):
        y = S(np.stack([np.roll(x, (a << J, b << J), (0, 1)) for b in range(n)]))
        if F is None:
            if y.shape[1:] != (paths, m - 2, n - 2):
                raise Violation('output of shape %s, expected maps of shape %s' % (y.shape, (m - 2, n - 2)))
            F = np.full((paths, m, n), np.nan)
            lim = 1e-6 * np.abs(y).max()
        for b in range(n):
            I, K = (np.arange(1, m - 1) - a) % m, (np.arange(1, n - 1) - b) % n
            cur = F[:, I[:, None], K]
            new = ~np.isnan(cur)
            if new.any() and np.abs(cur - y[b])[new].max() > lim:
                k = np.argwhere(np.where(new, np.abs(cur - y[b]), 0) > lim)[0]
                raise Violation('shift (%d, %d): path %d at %s: %r, seen as %r through other shifts' % (
                    a << J, b << J, k[0], tuple(k[1:]), float(y[b][tuple(k)]), float(cur[tuple(k)])))
            F[:, I[:, None], K] = y[b]
            rep.eval((key, a, b))
    return F


def p2(c, rep):
    from kymatio.numpy import Scattering2D
    J, L, (M, N), mo = c['J'], c['L'], c['N'], c['mo']
    step = 2 ** J
    unpadded = tuple([n for n in range(step, 4 * P) if ((n + step) // step + 1) * step == P][-1] for P in (M, N))
    S = Scattering2D(J, unpadded, L=L, max_order=mo, pre_pad=True)
    paths = [()] + [(j, t) for j in range(J) for t in range(L)]
    if mo == 2:
        paths += [(j1, t1, j2, t2) for j1 in range(J) for t1 in range(L) for j2 in range(j1 + 1, J) for t2 in range(L)]
    imp = np.zeros((M, N)); imp[1, 2] = 1
    for name, x in (('dense', rng(3).standard_normal((M, N))), ('impulse', imp)):
        try:
            F = torus(S, x, J, rep, (c, name), len(paths))
        except Violation as e:
            raise Violation('%s: %s' % (name, e))
        if L % 2 or M != N:
            continue
        n = F.shape[1]
        back = (-np.arange(n)) % n
        xr, Fr = x, F
        for turn in (1, 2, 3):
            xr = xr[:, (-np.arange(N)) % N].T
            Fr = Fr[:, :, back].transpose(0, 2, 1)
            perm = lambda t: (t + turn * L // 2) % L
            G = torus(S, xr, J, rep, (c, name, turn), len(paths))
            for i, p in enumerate(paths):
                q = tuple(perm(v) if k % 2 else v for k, v in enumerate(p))
                got = G[paths.index(q)]
                tol = 5e-3 if len(p) == 4 and J > 2 else 2e-5
                d = worst(got, Fr[i])
                lim = tol * np.abs(F[i]).max() + 1e-7 * np.abs(F).max()
                rep.maximum('relative_difference_order_%d' % (len(p) // 2), d / np.abs(F[i]).max())
                if d > lim:
                    raise Violation('%s turned by %d degrees: path %s of the turned image is not path %s turned (difference %.3g, scale %.3g)' % (
                        name, 90 * turn, q, p, d, np.abs(F[i]).max()))
    rep.sample(dict(maps=len(paths), grid=list(F.shape[1:])))


# ------------------------------------------------------------------ 1-D
def s1(c, rep):
    from kymatio.numpy import Scattering1D
    J, N, T = c['J'], c['N'], c['T']
    Q = tuple(c['Q']) if isinstance(c['Q'], list) else c['Q']
    S = Scattering1D(J, N, Q=Q, T=T, stride=c['stride'], out_type='dict')
    Tp, average = parse_T(T, J, N)
    width = max(4, N // 16)
    scale = max(2 ** J * (max(Q) if isinstance(Q, tuple) else Q), Tp if average == 'local' else 1)
    unit = max(2 ** J, 1) if average != 'local' else (c['stride'] or 2 ** int(np.log2(Tp)))
    start = (N - width) // 2
    reach = (N - width) // 2
    shifts = [s for s in range(-reach, reach + 1) if s % unit == 0]
    seg = rng(4).standard_normal((2, width))
    P, left = geometry(N, Tp)
    margin = 9 * scale
    def signal(s):
        X = np.zeros((2, N))
        X[:, start + s:start + s + width] = seg
        return X
    origin = S(signal(0))
    largest = np.abs(origin[()]).max()
    refs, compared = {}, 0
    block = max(1, (1 << 18) // N)                      # bounds the memory used
    for at in range(0, len(shifts), block):
        part = shifts[at:at + block]
        Y = S(np.concatenate([signal(s) for s in part]))
        for n, y in Y.items():
            y = y.reshape(len(part), 2, -1)
            ref = origin[n]
            top = np.abs(ref).max()
            for i, s in enumerate(part):
                a, b = start + s, start + s + width            # support
                if average == 'global':
                    # compare signals of which the same number of mirror images is wholly visible in the padded signal
                    count = images(a, b, N, P, left, margin)
                    if count is None:
                        rep.add('skipped_shifts')
                        continue
                    ref = refs.setdefault((n, count), y[i])
                    top = np.abs(ref).max()
                    d = worst(y[i], ref)
                    tol = 2e-3
                else:
                    if a < margin or b > N - margin:
                        rep.add('skipped_shifts')
                        continue
                    k = s // step_of(n, c, average, J, Q, Tp)
                    L = y.shape[-1]
                    lo, hi = max(0, k), min(L, L + k)
                    d = worst(y[i][:, lo:hi], ref[:, lo - k:hi - k])
                    tol = 2e-3
                    rest = np.concatenate([y[i][:, :lo].ravel(), y[i][:, hi:].ravel(), ref[:, :lo - k].ravel(), ref[:, hi - k:].ravel()])
                    if rest.size:
                        d = max(d, np.abs(rest).max() - 1e-3 * top)
                rep.maximum('relative_difference_%s' % average, d / (top + 1e-300))
                if d > tol * top + 1e-9 * largest:
                    raise Violation('path %s: signal shifted by %d samples, coefficients differ by %.3g (scale %.3g)' % (n, s, d, top))
                rep.eval((c, n, s))
                compared += s != 0
    if not compared:
        raise Exception('no shift was compared')
    rep.sample(dict(shifts=len(shifts), paths=len(Y)))


def images(a, b, N, P, left, margin):
    """Number of mirror images of the support [a, b) in the padded signal; None if one is cut by a border, or the support is near one."""
    if a < margin or b > N - margin:
        return None
    count = 0
    for lo, hi in ((1 - b, 1 - a), (2 * N - 1 - b, 2 * N - 1 - a)):
        if any(lo - margin < e < hi + margin for e in (-left, P - left)):
            return None
        count += -left <= lo and hi <= P - left
    return count


def step_of(n, c, average, J, Q, Tp):
    if average == 'local':
        return c['stride'] or 2 ** int(np.log2(Tp))
    if n == ():
        return 1
    from ..ref1d import wavelets
    Q = (Q if isinstance(Q, tuple) else (Q, 1))
    return 2 ** wavelets(J, Q[len(n) - 1])[n[-1]][2]


def sj(c, rep):
    from kymatio.numpy import TimeFrequencyScattering
    J, N, T = c['J'], c['N'], c['T']
    S = TimeFrequencyScattering(J=J, J_fr=c['J_fr'], shape=N, Q=(c['Q'], 1), T=T, out_type='list', format=c['fmt'])
    width = N // 16
    unit = 2 ** J
    start = (N - width) // 2
    shifts = [s for s in range(-(N // 2), N // 2 + 1) if s % unit == 0]
    margin = 9 * 2 ** J * c['Q']
    near = margin if T is None else margin // 3
    shifts = [s for s in shifts if start + s >= near and start + s + width <= N - near]
    seg = rng(5).standard_normal((2, width))
    X = np.zeros((len(shifts), 2, N))
    for i, s in enumerate(shifts):
        X[i, :, start + s:start + s + width] = seg
    Y = S(X.reshape(-1, N))
    zero = shifts.index(0)
    P, left = geometry(N, parse_T(T, J, N)[0])
    big = max(np.abs(p['coef']).max() for p in Y)
    for p in Y:
        y = p['coef'].reshape((len(shifts), 2) + p['coef'].shape[1:])
        ref = y[zero]
        top = np.abs(ref).max()
        refs = {}
        for i, s in enumerate(shifts):
            if T == 'global':
                a, b = start + s, start + s + width
                count = images(a, b, N, P, left, margin // 3)
                if count is None:
                    rep.add('skipped_shifts')
                    continue
                ref = refs.setdefault(count, y[i])
                top = np.abs(ref).max()
            k = 0 if T == 'global' else s // unit
            Ln = y.shape[-1]
            lo, hi = max(0, k), min(Ln, Ln + k)
            d = worst(y[i][..., lo:hi], ref[..., lo - k:hi - k])
            rep.maximum('relative_difference_joint_%s' % T, d / (top + 1e-300))
            if d > (2e-3 if T is None else 1e-2) * top + 1e-6 * big:
                raise Violation('path %s: signal shifted by %d samples, coefficients differ by %.3g (scale %.3g)' % (
                    {k: v for k, v in p.items() if k != 'coef'}, s, d, top))
            rep.eval((c, s))
    rep.sample(dict(shifts=len(shifts), paths=len(Y)))


def run_case(case, rep):
    try:
        dict(t3=t3, r3=r3, p2=p2, s1=s1, sj=sj)[case['kind']](case, rep)
    except Violation as e:
        raise Violation('%s: %s' % (case, e))
