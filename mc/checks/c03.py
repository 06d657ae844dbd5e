import itertools
import numpy as np
from ..core import Violation, close, SEED
from ..ref3d import Ref3D, volumes

LEVEL = 'exploration'
RULE = ('one evaluation = one (configuration, volume, path, l, power) coefficient compared with the reference, or one (positions, weights) layout of the Gaussian generator; '
        'all configurations of the lattice; distinct_nontrivial = distinct (configuration, path, l, power) with non-zero reference')
ASSUMPTIONS = ['single-precision filters and outputs: 1e-4 relative for powers >= 1, 5e-3 for powers below 1 (which amplify round-off where the modulus vanishes)']


ALL = (.5, 1., 2., 3, 4, 1.5, .75)


def cases(tier, seed):
    deep = tier == 'thorough'
    shapes = [(8, 8, 8), (7, 7, 7), (6, 8, 10), (9, 4, 5), (5, 12, 6), (16, 8, 8), (4, 4, 4), (3, 5, 7), (2, 2, 2), (2, 9, 3), (12, 12, 12)]
    if deep:
        shapes += [(a, b, c) for a in (5, 6, 9) for b in (4, 7, 12) for c in (5, 8, 11)] + [(16, 16, 16), (15, 17, 12)]
    for s in shapes:
        for J in (0, 1, 2, 3) + ((4,) if deep else ()):
            for L in (0, 1, 2, 3, 4) + ((5, 6) if deep else ()):
                yield dict(kind='transform', shape=s, J=J, L=L, cost=J * L)
    yield dict(kind='transform', shape=(8, 8, 8), J=1, L=5, cost=9)
    yield dict(kind='transform', shape=(9, 8, 7), J=2, L=6, cost=9)
    yield dict(kind='gaussians')
    # every length of a range along each axis
    lens = list(range(1, 71 if not deep else 201)) + [127, 128, 129]
    for i in range(0, len(lens), 6):
        for axis in range(3):
            yield dict(kind='lengths', axis=axis, lens=lens[i:i + 6], cost=4)
    for s in [(32, 32, 32), (33, 20, 21), (24, 40, 16)] + ([(64, 64, 64), (65, 33, 48)] if deep else []):
        yield dict(kind='one', shape=s, cost=60)
    yield dict(kind='huge', shape=(65, 64, 64), cost=60)


def one(shape, rep, J=1, L=1, powers=(1., 2.)):
    from kymatio.numpy import HarmonicScattering3D
    x = volumes(shape, np.random.default_rng([SEED, 3]))[1:]
    for rot in (True, False):
        w = 'J=%d L=%d shape=%s rotation_covariant=%s' % (J, L, shape, rot)
        ref = Ref3D(J, shape, L, 1, 2, rot, powers)
        exp = ref(x)
        y = np.asarray(HarmonicScattering3D(J, shape, L=L, rotation_covariant=rot, integral_powers=powers)(x))
        for i, p in enumerate(ref.paths()):
            for l in range(L + 1):
                for q, pw in enumerate(powers):
                    e = exp[p, l][:, q]
                    close(y[:, i, l, q], e, 1e-4, 1e-5 * np.abs(e).max(), '%s path %s l=%d power %s' % (w, p, l, pw))
                    rep.eval((shape, rot, p, l, pw) if np.abs(e).max() > 1e-9 else None, len(x))


def run_case(case, rep):
    if case['kind'] == 'gaussians':
        return gaussians(rep)
    if case['kind'] == 'huge':
        return one(tuple(case['shape']), rep, 0, 1, (1.,))
    if case['kind'] == 'one':
        return one(tuple(case['shape']), rep)
    if case['kind'] == 'lengths':
        for n in case['lens']:
            one(tuple([2, 3, 2][:case['axis']] + [n] + [2, 3, 2][case['axis'] + 1:]), rep)
        return
    from kymatio.numpy import HarmonicScattering3D
    J, L, shape = case['J'], case['L'], tuple(case['shape'])
    x = volumes(shape, np.random.default_rng([SEED, 3]))
    for sigma in (1, .6, 2., 1.37):
        for rot in (True, False):
            ref = Ref3D(J, shape, L, sigma, 2, rot, ALL)
            exp = ref(x)
            for mo in (2, 1):
                for powers in ((.5, 1., 2.), (1.,), (2., .5), (1, 2, 3, 4), (1.5, .75), (.5, .5)):
                    if sigma != 1 and powers not in ((.5, 1., 2.), (1, 2, 3, 4)):
                        continue
                    ref.max_order = mo
                    w = 'J=%d L=%d shape=%s sigma_0=%s max_order=%d rotation_covariant=%s integral_powers=%s' % (J, L, shape, sigma, mo, rot, powers)
                    y = np.asarray(HarmonicScattering3D(J, shape, L=L, sigma_0=sigma, max_order=mo, rotation_covariant=rot, integral_powers=powers)(x))
                    paths = ref.paths()
                    if y.shape != (len(x), len(paths), L + 1, len(powers)):
                        raise Violation('%s: shape %s' % (w, y.shape))
                    for i, p in enumerate(paths):
                        for l in range(L + 1):
                            for q, pw in enumerate(powers):
                                e = exp[p, l][:, ALL.index(pw)]
                                tol = 1e-4 if pw >= 1 else 5e-3
                                err = close(y[:, i, l, q], e, tol, 1e-5 if pw >= 1 else 1e-2, '%s path %s l=%d power %s' % (w, p, l, pw))
                                rep.maximum('relative_error_power_%s' % pw, err if np.abs(e).max() > 1e-2 else 0)
                                rep.eval((J, L, shape, sigma, mo, rot, powers, p, l, pw) if np.abs(e).max() > 1e-9 else None, len(x))
    rep.sample(dict(config=w, path=p, l=l, values=np.round(y[:, -1, -1, -1], 6)))


def gaussians(rep):
    from kymatio.scattering3d.utils import generate_weighted_sum_of_gaussians as gen
    for shape in [(4, 4, 4), (5, 6, 7), (3, 8, 2)]:
        M, N, O = shape
        grid = np.mgrid[-(M // 2):M - M // 2, -(N // 2):N - N // 2, -(O // 2):O - O // 2].astype(float)
        for sigma in (.7, 1., 2.5):
            for n in (1, 2, 3):
                for wts in itertools.product((0., 1., -2.), repeat=n):
                    for second in ((1.,) * n, (0.,) * n):
                        pos = np.array([[[.5 * i - 1, -.3 * i, 1. - i * .7] for i in range(n)], [[.2 * i, i * .9 - 1, .1] for i in range(n)]])
                        weights = np.array([wts, second])
                        keep = (pos.copy(), weights.copy(), grid.copy())
                        out = gen(grid, pos, weights, sigma)
                        exp = np.zeros((2,) + shape)
                        for b in range(2):
                            for i in range(n):
                                if weights[b, i] == 0:
                                    break
                                d2 = ((grid - pos[b, i][:, None, None, None]) ** 2).sum(0)
                                exp[b] += weights[b, i] * np.exp(-d2 / (2 * sigma ** 2)) / (np.sqrt(2 * np.pi) * sigma) ** 3
                        close(out, exp, 1e-9, 1e-15, 'sum of Gaussians shape=%s sigma=%s weights=%s' % (shape, sigma, weights.tolist()))
                        for a, b in zip(keep, (pos, weights, grid)):
                            if not np.array_equal(a, b):
                                raise Violation('sum of Gaussians modifies its arguments')
                        rep.eval((shape, sigma, wts, second))
