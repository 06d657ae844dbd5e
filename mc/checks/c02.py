import numpy as np
from ..core import Violation, close, SEED
from ..ref2d import Ref2D, images

LEVEL = 'exploration'
RULE = ('one evaluation = one (configuration, image, path) map compared with the reference; all (J, L, M, N, pre_pad) of the lattice, each with max_order 1/2 and both out_types; '
        'distinct_nontrivial = distinct (configuration, path) with non-zero reference map')
ASSUMPTIONS = ['kymatio keeps 2-D filters in single precision and normalises with 3.1415, hence the tolerance 2e-4 of each path maximum']


def cases(tier, seed):
    deep = tier == 'thorough'
    shapes = {1: [(a, b) for a in range(2, 9) for b in range(2, 9)] + [(13, 2), (16, 16), (7, 30)],
              2: [(a, b) for a in range(4, 12, 1 if deep else 2) for b in range(4, 13, 1 if deep else 3)] + [(5, 9), (16, 16), (17, 23), (32, 12)],
              3: [(8, 8), (8, 15), (9, 24), (16, 16), (23, 8), (17, 31)] + ([(a, b) for a in range(8, 20, 3) for b in range(8, 26, 3)] if deep else []),
              4: [(16, 16), (19, 33), (16, 48)] if not deep else [(16, 16), (19, 33), (32, 32), (31, 17), (48, 16)]}
    shapes[5] = [(32, 32), (33, 50)] + ([(47, 32), (64, 64)] if deep else [])
    if deep:
        shapes[6] = [(64, 64)]
    for J, lst in shapes.items():
        Ls = {1: (1, 2, 3, 4, 5, 8, 12), 2: (1, 2, 3, 5, 6, 8, 12), 3: (1, 2, 3, 5, 8), 4: (1, 2, 4, 6), 5: (1, 2), 6: (1, 2)}[J]
        if deep:
            Ls = sorted(set(Ls) | {7, 8, 12, 16} if J < 4 else set(Ls) | {3})
        for L in Ls:
            group = lst if J == 1 else None
            if group:
                for i in range(0, len(lst), 7):
                    yield dict(J=J, L=L, shapes=lst[i:i + 7], cost=1)
            else:
                for s in lst:
                    yield dict(J=J, L=L, shapes=[s], cost=J ** 4 * L)


    # every height and every width of a range
    top = 131 if not deep else 301
    lens = list(range(4, top)) + [255, 256, 257, 511, 512, 513] + ([1023, 1024, 1025, 2049] if deep else [])
    for i in range(0, len(lens), 9):
        yield dict(J=2, L=2, shapes=[(n, 5) for n in lens[i:i + 9]], cost=40, thin=True)
        yield dict(J=1, L=3, shapes=[(3, n) for n in lens[i:i + 9]], cost=40, thin=True)
        yield dict(J=2, L=1, shapes=[(4, n) for n in lens[i:i + 9]], cost=40, thin=True)
    for s in [(64, 64), (65, 63), (100, 129), (130, 97), (256, 200)]:
        yield dict(J=2, L=2, shapes=[s], cost=60, thin=True)
    for s in [(530, 600)] + ([(1030, 1025)] if deep else []):
        yield dict(J=1, L=1, shapes=[s], cost=80, thin=True)


def run_case(case, rep):
    from kymatio.numpy import Scattering2D
    J, L = case['J'], case['L']
    rng = np.random.default_rng([SEED, 2])
    for M, N in case['shapes']:
        for pre in (False, True):
            ref = Ref2D(J, (M, N), L, 2, pre)
            x = images(*((ref.Mp, ref.Np) if pre else (M, N)), rng)
            if case.get('thin'):
                x = x[[1, 2, -1]]
            elif J >= 3 and L > 3:
                x = x[[1, 2, 6, 7, -1]]
            exp = ref(x)
            for mo in (2, 1):
                ref.max_order = mo
                for ot in ('array', 'list') if not case.get('thin') else ('array',) if mo == 2 else ():
                    if ot == 'list' and mo == 1 and J > 2:
                        continue
                    w = 'J=%d L=%d shape=%s pre_pad=%s max_order=%d out_type=%s' % (J, L, (M, N), pre, mo, ot)
                    if mo == 2 and ot == 'array' or J <= 2:
                        S = Scattering2D(J, (M, N), L=L, max_order=mo, pre_pad=pre, out_type=ot)
                    else:
                        S.max_order, S.out_type = mo, ot
                    y = S(x)
                    paths = ref.paths()
                    if len(paths) != (y.shape[1] if ot == 'array' else len(y)):
                        raise Violation('%s: number of paths' % w)
                    for i, p in enumerate(paths):
                        e = exp[p]
                        if e.shape[1:] != (M // 2 ** J, N // 2 ** J):
                            raise AssertionError('reference shape')
                        if ot == 'list' and (tuple(y[i]['n']) != p or tuple(y[i]['j']) != tuple(a // L for a in p)
                                             or tuple(y[i]['theta']) != tuple(a % L for a in p)):
                            raise Violation('%s: path %d is %s' % (w, i, {k: v for k, v in y[i].items() if k != 'coef'}))
                        got = y[:, i] if ot == 'array' else y[i]['coef']
                        if got.dtype != x.dtype:
                            raise Violation('%s path %s: %s coefficients of a %s image' % (w, p, got.dtype, x.dtype))
                        err = close(got, e, 2e-4, 1e-6, '%s path %s' % (w, p))
                        rep.maximum('relative_error', err if np.abs(e).max() > 1e-3 else 0)
                        rep.eval((J, L, M, N, pre, mo, ot, p) if np.abs(e).max() > 1e-9 else None, len(x))
    rep.sample(dict(config=w, path=p, values=np.round(np.asarray(got)[-1].ravel()[:6], 7)))
