import itertools
import numpy as np
from ..core import Violation, close, product, SEED
from ..ref1d import Ref1D, signals, wavelets

LEVEL = 'exploration'
RULE = ('one evaluation = one (configuration, signal, path) coefficient map compared with the reference; the lattice of '
        '(J, N, Q, T, stride) is enumerated completely, each crossed with T in local/0/global, max_order 1/2 and all three out_types; '
        'distinct_nontrivial = distinct (configuration, path) whose reference output is not identically zero')
ASSUMPTIONS = ['sizes beyond the lattice are not explored', 'NumPy FFT is trusted']


def strides(T):
    import math
    return [2 ** k for k in range(int(math.floor(math.log2(T))) + 1)]


def cases(tier, seed):
    deep = tier == 'thorough'
    # A. small sizes, complete lattice
    Ns = list(range(8, 34)) + [47, 63, 64, 65] if not deep else list(range(4, 130))
    for J in range(1, 7 if not deep else 8):
        group = []
        for N in Ns:
            if 2 ** J > N:
                continue
            for Q in (1, 2, (1, 2), (3, 1), (2, 2)) if not deep else (1, 2, 3, 4, (1, 2), (2, 2), (4, 2), (3, 3), (6, 1)):
                group.append([N, Q])
        for i in range(0, len(group), 6):
            yield dict(kind='lattice', J=J, group=group[i:i + 6], cost=J)
    # B. realistic sizes
    for J, N, Q in [(3, 100, 4), (4, 128, 8), (5, 200, 8), (6, 256, 3), (6, 512, 8), (7, 400, (4, 2)), (8, 512, 6),
                    (4, 257, 16), (5, 300, (8, 2)), (9, 512, 12), (7, 128, (3, 1)), (3, 64, (4, 2)), (2, 33, (8, 1)), (10, 2048, (8, 1)), (6, 777, (16, 2))] + (
                   [(10, 2048, 8), (11, 4096, 16), (6, 1000, (12, 3)), (8, 1025, (16, 4))] if deep else []):
        yield dict(kind='large', J=J, N=N, Q=Q, cost=10 * J)
    # every length of a range, and lengths around powers of two
    Ns = list(range(34, 301 if not deep else 1101))
    for i in range(0, len(Ns), 12):
        yield dict(kind='sizes', Ns=Ns[i:i + 12], cost=8)
    for N in (511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3001, 4095, 4096, 4097) + ((8191, 8192, 8193, 16385, 40000, 65536) if deep else ()):
        yield dict(kind='sizes', Ns=[N], cost=20)
    for N in (65537, 100003, 262145) + ((1 << 20, 1500000) if deep else ()):
        yield dict(kind='huge', N=N, cost=60)
    for fe in ('numpy', 'torch', 'tensorflow', 'sklearn', 'jax', 'keras'):
        yield dict(kind='oversampling', fe=fe, cost=20)
    # C. every ternary signal of length 8
    for J in (1, 2, 3):
        for Q in (1, 2):
            yield dict(kind='ternary', J=J, N=8, Q=Q, cost=5)
    if deep:
        for J in (1, 2, 3):
            yield dict(kind='ternary', J=J, N=10, Q=1, cost=50)


def tset(J, N):
    full = [None, 0, 'global', 1, 2, 3, 2 ** J - 1, 2 ** J, 2 ** J + 1, 2 ** (J + 1), 5.5, N / 2, N]
    out = []
    for T in full:
        if T is None or isinstance(T, str) or T == 0 or (1 <= T <= N):
            if T not in out:
                out.append(T)
    return out


def check_config(rep, J, N, Q, T, stride, x, out_types=('array', 'list', 'dict'), orders=(2, 1)):
    from kymatio.numpy import Scattering1D
    Qk = tuple(Q) if isinstance(Q, list) else Q
    cfg = dict(J=J, N=N, Q=Q, T=T, stride=stride)
    ref = Ref1D(J, N, Qk, T, stride)
    expected = ref(x)
    for mo in orders:
        ref.max_order = mo
        paths = ref.paths()
        for ot in out_types:
            if T == 0 and ot == 'array':
                continue
            S = Scattering1D(J, N, Q=Qk, T=T, stride=stride, max_order=mo, out_type=ot)
            y = S(x)
            w = '%s max_order=%d out_type=%s' % (cfg, mo, ot)
            if ot == 'dict':
                if set(y) != set(paths):
                    raise Violation('%s: keys differ from the documented paths: %s' % (w, sorted(set(y) ^ set(paths))[:5]))
                get = lambda i, p: y[p]
            elif ot == 'list':
                got = [tuple(int(v) for v in d['n']) for d in y]
                if got != paths:
                    raise Violation('%s: list order %s, documented %s' % (w, got[:8], paths[:8]))
                for d, p in zip(y, paths):
                    j = tuple(b[n][2] for b, n in zip((ref.psi1, ref.psi2), p))
                    if tuple(int(v) for v in d['j']) != j:
                        raise Violation('%s: path %s has j=%s instead of %s' % (w, p, d['j'], j))
                get = lambda i, p: y[i]['coef']
            else:
                if y.shape[-2] != len(paths):
                    raise Violation('%s: %d channels instead of %d' % (w, y.shape[-2], len(paths)))
                get = lambda i, p: y[..., i, :]
            for i, p in enumerate(paths):
                e = expected[p]
                err = close(get(i, p), e, 1e-6, 1e-9, '%s path %s' % (w, p))
                rep.maximum('relative_error', err)
                rep.eval((J, N, Q, T, stride, mo, ot, p) if np.any(np.abs(e) > 1e-12) else None, len(x))
    rep.add('configurations')
    p = ref.paths()[-1]
    rep.sample(dict(config=cfg, path=p, coefficient_of_last_signal=np.round(np.asarray(get(len(ref.paths()) - 1, p))[-1].ravel()[:6], 8)))


def oversampling(fe, rep):
    """The deprecated spelling of a stride: oversampling=k stands for stride=2**(log2(T)-k)."""
    from .. import fe as F
    rng = np.random.default_rng([SEED, 1, 4])
    for J, N, Q in ((3, 32, 2), (2, 17, 1)) if fe in ('numpy', 'torch', 'sklearn') else ((3, 32, 1),):
        x = rng.standard_normal((2, N)).astype('float64' if fe in ('numpy', 'sklearn') else 'float32')
        for T in (None, 2, 3, 4, 7, 11, 16) if fe in ('numpy', 'torch', 'sklearn') else (None, 4):
            log2T = J if T is None else int(np.floor(np.log2(T)))
            for k in range(log2T + 1):
                s = 2 ** (log2T - k)
                for ot in ('array', 'list') if fe not in ('keras', 'jax') else ('array',):
                    base = dict(J=J, shape=[N], Q=Q, T=T) if fe == 'keras' else dict(J=J, shape=[N], Q=Q, T=T, out_type=ot)
                    w = '%s %s oversampling=%d' % (fe, base, k)
                    fe0 = 'tensorflow' if fe == 'keras' else fe             # the Keras layer has no stride
                    want = F.build('1d', fe0, dict(base, stride=s))
                    exp = F.canon(want(F.tensor(fe0, x)), fe0, w)
                    for extra in (dict(), dict(stride=s)) if fe != 'keras' else (dict(),):
                        S = F.build('1d', fe, dict(base, oversampling=k, **extra))
                        F.same(F.canon(S(F.tensor(fe, x)), fe, w), exp, 1e-6, 1e-7, w)
                        if fe != 'keras' and S.stride != s:
                            raise Violation('%s: stride %s instead of %s' % (w, S.stride, s))
                        m, m0 = S.meta(), want.meta()
                        if any(repr(m[key]) != repr(m0[key]) for key in m0):
                            raise Violation('%s: meta() differs from that of stride=%d' % (w, s))
                        rep.eval((fe, J, N, T, k, ot, bool(extra)) if k else None, len(exp))
    rep.sample(dict(case=w, shape=list(exp[0][1].shape)))


def run_case(case, rep):
    rng = np.random.default_rng([SEED, 1])
    J = case.get('J')
    if case['kind'] == 'oversampling':
        return oversampling(case['fe'], rep)
    if case['kind'] == 'huge':
        x = np.random.default_rng([SEED, 1, 3]).standard_normal((1, case['N']))
        x[:, :100] *= 10
        for J, Q, T, ot in ((2, 1, None, 'array'), (3, 1, 0, 'dict'), (1, 1, 'global', 'list')):
            check_config(rep, J, case['N'], Q, T, None, x, (ot,), (2,))
        return
    if case['kind'] == 'lattice':
        for N, Q in case['group']:
            x = signals(N, rng, impulses=8)
            for T in tset(J, N):
                if T is None or T in (0, 'global'):
                    st = [None] + (strides(2 ** J) if T is None else [])
                else:
                    st = [None] + strides(T)
                for s in st:
                    first = s in (None, 1)
                    check_config(rep, J, N, Q, T, s, x, ('array', 'list', 'dict') if first else ('dict',),
                                 (2, 1) if first else (2,))
    elif case['kind'] == 'sizes':
        for N in case['Ns']:
            x = signals(N, rng, impulses=2, dense=1)[-5:]
            for J, Q, T, ot in ((3, (2, 1), None, 'array'), (1, 1, N, 'dict'), (4, 2, 'global', 'list'), (2, 1, 0, 'dict'), (5, 1, 3, 'array')):
                check_config(rep, J, N, Q, T, None, x, (ot,), (2,))
    elif case['kind'] == 'large':
        N = case['N']
        x = signals(N, rng, impulses=4, dense=2)
        for T in [None, 0, 'global', 2 ** J // 2, 1, N]:
            st = [None, 1, 2 ** J // 4] if T is None else [None]
            for s in st:
                check_config(rep, J, N, case['Q'], T, s, x, ('dict', 'array'), (2, 1))
    else:
        N = case['N']
        x = np.array(list(itertools.product((-1., 0., 1.), repeat=N)))
        for T in [None, 0, 'global', 1, N]:
            for s in ([None] + strides(2 ** J)) if T is None else [None]:
                check_config(rep, J, N, case['Q'], T, s, x, ('dict',), (2,))
