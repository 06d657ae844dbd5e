import json
import numpy as np
from ..core import Violation, SEED
from .. import fe as F
from ..ref1d import signals
from ..ref2d import images
from ..ref3d import volumes

LEVEL = 'exploration'
RULE = ('one evaluation = one coefficient array of one (transform, configuration, frontend, dtype, out_type, call mode) compared with the NumPy frontend on the same batch; '
        'the lattice is enumerated completely for every frontend; distinct_nontrivial = distinct (transform, configuration, frontend, out_type, mode, entry) with a non-zero NumPy value')
ASSUMPTIONS = ['the NumPy frontend is decided by C01-C04', 'PyTorch modules are converted with .double() for double-precision input (PyTorch convention)',
               'the skcuda/CUDA backends cannot run in this sandbox']


def configs(tier):
    deep = tier == 'thorough'
    one = []
    for J, N, Q in [(1, 8, 1), (2, 13, 1), (3, 32, 2), (3, 33, [2, 1]), (4, 50, 1), (4, 64, 8)] + (
            [(1, 2, 1), (2, 9, 3), (5, 100, [4, 2]), (6, 256, 8), (5, 37, 2), (6, 127, [8, 2])] if deep else []):
        for T in (None, 0, 'global', 2, N):
            for stride in (None, 1) + ((2,) if T in (None, N) and 2 ** J >= 2 else ()):
                if stride and T in (0, 'global'):
                    continue
                if stride and J > 3 and not deep and T != N:
                    continue
                for mo in (2, 1):
                    if mo == 1 and not (stride is None and T in (None, 0)):
                        continue
                    one.append(('1d', dict(J=J, shape=[N], Q=Q, T=T, stride=stride, max_order=mo)))
    jt = []
    for J, J_fr, N, Q in [(3, 2, 33, 4), (4, 1, 40, [4, 2])] + ([(5, 3, 64, 8), (4, 0, 32, 2), (3, 2, 50, [3, 1])] if deep else []):
        for T in (None, 0, 'global'):
            for Fr in (None, 0, 'global', 2):
                for fmt in ('time', 'joint'):
                    if not deep and (T in (0, 'global')) and Fr == 2:
                        continue
                    jt.append(('jtfs', dict(J=J, J_fr=J_fr, shape=[N], Q=Q, T=T, F=Fr, format=fmt)))
        jt.append(('jtfs', dict(J=J, J_fr=J_fr, shape=[N], Q=Q, T=2, stride=1, F=2, stride_fr=1, format='time')))
        jt.append(('jtfs', dict(J=J, J_fr=J_fr, shape=[N], Q=Q, stride=2, Q_fr=2, format='joint')))
    two = []
    for J, L, sh in [(1, 1, [2, 2]), (1, 3, [5, 4]), (2, 2, [4, 4]), (2, 4, [9, 6]), (2, 3, [4, 7]), (3, 2, [8, 17]), (2, 8, [16, 16])] + (
            [(1, 8, [3, 2]), (3, 3, [16, 8]), (4, 2, [16, 33]), (3, 8, [32, 32]), (2, 5, [5, 4])] if deep else []):
        for mo in (2, 1):
            for pre in (False, True):
                if mo == 1 and pre and not deep:
                    continue
                two.append(('2d', dict(J=J, L=L, shape=sh, max_order=mo, pre_pad=pre)))
    thr = []
    for J, L, sh in [(0, 0, [3, 4, 5]), (1, 1, [4, 4, 4]), (2, 2, [8, 6, 7]), (2, 3, [8, 8, 8])] + ([(3, 2, [9, 8, 8]), (1, 4, [12, 5, 6]), (2, 1, [16, 16, 16])] if deep else []):
        for rot in (True, False):
            for kw in (dict(), dict(max_order=1), dict(integral_powers=[1.], sigma_0=.7), dict(integral_powers=[2., .5])):
                thr.append(('3d', dict(J=J, L=L, shape=sh, rotation_covariant=rot, **kw)))
    return one, jt, two, thr


def sizes(deep):
    """Lengths of a range, for the frontends which need no compilation."""
    for n in list(range(34, 131 if not deep else 401)) + [200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049]:
        yield '1d', dict(J=3, shape=[n], Q=[2, 1]), n
        yield '1d', dict(J=2, shape=[n], T='global'), n
        if n <= 257:
            yield 'jtfs', dict(J=2, J_fr=1, shape=[n], Q=2), n
            yield '2d', dict(J=1, L=2, shape=[n, 3]), n
            yield '2d', dict(J=2, L=1, shape=[5, n]), n
        if n <= 70:
            for axis in range(3):
                yield '3d', dict(J=1, L=1, shape=[2, 3, 2][:axis] + [n] + [2, 3, 2][axis + 1:], integral_powers=[1., 2.]), n


def cases(tier, seed):
    for k, c in enumerate(_cases(tier)):
        yield dict(c, k=k)


def _cases(tier):
    one, jt, two, thr = configs(tier)
    seen = {}
    for t, c in one + jt + two + thr:
        for fe in F.FRONTENDS:
            if fe == 'keras' and (t in ('jtfs', '3d') or c.get('T') == 0 or c.get('stride')):
                continue
            size = {'sklearn': 24, 'torch': 14, 'tensorflow': 8, 'keras': 8, 'jax': 2, 'numpy': 24}[fe]
            seen.setdefault((t, fe), []).append(c)
            if len(seen[t, fe]) == size:
                yield dict(t=t, fe=fe, group=seen.pop((t, fe)), deep=tier == 'thorough', cost={'jax': 5, 'keras': 2, 'tensorflow': 3}.get(fe, 1))
    deep, group = tier == 'thorough', {}
    for t, c, n in sizes(deep):
        for fe in ('sklearn', 'torch', 'tensorflow', 'jax'):
            if fe == 'tensorflow' and not deep and n not in (34, 49, 63, 64, 65, 127, 128, 129, 256, 513, 1024, 2049) or fe == 'jax' and not deep and n not in (65, 257):
                continue
            group.setdefault((t, fe), []).append(c)
            if len(group[t, fe]) == {'torch': 24, 'sklearn': 48, 'tensorflow': 12, 'jax': 2}[fe]:
                yield dict(t=t, fe=fe, group=group.pop((t, fe)), deep=False, single=True, cost={'jax': 5, 'tensorflow': 3}.get(fe, 1))
    for (t, fe), g in group.items():
        yield dict(t=t, fe=fe, group=g, deep=False, single=True, cost={'jax': 5, 'tensorflow': 3}.get(fe, 1))
    for (t, fe), g in seen.items():
        yield dict(t=t, fe=fe, group=g, deep=tier == 'thorough', cost={'jax': 5, 'keras': 2, 'tensorflow': 3}.get(fe, 1))


def inputs(t, cfg, S=None):
    rng = np.random.default_rng([SEED, 10])
    sh = tuple(cfg['shape'])
    if t in ('1d', 'jtfs'):
        return signals(sh[0], rng, impulses=2)[-6:]
    if t == '2d':
        if cfg.get('pre_pad'):
            sh = tuple(prepad_size(n, cfg['J']) for n in sh)
        return images(*sh, rng)[-4:]
    x = volumes(sh, rng)
    return np.concatenate([x[:2], x[-1:]])


def prepad_size(n, J):
    # padded size of the documented transform: at least n + 2**(J+1), multiple of 2**J
    s = 2 ** J
    return ((n + s) // s + 1) * s


def tolerances(t, fe, dtype, k):
    """(relative, absolute) for one entry."""
    if t == '3d':
        return 2e-4, 2e-3      # power 1/2 amplifies the round-off of single-precision filters; scale is tested by C03
    return 2e-5, 2e-6


def compare3(got, exp, powers, dtype, what):
    """3-D outputs: tolerance per integral power."""
    (k, a), (_, b) = got[0], exp[0]
    if len(got) != 1 or a.shape != b.shape:
        raise Violation('%s: shape %s instead of %s' % (what, a.shape, b.shape))
    for i, p in enumerate(powers):
        rt, at = (5e-5, 1e-5) if p >= 1 else (2e-3, 2e-2)
        F.same([(k, a[..., i])], [(k, b[..., i])], rt, at, '%s power %s' % (what, p))


def graph(tf, S, ot):
    """S as a graph function (converted by AutoGraph as in user code)."""
    def as_array(v):
        return S(v)

    def as_list(v):
        return [d['coef'] for d in S(v)]

    def as_dict(v):
        return list(S(v).values())
    return tf.function({'array': as_array, 'list': as_list, 'dict': as_dict}[ot])


def run_case(case, rep):
    t, fe = case['t'], case['fe']
    for ci, cfg in enumerate(case['group']):
        powers = cfg.get('integral_powers', (.5, 1., 2.))
        x = inputs(t, cfg)
        ots = ('array',) if t == '3d' else ('array', 'list') if t == '2d' else ('array', 'list', 'dict')
        if t in ('1d', 'jtfs') and (cfg.get('T') == 0 or cfg.get('F') == 0 and cfg.get('format') == 'joint'):
            ots = ots[1:]
        if case.get('single'):
            ots = ots[:1]
        for ot in ots:
            if fe == 'keras' and ot != 'array':
                continue
            if fe == 'jax' and not case['deep'] and t != '3d' and ot != ots[(case['k'] + ci) % len(ots)]:
                continue        # every JAX shape costs a compilation: the out_type rotates over configurations
            full = dict(cfg) if t == '3d' else dict(cfg, out_type=ot)
            ref = F.build(t, 'numpy', full)
            S = F.build(t, fe, full)
            modes = [('float64', 'call'), ('float32', 'call')]
            if fe == 'tensorflow' and ot == ots[-1] or fe == 'jax' and (case['deep'] or (case['k'] + ci) % 2 == 0):
                modes.append(('float32', 'graph'))
            if fe == 'jax':
                modes = modes[1:] + ([('float64', 'x64')] if case['deep'] or (case['k'] + ci) % 4 == 1 else [])
            exp = {d: F.canon(ref(x.astype(d)), 'numpy', '%s NumPy %s' % (t, full)) for d in ('float64', 'float32')}
            for dtype, mode in modes:
                w = '%s %s frontend=%s dtype=%s mode=%s' % (t, json.dumps(full), fe, dtype, mode)
                xs = x.astype(dtype)
                if fe == 'torch' and dtype == 'float64':
                    S = F.build(t, fe, full).double()
                elif fe == 'torch':
                    S = F.build(t, fe, full)
                f = S.scattering if fe in ('numpy', 'sklearn') else S
                if mode == 'x64':
                    import jax
                    with jax.experimental.enable_x64():
                        got = F.canon(f(F.tensor(fe, xs)), fe, w)
                elif mode == 'graph' and fe == 'jax':
                    import jax
                    strip = (lambda y: [d['coef'] for d in y]) if ot == 'list' else (lambda y: y)
                    y = jax.jit(lambda v: strip(S(v)))(F.tensor(fe, xs))
                    if ot == 'list':
                        y = [dict(e, coef=v) for e, v in zip(ref(xs), y)]
                    elif ot == 'dict':
                        y = {k: y[k] for k in ref(xs) if k in y}    # jit sorts dictionary keys
                    got = F.canon(y, fe, w)
                elif mode == 'graph':
                    import tensorflow as tf
                    y = graph(tf, S, ot)(F.tensor(fe, xs))
                    if ot == 'list':
                        y = [dict(e, coef=v) for e, v in zip(ref(xs), y)]
                    elif ot == 'dict':
                        y = dict(zip(ref(xs), y))
                    got = F.canon(y, fe, w)
                else:
                    y = f(F.tensor(fe, xs))
                    got = F.canon(y, fe, w)
                    if fe == 'torch' and t != '3d':      # 3-D integrals are single precision in every frontend
                        for k, v in got:
                            if v.dtype != np.dtype(dtype):
                                raise Violation('%s: output of dtype %s' % (w, v.dtype))
                if t == '3d':
                    compare3(got, exp[dtype], powers, dtype, w)
                else:
                    # absolute floor relative to the signal, not to the path (single-precision round-off)
                    F.same(got, exp[dtype], 2e-5, 3e-6 * np.abs(x).max() * (x.shape[-1] if cfg.get('T') == 'global' or cfg.get('F') == 'global' else 1), w)
                for k, v in exp[dtype]:
                    rep.eval((t, json.dumps(full), fe, mode, k) if np.abs(v).max() > 1e-9 else None)
            # one-step path for estimators
            if fe == 'sklearn' and ot == 'array':
                w = '%s %s sklearn transform' % (t, json.dumps(full))
                y = S.transform(x.reshape(len(x), -1))
                F.same([('array', np.asarray(y))], [('array', exp['float64'][0][1].reshape(len(x), -1))], 2e-5, 1e-6, w)
                rep.eval((t, json.dumps(full), 'sklearn.transform'))
        rep.add('configurations')
    rep.sample(dict(config=full, frontend=fe, values=np.round(got[-1][1].ravel()[:4].astype(float), 7)))
