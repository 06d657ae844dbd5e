import itertools, json
import numpy as np
from ..core import Violation, SEED
from .. import fe as F
from .c10 import prepad_size

LEVEL = 'exploration'
RULE = ('one evaluation = one (transform, configuration, frontend, out_type, batch shape, memory layout, coefficient entry); all batch shapes with at most 3 axes of extent 1..3 (40 shapes) plus a few larger ones, every number 1..260 (NumPy, PyTorch; 1..33 TensorFlow) and selected larger numbers of signals for tiny configurations, '
        'every memory layout of the menu for every shape of at most 2 axes; each entry of the batched output is compared with the transform of that signal alone; '
        'distinct_nontrivial = distinct evaluations with at least two different signals in the batch')
ASSUMPTIONS = ['entries of a batch are compared up to round-off (1e-9 in double, 2e-5 in single precision)', 'non-contiguous PyTorch tensors may be refused with an exception, never mis-computed',
               'empty batches are outside the domain']

SHAPES = [s for n in range(4) for s in itertools.product((1, 2, 3), repeat=n)]
EXTRA = [(17,), (5, 7), (1, 1, 1, 2), (2, 1, 2, 1, 2), (64,)]
LAYOUTS = ('C', 'F', 'strided', 'reversed', 'transposed', 'readonly', 'broadcast')


def cases(tier, seed):
    deep = tier == 'thorough'
    cf = [('1d', dict(J=3, shape=[19], Q=1)), ('1d', dict(J=2, shape=[8], Q=2, T='global')), ('1d', dict(J=2, shape=[9], Q=1, T=0)), ('1d', dict(J=3, shape=[16], Q=1, T=4, stride=2, max_order=1)),
          ('jtfs', dict(J=2, J_fr=1, shape=[16], Q=2)), ('jtfs', dict(J=3, J_fr=1, shape=[18], Q=2, format='joint')), ('jtfs', dict(J=2, J_fr=1, shape=[16], Q=2, T='global', F=0)),
          ('jtfs', dict(J=3, J_fr=2, shape=[16], Q=2, T=0, F='global', format='joint')), ('jtfs', dict(J=2, J_fr=1, shape=[12], Q=2, T='global', F='global', format='joint')),
          ('2d', dict(J=1, L=2, shape=[4, 3])), ('2d', dict(J=2, L=2, shape=[5, 8])), ('2d', dict(J=2, L=2, shape=[4, 5], pre_pad=True)),
          ('3d', dict(J=1, L=1, shape=[3, 4, 5])), ('3d', dict(J=0, L=2, shape=[4, 4, 2], rotation_covariant=False)), ('3d', dict(J=1, L=1, shape=[4, 3, 3], max_order=1, integral_powers=[1.]))]
    if deep:
        cf += [('1d', dict(J=5, shape=[100], Q=[4, 2])), ('1d', dict(J=1, shape=[2], Q=1)), ('jtfs', dict(J=4, J_fr=2, shape=[40], Q=4)), ('2d', dict(J=3, L=4, shape=[9, 16], max_order=1)),
               ('3d', dict(J=2, L=2, shape=[6, 6, 6]))]
    tiny = [('1d', dict(J=1, shape=[4], Q=1)), ('1d', dict(J=1, shape=[2], Q=1, T=0, out_type='list')), ('jtfs', dict(J=2, J_fr=0, shape=[4], Q=1)), ('jtfs', dict(J=2, J_fr=1, shape=[4], Q=1, format='joint')),
            ('2d', dict(J=1, L=1, shape=[2, 2])), ('2d', dict(J=1, L=2, shape=[3, 2], out_type='list')), ('3d', dict(J=0, L=1, shape=[2, 2, 2])), ('3d', dict(J=1, L=0, shape=[2, 1, 2], rotation_covariant=False))]
    for t, c in tiny:
        for fe in ('numpy', 'torch', 'tensorflow', 'jax'):
            sizes = list(range(1, 261 if fe in ('numpy', 'torch') else 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257]
            sizes += [511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4097] if fe in ('numpy', 'torch') or deep else []
            if fe == 'jax' and not deep:
                sizes = [1, 2, 3, 5, 16, 17, 33, 65, 129]
            if fe in ('numpy', 'torch'):
                sizes.append(((1 << 20) + 2) // int(np.prod(c['shape'])) + 1)
            yield dict(kind='sizes', t=t, fe=fe, cfg=c, sizes=sorted(set(sizes)), cost={'jax': 6, 'tensorflow': 6}.get(fe, 4))
    for t, c in cf:
        for fe in ('numpy', 'torch', 'tensorflow', 'jax'):
            ots = ('array',) if t == '3d' else ('array', 'list') if t == '2d' else ('array', 'list', 'dict')
            if t in ('1d', 'jtfs') and (c.get('T') == 0 or c.get('F') == 0 and c.get('format') == 'joint'):
                ots = ots[1:]
            if fe == 'jax' and not deep:
                ots = ots[:1]
            yield dict(t=t, fe=fe, cfg=c, ots=ots, deep=deep, cost={'jax': 9, 'tensorflow': 7}.get(fe, 1))


def layout(a, kind, fe):
    if kind == 'C':
        return a
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'strided':
        big = np.full(tuple(2 * n for n in a.shape), 99., a.dtype)
        sl = tuple(slice(1, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    if kind == 'reversed':
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[sl])[sl]
    if kind == 'transposed':
        return np.ascontiguousarray(a.T).T
    if kind == 'readonly':
        a = a.copy()
        a.setflags(write=False)
        return a
    if kind == 'broadcast':
        return a                      # handled by the caller
    raise ValueError(kind)


def give(fe, a):
    if fe == 'torch':
        import torch
        if any(s < 0 for s in a.strides):
            return None
        a = a if a.flags.writeable else a.copy()
        return torch.from_numpy(a)
    return a if fe == 'numpy' else F.tensor(fe, a)


def sizes(case, rep):
    """Every number of signals along one batch axis (and split over two axes)."""
    t, fe, cfg = case['t'], case['fe'], case['cfg']
    sig = tuple(cfg['shape'])
    dtype = 'float64' if fe == 'numpy' else 'float32'
    pool = np.random.default_rng([SEED, 11, 1]).standard_normal((61,) + sig).astype(dtype)
    S = F.build(t, fe, cfg)
    alone = [F.canon(S(F.tensor(fe, x)), fe, 'single signal') for x in pool]
    rtol, atol = ((1e-9, 1e-11) if t != '3d' else (1e-5, 1e-5)) if fe == 'numpy' else (1e-4, 1e-5) if t != '3d' else (1e-3, 1e-4)
    for n in case['sizes']:
        ids = (np.arange(n) * 7 + 3) % 61
        for bs in ((n,), (n // 2, 2) if n % 2 == 0 else (1, n)):
            w = '%s %s frontend=%s batch %s' % (t, json.dumps(cfg), fe, bs)
            got = F.canon(S(F.tensor(fe, pool[ids].reshape(bs + sig))), fe, w)
            if [k for k, _ in got] != [k for k, _ in alone[0]]:
                raise Violation('%s: keys or metadata change with the batch' % w)
            for e, (k, v) in enumerate(got):
                exp = np.stack([a[e][1] for a in alone])[ids].reshape(bs + alone[0][e][1].shape)
                F.same([(k, v)], [(k, exp)], rtol, atol, w)
                rep.eval((t, json.dumps(cfg), fe, bs, k) if n > 1 else None, n)
    rep.sample(dict(config=cfg, frontend=fe, batch=bs, output_shape=list(got[0][1].shape)))


def run_case(case, rep):
    if case.get('kind') == 'sizes':
        return sizes(case, rep)
    t, fe, cfg = case['t'], case['fe'], case['cfg']
    nd = F.NDIM[t]
    sig = tuple(cfg['shape'])
    if cfg.get('pre_pad'):
        sig = tuple(prepad_size(n, cfg['J']) for n in sig)
    dtype = 'float64' if fe == 'numpy' else 'float32'
    rng = np.random.default_rng([SEED, 11])
    pool = rng.standard_normal((70,) + sig).astype(dtype)
    rtol = 1e-9 if fe == 'numpy' else 1e-4
    atol = 1e-10 if fe == 'numpy' else 1e-4 if cfg.get('T') == 'global' or t == '3d' else 1e-5
    if t == '3d':
        rtol, atol = 1e-3, 1e-2
    shapes = SHAPES + EXTRA
    if fe == 'jax' and not case['deep']:
        shapes = [s for s in SHAPES if len(s) <= 2] + [(1, 2, 3), (2, 1, 1)]
    elif fe == 'tensorflow' and not case['deep']:
        shapes = [s for s in SHAPES if len(s) <= 2 or s in ((3, 1, 2), (1, 2, 3), (2, 2, 2), (1, 1, 1), (2, 3, 1))] + EXTRA[:3]
    for ot in case['ots']:
        S = F.build(t, fe, cfg if t == '3d' else dict(cfg, out_type=ot))
        alone = []
        for i in range(max(int(np.prod(s)) for s in shapes)):
            alone.append(F.canon(S(F.tensor(fe, pool[i])), fe, 'single signal'))
        for bs in shapes:
            n = int(np.prod(bs))
            ids = np.arange(n)
            if n > 2:
                ids[-1] = ids[0]                       # a duplicate
            ids = ids[::-1].reshape(bs)
            for lay in (LAYOUTS if len(bs) <= 2 and fe in ('numpy', 'torch') or bs in ((2, 3), ()) else ('C',)):
                if lay == 'broadcast':
                    if not bs:
                        continue
                    ids2 = np.broadcast_to(np.arange(1), bs)
                    a = np.broadcast_to(pool[0], bs + sig)
                    if fe == 'torch':
                        import torch
                        x = torch.from_numpy(pool[0]).expand(bs + sig)
                    else:
                        x = give(fe, a)
                else:
                    ids2 = ids
                    a = layout(pool[ids], lay, fe)
                    x = give(fe, a)
                if x is None:
                    continue
                w = '%s %s frontend=%s out_type=%s batch %s layout %s' % (t, json.dumps(cfg), fe, ot, bs, lay)
                before = np.array(a)
                try:
                    y = S(x)
                except RuntimeError as e:
                    if fe == 'torch' and not x.is_contiguous():
                        rep.add('refused_non_contiguous')
                        continue
                    raise
                if not np.array_equal(before, np.asarray(a)):
                    raise Violation('%s: the input was modified' % w)
                got = F.canon(y, fe, w)
                if [k for k, _ in got] != [k for k, _ in alone[0]]:
                    raise Violation('%s: keys or metadata change with the batch' % w)
                for e, (k, v) in enumerate(got):
                    core = alone[0][e][1].shape
                    if v.shape != bs + core:
                        raise Violation('%s %s: shape %s instead of %s' % (w, k, v.shape, bs + core))
                    exp = np.stack([alone[i][e][1] for i in ids2.ravel()]).reshape(bs + core)
                    F.same([(k, v)], [(k, exp)], rtol, atol, w)
                    rep.eval((t, json.dumps(cfg), fe, ot, bs, lay, k) if n > 1 else None, n)
    rep.sample(dict(config=cfg, frontend=fe, batch=bs, output_shape=list(got[0][1].shape)))
