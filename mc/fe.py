"""Uniform access to the six frontends (used by the checks that compare or exercise them)."""
import importlib
import numpy as np
from .core import Violation

CLASSES = {'1d': 'Scattering1D', 'jtfs': 'TimeFrequencyScattering', '2d': 'Scattering2D', '3d': 'HarmonicScattering3D'}
NDIM = {'1d': 1, 'jtfs': 1, '2d': 2, '3d': 3}
FRONTENDS = ('numpy', 'sklearn', 'torch', 'tensorflow', 'keras', 'jax')


def cls(transform, fe):
    if fe == 'torch':
        import torch
        torch.set_num_threads(1)
    if fe in ('tensorflow', 'keras'):
        import tensorflow as tf
        import logging
        tf.get_logger().setLevel(logging.ERROR)
    return getattr(importlib.import_module('kymatio.' + fe), CLASSES[transform])


def build(transform, fe, cfg):
    """cfg holds constructor arguments (JSON lists stand for tuples)."""
    kw = {k: (tuple(v) if isinstance(v, list) else v) for k, v in cfg.items()}
    if fe == 'keras':
        kw.pop('shape'); kw.pop('stride', None)
        kw.pop('out_type', None)
    return cls(transform, fe)(**kw)


def tensor(fe, x, dtype=None):
    x = np.asarray(x) if dtype is None else np.asarray(x, dtype)
    if fe == 'torch':
        import torch
        return torch.from_numpy(np.ascontiguousarray(x))
    if fe in ('tensorflow', 'keras'):
        import tensorflow as tf
        return tf.convert_to_tensor(x)
    if fe == 'jax':
        import jax.numpy as jnp
        return jnp.asarray(x)
    return x


def native(fe, y):
    """Is y an array of the framework?"""
    if fe == 'torch':
        import torch
        return isinstance(y, torch.Tensor)
    if fe in ('tensorflow', 'keras'):
        import tensorflow as tf
        return tf.is_tensor(y)
    if fe == 'jax':
        import jax
        return isinstance(y, jax.Array)
    return isinstance(y, np.ndarray)


def to_numpy(y):
    if hasattr(y, 'detach'):
        y = y.detach().cpu().numpy()
    return np.asarray(y)


def plain(v):
    """Metadata value -> comparable plain Python."""
    if isinstance(v, (list, tuple)):
        return tuple(plain(a) for a in v)
    if hasattr(v, 'item') and getattr(v, 'ndim', 1) == 0:
        return v.item()
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    return v


def canon(y, fe=None, what=''):
    """Output -> list of (key, ndarray); key carries position and metadata."""
    if isinstance(y, dict):
        items = [(('dict', plain(k)), v) for k, v in y.items()]
    elif isinstance(y, (list, tuple)):
        items = [(('list', i, tuple(sorted((k, plain(v)) for k, v in d.items() if k != 'coef'))), d['coef'])
                 for i, d in enumerate(y)]
    else:
        items = [(('array',), y)]
    out = []
    for k, v in items:
        if fe is not None and not native(fe, v):
            raise Violation('%s: %s returned %s, not an array of %s' % (what, k, type(v).__name__, fe))
        a = to_numpy(v)
        if a.dtype.kind != 'f':
            raise Violation('%s: %s has dtype %s, not a real floating type' % (what, k, a.dtype))
        out.append((k, a))
    return out


def same(got, exp, rtol, atol, what):
    """Compare canonical outputs: same keys in the same order, same shapes, same values."""
    if [k for k, _ in got] != [k for k, _ in exp]:
        d = [(a, b) for (a, _), (b, _) in zip(got, exp) if a != b][:1]
        raise Violation('%s: entries differ: %d instead of %d; first difference %s' % (what, len(got), len(exp), d))
    worst = 0.
    for (k, a), (_, b) in zip(got, exp):
        if a.shape != b.shape:
            raise Violation('%s %s: shape %s instead of %s' % (what, k, a.shape, b.shape))
        if a.size == 0:
            continue
        if not np.isfinite(a).all():
            raise Violation('%s %s: not finite' % (what, k))
        a, b = a.astype(np.float64), b.astype(np.float64)
        d = np.abs(a - b)
        err = d.max()
        lim = atol + rtol * np.abs(b).max()
        if not err <= lim:
            i = np.unravel_index(d.argmax(), d.shape)
            raise Violation('%s %s: %r instead of %r at index %s (allowed difference %.3g)' % (
                what, k, float(a[i]), float(b[i]), tuple(int(v) for v in i), lim))
        worst = max(worst, err / (lim + 1e-300))
    return worst
