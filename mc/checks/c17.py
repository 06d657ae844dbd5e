import importlib
import itertools
import numpy as np
from ..core import Violation, close, SEED
from ..fe import to_numpy, native

LEVEL = 'exploration'
RULE = ('one evaluation = one primitive of one backend on one (shape, dtype, factor, padding), on the complete basis and on dense data, against its definition '
        'computed by direct summation in double precision; distinct_nontrivial = distinct (dimension, primitive, shape, parameters) reached')
ASSUMPTIONS = ['CPU backends; the CUDA backends are C26']

FES = ('numpy', 'torch', 'tensorflow', 'jax')


def cases(tier, seed):
    deep = tier == 'thorough'
    for fe in FES:
        j = fe == 'jax'          # every new shape is compiled
        n1 = list(range(1, 13 if not j else 7)) + ([16, 24, 31, 32, 48, 64] if not j else [8])
        if deep:
            n1 = list(range(1, 33 if not j else 17))
        for N in n1:
            yield dict(fe=fe, dim=1, N=N, kind='line', cost=N * (3 if j else 1))
        for N in (n1 if not j else n1[:6 if deep else 4]):
            yield dict(fe=fe, dim=1, N=N, kind='pad', cost=N * (5 if j else 1))
        s2 = [(M, N) for M in range(1, 7) for N in range(1, 7)] + [(8, 8), (8, 4), (12, 6)]
        if j:
            s2 = [(1, 1), (2, 3), (4, 4), (5, 2), (6, 4)]
        if deep:
            s2 = [(M, N) for M in range(1, 11) for N in range(1, 11)] if not j else [(M, N) for M in range(1, 6) for N in range(1, 6)]
        for s in s2:
            yield dict(fe=fe, dim=2, N=list(s), kind='plane', cost=sum(s) * (3 if j else 1))
        for s in (s2 if not j else s2[1:4]):
            yield dict(fe=fe, dim=2, N=list(s), kind='pad', cost=s[0] * s[1] * (3 if j else 1))
        s3 = list(itertools.product(range(1, 4), repeat=3)) + [(4, 4, 4), (4, 2, 5), (5, 3, 4)]
        if j:
            s3 = [(1, 1, 1), (2, 3, 1), (3, 2, 4), (4, 4, 4)]
        if deep:
            s3 = list(itertools.product(range(1, 6), repeat=3)) if not j else list(itertools.product((1, 2, 4), repeat=3))
        for s in s3:
            yield dict(fe=fe, dim=3, N=list(s), kind='volume', cost=sum(s) * (3 if j else 1))
        for dim in (1, 2, 3):
            yield dict(fe=fe, dim=dim, N=[3, 4] if deep or not j else [2, 3], kind='product', cost=20)
        yield dict(fe=fe, dim=1, N=0, kind='axes', cost=20)


class Ad:
    """Carries arrays to the layout of a backend and back."""
    def __init__(self, fe, dim):
        name = dict(tensorflow='tensorflow').get(fe, fe)
        self.fe = fe
        if fe == 'torch':
            import torch
            torch.set_num_threads(1)
        self.b = importlib.import_module('kymatio.scattering%dd.backend.%s_backend' % (dim, name)).backend
        self.dtypes = ('float64', 'float32') if fe in ('numpy', 'torch') else ('float32',)

    def _t(self, x):
        if self.fe == 'torch':
            import torch
            return torch.from_numpy(np.ascontiguousarray(x))
        if self.fe == 'tensorflow':
            import tensorflow as tf
            return tf.convert_to_tensor(x)
        if self.fe == 'jax':
            import jax.numpy as jnp
            return jnp.asarray(x)
        return np.array(x)

    def raw(self, x, dt):
        return self._t(np.asarray(x, dt))

    def real(self, x, dt):
        x = np.asarray(x, dt)
        return self._t(x[..., None] if self.fe == 'torch' else x)

    def cplx(self, x, dt):
        ct = 'complex128' if dt == 'float64' else 'complex64'
        x = np.ascontiguousarray(np.asarray(x, ct))
        if self.fe == 'torch':
            return self._t(x.view(dt).reshape(x.shape + (2,)))
        return self._t(x)

    def back(self, y, what, kind=None):
        """kind: 'c' complex, 'r' real with the backend's trailing axis, 'p' plain."""
        if not native(self.fe, y):
            raise Violation('%s: result is %s' % (what, type(y).__name__))
        a = to_numpy(y)
        if self.fe == 'torch':
            if kind == 'c':
                if a.shape[-1:] != (2,):
                    raise Violation('%s: last axis of the result is not 2: %s' % (what, a.shape))
                a = a[..., 0] + 1j * a[..., 1]
            elif kind == 'r':
                if a.shape[-1:] != (1,):
                    raise Violation('%s: last axis of the result is not 1: %s' % (what, a.shape))
                a = a[..., 0]
        if (a.dtype.kind == 'c') != (kind == 'c'):
            raise Violation('%s: dtype %s' % (what, a.dtype))
        return a


def tol(dt):
    return 1e-10 if dt == 'float64' else 3e-5


def dense(shape, tag, cplx=False):
    r = np.random.RandomState([SEED % (2 ** 31), tag])
    x = r.standard_normal(shape)
    return x + 1j * r.standard_normal(shape) if cplx else x


def basis(shape):
    n = int(np.prod(shape))
    return np.eye(n).reshape((n,) + tuple(shape))


def dft(n, sign):
    k = np.arange(n)
    return np.exp(sign * 2j * np.pi * (np.outer(k, k) % n) / n)


def fourier(x, axes, sign):
    for a in axes:
        n = x.shape[a]
        x = np.moveaxis(np.tensordot(x, dft(n, sign), axes=(a, 0)), -1, a)
        if sign > 0:
            x = x / n
    return x


def divisors(n):
    return [k for k in range(1, n + 1) if n % k == 0]


def check(rep, got, exp, dt, what, key, extra=0.):
    rep.maximum('relative_error_' + dt, close(got, exp, tol(dt) + extra, 1e-12, what))
    rep.eval(key)


def transforms(ad, rep, shape, w, dim):
    """Fourier transforms of every order over the last dim axes."""
    axes = tuple(range(-dim, 0))
    b = ad.b
    for dt in ad.dtypes:
        for name, x in (('basis', basis(shape)), ('dense', dense((2,) + tuple(shape), 1)),
                        ('deep', dense((2, 1) + tuple(shape), 2))):
            cx = x * (1 + 0.5j) if name == 'basis' else dense(x.shape, 3, True)
            for op, args, exp, kind in (
                    ('rfft', 'r', lambda: fourier(x.astype(complex), axes, -1), 'c'),
                    ('cfft', 'c', lambda: fourier(cx, axes, -1), 'c'),
                    ('ifft', 'c', lambda: fourier(cx, axes, 1), 'c'),
                    ('irfft', 'c', lambda: fourier(cx, axes, 1).real, 'r')):
                f = getattr(b, op, None)
                if f is None:
                    continue
                t = ad.real(x, dt) if args == 'r' else ad.cplx(cx, dt)
                what = '%s %s %s %s' % (w, op, name, dt)
                check(rep, ad.back(f(t), what, kind), exp(), dt, what, (dim, op, x.shape))
            # the inverse transform inverts the forward one
            y = ad.back(b.ifft(b.rfft(ad.real(x, dt))), w + ' round trip', 'c')
            check(rep, y, x.astype(complex), dt, w + ' ifft(rfft(x))', (dim, 'roundtrip', x.shape))
            if getattr(b, 'irfft', None):
                y = ad.back(b.irfft(b.rfft(ad.real(x, dt))), w + ' round trip', 'r')
                check(rep, y, x, dt, w + ' irfft(rfft(x))', (dim, 'roundtrip real', x.shape))


def modulus(ad, rep, shape, w, dim):
    for dt in ad.dtypes:
        x = dense((2,) + tuple(shape), 4, True)
        x.flat[0] = 0
        for amp in (1., 1e-15, 1e15):
            y = ad.back(ad.b.modulus(ad.cplx(x * amp, dt)), w + ' modulus', 'r') / amp
            check(rep, y, np.sqrt(x.real ** 2 + x.imag ** 2), dt, w + ' modulus of data of size %g' % amp, (dim, 'modulus', x.shape, amp))


def line(ad, rep, case, w):
    N, b = case['N'], ad.b
    transforms(ad, rep, (N,), w, 1)
    modulus(ad, rep, (1, N), w, 1)
    for dt in ad.dtypes:
        for batch in ((2,), (2, 3)):
            x = dense(batch + (N,), 5, True)
            for k in divisors(N):
                what = '%s subsample_fourier(k=%d) %s' % (w, k, dt)
                # decimation of the signal
                y = ad.back(b.subsample_fourier(ad.cplx(fourier(x, (-1,), -1), dt), k), what, 'c')
                check(rep, fourier(y.astype(complex), (-1,), 1), x[..., ::k], dt, what + ' is not decimation', (1, 'sub', x.shape, k))
                exp = sum(x[..., i * (N // k):(i + 1) * (N // k)] for i in range(k)) / k
                y = ad.back(b.subsample_fourier(ad.cplx(x, dt), k), what, 'c')
                check(rep, y, exp, dt, what, (1, 'sub', x.shape, k))
            xr = dense(batch + (N,), 6)
            y = ad.back(b.average_global(ad.real(xr, dt)), w + ' average_global', 'r')
            check(rep, y, xr.sum(-1, keepdims=True), dt, w + ' average_global', (1, 'average', xr.shape), 1e-5 * (dt != 'float64') / max(1e-3, abs(xr.sum(-1)).max()))
        for i0 in range(N + 1):
            for i1 in range(i0, N + 1):
                x = dense((2, N), 7).astype(dt)
                y = ad.back(b.unpad(ad.real(x, dt), i0, i1), w + ' unpad', 'p')
                check(rep, y, x[:, i0:i1], dt, '%s unpad(%d, %d)' % (w, i0, i1), (1, 'unpad', N, i0, i1))


def mirror(n, left, right):
    """Whole-sample reflection by explicit bouncing."""
    out = []
    for t in range(-left, n + right):
        while not 0 <= t < n:
            t = -t if t < 0 else 2 * (n - 1) - t
        out.append(t)
    return out


def pad1(ad, rep, case, w):
    N, b = case['N'], ad.b
    for dt in ad.dtypes[:1]:
        x = np.concatenate([basis((N,)), dense((2, N), 8)])[:, None, :]
        for l in range(0, N + 2):
            for r in range(0, N + 2):
                for mode in ('reflect', 'constant'):
                    what = '%s pad(%d, %d, %s)' % (w, l, r, mode)
                    if mode == 'reflect' and (l >= N or r >= N):
                        try:
                            b.pad(ad.raw(x, dt), l, r, mode=mode)
                        except ValueError:
                            rep.eval((1, 'pad rejected', N, l, r))
                            continue
                        raise Violation('%s: accepted a padding not smaller than the signal' % what)
                    y = ad.back(b.pad(ad.raw(x, dt), l, r, mode=mode), what, 'r')
                    if mode == 'reflect':
                        exp = x[..., mirror(N, l, r)]
                    else:
                        exp = np.zeros(x.shape[:-1] + (N + l + r,)); exp[..., l:l + N] = x
                    check(rep, y, exp, dt, what, (1, 'pad', N, l, r, mode))


def plane(ad, rep, case, w):
    M, N = case['N']
    b = ad.b
    transforms(ad, rep, (M, N), w, 2)
    modulus(ad, rep, (M, N), w, 2)
    for dt in ad.dtypes:
        for batch in ((2,), (1,)):
            x = dense(batch + (M, N), 9, True)
            for k in divisors(int(np.gcd(M, N))):
                what = '%s subsample_fourier(k=%d) %s' % (w, k, dt)
                y = ad.back(b.subsample_fourier(ad.cplx(fourier(x, (-1, -2), -1), dt), k), what, 'c')
                check(rep, fourier(y.astype(complex), (-1, -2), 1), x[..., ::k, ::k], dt, what + ' is not decimation', (2, 'sub', x.shape, k))
        x = dense((2, M, N), 10).astype(dt)
        if M > 2 and N > 2:
            y = ad.back(b.unpad(ad.real(x, dt)), w + ' unpad', 'p')
            check(rep, y, x[:, 1:-1, 1:-1], dt, w + ' unpad', (2, 'unpad', M, N))
        parts = [dense((2, M, N), 20 + i).astype(dt) for i in range(3)]
        y = ad.back(b.stack([ad.raw(p, dt) for p in parts]), w + ' stack', 'p')
        check(rep, y, np.stack(parts, 1), dt, w + ' stack', (2, 'stack', M, N))


def pad2(ad, rep, case, w):
    M, N = case['N']
    b = ad.b
    dt = ad.dtypes[0]
    x = np.concatenate([basis((M, N)), dense((2, M, N), 11)])
    sides = lambda n: sorted(set([(l, r) for l in range(0, n) for r in range(0, n) if ad.fe != 'jax' or l == r or l == 0]))
    for (t, d) in sides(M) + ([(M, M)] if M > 1 else []):
        for (l, r) in sides(N) + ([(N, N)] if N > 1 else []):
            if ad.fe in ('torch',) and 0 in (M, N):
                continue
            what = '%s Pad([%d, %d, %d, %d])' % (w, t, d, l, r)
            y = ad.back(b.Pad([t, d, l, r], [M, N])(ad.raw(x, dt)), what, 'r')
            exp = x[:, mirror(M, t, d)][:, :, mirror(N, l, r)]
            check(rep, y, exp, dt, what, (2, 'pad', M, N, t, d, l, r))


def volume(ad, rep, case, w):
    shape = tuple(case['N'])
    b = ad.b
    transforms(ad, rep, shape, w, 3)
    modulus(ad, rep, shape, w, 3)
    for dt in ad.dtypes:
        xs = [dense((2,) + shape, 30 + i, True) for i in range(3)]
        xs[1].flat[0] = 0
        m, exp = None, 0
        for i, x in enumerate(xs):
            m = b.modulus_rotation(ad.cplx(x, dt), m)
            exp = exp + abs(x) ** 2
            what = '%s modulus_rotation over %d components' % (w, i + 1)
            check(rep, ad.back(m, what, 'r'), np.sqrt(exp), dt, what, (3, 'modulus_rotation', shape, i))
        u = abs(xs[0]) + .1
        for powers in ([1.], [2., .5], [.5, 1., 2., 3.]):
            t = ad.real(u, dt) if ad.fe != 'torch' else ad.raw(u, dt)
            y = ad.back(b.compute_integrals(t, powers), w + ' compute_integrals', 'p')
            exp = np.stack([(u ** p).reshape(2, -1).sum(1) for p in powers], -1)
            check(rep, y, exp, dt, '%s compute_integrals %s' % (w, powers), (3, 'integrals', shape, tuple(powers)), 1e-5)
        for L in (0, 1, 2):
            for n in (1, 2):
                parts = [dense((2, 3), 40 + i).astype(dt) for i in range(n * (L + 1))]
                y = ad.back(b.stack([ad.raw(p, dt) for p in parts], L), w + ' stack', 'p')
                exp = np.stack(parts, 1).reshape(2, n, L + 1, 3)
                check(rep, y, exp, dt, '%s stack(L=%d) of %d arrays' % (w, L, len(parts)), (3, 'stack', L, n))
        for hk in 'cr':
            h = dense(shape, 50, hk == 'c')
            if hk == 'r' and ad.fe == 'tensorflow':
                hb = h.astype('float32')
            else:
                hb = (ad.cplx if hk == 'c' else ad.real)(h, dt)
                hb = hb.numpy() if ad.fe == 'tensorflow' else hb
            y = ad.back(b.cdgmm3d(ad.cplx(xs[0], dt), hb), w + ' cdgmm3d', 'c')
            check(rep, y, xs[0] * h, dt, '%s cdgmm3d (%s)' % (w, hk), (3, 'cdgmm3d', shape, hk))


def product(ad, rep, case, w):
    """Pointwise product: every batch rank, real and complex second factor; mismatches rejected."""
    dim, b = case['dim'], ad.b
    lo, hi = case['N']
    shapes = list(itertools.product(range(1, hi + 1), repeat=dim)) if dim < 3 else list(itertools.product((1, lo), repeat=3))
    for dt in ad.dtypes:
        for shape in shapes:
            for batch in ((1,), (2,), (2, 3)):
                A = dense(batch + shape, 60, True)
                for kind in 'cr':
                    B = dense(shape, 61, kind == 'c')
                    tb = (ad.cplx if kind == 'c' else ad.real)(B, dt)
                    ta = ad.cplx(A, dt)
                    if ad.fe == 'tensorflow':
                        tb = tb.numpy()          # the filters are NumPy arrays there
                        if kind == 'r':
                            continue
                    what = '%s cdgmm %s x %s (%s)' % (w, A.shape, B.shape, kind)
                    check(rep, ad.back(b.cdgmm(ta, tb), what, 'c'), A * B, dt, what, (dim, 'cdgmm', A.shape, kind))
                    if ad.fe != 'tensorflow':
                        bad = (ad.cplx if kind == 'c' else ad.real)(dense(shape[:-1] + (shape[-1] + 1,), 62, kind == 'c'), dt)
                        try:
                            b.cdgmm(ta, bad)
                        except RuntimeError:
                            rep.eval((dim, 'cdgmm mismatch', A.shape, kind))
                        else:
                            raise Violation('%s: factors of incompatible shapes accepted' % what)


def axes(ad, rep, case, w):
    b = ad.b
    rng = range(1, 5) if ad.fe != 'jax' else range(1, 3)
    for dt in ad.dtypes:
        for B, Fr, T in itertools.product((1, 2), rng, rng):
            x = dense((B, Fr, T), 70).astype(dt)
            if getattr(b, 'swap_time_frequency', None):
                y = ad.back(b.swap_time_frequency(ad.real(x, dt)), w + ' swap', 'r')
                check(rep, y, x.transpose(0, 2, 1), dt, w + ' swap_time_frequency', (1, 'swap', x.shape))
                z = x * (1 + 2j)
                y = ad.back(b.swap_time_frequency(ad.cplx(z, dt)), w + ' swap', 'c')
                check(rep, y, z.transpose(0, 2, 1), dt, w + ' swap_time_frequency (complex)', (1, 'swapc', x.shape))
            if getattr(b, 'pad_frequency', None):
                for p in range(0, 4):
                    y = ad.back(b.pad_frequency(ad.real(x.transpose(0, 2, 1), dt), p), w + ' pad_frequency', 'r')
                    exp = np.concatenate([x.transpose(0, 2, 1), np.zeros((B, T, p))], -1)
                    check(rep, y, exp, dt, w + ' pad_frequency', (1, 'padfr', x.shape, p))
            if getattr(b, 'split_frequency_axis', None):
                ys = b.split_frequency_axis(ad.real(x, dt))
                if len(ys) != Fr:
                    raise Violation('%s split_frequency_axis: %d parts for %d bands' % (w, len(ys), Fr))
                for i, y in enumerate(ys):
                    check(rep, ad.back(y, w, 'r'), x[:, i:i + 1], dt, w + ' split_frequency_axis', (1, 'split', x.shape, i))
            if getattr(b, 'unpad_frequency', None):
                for st in (1, 2, 3):
                    for n1 in range(0, Fr * st):
                        x4 = x if ad.fe == 'torch' else x[:, None]
                        t = ad.real(x4, dt)
                        y = ad.back(b.unpad_frequency(t, n1, st), w + ' unpad_frequency', 'r')
                        keep = len(range(0, n1 + 1, st))
                        check(rep, y, x4[..., :keep, :] if ad.fe != 'torch' else x4[..., :keep], dt,
                              '%s unpad_frequency(%d, %d)' % (w, n1, st), (1, 'unpadfr', x.shape, n1, st))
            for n in (1, 2, 3):
                for dim in (1, 2):
                    parts = [dense((B, Fr, T), 80 + i).astype(dt) for i in range(n)]
                    y = ad.back(b.stack([ad.raw(p, dt) for p in parts], dim=dim), w + ' stack', 'p')
                    check(rep, y, np.stack(parts, dim), dt, '%s stack(dim=%d)' % (w, dim), (1, 'stack', x.shape, n, dim))


def run_case(case, rep):
    ad = Ad(case['fe'], case['dim'])
    w = '%s %dD %s' % (case['fe'], case['dim'], case['N'])
    dict(line=line, pad=pad1 if case['dim'] == 1 else pad2, plane=plane, volume=volume, product=product, axes=axes)[case['kind']](ad, rep, case, w)
    rep.sample(dict(primitives=case['kind'], size=case['N']))
