"""The CUDA (skcuda) backends of PyTorch, on a CUDA device emulated on the host (mc/cuda.py)."""
import importlib
import itertools
import os
import sys
import numpy as np
from ..core import Violation, SEED
from ..cuda import Device

LEVEL = 'model_checking'
RULE = ('one evaluation = one primitive of one torch_skcuda backend (or one transform with that backend) on one input, all threads of all launches executed, '
        'against its definition in double precision (or the torch backend); distinct_nontrivial = distinct (primitive, shape, factor, precision, history)')
ASSUMPTIONS = ['there is no GPU here: the kernels, in CUDA C, are compiled for the host behind a header with the CUDA built-ins and every thread is executed; cuBLAS '
               'is replaced by its specification',
               'one GPU holds all the tensors; no autograd (these backends are documented as not differentiable); batches within the limits of a CUDA grid']

DTYPES = ('float32', 'float64')
TOL = {'float32': 2e-6, 'float64': 4e-15}


def cases(tier, seed):
    deep = tier == 'thorough'
    for api in (True, False):
        yield dict(kind='api', new=api, cost=5)
    # subsampling along a line: (factor, outputs, batches)
    ks = (1, 2, 3, 4, 8, 16) if not deep else (1, 2, 3, 4, 5, 6, 7, 8, 16, 32)
    for k in ks:
        for n in (1, 2, 5, 1023, 1024, 1025, 2049) if not deep else tuple(range(1, 10)) + (31, 32, 33, 511, 512, 513, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000):
            if n * k <= 40000:
                yield dict(kind='line', k=k, n=n, cost=3 + n / 300)
    for k in (1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5, 8):
        sizes = (1, 2, 31, 32, 33, 65) if not deep else (1, 2, 3, 16, 31, 32, 33, 63, 64, 65, 97)
        for i, (a, b) in enumerate(itertools.product(sizes, sizes)):
            if a * b * k * k <= 100000 and (deep or i % 2 == k % 2 or a != b and max(a, b) == 33):
                yield dict(kind='plane', k=k, shape=[a, b], cost=3 + a * b / 400)
    for dim in (1, 2):
        yield dict(kind='modulus', dim=dim, cost=15)
    for dim in (1, 2, 3):
        yield dict(kind='product', dim=dim, cost=10)
        yield dict(kind='reject', dim=dim, cost=5)
    for dim in (1, 2, 3):
        yield dict(kind='history', dim=dim, depth=3 if deep else 2, cost=25)
    for c in configs(deep):
        for dtype in DTYPES:
            yield dict(kind='object', dtype=dtype, cost=(60 if c['kw']['J'] == 4 else 30) if 'J_fr' in c['kw'] else 8, **c)


def configs(deep):
    out = []

    def add(cls, kw, *batches):
        out.append(dict(cls=cls, kw=kw, batches=[list(b) for b in batches]))
    for N, J, Q in ((32, 2, 1), (64, 3, 2), (100, 4, 1), (128, 5, 4)):
        add('Scattering1D', dict(J=J, shape=N, Q=Q), (), (3,), (2, 2))
    add('Scattering1D', dict(J=3, shape=64, Q=2, T=0, out_type='list'), (2,))
    add('Scattering1D', dict(J=3, shape=64, Q=2, T='global'), (2,))
    add('Scattering1D', dict(J=3, shape=64, Q=[4, 2], T=4, stride=2), (2,))
    add('Scattering1D', dict(J=3, shape=64, Q=2, out_type='list'), (2,))
    add('Scattering1D', dict(J=4, shape=64, Q=1, max_order=1), (2,))
    add('Scattering1D', dict(J=3, shape=4096, Q=1), (2,))
    for shape, J, L in (((8, 8), 1, 2), ((16, 16), 2, 3), ((8, 32), 2, 2), ((32, 8), 2, 2), ((24, 16), 3, 2), ((64, 160), 1, 1), ((160, 16), 2, 2)):
        add('Scattering2D', dict(J=J, shape=list(shape), L=L), (), (2,), (2, 3))
    add('Scattering2D', dict(J=2, shape=[16, 24], L=2, pre_pad=True), (2,))
    add('Scattering2D', dict(J=2, shape=[16, 24], L=2, out_type='list'), (2,))
    add('Scattering2D', dict(J=2, shape=[24, 16], L=2, max_order=1), (2,))
    for shape, J, L in (((4, 4, 4), 1, 1), ((8, 8, 8), 2, 2), ((8, 6, 5), 1, 2)):
        add('HarmonicScattering3D', dict(J=J, shape=list(shape), L=L, integral_powers=[1.0, 2.0]), (1,), (2,))
    add('HarmonicScattering3D', dict(J=2, shape=[6, 6, 6], L=2, rotation_covariant=False), (2,))
    for fmt, out_type, extra in (('time', 'array', {}), ('joint', 'array', {}), ('joint', 'list', {}), ('time', 'list', dict(T=4)), ('joint', 'array', dict(F=2, stride_fr=1)), ('time', 'array', dict(stride=2))):
        add('TimeFrequencyScattering', dict(J=3, J_fr=2, shape=32, Q=2, format=fmt, out_type=out_type, **extra), (2,))
    add('TimeFrequencyScattering', dict(J=4, J_fr=3, shape=64, Q=[3, 1], Q_fr=1, format='time'), (), (2, 2))
    if deep:
        for N, J, Q, T in itertools.product((16, 63, 256), (1, 2, 4), (1, 2, [3, 1]), (None, 2)):
            add('Scattering1D', dict(J=J, shape=N, Q=Q, T=T), (1,), (3,))
        for M, N, J in itertools.product((8, 16, 40), (8, 24, 128), (1, 2, 3)):
            add('Scattering2D', dict(J=J, shape=[M, N], L=2), (1,), (3,))
        for fmt, Q, J, J_fr in itertools.product(('time', 'joint'), (1, [3, 1]), (2, 4), (1, 2, 3)):
            add('TimeFrequencyScattering', dict(J=J, J_fr=J_fr, shape=48, Q=Q, format=fmt), (2,))
    return out


def fresh(new=True):
    """A device of its own for each case, and backends which know it."""
    d = Device()
    for k in [k for k in sys.modules if 'skcuda' in k or k.split('.')[0] == 'cupy']:
        del sys.modules[k]
    d.install(new)
    return d


def backend(dim):
    return importlib.import_module('kymatio.scattering%dd.backend.torch_skcuda_backend' % dim).backend


def data(shape, dtype, seed=0):
    import torch
    r = np.random.RandomState(SEED * 1000 + seed)
    return torch.from_numpy(r.standard_normal(shape).astype(dtype))


def c(x):
    x = x.detach().numpy()
    return x[..., 0].astype('complex128') + 1j * x[..., 1].astype('float64')


def call(d, f, x, *a):
    """f(x, *a) on the device; the inputs must survive."""
    import torch
    keep = [x.clone()] + [t.clone() if isinstance(t, torch.Tensor) else t for t in a]
    with d:
        y = f(x, *a)
    for s, t in zip(keep, [x] + list(a)):
        if isinstance(t, torch.Tensor) and not torch.equal(s.view(torch.int32), t.view(torch.int32)):
            raise Violation('%s modifies its input' % f.__name__)
    if y.dtype is not x.dtype:
        raise Violation('%s of %s gives %s' % (f.__name__, x.dtype, y.dtype))
    return y


def same(y, ref, shape, dtype, what, scale=1.):
    if tuple(y.shape) != tuple(shape):
        raise Violation('%s: shape %s instead of %s' % (what, tuple(y.shape), tuple(shape)))
    y = y.detach().numpy().astype('float64')
    if np.iscomplexobj(ref):
        ref = np.stack((ref.real, ref.imag), -1)
    err = np.abs(y - ref.reshape(y.shape))
    if not (err <= TOL[dtype] * scale * max(1e-300, np.abs(ref).max())).all():
        raise Violation('%s: differs from its definition by %g (magnitude %g)' % (what, np.nanmax(err) if np.isfinite(err).any() else np.nan, np.abs(ref).max()))


def lines(x, k):
    return x.reshape(x.shape[:-1] + (k, x.shape[-1] // k)).mean(-2)


def planes(x, k):
    return x.reshape(x.shape[:-2] + (k, x.shape[-2] // k, k, x.shape[-1] // k)).mean((-2, -4))


def basis(shape, dtype):
    """Every basis vector of an array of complex numbers, as a batch."""
    import torch
    n = int(np.prod(shape)) * 2
    return torch.eye(n, dtype=getattr(torch, dtype)).reshape((n,) + tuple(shape) + (2,))


def run_case(case, rep):
    import torch
    torch.set_num_threads(1)
    d = fresh(case.get('new', True))
    try:
        globals()['run_' + case['kind']](case, rep, d)
    finally:
        d.close()
    rep.transitions += d.launches
    rep.add('launches', d.launches)
    rep.add('threads', d.threads)
    rep.add('words', d.words)
    rep.add('compilations', d.compilations)


def run_api(case, rep, d):
    # both names of the module of cupy which holds `memoize`
    for dim in (1, 2, 3):
        b = backend(dim)
        if b.name != 'torch_skcuda':
            raise Violation('backend of name %r' % (b.name,))
        rep.eval((dim, case['new'], 'import'))
    for dim in (1, 2):
        x = data((2,) + (6,) * dim + (2,), 'float32')
        for f, ref in ((lambda v: backend(dim).subsample_fourier(v, 2), (lines if dim == 1 else planes)(c(x), 2)), (lambda v: backend(dim).modulus(v), np.abs(c(x)))):
            y = call(d, f, x)
            same(y, ref, ref.shape + ((2,) if np.iscomplexobj(ref) else (1,)), 'float32', 'cupy %s' % ('_util' if case['new'] else 'util'))
            rep.eval((dim, case['new']))
    rep.traces += 1


def run_line(case, rep, d):
    b, k, n = backend(1), case['k'], case['n']
    for dtype in DTYPES:
        xs = [data(s + (n * k, 2), dtype) for s in ((1, 1), (2, 1), (2, 1, 3), (3,), (2, 2, 1, 2))[:None if n < 1000 else 3]]
        if n * k <= 64:
            xs.append(basis((n * k,), dtype)[:, None])
        for x in xs:
            what = '1-D subsample_fourier, %s %s, k=%d' % (dtype, tuple(x.shape), k)
            same(call(d, b.subsample_fourier, x, k), lines(c(x), k), x.shape[:-2] + (n, 2), dtype, what, 4)
            rep.eval((what,)); rep.state((what,))
        rep.traces += 1
    rep.sample('%d launches, %d threads' % (d.launches, d.threads))


def run_plane(case, rep, d):
    b, k, (H, W) = backend(2), case['k'], case['shape']
    for dtype in DTYPES:
        xs = [data(s + (H * k, W * k, 2), dtype) for s in ((1, 1), (2, 3), (3,), (2, 1, 2))[:None if H * W < 500 else 1]]
        if H * W * k * k <= 32:
            xs.append(basis((H * k, W * k), dtype)[:, None])
        for x in xs:
            what = '2-D subsample_fourier, %s %s, k=%d' % (dtype, tuple(x.shape), k)
            same(call(d, b.subsample_fourier, x, k), planes(c(x), k), x.shape[:-3] + (H, W, 2), dtype, what, 4)
            rep.eval((what,)); rep.state((what,))
        rep.traces += 1


def run_modulus(case, rep, d):
    b, dim = backend(case['dim']), case['dim']
    # the values: the whole plane at very different scales
    for dtype in DTYPES:
        shapes = [(1, 1, n) for n in (1, 2, 1023, 1024, 1025, 2047, 2048, 2049)] + [(2, 3, 5), (2, 1, 4, 8), (4, 1, 600)]
        if dim == 2:
            shapes = [(1, 1, h, w) for h, w in ((1, 1), (32, 32), (31, 33), (1, 1025), (1023, 1), (33, 65))] + [(2, 3, 4, 5), (2, 1, 2, 4, 8), (3, 40, 40)]
        for s in shapes:
            x = data(s + (2,), dtype)
            same(call(d, b.modulus, x), np.abs(c(x)), s + (1,), dtype, '%d-D modulus, %s %s' % (dim, dtype, s))
            rep.eval((dtype, s)); rep.state((dtype, s))
        big, tiny = (1e30, 1e-30) if dtype == 'float32' else (1e290, 1e-290)
        grid = list(itertools.product((0., -0., 1., -3., big, -big, tiny, -tiny), repeat=2))
        for p in grid:
            import torch
            x = torch.tensor(p, dtype=getattr(torch, dtype)).reshape((1,) * (dim + 1) + (2,))
            same(call(d, b.modulus, x), np.hypot(*x.double().numpy().ravel()), (1,) * (dim + 2), dtype, '%d-D modulus of %s' % (dim, p))
            rep.eval((dtype, p))
        rep.traces += 1


def run_product(case, rep, d):
    b, dim = backend(case['dim']), case['dim']
    f = b.cdgmm3d if dim == 3 else b.cdgmm
    sizes = {1: ((1,), (2,), (5,), (16,), (1025,)), 2: ((1, 1), (2, 3), (4, 4), (33, 5)), 3: ((1, 1, 1), (2, 3, 2), (4, 3, 5))}[dim]
    for dtype in DTYPES:
        for s in sizes:
            for lead in ((1,), (1, 1), (3, 1), (2, 3), (2, 1, 2)):
                x = data(lead + s + (2,), dtype, 1)
                for real in (False, True):
                    w = data(s + ((1,) if real else (2,)), dtype, 2)
                    ref = c(x) * (w.numpy()[..., 0].astype('float64') if real else c(w))
                    what = '%d-D product, %s, %s by %s %s' % (dim, dtype, tuple(x.shape), 'real' if real else 'complex', s)
                    same(call(d, f, x, w), ref, x.shape, dtype, what, 2)
                    rep.eval((what,)); rep.state((what,))
            if np.prod(s) <= 36:
                # a diagonal operator: complete basis, every diagonal entry different
                w = data(s + (2,), dtype, 3)
                x = basis(s, dtype)
                same(call(d, f, x, w), c(x) * c(w), x.shape, dtype, '%d-D product with the basis %s' % (dim, s), 2)
                rep.eval((dtype, s, 'basis'))
        rep.traces += 1


def run_reject(case, rep, d):
    import torch
    b, dim = backend(case['dim']), case['dim']
    s = (4,) * dim
    x, w, wr = data((2, 1) + s + (2,), 'float32', 1), data(s + (2,), 'float32', 2), data(s + (1,), 'float32', 2)
    real, three = x[..., :1].contiguous(), data((2, 1) + s + (3,), 'float32')
    noncontiguous = data((1, 2) + s + (2,), 'float32').transpose(0, -2)[..., :2]
    strided = data((2, 1) + s + (4,), 'float32')[..., ::2]
    other = data((2, 1) + s[:-1] + (5, 2), 'float32')
    prod = b.cdgmm3d if dim == 3 else b.cdgmm
    todo = []
    if dim < 3:
        todo += [(m, on, bad, kinds) for m in (('modulus', b.modulus), ('subsample_fourier', lambda v: b.subsample_fourier(v, 2)))
                 for on, bad, kinds in ((False, (x,), TypeError), (True, (real,), TypeError), (True, (three,), TypeError), (True, (strided,), RuntimeError), (False, (strided,), (TypeError, RuntimeError)))]
    todo += [(('product', prod), on, bad, kinds) for on, bad, kinds in (
        (False, (x, w), TypeError), (False, (x, wr), TypeError), (True, (real, w), TypeError), (True, (three, w), TypeError), (True, (x, three[0, 0]), TypeError),
        (True, (other, w), RuntimeError), (True, (x, w.double()), TypeError), (True, (x.double(), w), TypeError), (True, (x.double(), wr), TypeError),
        (True, (strided, w), RuntimeError), (True, (x, strided[0, 0]), RuntimeError), (True, (x, other[0, 0]), RuntimeError))]
    for (name, f), on, bad, kinds in todo:
        before = d.launches
        what = '%d-D %s of %s%s' % (dim, name, ' and '.join('%s %s%s' % (t.dtype, tuple(t.shape), '' if t.is_contiguous() else ' (strided)') for t in bad), '' if on else ' on the CPU')
        try:
            if on:
                with d:
                    f(*bad)
            else:
                f(*bad)
        except kinds:
            pass
        except Exception as e:
            raise Violation('%s: %s instead of %s' % (what, type(e).__name__, kinds))
        else:
            raise Violation('%s is not rejected' % what)
        if d.launches != before:
            raise Violation('%s: something ran before the rejection' % what)
        rep.eval((what,)); rep.state((what,))
    # a transform with this backend, given CPU tensors
    import kymatio.torch as kt
    o = {1: lambda: kt.Scattering1D(J=2, shape=16, backend='torch_skcuda'), 2: lambda: kt.Scattering2D(J=2, shape=(8, 8), L=2, backend='torch_skcuda'),
         3: lambda: kt.HarmonicScattering3D(J=1, shape=(4, 4, 4), L=1, backend='torch_skcuda')}[dim]()
    v = data((2,) + {1: (16,), 2: (8, 8), 3: (4, 4, 4)}[dim], 'float32')
    try:
        o(v)
    except TypeError:
        pass
    else:
        raise Violation('a transform with torch_skcuda accepts CPU tensors')
    rep.eval((dim, 'object'))
    rep.traces += 1


def run_history(case, rep, d):
    """All sequences of calls with different shapes, factors, precisions, on two streams and two devices."""
    dim = case['dim']
    b = backend(dim)
    acts = []
    for i, dtype in enumerate(DTYPES):
        if dim == 1:
            acts += [('sub', dtype, s, k) for s, k in (((1, 1, 12), 2), ((1, 1, 12), 3), ((2, 1, 12), 2), ((2, 1, 24), 2))]
            acts += [('mod', dtype, (1, 1, 12), 0), ('mod', dtype, (1, 1, 1030), 0), ('mul', dtype, (2, 1, 12), 0)]
        elif dim == 2:
            acts += [('sub', dtype, s, k) for s, k in (((1, 1, 4, 12), 2), ((1, 1, 12, 4), 2), ((1, 1, 12, 4), 4), ((2, 1, 4, 12), 2))]
            acts += [('mod', dtype, (1, 1, 4, 12), 0), ('mod', dtype, (1, 1, 33, 33), 0), ('mul', dtype, (2, 1, 4, 12), 0)]
        else:
            acts += [('mul', dtype, s, 0) for s in ((1, 1, 2, 3, 4), (2, 1, 2, 3, 4), (1, 1, 4, 3, 2), (1, 2, 2, 2))]
    where = [(0x1000, 0), (0x2000, 0), (0x3000, 1)]
    steps = [(a, w) for a in acts for w in range(len(where))]
    if case['depth'] == 3:
        steps = steps[::2]
    expected = {}

    def step(a, w):
        op, dtype, s, k = a
        d.stream, d.index = where[w]
        d.handle = 0xb1a5 + d.index
        x = data(s + (2,), dtype, 7)
        sig = s[-dim:]
        if op == 'sub':
            y = call(d, b.subsample_fourier, x, k)
            ref = (lines if dim == 1 else planes)(c(x), k)
        elif op == 'mod':
            y = call(d, b.modulus, x)
            ref = np.abs(c(x))[..., None]
        else:
            m = data(sig + (2,), dtype, 8)
            y = call(d, b.cdgmm, x, m)
            ref = c(x) * c(m)
        same(y, ref, ref.shape + ((2,) if np.iscomplexobj(ref) else ()), dtype, 'after %s: %s on stream and device %s' % (history[:-1], a, where[w]), 4)
        key = (a,)
        h = y.numpy().tobytes()
        if expected.setdefault(key, h) != h:
            raise Violation('%s gives another result after %s' % (a, history[:-1]))
        return y
    for seq in itertools.product(steps, repeat=case['depth']):
        if case['depth'] == 3 and len(set(w for _, w in seq)) == 1 and seq[0] == seq[1] == seq[2]:
            continue
        history = []
        live = []
        for a, w in seq:
            history.append((a, where[w]))
            y = step(a, w)
            live.append((y, y.clone()))
        import torch
        for y, z in live:
            if not torch.equal(y, z):
                raise Violation('a result changes after %s' % history)
        rep.eval((seq,))
        rep.state((seq[-1],))
        rep.traces += 1


def run_object(case, rep, d):
    import torch
    import kymatio.torch as kt
    kw = {k: tuple(v) if k in ('shape', 'Q') and isinstance(v, list) else v for k, v in case['kw'].items()}
    cls = getattr(kt, case['cls'])
    objs = [cls(backend=name, **kw) for name in ('torch', 'torch_skcuda')]
    if case['dtype'] == 'float64':
        objs = [o.double() for o in objs]
    shape = kw['shape'] if isinstance(kw['shape'], tuple) else (kw['shape'],)
    for i, batch in enumerate(case['batches'] + case['batches'][:1]):
        if kw.get('pre_pad'):
            shape = tuple(objs[0]._M_padded if n == 0 else objs[0]._N_padded for n in (0, 1))
        x = data(tuple(batch) + tuple(shape), case['dtype'], i)
        y = objs[0](x)
        keep = x.clone()
        with d:
            z = objs[1](x)
        if not torch.equal(x, keep):
            raise Violation('the input is modified')
        flat = lambda v: [(str({k: u for k, u in e.items() if k != 'coef'}), e['coef']) for e in v] if isinstance(v, list) else [('', v)]
        y, z = flat(y), flat(z)
        if [a for a, _ in y] != [a for a, _ in z]:
            raise Violation('other coefficients than with the torch backend')
        scale = max(float(v.abs().max()) for _, v in y)
        for (a, v), (_, w) in zip(y, z):
            if v.shape != w.shape or v.dtype is not w.dtype:
                raise Violation('%s %s with torch_skcuda, %s %s with torch' % (w.dtype, tuple(w.shape), v.dtype, tuple(v.shape)))
            err = float((v - w).abs().max()) if v.numel() else 0.
            if not err <= (2e-5 if case['dtype'] == 'float32' else 1e-12) * scale:
                raise Violation('torch_skcuda differs from torch by %g (magnitude %g) %s' % (err, scale, a))
            rep.maximum('difference_' + case['dtype'], err / scale)
        rep.eval((case['cls'], str(kw), case['dtype'], tuple(batch)))
        rep.state((case['cls'], str(kw), case['dtype'], tuple(batch)))
        rep.traces += 1
    if not d.launches:
        raise Violation('nothing ran on the device')
    rep.sample('%d launches, %d threads, %d compilations' % (d.launches, d.threads, d.compilations))
