import itertools
import numpy as np
from ..core import Violation, SEED
from ..fe import build, tensor, canon

LEVEL = 'exploration'
RULE = ('one evaluation = one signal transformed and judged (all signals over {-1,0,1} of the smallest shapes, plus all one-sample perturbations of them at three magnitudes, '
        'plus impulses, sinusoids, steps and seeded signals on a configuration lattice at every amplitude of the list); distinct_nontrivial = distinct (configuration, frontend, non-zero signal, amplitude)')
ASSUMPTIONS = ['single precision is exercised at amplitudes 1e-30 ... 1e30, double at 1e-300 ... 1e300', 'bounds of 2-D and 3-D paths use the L1 norms of the wavelets']


def ternary(n, lo=-1):
    return np.array(list(itertools.product(range(lo, 2), repeat=n)), float)


CFG = {
    '1d': [dict(J=1, shape=[8]), dict(J=2, shape=[8]), dict(J=3, shape=[8], max_order=2), dict(J=2, shape=[8], T=0, out_type='list'), dict(J=2, shape=[8], T='global'),
           dict(J=2, shape=[8], T=3, stride=1), dict(J=2, shape=[7], Q=[2, 1]), dict(J=1, shape=[5], T=5)],
    'jtfs': [dict(J=2, J_fr=1, shape=[8], Q=[1, 1], out_type='list'), dict(J=2, J_fr=1, shape=[8], Q=[1, 1], format='joint', out_type='list'),
             dict(J=2, J_fr=2, shape=[8], Q=[2, 1], T='global', F='global', out_type='list'), dict(J=2, J_fr=1, shape=[8], Q=[1, 1], T=0, out_type='list')],
    '2d': [dict(J=1, shape=[2, 2], L=2), dict(J=1, shape=[2, 3], L=3), dict(J=1, shape=[3, 2], L=1, max_order=1), dict(J=1, shape=[3, 3], L=2)],
    '3d': [dict(J=0, shape=[2, 2, 2], L=1, sigma_0=1), dict(J=1, shape=[2, 2, 2], L=2, sigma_0=1), dict(J=1, shape=[2, 2, 2], L=1, sigma_0=1, rotation_covariant=False),
           dict(J=1, shape=[2, 2, 1], L=1, sigma_0=1, integral_powers=[.5, 1., 2., 3.])],
}
BIG = {
    '1d': [dict(J=3, shape=[64], Q=[2, 1]), dict(J=4, shape=[100], Q=[3, 2]), dict(J=5, shape=[128], Q=[8, 1], T=64, stride=4), dict(J=4, shape=[100], T=0, out_type='list'),
           dict(J=4, shape=[64], T='global')],
    'jtfs': [dict(J=3, J_fr=2, shape=[64], Q=[2, 1]), dict(J=4, J_fr=3, shape=[100], Q=[4, 1], format='joint', out_type='list'), dict(J=3, J_fr=2, shape=[64], Q=[2, 1], T='global', F=0, out_type='list')],
    '2d': [dict(J=2, shape=[16, 16], L=4), dict(J=2, shape=[12, 20], L=3), dict(J=3, shape=[16, 16], L=2, out_type='list')],
    '3d': [dict(J=1, shape=[6, 6, 6], L=2, sigma_0=1), dict(J=2, shape=[5, 6, 7], L=1, sigma_0=1, integral_powers=[1., 2.])],
}


def cases(tier, seed):
    deep = tier == 'thorough'
    for t in CFG:
        for i, cfg in enumerate(CFG[t]):
            for fe in ('numpy', 'torch', 'tensorflow', 'jax'):
                if fe != 'numpy' and not deep and (i > 1 or fe in ('tensorflow', 'jax') and i):
                    continue
                if fe == 'jax' and t == 'jtfs' and not deep:
                    continue
                yield dict(kind='all', t=t, fe=fe, cfg=cfg, cost=50 if t in ('jtfs', '2d') else 20)
        for cfg in BIG[t]:
            for fe in ('numpy', 'torch', 'tensorflow', 'jax') + (('torch64',) if t != '3d' else ()):
                if fe == 'jax' and not deep and (t == 'jtfs' or cfg is not BIG[t][0]):
                    continue
                yield dict(kind='amplitudes', t=t, fe=fe, cfg=cfg, cost=30)
    if deep:
        yield dict(kind='all', t='1d', fe='numpy', cfg=dict(J=3, shape=[10]), cost=500)
        yield dict(kind='all', t='1d', fe='numpy', cfg=dict(J=2, shape=[10], Q=[2, 1], T=5), cost=500)
        yield dict(kind='all', t='2d', fe='numpy', cfg=dict(J=1, shape=[2, 5], L=2), cost=500)
        yield dict(kind='all', t='3d', fe='numpy', cfg=dict(J=1, shape=[2, 5, 1], L=1, sigma_0=1), cost=500)


class Tr:
    """The transform, its coefficients split by order: zeroth (n, k0) and others (n, k)."""
    def __init__(self, t, fe, cfg):
        self.t, self.fe, self.cfg = t, fe, dict(cfg)
        if t in ('1d',) and cfg.get('out_type') != 'list':
            cfg = dict(cfg, out_type='list')
        if t == '2d':
            cfg = dict(cfg, out_type='list')
        if t == 'jtfs' and 'out_type' not in cfg:
            cfg = dict(cfg, out_type='list')
        self.S = build(t, fe.replace('64', ''), cfg)
        if fe == 'torch64':
            self.S = self.S.double()
        if t == '3d':
            self.S.method = 'integral'
            self.powers = self.S.integral_powers
        self.single = fe in ('tensorflow', 'jax') or t == '3d'
        self.eps = 1e-5 if self.single or fe == 'torch' else 1e-10
        self.shape = tuple(cfg['shape'])

    def __call__(self, X):
        X = X.reshape((-1,) + self.shape)
        outs = []
        for i in range(0, len(X), 4096):
            x = X[i:i + 4096]
            x = x.astype('float32') if self.fe not in ('numpy', 'torch64') else x
            fe = self.fe.replace('64', '')
            y = self.S(tensor(fe, x))
            if self.t == '3d':
                c = canon(y, fe)[0][1]
                outs.append((np.zeros((len(x), 0)), c.reshape(len(x), -1, len(self.powers)).astype(float)))
                continue
            zero, rest = [], []
            for p, (_, a) in zip(y, canon(y, fe)):
                o = p['order'] if 'order' in p else len(p['j'])
                (rest if o else zero).append(a.reshape(len(x), -1).astype(float))
            outs.append((np.concatenate(zero, 1), np.concatenate(rest, 1)))
        return np.concatenate([o[0] for o in outs]), np.concatenate([o[1] for o in outs])


def bad(w, x, msg):
    raise Violation('%s, signal %s: %s' % (w, np.asarray(x).tolist() if np.asarray(x).size <= 64 else 'of shape %s' % (np.asarray(x).shape,), msg))


def over(diff, lim, w, X, msg):
    b = diff > lim
    if b.any():
        k = tuple(np.argwhere(b)[0])
        bad(w, X[k[0]], '%s (by %.3g, allowed %.3g, coefficient %s)' % (msg, diff[k], np.broadcast_to(lim, diff.shape)[k], k[1:]))


def gain(t):
    """Bound on the coefficients of a signal of maximum modulus 1."""
    return dict({'1d': 1.02, 'jtfs': 1.02, '2d': 2.6})[t]


def everything(c, rep):
    tr = Tr(c['t'], c['fe'], c['cfg'])
    t, eps, w = c['t'], tr.eps, '%s %s %s' % (c['fe'], c['t'], c['cfg'])
    n = int(np.prod(tr.shape))
    X = ternary(n)
    Z, S = tr(X)
    if not (np.isfinite(Z).all() and np.isfinite(S).all()):
        bad(w, X[np.argwhere(~np.isfinite(np.concatenate([Z, S.reshape(len(X), -1)], 1)))[0][0]], 'not finite')
    # the mirrored enumeration: row i of X is minus row (last - i)
    neg = np.arange(len(X))[::-1]
    assert np.array_equal(X[neg], -X)
    top = np.abs(S).max(0, keepdims=True)
    over(np.abs(S[neg] - S), 20 * eps * (np.abs(S) + .05 * top), w, X, 'coefficients of -x and x differ')
    if Z.size:
        over(np.abs(Z[neg] + Z), 10 * eps * np.abs(Z).max() + 0 * Z, w, X, 'S0(-x) is not -S0(x)')
        lin = X @ tr(np.eye(n))[0]
        over(np.abs(Z - lin), 20 * eps * np.abs(Z).max() + 0 * Z, w, X, 'S0 is not linear')
    low = S.min(axis=tuple(range(1, S.ndim)))
    rep.maximum('negative_part_' + t, max(0., -(S / (top + 1e-300)).min()))
    over(-S, 1e-4 * top + 0 * S, w, X, 'negative coefficient')
    z = neg[len(X) // 2]
    assert not X[z].any()
    if np.abs(S[z]).max() > 1e-30 or Z.size and np.abs(Z[z]).max() > 1e-30:
        bad(w, X[z], 'coefficients of the zero signal: %g' % np.abs(S[z]).max())
    if t != '3d' and c['cfg'].get('T') != 'global':
        m = np.abs(X).max(1)[:, None]
        rep.maximum('gain_' + t, np.abs(S).max())
        over(np.abs(S), gain(t) * m + 0 * S + 1e-30, w, X, 'coefficient larger than the maximum modulus of the signal')
        over(np.abs(Z), 1.02 * m + 0 * Z + 1e-30, w, X, 'S0 larger than the maximum modulus of the signal')
    for x in X:
        rep.eval((c, x) if x.any() else None)
    # perturbations of every sample of every signal
    sub = X if len(X) <= 1000 else X[:: max(1, len(X) // (800 if c['fe'] == 'numpy' else 300))]
    Sx = tr(sub)[1]
    gl = gain(t) if t != '3d' else None
    if c['cfg'].get('T') == 'global' and gl:
        gl *= 8 * n
    for delta in (1., 1e-2, 1e-4) + ((1e-7,) if eps < 1e-8 else ()):
        for i in range(n):
            Y = sub.copy(); Y[:, i] += delta
            Sy = tr(Y)[1]
            if t == '3d':
                # the norm is Lipschitz: of every power p >= 1, S**(1/p)
                for k, p in enumerate(tr.powers):
                    if p < 1:
                        continue
                    a, b = np.maximum(Sx[..., k], 0) ** (1 / p), np.maximum(Sy[..., k], 0) ** (1 / p)
                    unit = norms(tr, n)[..., k] ** (1 / p)
                    over(np.abs(a - b), 1.05 * delta * unit + 1e-4 * (a.max() + b.max()) * (eps * 1e5) ** .5 + 0 * a, w, sub,
                         'p=%g: a change of %g of sample %d changes a coefficient disproportionately' % (p, delta, i))
            else:
                over(np.abs(Sy - Sx), gl * delta + 20 * eps + 0 * Sx, w, sub, 'a change of %g of sample %d changes a coefficient disproportionately' % (delta, i))
            for x in sub:
                rep.eval((c, x, delta, i))
    rep.sample(dict(signals=len(X), perturbed=len(sub) * n, coefficients=int(S[0].size)))


def norms(tr, n):
    """3-D: largest coefficients of an impulse times the size, a bound for one-sample changes through all moduli."""
    if not hasattr(tr, '_norms'):
        s = tr(np.eye(n))[1].max(0, keepdims=True)
        m = s.max(axis=1, keepdims=True)
        tr._norms = np.broadcast_to(np.maximum(s, m), s.shape) * (n + 1) ** 2
    return tr._norms


def signals(shape):
    n = int(np.prod(shape))
    r = np.random.RandomState([SEED % (2 ** 31), 11])
    t = np.arange(n)
    out = [np.eye(n)[0], np.eye(n)[n // 2], np.ones(n), (-1.) ** t, np.sign(t - n / 3), np.cos(2 * np.pi * t * .11), np.cos(.3 * t + .002 * t * t), r.standard_normal(n), r.uniform(-1, 1, n)]
    return np.array(out)


def amplitudes(c, rep):
    tr = Tr(c['t'], c['fe'], c['cfg'])
    t, w = c['t'], '%s %s %s' % (c['fe'], c['t'], c['cfg'])
    X = signals(tr.shape)
    Z, S = tr(X)
    eps = tr.eps
    top = np.abs(S).max(axis=tuple(range(1, S.ndim)) if t != '3d' else 1, keepdims=True)
    if t == '3d':
        amps = [1e-8, 1e-4, .3, -1., -3., 1e4, 1e8] if max(tr.powers) <= 2 else [.1, -1, 10.]
    elif c['fe'] == 'numpy':
        amps = [1e-300, -1e-200, 1e-100, 1e-30, 1e-12, 1e-6, 1e-3, .3, -1., -2.5, 1e3, 1e9, -1e15, 1e30, 1e100, -1e200, 1e300]
    elif c['fe'] == 'torch64':
        amps = [1e-300, -1e-200, -1e-100, 1e-30, 1e-12, 1e-3, -2.5, 1e3, -1e15, 1e30, 1e100, -1e200, 1e300]
    else:
        amps = [1e-30, -1e-22, 1e-15, 1e-12, -1e-9, 1e-6, 1e-3, .3, -1., -2.5, 1e3, 1e6, -1e9, 1e12, 1e15, -1e20, 1e30]
    # round-off is proportional to the signal, whose maximum is about 1 (amplified by powers smaller than 1)
    floor = X.shape[1] * (.2 * eps) ** np.array(tr.powers) if t == '3d' else .5 * eps * (8 * X.shape[1] if c['cfg'].get('T') == 'global' else 1)
    for a in amps:
        Za, Sa = tr(X * a)
        f = np.abs(a) ** np.array(tr.powers) if t == '3d' else abs(a)
        if not (np.isfinite(Sa).all() and np.isfinite(Za).all()):
            bad(w, X[0], 'not finite at amplitude %g' % a)
        over(np.abs(Sa / f - S), 30 * eps * (np.abs(S) + .02 * top) + floor, '%s at amplitude %g' % (w, a), X, 'not homogeneous')
        if Z.size:
            over(np.abs(Za / a - Z), 20 * eps * np.abs(Z).max(1, keepdims=True) + .1 * eps + 0 * Z, '%s at amplitude %g' % (w, a), X, 'S0 not linear')
        for x in X:
            rep.eval((c, x, a))
    # additivity of S0, and the bound on differences of pairs at every distance
    if t != '3d':
        pairs = [(i, j) for i in range(len(X)) for j in range(i)]
        I, K = np.array(pairs).T
        Zs, Ss = tr(X[I] + X[K])
        over(np.abs(Zs - Z[I] - Z[K]), 30 * eps * np.abs(Z).max() + 0 * Zs, w + ' (sums)', X[I], 'S0 is not additive')
        g = gain(t) * (8 * X.shape[1] if c['cfg'].get('T') == 'global' else 1)
        d = np.abs(X[I] - X[K]).max(1)[:, None]
        over(np.abs(S[I] - S[K]), g * d + 1e-4, w + ' (pairs)', X[I], 'difference of coefficients larger than the difference of the signals')
        for h in (1e-3, 1e-5):
            Sh = tr(X[I] + h * X[K])[1]
            over(np.abs(Sh - S[I]), g * h * np.abs(X[K]).max(1)[:, None] + 30 * eps, w + ' (perturbed by %g)' % h, X[I], 'unstable')
        for p in pairs:
            rep.eval((c, 'pair', p))
    over(-S, 1e-4 * top + (1e-4 if t == '2d' else 0), w, X, 'negative coefficient')
    rep.sample(dict(amplitudes=amps, coefficients=int(S[0].size)))


def run_case(case, rep):
    (everything if case['kind'] == 'all' else amplitudes)(case, rep)
