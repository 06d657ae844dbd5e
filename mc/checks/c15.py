import json
import numpy as np
from ..core import Violation, SEED
from .. import fe as F
from .c10 import prepad_size

LEVEL = 'exploration'
RULE = ('one evaluation = one entry of a full Jacobian (output coefficient x input sample): compared with central differences of a float64 reference at dense inputs, required finite and bounded at inputs where moduli vanish '
        '(zero, constant, every unit impulse, alternating, sparse, subnormal), zero for orders >= 1 at the zero signal, and directional derivatives (jvp) equal to the products with that Jacobian; every configuration of the lattice, every out_type, single and double precision; '
        'distinct_nontrivial = distinct (configuration, out_type, coefficient) whose reference derivative is not identically zero')
ASSUMPTIONS = ['central differences of step 1e-5 in float64; tolerance 2e-4 of the largest entry of the row plus 1e-5 of the Jacobian (filters are single precision)',
               '3-D powers below 1 are not differentiable at zero: only finiteness at the zero signal is required there']


def cases(tier, seed):
    deep = tier == 'thorough'
    cf = []
    for J, N, Q in [(1, 4, 1), (2, 8, 1), (3, 13, 1), (3, 16, 2), (2, 9, [2, 1])] + ([(4, 33, 4), (5, 40, 1), (3, 30, 8)] if deep else []):
        for T in (None, 0, 'global', 1, N):
            for mo in (2, 1):
                cf.append(('1d', dict(J=J, shape=[N], Q=Q, T=T, max_order=mo)))
        cf.append(('1d', dict(J=J, shape=[N], Q=Q, stride=1)))
    for J, J_fr, N, Q in [(2, 1, 8, 1), (3, 1, 12, 2)] + ([(3, 2, 20, 4)] if deep else []):
        for T in (None, 0, 'global'):
            for Fr in (None, 0, 'global'):
                for fmt in ('time', 'joint'):
                    cf.append(('jtfs', dict(J=J, J_fr=J_fr, shape=[N], Q=Q, T=T, F=Fr, format=fmt)))
    for J, L, sh in [(1, 1, [2, 2]), (1, 3, [3, 4]), (2, 2, [4, 4]), (2, 1, [5, 7])] + ([(2, 4, [8, 6]), (3, 2, [8, 8])] if deep else []):
        for mo in (2, 1):
            for pre in (False, True):
                if pre and (mo == 1 or J > 1) and not deep:
                    continue
                cf.append(('2d', dict(J=J, L=L, shape=sh, max_order=mo, pre_pad=pre)))
    for J, L, sh in [(0, 1, [2, 3, 2]), (1, 1, [3, 3, 3]), (1, 2, [4, 3, 2])] + ([(2, 2, [4, 4, 4])] if deep else []):
        for rot in (True, False):
            for pw in ([1.], [2., 1.], [.5, 1., 2.], [3.]):
                cf.append(('3d', dict(J=J, L=L, shape=sh, rotation_covariant=rot, integral_powers=pw)))
    for i in range(0, len(cf)):
        t, c = cf[i]
        yield dict(t=t, cfg=c, cost={'jtfs': 5, '2d': 3}.get(t, 1))


def flat(t, y, batch):
    """Output -> (B, K) tensor and list of orders."""
    import torch
    if isinstance(y, dict):
        rows = [(len(k), v) for k, v in y.items()]
    elif isinstance(y, list):
        rows = [(d.get('order', len(d['n'])), d['coef']) for d in y]
    else:
        return y.reshape(batch, -1), None
    return torch.cat([v.reshape(batch, -1) for _, v in rows], 1), np.concatenate([[o] * (v.numel() // batch) for o, v in rows])


def flat_np(y, batch):
    if isinstance(y, dict):
        return np.concatenate([v.reshape(batch, -1) for v in y.values()], 1)
    if isinstance(y, list):
        return np.concatenate([d['coef'].reshape(batch, -1) for d in y], 1)
    return np.asarray(y).reshape(batch, -1)


def jacobian(S, t, x, dtype, chunk=64):
    """(K, n) Jacobian at one input: each row of a replicated batch differentiates one coefficient."""
    import torch
    x0 = torch.tensor(x, dtype=dtype)
    y, orders = flat(t, S(x0[None]), 1)
    K = y.shape[1]
    out = []
    for a in range(0, K, chunk):
        b = min(K, a + chunk)
        xb = x0[None].repeat((b - a,) + (1,) * x0.dim()).requires_grad_(True)
        yb, _ = flat(t, S(xb), b - a)
        s = yb[torch.arange(b - a), torch.arange(a, b)].sum()
        if s.requires_grad:
            s.backward()
            g = xb.grad
        else:
            g = None
        if g is None:
            raise Violation('coefficients %d..%d do not propagate a gradient' % (a, b))
        out.append(g.reshape(b - a, -1).double().numpy())
    return np.concatenate(out), y.detach().double().numpy()[0], orders


def forward_mode(S, t, x, name, dt, Jc, w, rep):
    """Directional derivatives, which PyTorch obtains by differentiating the gradient with respect to its cotangent."""
    import torch
    v = np.random.default_rng([SEED, 19]).standard_normal(np.shape(x))
    X = torch.tensor(x, dtype=dt)[None]
    _, j = torch.autograd.functional.jvp(lambda u: flat(t, S(u), 1)[0], X, torch.tensor(v, dtype=dt)[None])
    j = j.double().numpy().reshape(-1)
    if not np.isfinite(j).all():
        raise Violation('%s: non-finite directional derivative' % w)
    # elsewhere moduli that vanish up to round-off leave the derivative undetermined
    if name in ('dense', 'zero', 'tiny', 'huge', 'vast'):
        want, scale = Jc @ v.reshape(-1), (np.abs(Jc) @ np.abs(v.reshape(-1)))
        if not (np.abs(j - want) <= (1e-8 if dt == torch.float64 else 1e-3) * (scale + scale.max(initial=0)) + 1e-36).all():
            raise Violation('%s: the directional derivative differs from the product with the Jacobian by %.3g' % (w, np.abs(j - want).max()))
    rep.eval(n=j.size)


def run_case(case, rep):
    import torch
    t, cfg = case['t'], case['cfg']
    sh = tuple(cfg['shape'])
    if cfg.get('pre_pad'):
        sh = tuple(prepad_size(n, cfg['J']) for n in sh)
    n = int(np.prod(sh))
    rng = np.random.default_rng([SEED, 15])
    powers = cfg.get('integral_powers', ())
    ots = ('array',) if t == '3d' else ('list', 'array') if t == '2d' else ('dict', 'list', 'array')
    if t in ('1d', 'jtfs') and (cfg.get('T') == 0 or cfg.get('F') == 0 and cfg.get('format') == 'joint'):
        ots = ots[:-1]
    dense = rng.standard_normal(sh)
    for ot in ots:
        full = cfg if t == '3d' else dict(cfg, out_type=ot)
        w0 = '%s %s' % (t, json.dumps(full))
        S64, S32 = F.build(t, 'torch', full).double(), F.build(t, 'torch', full)
        # --- true derivative
        eps = 1e-5
        E = np.eye(n).reshape((n,) + sh) * eps
        if t == '3d':
            from ..ref3d import Ref3D
            ref = Ref3D(cfg['J'], sh, cfg['L'], 1., 2, cfg['rotation_covariant'], tuple(powers))
            def f(x):
                d = ref(x)
                # [path][l][power], paths in documented order
                return np.stack([np.stack([d[p, l] for l in range(cfg['L'] + 1)], 1) for p in ref.paths()], 1).reshape(len(x), -1)
        else:
            N = F.build(t, 'numpy', full)
            def f(x):
                return flat_np(N(x), len(x))
        D = (f(dense + E) - f(dense - E)).T / (2 * eps)
        for S, dt, rt in ((S64, torch.float64, 2e-4), (S32, torch.float32, 5e-3)):
            w = '%s %s dense input' % (w0, dt)
            try:
                Jc, _, orders = jacobian(S, t, dense, dt)
            except Violation as e:
                raise Violation('%s: %s' % (w, e))
            if Jc.shape != D.shape:
                raise Violation('%s: Jacobian shape %s instead of %s' % (w, Jc.shape, D.shape))
            if not np.isfinite(Jc).all():
                raise Violation('%s: non-finite gradient' % w)
            lim = rt * np.abs(D).max(1, keepdims=True) + rt / 20 * np.abs(D).max()
            bad = np.abs(Jc - D) > lim
            if bad.any():
                i, j = np.argwhere(bad)[0]
                raise Violation('%s: derivative of coefficient %d with respect to sample %d is %.8g instead of %.8g' % (w, i, j, Jc[i, j], D[i, j]))
            rep.eval(n=D.size)
            for i in np.flatnonzero(np.abs(D).max(1) > 1e-9):
                rep.eval((w0, int(i)), 0)
        # --- one batch holding signals of every kind: entries do not influence one another, and neither
        #     the outputs nor the inputs nor the graph are disturbed by back-propagation
        imp = np.zeros(n)
        imp[n // 2] = 1
        kinds = np.stack([dense, np.zeros(sh), imp.reshape(sh), np.ones(sh), -2 * dense])
        for S, dt, tol in ((S64, torch.float64, 1e-9), (S32, torch.float32, 1e-3)):
            w = '%s %s mixed batch' % (w0, dt)
            smooth = t != '3d' or min(powers) >= 1
            keep = [0, 1, 2, 3, 4] if smooth else [0, 4]
            X = torch.tensor(kinds[keep], dtype=dt, requires_grad=True)
            y, _ = flat(t, S(X), len(keep))
            before = y.detach().clone()
            cot = torch.tensor(np.random.default_rng([SEED, 16]).standard_normal(tuple(y.shape)), dtype=dt)
            cot = cot[:1].expand_as(y)
            g1, = torch.autograd.grad(y, X, cot, retain_graph=True)
            g1 = g1.clone()
            g2, = torch.autograd.grad(y, X, cot, retain_graph=True)
            if not torch.isfinite(g1).all():
                raise Violation('%s: non-finite gradient' % w)
            if not torch.equal(before, y.detach()) or not np.array_equal(X.detach().double().numpy(), kinds[keep].astype(str(dt)[6:]).astype(float)):
                raise Violation('%s: back-propagation modified the output or the input' % w)
            scale = float(g1.abs().max()) + 1e-30
            if float((g1 - g2).abs().max()) > tol * scale:
                raise Violation('%s: a second back-propagation through the same graph gives another gradient (difference %.3g)' % (w, float((g1 - g2).abs().max())))
            for i in range(len(keep)):
                xi = torch.tensor(kinds[keep[i]], dtype=dt, requires_grad=True)
                yi, _ = flat(t, S(xi[None, None]), 1)
                (yi * cot[i:i + 1]).sum().backward()
                d = float((xi.grad - g1[i]).abs().max())
                # where the modulus vanishes up to round-off only the size of the gradient is determined
                if keep[i] in (0, 1, 4) and not d <= tol * scale:
                    raise Violation('%s: the gradient of entry %d differs from that of the signal alone by %.3g of %.3g' % (w, keep[i], d, scale))
                rep.eval()
        # --- second derivatives, by back-propagation through a back-propagation
        if t != '3d':
            w = '%s second derivative' % w0
            v = torch.tensor(np.random.default_rng([SEED, 17]).standard_normal(sh))
            x0 = torch.tensor(dense, dtype=torch.float64)

            def first(x, graph):
                x = x.clone().requires_grad_(True)
                y, _ = flat(t, S64(x[None]), 1)
                c = torch.tensor(np.random.default_rng([SEED, 18]).standard_normal(tuple(y.shape)))
                g, = torch.autograd.grad((y * c).sum(), x, create_graph=graph)
                return x, g
            xg, g = first(x0, True)
            if not g.requires_grad:
                h = torch.zeros_like(g)         # an affine map of the input
            else:
                h, = torch.autograd.grad((g * v).sum(), xg, allow_unused=True)
                h = torch.zeros_like(g) if h is None else h
            h2 = [(first(x0 + e * v, False)[1] - first(x0 - e * v, False)[1]) / (2 * e) for e in (1e-5, 1e-6)]
            noise = float((h2[0] - h2[1]).abs().max())
            scale = float(h2[0].abs().max()) + float(g.abs().max())
            d = float((h - h2[1]).abs().max())
            if not d <= 1e-3 * scale + 10 * noise:
                raise Violation('%s: the Hessian-vector product differs from the true one by %.3g of %.3g' % (w, d, scale))
            rep.maximum('second_derivative_error', d / scale)
            rep.eval((w0, 'second'), n)
        # --- inputs where moduli vanish
        special = {'zero': np.zeros(sh), 'constant': np.ones(sh), 'alternating': ((-1.) ** np.indices(sh).sum(0)), 'tiny': 1e-20 * dense, 'subnormal': 1e-40 * dense, 'half-zero': dense * (np.arange(n).reshape(sh) < n // 2), 'huge': 1e12 * dense, 'vast': 1e25 * dense}
        for i in sorted({0, 1, n // 2, n - 1}):
            e = np.zeros(n)
            e[i] = 1
            special['impulse at %d' % i] = e.reshape(sh)
        for name, x in [('dense', dense)] + list(special.items()):
            for S, dt in ((S64, torch.float64), (S32, torch.float32)):
                w = '%s %s %s' % (w0, dt, name)
                Jc, y, orders = jacobian(S, t, x, dt)
                if t != '3d' or min(powers) >= 1 and name not in ('huge', 'vast'):
                    forward_mode(S, t, x, name, dt, Jc, w, rep)
                if name == 'dense':
                    continue
                if t == '3d':
                    P = len(powers)
                    keep = np.array([powers[i % P] >= 1 for i in range(len(Jc))])
                    if name != 'zero':
                        Jc = Jc[keep]           # p < 1 has unbounded derivative near zeros of the modulus
                if name in ('huge', 'vast') and t == '3d':
                    continue
                if not np.isfinite(Jc).all():
                    raise Violation('%s: non-finite gradient' % w)
                rep.eval(n=Jc.size)
                if t != '3d' and name in ('huge', 'vast', 'tiny'):
                    # homogeneous of degree one: the derivative does not depend on the amplitude
                    rt = 2e-4 if dt == torch.float64 else 5e-3
                    lim = rt * np.abs(D).max(1, keepdims=True) + rt / 20 * np.abs(D).max()
                    if not (np.abs(Jc - D) <= lim).all():
                        raise Violation('%s: the derivative at an input of this amplitude differs from that at unit amplitude by %.3g' % (w, np.abs(Jc - D).max()))
                if t != '3d':
                    # coefficients are sums (global) or averages of 1-Lipschitz maps of l-infinity
                    bound = 1.5 * (np.abs(D).sum(1).max() + n * 8)
                    if np.abs(Jc).max() > bound:
                        raise Violation('%s: gradient of size %.3g (bound %.3g)' % (w, np.abs(Jc).max(), bound))
                if name == 'zero':
                    if orders is not None:
                        first = np.asarray(orders) >= 1
                        if np.abs(Jc[first]).max(initial=0) != 0:
                            raise Violation('%s: the gradient of orders >= 1 is %.3g, not 0' % (w, np.abs(Jc[first]).max()))
                        if (~first).any() and np.abs(Jc[~first]).max() == 0:
                            raise Violation('%s: the gradient of order 0 vanishes' % w)
                        D0 = D[~first]
                        if np.abs(Jc[~first] - D0).max(initial=0) > 1e-3 * np.abs(D0).max(initial=0) + 1e-6:
                            raise Violation('%s: wrong gradient of order 0' % w)
                    elif t == '3d':
                        if np.abs(Jc).max() != 0:
                            raise Violation('%s: gradient %.3g, not 0' % (w, np.abs(Jc).max()))
    rep.sample(dict(config=cfg, largest_derivative=float(np.abs(D).max()), shape=list(D.shape)))
