"""Derivatives and function transformations of the JAX and TensorFlow transforms."""
import json
import numpy as np
from ..core import Violation, SEED
from .. import fe as F
from . import c15

LEVEL = 'exploration'
RULE = ('one evaluation = one entry of a full Jacobian (output coefficient x input sample) of one JAX or TensorFlow transform in one mode (JAX: grad by reverse mode, forward mode, under jit, over vmap, in double precision; TensorFlow: tape, persistent tape, forward mode, '
        'inside tf.function with known and unknown batch size): compared with central differences of a float64 reference at dense inputs, required finite where moduli vanish (zero, constant, every unit impulse, alternating, half-zero), zero for orders >= 1 '
        'at the zero signal; plus vmap compared with the batched call; every configuration of the lattice, every out_type; distinct_nontrivial = distinct (configuration, frontend, mode, coefficient) whose reference derivative is not identically zero')
ASSUMPTIONS = ['central differences of step 1e-5 in float64; tolerance 5e-3 of the largest entry of the row (single precision; 2e-4 in JAX double precision)',
               '3-D powers below 1 are not differentiable where the modulus vanishes: only dense inputs are judged there']


def cases(tier, seed):
    deep = tier == 'thorough'
    for i, c in enumerate(c15.cases(tier, seed)):
        t, cfg = c['t'], c['cfg']
        if not deep and t == '1d' and cfg['shape'] == [13]:
            continue
        for fe in ('jax', 'tensorflow'):
            # in the quick tier every third configuration goes through every mode, the others through the full Jacobians, the batched gradient and vmap
            yield dict(fe=fe, t=t, cfg=cfg, deep=deep, every=deep or i % 3 == 0, cost=c['cost'] * (1 + len(cfg.get('integral_powers', ()))) * (3 if i % 3 == 0 else 1) * (4 if fe == 'jax' else 1))


def orders_of(y):
    """Order of each entry of the flattened output, or None."""
    if isinstance(y, dict):
        return np.concatenate([[len(k)] * int(np.prod(np.shape(v))) for k, v in y.items()])
    if isinstance(y, list):
        return np.concatenate([[d.get('order', len(d['n']))] * int(np.prod(np.shape(d['coef']))) for d in y])
    return None


def parts(y):
    return [v for v in y.values()] if isinstance(y, dict) else [d['coef'] for d in y] if isinstance(y, list) else [y]


def reference(t, cfg, full, sh):
    if t == '3d':
        from ..ref3d import Ref3D
        ref = Ref3D(cfg['J'], sh, cfg['L'], 1., 2, cfg['rotation_covariant'], tuple(cfg['integral_powers']))
        def f(x):
            d = ref(x)
            return np.stack([np.stack([d[p, l] for l in range(cfg['L'] + 1)], 1) for p in ref.paths()], 1).reshape(len(x), -1)
        return f
    N = F.build(t, 'numpy', full)
    return lambda x: c15.flat_np(N(x), len(x))


def run_jax(case, rep, S, sh, dtype, w0, D, dense, specials, rt, every):
    import jax, jax.numpy as jnp
    t = case['t']

    def f(x):
        return jnp.concatenate([jnp.reshape(v, -1) for v in parts(S(x))])

    n = int(np.prod(sh))
    rev, fwd = jax.jit(jax.jacrev(f)), jax.jit(jax.jacfwd(f))
    cot = np.random.default_rng([SEED, 24]).standard_normal(len(D))
    lim = rt * np.abs(D).max(1, keepdims=True) + rt / 20 * np.abs(D).max()
    x0 = jnp.asarray(dense.astype(dtype))

    def judge(J, mode):
        J = np.asarray(J, np.float64).reshape(-1, n)
        if J.shape != D.shape:
            raise Violation('%s, %s: Jacobian shape %s instead of %s' % (w0, mode, J.shape, D.shape))
        if not np.isfinite(J).all():
            raise Violation('%s, %s: non-finite derivative at a dense input' % (w0, mode))
        bad = np.abs(J - D) > lim
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise Violation('%s, %s: derivative of coefficient %d with respect to sample %d is %.8g instead of %.8g' % (w0, mode, i, j, J[i, j], D[i, j]))
        rep.eval(n=D.size)
        for i in np.flatnonzero(np.abs(D).max(1) > 1e-9):
            rep.eval((w0, mode, int(i)), 0)
    judge(rev(x0), 'jit(jacrev)')
    judge(fwd(x0), 'jit(jacfwd)')
    # gradient of one scalar, eager, compiled, vectorised over a batch
    def loss(x, c=jnp.asarray(cot.astype(dtype))):
        return jnp.sum(f(x) * c)
    G = cot @ D
    gl = rt * (np.abs(cot)[:, None] * np.abs(D)).sum(0).max() + 1e-12

    def judge_g(g, G, mode):
        g = np.asarray(g, np.float64)
        if g.shape != G.shape:
            raise Violation('%s, %s: gradient of shape %s instead of %s' % (w0, mode, g.shape, G.shape))
        if not np.abs(g - G).max() <= gl:
            raise Violation('%s, %s: the gradient differs from the true one by %.3g (allowed %.3g)' % (w0, mode, np.abs(g - G).max(), gl))
        rep.eval((w0, mode), G.size)
    Gs = G.reshape(sh)
    batch = jnp.stack([x0, -x0, x0])
    if every:
        judge_g(jax.grad(loss)(x0), Gs, 'grad')
        judge_g(jax.jit(jax.grad(loss))(x0), Gs, 'jit(grad)')
        judge_g(jax.grad(jax.jit(loss))(x0), Gs, 'grad(jit)')
        v, g = jax.value_and_grad(loss)(x0)
        judge_g(g, Gs, 'value_and_grad')
    gb = np.asarray(jax.jit(jax.vmap(jax.grad(loss)))(batch), np.float64)
    judge_g(gb[0], Gs, 'vmap(grad), first entry')
    judge_g(gb[2], Gs, 'vmap(grad), last entry')
    ge = np.asarray(jax.grad(lambda X: jnp.sum(jnp.concatenate([jnp.reshape(p, (3, -1)) for p in parts(S(X))], 1) * cot.astype(dtype)))(batch), np.float64)
    judge_g(ge[0], Gs, 'grad of a batched call, first entry')
    judge_g(ge[2], Gs, 'grad of a batched call, last entry')
    if np.abs(ge - gb).max() > gl:
        raise Violation('%s: vmap(grad) and the gradient of a batched call differ by %.3g' % (w0, np.abs(ge - gb).max()))
    # vmap of the transform itself, over each position of the mapped axis
    y = [np.asarray(p, np.float64) for p in parts(S(batch))]
    for k, (mode, fn, arg) in enumerate((
                          ('vmap', jax.vmap(lambda x: parts(S(x))), batch),
                          ('jit(vmap)', jax.jit(jax.vmap(lambda x: parts(S(x)))), batch),
                          ('vmap over the last axis', jax.vmap(lambda x: parts(S(x)), in_axes=-1), jnp.moveaxis(batch, 0, -1)),
                          ('vmap of batches', jax.vmap(lambda x: [p[0] for p in parts(S(x[None]))]), batch))):
        if k and not every:
            continue
        z = fn(arg)
        for a, b in zip(y, z):
            b = np.asarray(b, np.float64)
            if a.shape != b.shape:
                raise Violation('%s, %s: shape %s instead of %s' % (w0, mode, b.shape, a.shape))
            if not np.abs(a - b).max(initial=0) <= (2e-5 if dtype == 'float32' else 1e-9) * (np.abs(a).max(initial=0) + np.abs(dense).max()):
                raise Violation('%s, %s: differs from the batched call by %.3g' % (w0, mode, np.abs(a - b).max()))
        rep.eval((w0, mode))
    # derivatives where moduli vanish
    for name, x in specials.items():
        x1 = jnp.asarray(x.astype(dtype))
        for mode, J in (('jacrev', rev(x1)), ('jacfwd', fwd(x1))):
            J = np.asarray(J, np.float64).reshape(-1, n)
            finite_at(J, name, '%s, %s' % (w0, mode), S, t, x1, D, n, rep)
            amplitude(J, name, D, lim, '%s, %s' % (w0, mode))
        g = jax.grad(loss)(x1) if every else 0
        if not np.isfinite(np.asarray(g)).all():
            raise Violation('%s, grad at %s: non-finite gradient' % (w0, name))


def amplitude(J, name, D, lim, w):
    """The transform is homogeneous of degree one: its derivative does not depend on the amplitude."""
    if name in ('tiny', 'huge') and not (np.abs(J - D) <= 2 * lim).all():
        raise Violation('%s: the derivative at %s amplitude differs from that at unit amplitude by %.3g' % (w, name, np.abs(J - D).max()))


def finite_at(J, name, w, S, t, x, D, n, rep):
    if not np.isfinite(J).all():
        raise Violation('%s at %s: non-finite derivative' % (w, name))
    rep.eval(n=J.size)
    if t != '3d':
        bound = 1.5 * (np.abs(D).sum(1).max() + n * 8)
        if np.abs(J).max() > bound:
            raise Violation('%s at %s: derivative of size %.3g (bound %.3g)' % (w, name, np.abs(J).max(), bound))
    if name != 'zero':
        return
    o = orders_of(S(x))
    if t == '3d':
        if np.abs(J).max() != 0:
            raise Violation('%s at zero: derivative %.3g, not 0' % (w, np.abs(J).max()))
    elif o is not None:
        if np.abs(J[o >= 1]).max(initial=0) != 0:
            raise Violation('%s at zero: the derivative of orders >= 1 is %.3g, not 0' % (w, np.abs(J[o >= 1]).max()))
        D0, J0 = D[o == 0], J[o == 0]
        if np.abs(J0 - D0).max(initial=0) > 1e-3 * np.abs(D0).max(initial=0) + 1e-6:
            raise Violation('%s at zero: wrong derivative of order 0' % w)


def run_tf(case, rep, S, sh, w0, D, dense, specials, rt):
    import tensorflow as tf
    t = case['t']
    n, K = int(np.prod(sh)), len(D)

    def f(X):
        """(B,) + sh -> (B, K)."""
        return tf.concat([tf.reshape(p, (tf.shape(X)[0], -1)) for p in parts(S(X))], 1)

    def jac(X):
        # one row of the batch per coefficient: its gradient is the row of the Jacobian
        with tf.GradientTape() as tape:
            tape.watch(X)
            s = tf.reduce_sum(tf.linalg.diag_part(f(X)))
        return tape.gradient(s, X)
    modes = {'tape': jac,
             'tf.function, fixed batch': tf.function(jac, input_signature=[tf.TensorSpec((K,) + sh, tf.float32)]),
             'tf.function, unknown batch': tf.function(jac, input_signature=[tf.TensorSpec((None,) + sh, tf.float32)])}
    lim = rt * np.abs(D).max(1, keepdims=True) + rt / 20 * np.abs(D).max()
    rep0 = np.broadcast_to(dense.astype('float32'), (K,) + sh)
    for mode, g in modes.items():
        J = g(tf.constant(rep0))
        if J is None:
            raise Violation('%s, %s: no gradient' % (w0, mode))
        J = np.asarray(J, np.float64).reshape(K, n)
        if not np.isfinite(J).all():
            raise Violation('%s, %s: non-finite derivative at a dense input' % (w0, mode))
        bad = np.abs(J - D) > lim
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise Violation('%s, %s: derivative of coefficient %d with respect to sample %d is %.8g instead of %.8g' % (w0, mode, i, j, J[i, j], D[i, j]))
        rep.eval(n=D.size)
        for i in np.flatnonzero(np.abs(D).max(1) > 1e-9):
            rep.eval((w0, mode, int(i)), 0)
    def fwd(x):
        # one copy of the input per sample, with a unit tangent on that sample
        X = tf.constant(np.broadcast_to(x.astype('float32'), (n,) + sh))
        with tf.autodiff.ForwardAccumulator(X, tf.constant(np.eye(n, dtype='float32').reshape((n,) + sh))) as acc:
            y = f(X)
        return np.asarray(acc.jvp(y), np.float64).T
    J = fwd(dense)
    if J.shape != D.shape or not (np.abs(J - D) <= lim).all():
        raise Violation('%s, forward mode: wrong derivative' % w0)
    rep.eval((w0, 'forward mode'), D.size)
    # persistent tape: two gradients of one recording, outputs undisturbed, a second recording inside the first
    cot = np.random.default_rng([SEED, 24]).standard_normal((1, K)).astype('float32')
    X = tf.constant(np.stack([dense, -dense, dense]).astype('float32'))
    with tf.GradientTape(persistent=True) as tape:
        tape.watch(X)
        y = f(X)
        with tf.GradientTape() as inner:
            inner.watch(X)
            s2 = tf.reduce_sum(f(X) * cot)
        g3 = inner.gradient(s2, X)
        s = tf.reduce_sum(y * cot)
    before = np.array(y)
    g1, g2 = np.array(tape.gradient(s, X)), np.array(tape.gradient(s, X))
    gl = rt * (np.abs(cot[0])[:, None] * np.abs(D)).sum(0).max() + 1e-12
    for mode, g in (('persistent tape', g1), ('persistent tape, second gradient', g2), ('nested tape', np.array(g3))):
        for i in (0, 2):
            d = np.abs(g[i].reshape(-1) - cot[0].astype(float) @ D).max()
            if not d <= gl:
                raise Violation('%s, %s: the gradient of entry %d differs from the true one by %.3g (allowed %.3g)' % (w0, mode, i, d, gl))
        rep.eval((w0, mode), g.size)
    if not np.array_equal(before, np.array(y)):
        raise Violation('%s: the outputs changed while the gradient was computed' % w0)
    for name, x in specials.items():
        xb = tf.constant(np.broadcast_to(x.astype('float32'), (K,) + sh))
        for mode in ('tape', 'tf.function, unknown batch'):
            J = np.asarray(modes[mode](xb), np.float64).reshape(K, n)
            amplitude(J, name, D, lim, '%s, %s' % (w0, mode))
            finite_at(J, name, '%s, %s' % (w0, mode), S, t, tf.constant(x.astype('float32')), D, n, rep)
        J = fwd(x)
        amplitude(J, name, D, lim, '%s, forward mode' % w0)
        finite_at(J, name, '%s, forward mode' % w0, S, t, tf.constant(x.astype('float32')), D, n, rep)


def run_case(case, rep):
    t, cfg, fe = case['t'], case['cfg'], case['fe']
    sh = tuple(cfg['shape'])
    if cfg.get('pre_pad'):
        sh = tuple(c15.prepad_size(k, cfg['J']) for k in sh)
    n = int(np.prod(sh))
    powers = cfg.get('integral_powers', ())
    ots = ('array',) if t == '3d' else ('list', 'array') if t == '2d' else ('dict', 'list', 'array')
    if t in ('1d', 'jtfs') and (cfg.get('T') == 0 or cfg.get('F') == 0 and cfg.get('format') == 'joint'):
        ots = ots[:-1]
    if not case['deep'] and len(ots) > 1:
        ots = ots[:1] + (ots[-1:] if t != 'jtfs' else ())
    dense = np.random.default_rng([SEED, 15]).standard_normal(sh)
    eps = 1e-5
    E = np.eye(n).reshape((n,) + sh) * eps
    for ot in ots:
        full = cfg if t == '3d' else dict(cfg, out_type=ot)
        w0 = '%s %s %s' % (fe, t, json.dumps(full))
        f = reference(t, cfg, full, sh)
        D = (f(dense + E) - f(dense - E)).T / (2 * eps)
        special = {'zero': np.zeros(sh), 'constant': np.ones(sh), 'alternating': ((-1.) ** np.indices(sh).sum(0)), 'half-zero': dense * (np.arange(n).reshape(sh) < n // 2)}
        for i in sorted({0, 1, n // 2, n - 1}):
            e = np.zeros(n)
            e[i] = 1
            special['impulse at %d' % i] = e.reshape(sh)
        if t == '3d' and min(powers) < 1:
            special = {}
        if t != '3d':
            special.update({'tiny': (1e-15 if fe == 'jax' else 1e-9) * dense, 'subnormal': 1e-40 * dense, 'huge': 1e12 * dense})
        S = F.build(t, fe, full)
        if fe == 'jax':
            run_jax(case, rep, S, sh, 'float32', w0, D, dense, special, 5e-3, case['every'] and ot == ots[0])
        else:
            run_tf(case, rep, S, sh, w0, D, dense, special, 5e-3)
    if fe == 'jax' and case['every']:
        from jax.experimental import enable_x64
        with enable_x64():
            S = F.build(t, fe, full)
            run_jax(case, rep, S, sh, 'float64', w0 + ' (double precision)', D, dense, special, 5e-3 if t == '3d' else 2e-4, case['deep'])
    rep.sample(dict(config=cfg, frontend=fe, largest_derivative=float(np.abs(D).max()), shape=list(D.shape)))
