"""Keras layers and TensorFlow call modes against the NumPy transform."""
import json
import numpy as np
from ..core import Violation, SEED
from .. import fe as F
from .c10 import prepad_size

LEVEL = 'exploration'
RULE = ('one evaluation = one call of one Keras layer or TensorFlow object in one mode (layer: direct call on every batch shape, functional Model with unknown and fixed batch size, Sequential, predict, fit step, compute_output_shape before and '
        'after building, rebuilt from get_config (directly, through JSON, clone_model, save/load); TensorFlow: eager, tf.function with fixed and unknown batch axes, nested in another function, inside a tape, eager and graph gradient) compared with NumPy '
        'on the same input; the lattice of configurations x modes is enumerated completely; distinct_nontrivial = distinct (class, configuration, mode, batch shape)')
ASSUMPTIONS = ['NumPy transform decided by C01-C04', 'TensorFlow computes in single precision: 3e-5 of the signal maximum', 'gradients compared at generic points with float64 central differences of the NumPy transform (2e-3)']


def keras_configs(deep):
    for J, N in [(1, 4), (2, 16), (2, 17), (3, 25)] + ([(4, 64), (5, 33), (3, 8), (1, 7)] if deep else []):
        for Q in (1, (2, 1)) + ((3, (1, 2)) if deep else ()):
            for T in (None, 'global', 2) + ((N, 1) if deep or N == 16 else ()):
                for mo in (1, 2):
                    yield '1d', dict(J=J, shape=[N], Q=list(Q) if isinstance(Q, tuple) else Q, T=T, max_order=mo)
    yield '1d', dict(J=3, shape=[32], oversampling=1)
    for J, L, sh in [(1, 1, [2, 3]), (1, 2, [9, 8]), (2, 2, [8, 5]), (2, 3, [4, 4])] + ([(3, 2, [16, 9]), (2, 8, [16, 16]), (1, 8, [5, 4])] if deep else []):
        for mo in (1, 2):
            for pre in (False, True):
                yield '2d', dict(J=J, L=L, shape=sh, max_order=mo, pre_pad=pre)


def tf_configs(deep):
    for J, N, Q in [(2, 16, 1), (3, 19, [2, 1])] + ([(1, 3, 1), (4, 40, 4)] if deep else []):
        for T in (None, 0, 'global', 2):
            for ot in ('array', 'list', 'dict'):
                if T == 0 and ot == 'array':
                    continue
                if ot == 'dict' and T == 2 and not deep:
                    continue
                yield '1d', dict(J=J, shape=[N], Q=Q, T=T, out_type=ot)
    for fmt in ('time', 'joint'):
        for T, Fr in ((None, None), ('global', None), (0, 'global')) + (((2, 2), ('global', 'global')) if deep else ()):
            yield 'jtfs', dict(J=2, J_fr=1, shape=[17], Q=2, T=T, F=Fr, format=fmt, out_type='dict' if T == 0 else 'array')
    for J, L, sh, pre in [(1, 2, [5, 4], False), (2, 2, [4, 8], False), (1, 1, [3, 2], True)] + ([(2, 4, [9, 8], True), (3, 1, [8, 8], False)] if deep else []):
        for ot in ('array', 'list'):
            yield '2d', dict(J=J, L=L, shape=sh, pre_pad=pre, out_type=ot)
    for J, L, sh in [(1, 1, [4, 3, 5]), (0, 2, [3, 3, 3])] + ([(2, 2, [6, 4, 5])] if deep else []):
        for rot in (True, False):
            yield '3d', dict(J=J, L=L, shape=sh, rotation_covariant=rot)


def cases(tier, seed):
    deep = tier == 'thorough'
    for t, c in keras_configs(deep):
        yield dict(kind='keras', t=t, cfg=c, deep=deep, cost=2)
    for t, c in tf_configs(deep):
        yield dict(kind='tf', t=t, cfg=c, deep=deep, cost=4)


def in_shape(t, cfg):
    if cfg.get('pre_pad'):
        return tuple(prepad_size(n, cfg['J']) for n in cfg['shape'])
    return tuple(cfg['shape'])


def run_keras(case, rep):
    import tensorflow as tf
    import keras
    from tensorflow.keras.layers import Input, Flatten, Dense
    t, cfg = case['t'], case['cfg']
    cls = F.cls(t, 'keras')
    kw = {k: (tuple(v) if isinstance(v, list) else v) for k, v in cfg.items() if k != 'shape'}
    sh = in_shape(t, cfg)
    nd = len(sh)
    ref = F.build(t, 'numpy', cfg)
    rng = np.random.default_rng([SEED, 19])

    def data(batch):
        return rng.standard_normal(batch + sh).astype('float32')

    def match(y, x, mode, tol=3e-5):
        w = 'Keras %s %s, %s, input %s' % (cls.__name__, json.dumps(cfg), mode, x.shape)
        if not (isinstance(y, np.ndarray) or tf.is_tensor(y)):
            raise Violation('%s: returned %s' % (w, type(y)))
        if y.dtype != 'float32':
            raise Violation('%s: dtype %s' % (w, y.dtype))
        e = ref(x.astype('float64'))
        F.same([('S', np.asarray(y))], [('S', e)], 3e-5, tol * np.abs(x).max() * (x.shape[-1] if cfg.get('T') == 'global' else 1), w)
        rep.eval((cls.__name__, json.dumps(cfg), mode, x.shape[:-nd]))
        return w

    def oshape(layer, x, y, mode):
        w = 'Keras %s %s, %s, input %s' % (cls.__name__, json.dumps(cfg), mode, x.shape)
        for s in (x.shape, (None,) + x.shape[1:]):
            if x.ndim == nd and s[0] is None:
                continue
            for conv in (tuple, tf.TensorShape):
                o = tuple(layer.compute_output_shape(conv(s)))
                want = tuple(y.shape) if s[0] is not None else (None,) + tuple(y.shape)[1:]
                if o != want:
                    raise Violation('%s: compute_output_shape(%s) is %s, the output has shape %s' % (w, s, o, want))

    def described(layer, mode):
        if t != '1d':
            return
        w = 'Keras %s %s, %s' % (cls.__name__, json.dumps(cfg), mode)
        got, want = layer.meta(), ref.meta()
        if set(got) != set(want):
            raise Violation('%s: meta() has the keys %s instead of %s' % (w, sorted(got), sorted(want)))
        for k in want:
            same = list(map(tuple, got[k])) == list(map(tuple, want[k])) if k == 'key' else np.array_equal(
                np.asarray(got[k], float), np.asarray(want[k], float), equal_nan=True)
            if not same:
                raise Violation('%s: meta()[%r] is not that of the NumPy frontend' % (w, k))
        for detail in (False, True):
            a, b = layer.output_size(detail=detail), ref.output_size(detail=detail)
            if a != b:
                raise Violation('%s: output_size(detail=%s) is %s instead of %s' % (w, detail, a, b))
        rep.eval((cls.__name__, json.dumps(cfg), mode, 'meta'))
    batches = [(3,), (1,), (2, 3), (), (2, 1, 2)]
    first = None
    for b in batches:
        layer = cls(**kw)
        x = data(b)
        y = layer(tf.convert_to_tensor(x))
        match(y, x, 'direct call')
        oshape(layer, x, y, 'compute_output_shape after the call')
        fresh = cls(**kw)
        oshape(fresh, x, y, 'compute_output_shape before the call')
        match(fresh(tf.convert_to_tensor(x)), x, 'call after compute_output_shape')
        described(layer, 'meta() after a call on %s' % (b,))
        described(fresh, 'meta() after compute_output_shape and a call on %s' % (b,))
        match(layer(x), x, 'second call, NumPy input')
        if layer.trainable_weights:
            raise Violation('%s %s: trainable weights' % (cls.__name__, json.dumps(cfg)))
    # models
    for b, name in (((None,), 'unknown batch size'), ((3,), 'fixed batch size'), ((None, 2), 'two batch axes')):
        layer = cls(**kw)
        inp = Input(shape=b[1:] + sh) if b[0] is None else Input(batch_shape=b + sh)
        out = layer(inp)
        m = keras.Model(inp, out)
        x = data((3,) + b[1:])
        y = m(x)
        match(y, x, 'functional model, ' + name)
        if tuple(out.shape) != (b[0],) + tuple(y.shape)[1:]:
            raise Violation('Keras %s %s: symbolic output shape %s, actual %s' % (cls.__name__, json.dumps(cfg), tuple(out.shape), tuple(y.shape)))
        if b != (3,):
            match(m.predict(x, verbose=0), x, 'predict, ' + name)
            x1 = data((1,) + b[1:])
            match(m(x1), x1, 'functional model, other batch size, ' + name)
    # configuration round trips
    layer = cls(**kw)
    conf = layer.get_config()
    import inspect
    names = set(inspect.signature(cls.__init__).parameters) - {'self'}
    if not names <= set(conf):
        raise Violation('Keras %s %s: get_config() lacks %s' % (cls.__name__, json.dumps(cfg), names - set(conf)))
    for k, v in kw.items():
        if conf[k] != v:
            raise Violation('Keras %s %s: get_config() gives %s=%r' % (cls.__name__, json.dumps(cfg), k, conf[k]))
    x = data((2,))
    match(cls(**conf)(x), x, 'rebuilt with cls(**get_config())')
    match(cls.from_config(json.loads(json.dumps(conf)))(x), x, 'from_config of the JSON configuration')
    used = cls(**kw)
    used(x)
    if used.get_config() != conf:
        raise Violation('Keras %s %s: get_config() changes after a call: %s' % (cls.__name__, json.dumps(cfg), used.get_config()))
    again = cls.from_config(used.get_config())
    match(again(x), x, 'from_config after a call')
    described(again, 'meta() of the layer rebuilt from its configuration')
    m = keras.Sequential([Input(shape=sh), cls(**kw)])
    match(m(x), x, 'Sequential')
    match(keras.models.clone_model(m)(x), x, 'clone_model')
    if cfg.get('max_order') != 1 or case['deep']:
        import tempfile, os
        with tempfile.TemporaryDirectory(prefix='kymatio-c19-') as d:
            p = os.path.join(d, 'm.keras')
            m.save(p)
            m2 = keras.models.load_model(p, custom_objects={cls.__name__: cls})
            match(m2(x), x, 'save and load_model')
        m = keras.Sequential([Input(shape=sh), cls(**kw), Flatten(), Dense(2)])
        m.compile('sgd', 'mse')
        m.fit(x, np.zeros((2, 2)), verbose=0, epochs=1)
        match(m.layers[0](x), x, 'layer after a training step')
        if not all(np.isfinite(w).all() for w in m.get_weights()):
            raise Violation('Keras %s %s: training gives non-finite weights' % (cls.__name__, json.dumps(cfg)))
    rep.sample(dict(config=cfg, get_config=conf))


def run_tf(case, rep):
    import tensorflow as tf
    t, cfg = case['t'], case['cfg']
    S, ref = F.build(t, 'tensorflow', cfg), F.build(t, 'numpy', cfg)
    sh = in_shape(t, cfg)
    rng = np.random.default_rng([SEED, 190])
    powers = (.5, 1., 2.)
    glob = cfg.get('T') == 'global' or cfg.get('F') == 'global'

    def data(batch):
        return rng.standard_normal(batch + sh).astype('float32')

    def values(y):
        if isinstance(y, dict):
            return list(y.values())
        if isinstance(y, list):
            return [d['coef'] for d in y]
        return [y]

    def match(vals, x, mode):
        w = 'TensorFlow %s %s, %s, input %s' % (t, json.dumps(cfg), mode, x.shape)
        e = ref(x.astype('float64'))
        e = values(e)
        if len(e) != len(vals):
            raise Violation('%s: %d coefficients instead of %d' % (w, len(vals), len(e)))
        for i, (a, b) in enumerate(zip(vals, e)):
            a, b = np.asarray(a), np.asarray(b)
            if t == '3d':
                for j, p in enumerate(powers):
                    F.same([(i, a[..., j])], [(i, b[..., j])], *((5e-5, 1e-5) if p >= 1 else (2e-3, 2e-2)), w)
            else:
                F.same([(i, a)], [(i, b)], 3e-5, 3e-6 * np.abs(x).max() * (sh[-1] if glob else 1) * 3, w)
        rep.eval(('tf', t, json.dumps(cfg), mode, x.shape))

    def g(v):
        return values(S(v))
    order = sorted if False else list
    # JAX-like key sorting does not apply: lists of tensors are returned
    for b in [(3,), (), (2, 2)]:
        x = data(b)
        match(values(S(tf.constant(x))), x, 'eager')
    fixed = tf.function(g)
    unknown = tf.function(g, input_signature=[tf.TensorSpec((None,) + sh, tf.float32)])
    two = tf.function(g, input_signature=[tf.TensorSpec((None, None) + sh, tf.float32)])
    for b in [(3,), (1,), ()] + ([(2, 2)] if case['deep'] else []):
        x = data(b)
        match(fixed(tf.constant(x)), x, 'tf.function')
    for b in [(3,), (1,), (4,)]:
        x = data(b)
        match(unknown(tf.constant(x)), x, 'tf.function, unknown batch size')
    x = data((2, 3))
    match(two(tf.constant(x)), x, 'tf.function, two unknown batch axes')
    # eager again after the graph calls, and another object next to it
    x = data((2,))
    match(values(S(tf.constant(x))), x, 'eager after graph calls')
    match(values(F.build(t, 'tensorflow', cfg)(tf.constant(x))), x, 'second object after graph calls')
    # gradients
    ws = None

    def loss(vals):
        nonlocal ws
        if ws is None:
            r = np.random.default_rng([SEED, 191])
            ws = [r.standard_normal(tuple(np.shape(v))).astype('float32') for v in vals]
            if t == '3d':
                for q in ws:
                    q[..., 0] = 0          # powers below 1 are not differentiable at zero
        return tf.add_n([tf.reduce_sum(v * q) for v, q in zip(vals, ws)])
    x = data((2,))
    v = tf.constant(x)
    with tf.GradientTape() as tape:
        tape.watch(v)
        vals = g(v)
        l = loss(vals)
    match(vals, x, 'inside GradientTape')
    eager = tape.gradient(l, v)
    if eager is None:
        raise Violation('TensorFlow %s %s: no gradient' % (t, json.dumps(cfg)))
    eager = eager.numpy()

    @tf.function
    def graph_grad(u):
        with tf.GradientTape() as tp:
            tp.watch(u)
            l = loss(g(u))
        return tp.gradient(l, u)
    gg = graph_grad(v).numpy()
    w = 'TensorFlow %s %s gradient' % (t, json.dumps(cfg))
    F.same([('graph', gg)], [('graph', eager)], 1e-3, 1e-5 * max(1., np.abs(eager).max()), w + ' (graph against eager)')
    n = int(np.prod(sh))
    h = 1e-5
    E = np.eye(n).reshape((n,) + sh) * h
    def L(z, k):
        return sum((np.asarray(a, float) * q[k]).reshape(len(z), -1).sum(1) for a, q in zip(values(ref(z)), ws))
    if t != '3d':      # 3-D integrals are single precision in NumPy: no finite differences (C15 has a float64 reference)
        for k in range(2):
            z = x[k].astype('float64')
            num = ((L(z + E, k) - L(z - E, k)) / (2 * h)).reshape(sh)
            F.same([('gradient', eager[k])], [('gradient', num)], 2e-3, 1e-4, w)
    zero = tf.zeros((1,) + sh)
    one = np.zeros((1,) + sh, 'float32')
    one.reshape(-1)[n // 2] = 1
    ws = [q[:1] for q in ws]
    for name, z in (('the zero signal', zero), ('an impulse', tf.constant(one))):
        with tf.GradientTape() as tape:
            tape.watch(z)
            l = loss(g(z))
        r = tape.gradient(l, z).numpy()
        if not np.isfinite(r).all():
            raise Violation('%s at %s is not finite' % (w, name))
        rep.eval(('tf', t, json.dumps(cfg), 'gradient at', name))
    rep.eval(('tf', t, json.dumps(cfg), 'gradient'))
    rep.sample(dict(config=cfg, gradient=np.round(eager.ravel()[:4].astype(float), 6)))


def run_case(case, rep):
    F.cls('1d', 'tensorflow')
    (run_keras if case['kind'] == 'keras' else run_tf)(case, rep)
