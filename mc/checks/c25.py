"""Results do not depend on ambient (process-wide) settings, and kymatio leaves those settings alone."""
import contextlib
import itertools
import json
import os
import random
import subprocess
import sys
import threading
import numpy as np
from ..core import Violation, SEED
from .. import fe as F

LEVEL = 'model_checking'
RULE = ('history = a sequence of ambient settings, one in force while the transform is constructed, one or two in force while it is called (and, in PyTorch, differentiated); transition = one such construction or call; every ordered pair (thorough: triple) of '
        'the settings of the menu of the frontend is executed on the real classes; after each transition the outputs must be those obtained under default settings and the process-wide state (random generators, floating-point error handling, '
        'warning filters, environment, working directory, default types and devices, gradient mode, thread counts, locale, path, standard streams, framework configuration) must be what it was; '
        'additionally every combination of interpreter options and environments of the menu, each in a fresh process; state = (frontend, settings in force)')
ASSUMPTIONS = ['settings which make the framework refuse ordinary broadcasting or type promotion (jax_numpy_rank_promotion, jax_numpy_dtype_promotion), a float16 Keras policy and underflow as an error are outside the menu',
               'outputs compared to 1e-5 (single) or 1e-9 (double) of their maximum']

CFG = {'1d': [dict(J=3, shape=[32], Q=2), dict(J=3, shape=[35], Q=[2, 1], T=0, out_type='dict'), dict(J=2, shape=[16], T='global', max_order=1), dict(J=3, shape=[32], stride=1, out_type='list')],
       'jtfs': [dict(J=3, J_fr=2, shape=[32], Q=2, format='time'), dict(J=2, J_fr=1, shape=[20], Q=2, format='joint', T='global', F=0, out_type='dict')],
       '2d': [dict(J=2, shape=[8, 7], L=3), dict(J=1, shape=[5, 4], L=2, out_type='list')],
       '3d': [dict(J=1, shape=[4, 5, 4], L=2), dict(J=1, shape=[4, 4, 4], L=1, rotation_covariant=False, integral_powers=[1., 2.])]}
FRONT = ('numpy', 'sklearn', 'torch', 'tensorflow', 'keras', 'jax')


@contextlib.contextmanager
def between(on, off):
    on()
    try:
        yield
    finally:
        off()


@contextlib.contextmanager
def warnings_as_errors():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        # the documented warning on short signals
        warnings.filterwarnings('ignore', 'Signal support is too small')
        yield


@contextlib.contextmanager
def recursion():
    old = sys.getrecursionlimit()
    depth = 0
    f = sys._getframe()
    while f:
        depth, f = depth + 1, f.f_back
    sys.setrecursionlimit(depth + 150)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


@contextlib.contextmanager
def no_streams():
    a, b = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = None
    try:
        yield
    finally:
        sys.stdout, sys.stderr = a, b


@contextlib.contextmanager
def gone_directory():
    import tempfile
    old = os.getcwd()
    d = tempfile.mkdtemp()
    os.chdir(d)
    os.rmdir(d)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def empty_environment():
    old = dict(os.environ)
    os.environ.clear()
    try:
        yield
    finally:
        os.environ.clear()
        os.environ.update(old)


@contextlib.contextmanager
def tracing():
    old = sys.gettrace()
    sys.settrace(lambda *a: None)
    try:
        yield
    finally:
        sys.settrace(old)


class InThread:
    """Not a context: the body runs in another thread."""


def settings(fe):
    """name -> factory of a context manager (or InThread)."""
    import gc
    import locale
    m = {'default': contextlib.nullcontext,
         'thread': InThread,
         'errstate': lambda: np.errstate(divide='raise', over='raise', invalid='raise'),
         'warnings': warnings_as_errors,
         'seeded': lambda: between(lambda: (np.random.seed(7), random.seed(7)), lambda: None),
         'print options': lambda: np.printoptions(precision=1, threshold=1, suppress=True),
         'no gc': lambda: between(gc.disable, gc.enable),
         'locale': lambda: between(lambda: locale.setlocale(locale.LC_ALL, 'C'), lambda: locale.setlocale(locale.LC_ALL, old_locale))}
    old_locale = locale.setlocale(locale.LC_ALL)
    m.update({'no streams': no_streams, 'directory gone': gone_directory, 'environment empty': empty_environment})
    if fe in ('numpy', 'sklearn'):
        m.update({'tracing': tracing, 'recursion': recursion})
    if fe == 'torch':
        import torch

        def dtype(d):
            old = torch.get_default_dtype()
            return between(lambda: torch.set_default_dtype(d), lambda: torch.set_default_dtype(old))
        m.update({'default float64': lambda: dtype(torch.float64), 'default float16': lambda: dtype(torch.float16), 'default bfloat16': lambda: dtype(torch.bfloat16),
                  'deterministic': lambda: between(lambda: torch.use_deterministic_algorithms(True), lambda: torch.use_deterministic_algorithms(False)),
                  'no_grad': torch.no_grad, 'enable_grad': torch.enable_grad, 'autocast': lambda: torch.autocast('cpu', torch.bfloat16), 'anomaly': lambda: torch.autograd.set_detect_anomaly(True),
                  'device': lambda: torch.device('cpu'), 'inference': torch.inference_mode, 'seeded': lambda: between(lambda: torch.manual_seed(3), lambda: None)})
    if fe == 'jax':
        import jax
        from jax.experimental import enable_x64
        m.update({'x64': enable_x64, 'debug_nans': lambda: jax.debug_nans(True), 'disable_jit': jax.disable_jit, 'device': lambda: jax.default_device(jax.devices('cpu')[0]),
                  'matmul precision': lambda: jax.default_matmul_precision('bfloat16'), 'leaks': jax.checking_leaks})
    if fe in ('tensorflow', 'keras'):
        import tensorflow as tf
        import keras
        m.update({'floatx': lambda: between(lambda: keras.backend.set_floatx('float64'), lambda: keras.backend.set_floatx('float32')),
                  'eager functions': lambda: between(lambda: tf.config.run_functions_eagerly(True), lambda: tf.config.run_functions_eagerly(False)),
                  'device': lambda: tf.device('/cpu:0'), 'name scope': lambda: tf.name_scope('scope'), 'seeded': lambda: between(lambda: tf.random.set_seed(3), lambda: None),
                  'tape': tf.GradientTape, 'soft placement': lambda: between(lambda: tf.config.set_soft_device_placement(False), lambda: tf.config.set_soft_device_placement(True))})
    return m


def ambient(fe):
    """The process-wide state a library should leave alone."""
    import locale
    import signal as sig
    import warnings
    s = dict(np_random=repr(np.random.get_state(legacy=False)['state']['pos']) + str(hash(np.random.get_state()[1].tobytes())), random=hash(random.getstate()), geterr=repr(np.geterr()),
             filters=repr([f for f in warnings.filters if 'kymatio' not in repr(f)]), showwarning=repr(warnings.showwarning), environ=repr(sorted(os.environ.items())), recursion=sys.getrecursionlimit(), path=repr(sys.path),
             locale=locale.setlocale(locale.LC_ALL), streams=(id(sys.stdout), id(sys.stderr)), hook=id(sys.excepthook), trace=repr(sys.gettrace()), printoptions=repr(np.get_printoptions()),
             threads=sorted(t.name for t in threading.enumerate() if 'kymatio' in t.name), signal=repr(sig.getsignal(sig.SIGINT)))
    try:
        s['cwd'] = os.getcwd()
    except OSError:
        s['cwd'] = None
    import logging
    s['logging'] = (logging.root.level, repr(logging.root.handlers), logging.root.manager.disable)
    import gc
    s['gc'] = (gc.isenabled(), gc.get_threshold())
    if fe == 'torch':
        import torch
        s['torch'] = (torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled(), torch.is_anomaly_enabled(),
                      hash(torch.get_rng_state().numpy().tobytes()), str(torch.get_default_device()), torch.is_autocast_enabled('cpu'), torch.backends.mkldnn.enabled, torch.get_float32_matmul_precision())
    if fe == 'jax':
        import jax
        s['jax'] = repr(sorted((k, v) for k, v in jax.config.values.items()))
    if fe in ('tensorflow', 'keras'):
        import tensorflow as tf
        import keras
        s['tf'] = (keras.backend.floatx(), keras.backend.epsilon(), keras.backend.image_data_format(), str(keras.mixed_precision.global_policy().name), tf.config.functions_run_eagerly(),
                   tf.config.get_soft_device_placement(), tf.executing_eagerly(), tf.get_logger().level)
    return s


def frameworks(fe):
    """Settings of a framework which can be read but not changed back and forth."""
    if fe == 'torch':
        import torch
        return (torch.get_num_interop_threads(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic, torch.get_deterministic_debug_mode(),
                torch.is_warn_always_enabled(), torch.backends.mkldnn.enabled, torch.is_autocast_cache_enabled())
    if fe in ('tensorflow', 'keras'):
        import tensorflow as tf
        return (tf.config.threading.get_inter_op_parallelism_threads(), tf.config.threading.get_intra_op_parallelism_threads(), str(tf.config.optimizer.get_jit()), repr(tf.config.optimizer.get_experimental_options()),
                str(tf.config.get_visible_devices()), tf.config.experimental.tensor_float_32_execution_enabled())
    return ()


def differ(a, b):
    return [k for k in a if a[k] != b[k]]


def configs(fe, deep):
    for t, l in CFG.items():
        if fe == 'keras' and t not in ('1d', '2d'):
            continue
        for c in l:
            if fe == 'keras' and ('out_type' in c or 'stride' in c):
                continue
            if fe == 'sklearn' and c.get('out_type', 'array') != 'array':
                continue
            yield t, c


def cases(tier, seed):
    deep = tier == 'thorough'
    for fe in FRONT:
        for t, c in configs(fe, deep):
            n = 3 if fe == 'jax' and t in ('jtfs', '3d') or deep else 1
            for part in range(n):
                yield dict(part=[part, n], kind='settings', fe=fe, t=t, cfg=c, depth=3 if deep or fe == 'numpy' and t == '1d' and c['J'] == 2 else 2, deep=deep, cost={'jax': 30, 'torch': 12, 'tensorflow': 15, 'keras': 15}.get(fe, 5))
    for fe in FRONT:
        for i, (opts, env) in enumerate(processes(fe, deep)):
            yield dict(kind='process', fe=fe, opts=opts, env=env, deep=deep, cost=40)


def processes(fe, deep):
    framework = fe in ('tensorflow', 'keras')
    yield [], {}
    yield ['-O'], {'PYTHONHASHSEED': '1'}
    # neither TensorFlow nor JAX can be imported without docstrings, nor TensorFlow with warnings as errors
    if not framework and fe != 'jax':
        yield ['-OO'], {'PYTHONHASHSEED': '2'}
    if not framework:
        yield ['-W', 'error', '-W', 'ignore:Signal support is too small'], {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'LANG': 'C'}
    yield ['-X', 'dev'] if not framework else ['-B'], {'PYTHONHASHSEED': '3'}
    yield ['-bb'], {'OMP_NUM_THREADS': '4', 'MKL_NUM_THREADS': '4', 'OPENBLAS_NUM_THREADS': '4'}
    yield ['-E'], {'HOME': None, 'USER': None, 'TZ': 'Asia/Kathmandu', 'KYMATIO_CACHE': '/nonexistent'}
    yield ['-c cwd'], {}
    if deep:
        for h in range(4, 16):
            yield ['-O'], {'PYTHONHASHSEED': str(h)}


def signal(t, cfg, dtype):
    return np.random.default_rng([SEED, 25]).standard_normal((2,) + tuple(cfg['shape'])).astype(dtype)


def values(fe, S, x):
    if fe == 'sklearn':
        return F.canon(S.transform(x.reshape(len(x), -1)), 'numpy')
    return F.canon(S(F.tensor(fe, x)))


def execute(ctx, f):
    """Run f under a setting; returns its value and what it changed of the ambient state."""
    if ctx is InThread:
        out = []

        def body():
            try:
                out.append((f(), None))
            except BaseException as e:
                out.append((None, e))
        th = threading.Thread(target=body)
        th.start()
        th.join()
        if out[0][1] is not None:
            raise out[0][1]
        return out[0][0]
    with ctx():
        return f()


def run_settings(case, rep):
    fe, t, cfg = case['fe'], case['t'], case['cfg']
    menu = settings(fe)
    full = dict(cfg)
    part, n = case['part']
    for dtype in ('float32', 'float64'):
        if n > 1 and not case['deep'] and dtype == 'float64':
            continue
        x = signal(t, cfg, dtype)
        double = fe == 'torch' and dtype == 'float64'

        def make():
            S = F.build(t, fe, full)
            return S.double() if double else S
        ref = values(fe, make(), x)
        if fe == 'torch':
            gref = gradient(make(), x)
        tol = 1e-9 if dtype == 'float64' and fe in ('numpy', 'sklearn', 'torch') and t != '3d' else 2e-5
        scale = max(float(np.abs(a).max()) for _, a in ref)

        def guard(name, what, f):
            """f under setting `name`: ambient state is compared inside the setting."""
            w = '%s %s %s, %s, %s under "%s"' % (fe, t, json.dumps(cfg), dtype, what, name)
            changed = []

            def g():
                a = ambient(fe)
                y = f()
                changed.extend(differ(a, ambient(fe)))
                return y
            try:
                y = execute(menu[name], g)
            except Exception as e:
                raise Violation('%s: %s: %s' % (w, type(e).__name__, e))
            if changed:
                raise Violation('%s: changed the process-wide state: %s' % (w, changed))
            return y, w
        for name in menu:       # lazy initialisation of the frameworks
            execute(menu[name], lambda: values(fe, make(), x))
        outer = ambient(fe)
        seeds = ('np_random', 'random', 'torch')
        for a in list(menu)[part::n]:
            S0, w = guard(a, 'construction', make)
            rep.transitions += 1
            for rest in itertools.product(menu, repeat=case['depth'] - 1):
                # every history starts from an object of its own
                S = guard(a, 'construction', make)[0] if case['depth'] > 2 or fe in ('numpy', 'torch') else S0
                past = 'built under "%s"' % a
                for b in rest:
                    y, w = guard(b, 'call of an object %s' % past, lambda: values(fe, S, x))
                    F.same(y, ref, tol, tol * scale, w)
                    if fe == 'torch' and [v.dtype for _, v in y] != [v.dtype for _, v in ref]:
                        raise Violation('%s: dtype %s instead of %s' % (w, y[0][1].dtype, ref[0][1].dtype))
                    rep.transitions += 1
                    past += ', called under "%s"' % b
                    if fe == 'torch' and b not in ('no_grad', 'inference') and a != 'inference' and not (t == '3d' and min(cfg.get('integral_powers', [.5])) < 1):
                        g, w = guard(b, 'gradient of an object %s' % past, lambda: gradient(S, x))
                        if g.shape != gref.shape or not np.abs(g - gref).max() <= 50 * tol * np.abs(gref).max():
                            raise Violation('%s: the gradient differs by %.3g' % (w, np.abs(g - gref).max()))
                        rep.transitions += 1
                rep.traces += 1
                rep.state((fe, t, json.dumps(cfg), dtype, a) + rest)
                rep.eval((fe, t, json.dumps(cfg), dtype, a) + rest)
        # the menu itself seeds the generators and nothing else
        left = [k for k in differ(outer, ambient(fe)) if k not in seeds]
        if left:
            raise Violation('%s %s %s: process-wide state changed: %s' % (fe, t, json.dumps(cfg), left))
    rep.sample(dict(frontend=fe, transform=t, settings=sorted(menu), depth=case['depth']))


def gradient(S, x):
    import torch
    X = torch.tensor(x, requires_grad=True)
    y = S(X)
    parts = list(y.values()) if isinstance(y, dict) else [d['coef'] for d in y] if isinstance(y, list) else [y]
    sum(p.sum() for p in parts).backward()
    return X.grad.double().numpy()


CHILD = r'''
import sys, json, os
repo, verif, fe, cwd = sys.argv[1:5]
sys.path[:0] = [verif, repo]
# what other libraries do when they are imported is not kymatio's doing
import random, tempfile, numpy as np, scipy.fft
for m in {'numpy': (), 'sklearn': ('sklearn.base',), 'torch': ('torch',), 'jax': ('jax.numpy',)}.get(fe, ('tensorflow', 'keras')):
    __import__(m)
if cwd == '1':
    d = tempfile.mkdtemp(); os.chdir(d); os.rmdir(d)
from mc.checks import c25
assert 'kymatio' not in sys.modules
def state():
    return dict(c25.ambient(fe), flags=repr(sys.flags), meta_path=repr(sys.meta_path), hooks=[id(sys.displayhook), id(sys.unraisablehook)], switch=sys.getswitchinterval(), extra=c25.frameworks(fe))
state()
before = state()
import kymatio, importlib
importlib.import_module('kymatio.' + fe)
after = state()
changed = [k for k in before if before[k] != after[k]]
out = []
for t, cfg in c25.configs(fe, False):
    for dtype in ('float32', 'float64'):
        S = c25.F.build(t, fe, cfg)
        if fe == 'torch' and dtype == 'float64':
            S = S.double()
        y = c25.values(fe, S, c25.signal(t, cfg, dtype))
        out.append([t, cfg, dtype, [[repr(k), a.tolist()] for k, a in y]])
json.dump(dict(changed=changed, out=out), open(sys.argv[5], 'w'))
'''


def run_process(case, rep):
    import tempfile
    fe = case['fe']
    env = dict(os.environ)
    for k, v in case['env'].items():
        if v is None:
            env.pop(k, None)
        else:
            env[k] = v
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    opts = [o for o in case['opts'] if o != '-c cwd']
    if '-E' not in opts:
        opts.append('-B')
    repo = os.environ.get('VERIF_REPO', '/repo')
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    w = '%s in a process with options %s and environment %s' % (fe, case['opts'], case['env'])
    fd, path = tempfile.mkstemp()
    os.close(fd)
    try:
        p = subprocess.run([sys.executable, '-B'] + opts + ['-c', CHILD, repo, root, fe, str(int('-c cwd' in case['opts'])), path], env=env, capture_output=True, text=True)
        if p.returncode:
            raise Violation('%s: %s' % (w, p.stderr[-1500:]))
        d = json.load(open(path))
    finally:
        os.unlink(path)
    if d['changed']:
        raise Violation('%s: importing kymatio changed the process-wide state: %s' % (w, d['changed']))
    for t, cfg, dtype, y in d['out']:
        S = F.build(t, fe, cfg)
        if fe == 'torch' and dtype == 'float64':
            S = S.double()
        ref = values(fe, S, signal(t, cfg, dtype))
        tol = 1e-9 if dtype == 'float64' and fe in ('numpy', 'sklearn', 'torch') and t != '3d' else 2e-5
        scale = max(float(np.abs(a).max()) for _, a in ref)
        F.same([(k, np.asarray(a)) for k, a in y], [(repr(k), a) for k, a in ref], tol, tol * scale, '%s, %s %s %s' % (w, t, json.dumps(cfg), dtype))
        rep.transitions += 1
        rep.eval((fe, t, json.dumps(cfg), dtype, json.dumps(case['opts']), json.dumps(case['env'])))
    rep.traces += 1
    rep.state((fe, json.dumps(case['opts']), json.dumps(case['env'])))
    rep.sample(dict(frontend=fe, options=case['opts'], environment=case['env'], results=len(d['out'])))


def run_case(case, rep):
    (run_settings if case['kind'] == 'settings' else run_process)(case, rep)
