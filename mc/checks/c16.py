"""Single faults: every invalid argument or input of a table is rejected, leaves no trace; border-valid ones are accepted."""
import itertools, json
import numpy as np
from ..core import Violation, SEED
from .. import fe as F
from .c10 import prepad_size

LEVEL = 'exploration'
RULE = ('(a) every constructor fault of a table, in every base configuration and frontend: constructing and calling raises, of the documented kind where one is documented, and an object built before and one built after still give the '
        'reference coefficients; (b) every input fault (all wrong sizes of a box, ranks, types, dtypes) on a valid object, each followed by a valid call compared with the result of the untouched object, plus all ordered pairs of faults on '
        'NumPy and PyTorch; (c) every border-valid argument is accepted and gives finite output; distinct_nontrivial = distinct (frontend, transform, configuration, fault)')
ASSUMPTIONS = ['arguments which the library does not validate (max_order outside {1,2}, L=0, sigma_0<0, 2**J>N with T=None, empty integral_powers) are not judged', 'only the exception type is judged']

V, T_, R, I = (ValueError,), (TypeError,), (RuntimeError,), (ImportError,)
ANY = (Exception,)

# transform -> (base configurations, list of (fault, accepted exception types))
BASES = {'1d': [dict(J=2, shape=[16]), dict(J=3, shape=[21], Q=[2, 1], T=4), dict(J=2, shape=[8], T='global', out_type='dict'), dict(J=2, shape=[9], T=0, out_type='list')],
         'jtfs': [dict(J=2, J_fr=1, shape=[16], Q=2), dict(J=3, J_fr=1, shape=[17], Q=1, format='joint', out_type='dict')],
         '2d': [dict(J=1, shape=[4, 6], L=2), dict(J=2, shape=[5, 4], L=1, max_order=1, out_type='list'), dict(J=1, shape=[4, 6], L=2, pre_pad=True)],
         '3d': [dict(J=1, shape=[4, 3, 5], L=1), dict(J=0, shape=[3, 3, 2], L=2, rotation_covariant=False, integral_powers=[1.])]}
FAULTS = {
    '1d': [(dict(J=12), V), (dict(J='2'), ANY), (dict(J=None), ANY),
           (dict(shape=[4, 4]), V), (dict(shape='16'), V), (dict(shape=['list', 16]), V), (dict(shape=16.), V), (dict(shape=None), V), (dict(shape=0), V), (dict(shape=-4), V), (dict(shape=[]), ANY),
           (dict(Q=0), V), (dict(Q=-1), V), (dict(Q=.5), V), (dict(Q=1.5), V), (dict(Q=[1, 1, 1]), (NotImplementedError,)), (dict(Q=[0, 1]), V), (dict(Q=[2, 0]), V), (dict(Q='a'), ANY), (dict(Q=['list', 2, 1]), V), (dict(Q=None), ANY),
           (dict(T=-1), V), (dict(T=.5), V), (dict(T=-.5), V), (dict(T=.99), V), (dict(T='N+1'), V), (dict(T='N+.5'), V), (dict(T=1000), V), (dict(T='local'), ANY), (dict(T='Global'), ANY), (dict(T=[4]), ANY),
           (dict(stride=3), V), (dict(stride=6), V), (dict(stride=0), V), (dict(stride=-2), V), (dict(stride=1.5), V), (dict(stride=2.), V), (dict(stride='2'), V),
           (dict(stride=2, T='global'), V), (dict(stride=1, T='global'), V), (dict(stride=2, T=0, out_type='list'), V), (dict(stride=1, T=0, out_type='dict'), V), (dict(stride=64), ANY),
           (dict(out_type='x'), V), (dict(out_type=None), V), (dict(out_type='Array'), V), (dict(out_type='arr'), V), (dict(T=0, out_type='array'), V),
           (dict(oversampling=-1), V), (dict(oversampling=.5), V), (dict(oversampling=1, stride=4, T=4), V),
           (dict(backend='nope'), I), (dict(backend='@_nope'), I), (dict(backend='@other'), I), (dict(backend='object:other'), I), (dict(backend=None), ANY), (dict(backend=3), ANY), (dict(no_such_argument=1), T_)],
    'jtfs': [(dict(J=12), V), (dict(shape=[4, 4]), V), (dict(Q=0), V), (dict(Q=[1, 1, 1]), (NotImplementedError,)), (dict(Q=[0, 1]), V),
             (dict(Q_fr=0), V), (dict(Q_fr=-1), V), (dict(Q_fr=[1, 1]), (NotImplementedError,)), (dict(Q_fr='a'), ANY), (dict(Q_fr=1.5), V), (dict(J_fr=None), ANY),
             (dict(F=-1), V), (dict(F=.5), V), (dict(F=99), V), (dict(F='x'), ANY), (dict(T=-1), V), (dict(T=.5), V), (dict(T='N+1'), V),
             (dict(stride_fr=3), V), (dict(stride_fr=0), V), (dict(stride_fr=-1), V), (dict(stride_fr=1.5), V), (dict(stride_fr='1'), V), (dict(stride_fr=2, F='global'), V), (dict(stride_fr=1, F='global'), V), (dict(stride_fr=1, F=0, format='time'), V),
             (dict(stride=3), V), (dict(stride=0), V), (dict(stride=1, T='global'), V), (dict(stride=64), ANY),
             (dict(format='x'), V), (dict(format=None), V), (dict(format='Time'), V), (dict(out_type='x'), V), (dict(out_type=None), V), (dict(F=0, format='joint', out_type='array'), V), (dict(T=0, out_type='array'), V),
             (dict(backend='nope'), I), (dict(backend='@other'), I), (dict(no_such_argument=1), T_)],
    '2d': [(dict(J=3), R), (dict(J=6), R), (dict(J='1'), ANY), (dict(J=-1), ANY), (dict(L=1.5), ANY), (dict(L='2'), ANY),
           (dict(shape=[4]), ANY), (dict(shape=[4, 6, 2]), ANY), (dict(shape=4), ANY), (dict(shape=[1, 6]), R), (dict(shape=[6, 1]), R), (dict(shape=[0, 0]), R), (dict(shape=[3, 1]), R), (dict(shape='46'), ANY), (dict(shape=None), ANY),
           (dict(out_type='dict'), R), (dict(out_type='x'), R), (dict(out_type=None), R), (dict(out_type='Array'), R),
           (dict(backend='nope'), I), (dict(backend='@_nope'), I), (dict(backend='@other'), I), (dict(backend='object:other'), I), (dict(backend=3), ANY), (dict(no_such_argument=1), T_)],
    '3d': [(dict(J='1'), ANY), (dict(L=1.5), ANY), (dict(shape=[4, 3]), ANY), (dict(shape=4), ANY), (dict(shape=[4, 3, 5, 2]), ANY), (dict(shape=None), ANY), (dict(sigma_0=0), ANY),
           (dict(method='x'), V), (dict(method='local'), V), (dict(method=None), V), (dict(integral_powers=1.), ANY), (dict(integral_powers=None), ANY), (dict(J=-1), ANY), (dict(L=-1), ANY),
           (dict(backend='nope'), I), (dict(backend='@other'), I), (dict(no_such_argument=1), T_)],
}
BORDER = {
    '1d': [dict(T=1), dict(T='N'), dict(T=1.), dict(T=3.5), dict(T='N-.5'), dict(stride=1), dict(stride=4, T=4), dict(stride=4, T=7.9), dict(stride=4, J=2), dict(Q=[1]), dict(Q=[3, 1]), dict(max_order=1), dict(max_order=2), dict(T=0, out_type='list'), dict(T=0, out_type='dict'),
           dict(T='global', out_type='array'), dict(J=1), dict(shape='int'), dict(shape='int64'), dict(stride='int64'), dict(J=3, shape=[8]), dict(J=1, shape=[2]), dict(oversampling=1), dict(oversampling=1, stride=2, J=2, T=None), dict(oversampling=2, stride=1, J=2, T=None), dict(backend='self')],
    'jtfs': [dict(F=1), dict(F=1.5), dict(F='global'), dict(F=0, format='time'), dict(J_fr=0), dict(stride_fr=1), dict(Q_fr=[1]), dict(Q_fr=2), dict(T='global'), dict(stride=1), dict(T=0, out_type='dict', format='time'), dict(F=0, format='joint', out_type='list'), dict(backend='self')],
    '2d': [dict(J=1, shape=[2, 2]), dict(J=1, shape=[2, 7]), dict(J=2, shape=[4, 4]), dict(L=1), dict(J=2, shape=[4, 9], L=3), dict(max_order=1), dict(out_type='list'), dict(pre_pad=True), dict(backend='self')],
    '3d': [dict(J=0), dict(L=0), dict(J=0, L=0), dict(shape=[2, 2, 2]), dict(shape=[1, 3, 4]), dict(integral_powers=[3.]), dict(max_order=1), dict(sigma_0=.5), dict(sigma_0=2), dict(backend='self')],
}


def cases(tier, seed):
    deep = tier == 'thorough'
    for t in BASES:
        for fe in F.FRONTENDS:
            if fe == 'keras' and t in ('jtfs', '3d'):
                continue
            for i, b in enumerate(BASES[t]):
                heavy = {'jax': 6, 'tensorflow': 4, 'keras': 4}.get(fe, 1)
                if fe == 'keras' and i not in (0,) and not deep:
                    continue
                yield dict(kind='constructor', t=t, fe=fe, base=b, deep=deep, cost=heavy)
                yield dict(kind='input', t=t, fe=fe, base=b, deep=deep, cost=heavy + 1)
                yield dict(kind='border', t=t, fe=fe, base=b, deep=deep, cost=heavy)


def decode(kw, base, t, fe):
    """JSON fault -> constructor arguments."""
    import importlib
    N = base['shape'][0]
    out = {}
    other = {'numpy': 'torch', 'sklearn': 'torch', 'torch': 'numpy', 'tensorflow': 'numpy', 'keras': 'numpy', 'jax': 'torch'}[fe]
    own = {'sklearn': 'numpy'}.get(fe, fe)
    d = {'1d': 1, 'jtfs': 1, '2d': 2, '3d': 3}[t]
    for k, v in kw.items():
        if isinstance(v, list):
            v = list(v[1:]) if v and v[0] == 'list' else tuple(v)
        if k == 'T' and isinstance(v, str) and v.startswith('N'):
            v = N + (float(v[1:]) if '.' in v else int(v[1:] or 0))
        if k == 'shape' and v == 'int':
            v = N
        if v == 'int64':
            v = np.int64(N if k == 'shape' else 2)
        if k == 'backend' and isinstance(v, str):
            v = v.replace('@other', other).replace('@', own)
            if v in ('object:other', 'self'):
                v = importlib.import_module('kymatio.scattering%dd.backend.%s_backend' % (d, other if v != 'self' else own)).backend
        out[k] = v
    return out


def make(t, fe, base, kw=None):
    full = {k: (tuple(v) if isinstance(v, list) else v) for k, v in base.items()}
    full.update(decode(kw or {}, base, t, fe))
    if fe == 'keras':
        for k in ('shape', 'out_type', 'stride', 'backend'):
            full.pop(k, None)
    return F.cls(t, fe)(**full)


def call(S, fe, x):
    return (S.scattering if fe in ('numpy', 'sklearn') else S)(x)


def in_shape(t, cfg):
    sh = cfg['shape']
    sh = tuple(sh) if isinstance(sh, (list, tuple)) else (sh,)
    if cfg.get('pre_pad'):
        sh = tuple(prepad_size(n, cfg['J']) for n in sh)
    return sh


def applicable(fe, kw):
    return fe != 'keras' or not any(k in kw for k in ('shape', 'out_type', 'stride', 'backend'))


def data(shape, fe):
    return F.tensor(fe, np.random.default_rng([SEED, 16]).standard_normal(shape), 'float32')


def judge(e, types, w):
    if isinstance(e, types):
        return
    raise Violation('%s: raised %s (%s), documented is %s' % (w, type(e).__name__, str(e)[:200], '/'.join(t.__name__ for t in types)))


def run_constructor(case, rep):
    t, fe, base = case['t'], case['fe'], case['base']
    if fe == 'keras' and (base.get('T') == 0):
        return
    S = make(t, fe, base)
    x = data((2,) + in_shape(t, base), fe)
    ref = F.canon(call(S, fe, x), fe)
    for kw, types in FAULTS[t]:
        if not applicable(fe, kw):
            continue
        if fe == 'keras' and kw.get('Q') == ['list', 2, 1]:
            continue        # accepted there: saved configurations hold lists
        full = dict(base, **kw)
        if t == '2d' and isinstance(full.get('J'), int) and kw.get('J') in (3, 6) and 2 ** full['J'] <= min(base['shape']):
            continue
        if t == '2d' and kw.get('J') == 3 and base.get('pre_pad') and fe == 'keras':
            continue
        w = '%s frontend=%s %s with %s' % (t, fe, json.dumps(base), json.dumps(kw))
        # the input has the shape which the faulty arguments ask for, where that makes sense
        sh = in_shape(t, base)
        if isinstance(kw.get('shape'), list) and kw['shape'] and all(isinstance(v, int) and v > 0 for v in kw['shape']):
            sh = tuple(kw['shape'])
        if base.get('pre_pad') and isinstance(kw.get('J'), int) and kw['J'] >= 0:
            sh = in_shape(t, full)
        try:
            B = make(t, fe, base, kw)
            y = call(B, fe, data((1,) + sh, fe))
        except Exception as e:
            judge(e, types, w)
        else:
            raise Violation('%s: accepted, and returned %s' % (w, [a.shape for _, a in F.canon(y)][:4]))
        rep.eval((fe, t, json.dumps(base), 'constructor', json.dumps(kw)))
        if fe != 'jax':
            F.same(F.canon(call(S, fe, x), fe), ref, 1e-6, 1e-7, w + ': a valid object after the rejection')
    F.same(F.canon(call(S, fe, x), fe), ref, 1e-6, 1e-7, 'valid object after all rejections')
    F.same(F.canon(call(make(t, fe, base), fe, x), fe), ref, 1e-6, 1e-7, 'new object after all rejections')
    rep.sample(dict(base=base, frontend=fe, faults=len(FAULTS[t])))


def input_faults(t, fe, sh, deep):
    rng = np.random.default_rng([SEED, 161])
    def X(*s):
        return rng.standard_normal(s).astype('float32')
    arr = (TypeError,)
    # 1-D frontends have no documented kind for objects that are not arrays
    nonarray = ANY if t in ('1d', 'jtfs') or fe in ('tensorflow', 'keras', 'jax', 'torch') else arr
    size = ANY if t in ('1d', 'jtfs') or fe == 'keras' else R
    out = [('None', None, nonarray if fe != 'jax' else ANY), ('str', 'abc', nonarray), ('int', 3, nonarray), ('float', 1.5, nonarray), ('tuple of None', (None,), nonarray), ('dict', {}, nonarray)]
    if fe in ('numpy', 'sklearn', 'torch'):
        out.append(('nested list', X(*sh).tolist(), nonarray))
    if fe == 'torch':
        out.append(('NumPy array', X(*sh), ANY))
    if fe in ('numpy', 'sklearn') and t in ('2d', '3d'):
        import torch
        out.append(('torch tensor', torch.from_numpy(X(*sh)), ANY))
    def arrx(name, v, types):
        try:
            out.append((name, F.tensor(fe, v), types))
        except Exception:
            pass
    arrx('0-d array', np.array(1., 'float32'), V if t in ('1d', 'jtfs') and fe in ('numpy', 'torch', 'sklearn') else size)
    if len(sh) > 1:
        for k in range(1, len(sh)):
            arrx('%d dimensions' % k, X(*sh[-k:]), size)
    # every wrong size in a box
    if len(sh) == 1:
        sizes = [(n,) for n in range(1, (3 if deep or fe in ('numpy', 'torch') else 2) * sh[0] + 2)]
    else:
        sizes = set()
        for d in itertools.product((-2, -1, 0, 1, 2), repeat=len(sh)):
            if sum(map(abs, d)) <= (4 if deep else 2):
                sizes.add(tuple(n + a for n, a in zip(sh, d)))
        for k in range(len(sh)):
            for v in (1, 2 * sh[k], sh[k] // 2, sh[k] + 4):
                sizes.add(sh[:k] + (v,) + sh[k + 1:])
        sizes |= set(itertools.permutations(sh))
        if len(sh) == 2 and (deep or fe in ('numpy', 'torch')):
            sizes |= set(itertools.product(range(1, 12), repeat=2))
    for s in sorted(sizes):
        if s != sh and min(s) > 0:
            arrx('size %s' % (s,), X(*s), size)
            if s[-1] % 2 and sum(s) % 3 == 0:
                arrx('batch of size %s' % (s,), X(2, *s), size)
    if sh[-1] != 1:
        arrx('trailing axis', X(*sh, 1), size)
    if sh[-1] != 2 or t == '3d' and sh[-2:] != (sh[-1], 2):
        if sh + (2,) != (2,) + sh and (sh + (2,))[1:] != sh:
            arrx('trailing axis of 2', X(*sh, 2), size)
    for dt in ('int64', 'int32', 'int8', 'uint8', 'bool', 'complex64', 'complex128', 'float16'):
        if fe == 'keras' and dt == 'float16' or fe == 'jax' and dt in ('int64', 'complex128'):
            continue
        arrx('dtype %s' % dt, np.ones(sh, dt), T_ if fe != 'torch' or dt.startswith('complex') and t != '3d' else ANY)
    return out


def run_input(case, rep):
    t, fe, base = case['t'], case['fe'], case['base']
    if fe == 'keras' and base.get('T') == 0:
        return
    sh = in_shape(t, base)
    S = make(t, fe, base)
    x = data((2,) + sh, fe)
    ref = F.canon(call(S, fe, x), fe)
    fresh = F.canon(call(make(t, fe, base), fe, x), fe)
    F.same(fresh, ref, 1e-6, 1e-7, 'two objects')
    faults = input_faults(t, fe, sh, case['deep'])

    def fault(S, name, v, types):
        w = '%s frontend=%s %s, input: %s' % (t, fe, json.dumps(base), name)
        keep = F.to_numpy(v).copy() if hasattr(v, 'shape') else None
        try:
            y = call(S, fe, v)
        except Exception as e:
            judge(e, types, w)
        else:
            raise Violation('%s: accepted, and returned %s' % (w, [a.shape for _, a in F.canon(y)][:4]))
        if keep is not None and not np.array_equal(keep, F.to_numpy(v)):
            raise Violation('%s: the rejected input was modified' % w)
        return w
    for name, v, types in faults:
        w = fault(S, name, v, types)
        F.same(F.canon(call(S, fe, x), fe), ref, 1e-6, 1e-7, w + ': valid call afterwards')
        rep.eval((fe, t, json.dumps(base), name))
    # a fault as the very first call
    if fe not in ('jax', 'keras'):
        for name, v, types in faults[::1 if case['deep'] else 3]:
            N = make(t, fe, base)
            w = fault(N, name, v, types)
            F.same(F.canon(call(N, fe, x), fe), ref, 1e-6, 1e-7, w + ' as first call: valid call afterwards')
            rep.eval()
    if fe in ('numpy', 'torch'):
        some = faults if case['deep'] else [f for f in faults if not f[0].startswith('size') or f[0] in ('size %s' % ((sh[0] + 1,) + sh[1:],),)]
        for a, b in itertools.product(some, repeat=2):
            fault(S, *a)
            w = fault(S, *b)
            rep.eval()
        F.same(F.canon(call(S, fe, x), fe), ref, 1e-6, 1e-7, w + ': valid call after all pairs of faults')
    rep.sample(dict(base=base, frontend=fe, faults=[f[0] for f in faults][:40]))


def run_border(case, rep):
    t, fe, base = case['t'], case['fe'], case['base']
    for kw in BORDER[t]:
        full = dict(base, **kw)
        if not applicable(fe, kw) or fe == 'keras' and full.get('T') == 0:
            continue
        if 'stride' in kw and 'T' not in kw and base.get('T') in (0, 'global') or kw.get('oversampling') and base.get('T') is not None and 'T' not in kw:
            continue
        if 'T' in kw and kw['T'] not in ('global', 0) and full.get('stride') and kw.get('T') in (1, 1.):
            continue
        if kw.get('shape') in ([8], [2]) and not isinstance(full.get('T'), (str, type(None))) and full['T'] > kw['shape'][0]:
            continue
        if base.get('T') == 0 and kw.get('out_type') == 'array' and kw.get('T', 0) == 0:
            continue
        if isinstance(kw.get('T'), (int, float)) and kw['T'] > base['shape'][0]:
            continue
        if t == 'jtfs' and kw.get('F') == 0 and 'format' in kw and kw['format'] == 'joint' and full.get('out_type') == 'array':
            continue
        if t in ('1d',) and kw.get('J') == 1 and kw.get('shape') == [2] and full.get('T') not in (None, 0, 'global'):
            continue
        w = '%s frontend=%s %s with border-valid %s' % (t, fe, json.dumps(base), json.dumps(kw))
        args = decode(kw, base, t, fe)
        sh = in_shape(t, dict(base, **{k: v for k, v in args.items() if k in ('shape', 'J', 'pre_pad')}))
        sh = tuple(int(v) for v in sh)
        try:
            S = make(t, fe, base, kw)
            y = F.canon(call(S, fe, data((2,) + sh, fe)), fe, w)
        except Violation:
            raise
        except Exception as e:
            raise Violation('%s: rejected with %s: %s' % (w, type(e).__name__, str(e)[:300]))
        for k, a in y:
            if a.size == 0 or not np.isfinite(a).all():
                raise Violation('%s: entry %s is empty or not finite' % (w, k))
        rep.eval((fe, t, json.dumps(base), 'border', json.dumps(kw)))
    rep.sample(dict(base=base, frontend=fe, border=kw))


def run_case(case, rep):
    {'constructor': run_constructor, 'input': run_input, 'border': run_border}[case['kind']](case, rep)
