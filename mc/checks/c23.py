import copy
import itertools
import pickle
import sys
import numpy as np
from .. import pristine
from ..core import Violation, SEED
from ..fe import CLASSES, NDIM, FRONTENDS, build, tensor, canon, same, native, plain

LEVEL = 'exploration'
RULE = ('(a) every history of up to two (thorough: three) operations -- build through kymatio.<Class>(frontend=...), build through kymatio.<frontend>.<Class>, import kymatio.<frontend> -- over all frontends, '
        'each in a process that had not imported kymatio; then types and coefficients compared; (b) every spelling, every unknown name, every rejected argument list; '
        '(c) every object of the menu x copy mechanism x call history, the copy judged in the same process and, for pickles, in fresh processes with every import state. '
        'distinct_nontrivial = distinct (class, history) or (object, mechanism, history)')
ASSUMPTIONS = ['a shallow copy may share the filters with the original', 'copying is claimed for the NumPy, PyTorch, scikit-learn and JAX objects only']

HAS = {fe: [t for t in CLASSES if fe != 'keras' or t in ('1d', '2d')] for fe in FRONTENDS}
SMALL = {'1d': dict(J=2, shape=[16]), 'jtfs': dict(J=2, J_fr=1, shape=[16], Q=[1, 1]), '2d': dict(J=1, shape=[8, 8], L=2),
         '3d': dict(J=1, shape=[4, 4, 4], L=1, sigma_0=1)}
SPELL = {'numpy': ['numpy', 'NUMPY', 'NumPy', 'nUmPy'], 'torch': ['torch', 'TORCH', 'Torch'], 'tensorflow': ['tensorflow', 'TENSORFLOW', 'TensorFlow'],
         'jax': ['jax', 'JAX', 'Jax'], 'keras': ['keras', 'KERAS', 'Keras'], 'sklearn': ['sklearn', 'SKLEARN', 'SkLearn']}
UNKNOWN = ['', ' ', 'pytorch', 'np', 'tf', 'scikit-learn', 'torch ', ' torch', 'numpy.', 'torch_skcuda', 'entry', 'base', 'transformer', 'numpy2', 'num', '../numpy', 'tensorflow1']

MENU = {
    '1d': [dict(J=2, shape=[16]), dict(J=3, shape=[32], Q=[2, 1], T='global'), dict(J=2, shape=[20], T=0, out_type='list'), dict(J=3, shape=[32], T=4, stride=2, out_type='dict'),
           dict(J=2, shape=[16], max_order=1)],
    'jtfs': [dict(J=3, J_fr=2, shape=[32], Q=[2, 1]), dict(J=3, J_fr=2, shape=[32], Q=[2, 1], format='joint', out_type='list', T='global', F='global')],
    '2d': [dict(J=1, shape=[8, 8], L=2), dict(J=2, shape=[8, 12], L=3, out_type='list'), dict(J=2, shape=[16, 16], L=2, pre_pad=True), dict(J=1, shape=[8, 8], max_order=1)],
    '3d': [dict(J=1, shape=[4, 4, 4], L=1, sigma_0=1), dict(J=1, shape=[6, 5, 4], L=2, sigma_0=1, max_order=1, rotation_covariant=False),
           dict(J=1, shape=[4, 4, 4], L=1, sigma_0=1, integral_powers=[1., 2.])],
}
MECH = ['copy', 'deepcopy'] + ['pickle%d' % p for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]


def cases(tier, seed):
    deep = tier == 'thorough'
    ops = [(o, fe) for fe in FRONTENDS for o in 'EDI']
    hs = [h for n in range(1, 4 if deep else 3) for h in itertools.product(ops, repeat=n)]
    for t in CLASSES:
        ok = [h for h in hs if all(t in HAS[fe] or o == 'I' for o, fe in h) and any(o != 'I' for o, fe in h)]
        if not deep and t in ('jtfs', '3d'):
            ok = [h for h in ok if len(h) == 1 or h[0][1] == h[1][1] or 'numpy' in (h[0][1], h[1][1])]
        size = 12 if not deep else 60
        for i in range(0, len(ok), size):
            yield dict(kind='dispatch', t=t, hist=[[list(o) for o in h] for h in ok[i:i + size]], cost=30)
        yield dict(kind='spelling', t=t, cost=20)
        for fe in ('numpy', 'torch', 'sklearn', 'jax'):
            if t == 'jtfs' and fe == 'jax' and not deep:
                menu = MENU[t][:1]
            else:
                menu = MENU[t]
            for cfg in menu:
                c = sklearn_ok(fe, t, cfg)
                if c is None:
                    continue
                yield dict(kind='copy', t=t, fe=fe, cfg=c, cost=10 + 20 * (fe == 'jax'))
                if fe == 'jax' and not deep and (t == 'jtfs' or cfg is not menu[0]):
                    continue
                yield dict(kind='transfer', t=t, fe=fe, cfg=c, deep=deep, cost=10 + 20 * (fe == 'jax'))


def sklearn_ok(fe, t, cfg):
    if fe != 'sklearn':
        return cfg
    if cfg.get('out_type', 'array') != 'array' or t == 'jtfs' and cfg.get('format') == 'joint':
        return None
    return cfg


def preload():
    """The frameworks (not kymatio) are imported once per worker; every history runs in a fork."""
    import warnings
    warnings.simplefilter('ignore')
    import torch, tensorflow, jax, sklearn.base, scipy.fft  # noqa
    torch.set_num_threads(1)


def signal(t, cfg):
    r = np.random.RandomState([SEED % (2 ** 31), 7])
    shape = cfg['shape']
    if cfg.get('pre_pad'):
        shape = [((n + 2 ** cfg['J']) // 2 ** cfg['J'] + 1) * 2 ** cfg['J'] for n in shape]
    return r.standard_normal((2,) + tuple(shape)).astype('float32')


def kwargs(fe, cfg):
    kw = {k: (tuple(v) if isinstance(v, list) else v) for k, v in cfg.items()}
    if fe == 'keras':
        kw.pop('shape')
    return kw


def values(fe, S, x):
    """Coefficients through the public call, as canonical NumPy arrays."""
    if fe == 'sklearn':
        y = S.transform(x.reshape(len(x), -1))
        return canon(y, 'numpy', fe)
    return canon(S(tensor(fe, x)), fe, fe)


# ------------------------------------------------------------------ (a) dispatch
def dispatch(t, hist):
    import importlib
    cfg = SMALL[t]
    x = signal(t, cfg)
    objs = []
    for o, fe in hist:
        if o == 'I':
            importlib.import_module('kymatio.' + fe)
        elif o == 'D':
            objs.append((o, fe, getattr(importlib.import_module('kymatio.' + fe), CLASSES[t])(**kwargs(fe, cfg))))
        else:
            import kymatio
            objs.append((o, fe, getattr(kymatio, CLASSES[t])(frontend=fe, **kwargs(fe, cfg))))
    w = '%s after %s' % (CLASSES[t], hist)
    for i, (o, fe, S) in enumerate(objs):
        if objs.index((o, fe, S)) != i:
            continue
        pub = getattr(importlib.import_module('kymatio.' + fe), CLASSES[t])
        if type(S) is not pub:
            raise Violation('%s: object %d is a %s.%s, not kymatio.%s.%s' % (w, i, type(S).__module__, type(S).__name__, fe, CLASSES[t]))
        ref = pub(**kwargs(fe, cfg))
        if i == len(objs) - 1 or o == 'E':
            a, b = values(fe, S, x), values(fe, ref, x)
            same(a, b, 0, 0, '%s: %s object' % (w, fe))


def spelling(t, rep):
    def one(t, fe, sp):
        import importlib
        import kymatio
        cfg = SMALL[t]
        kw = kwargs(fe, cfg)
        J = kw.pop('J')
        pos = [J]
        if t == 'jtfs':
            pos.append(kw.pop('J_fr'))
        if fe != 'keras':
            pos.append(kw.pop('shape'))
        E = getattr(kymatio, CLASSES[t])
        extra = {} if sp is None else dict(frontend=sp)
        pub = getattr(importlib.import_module('kymatio.' + fe), CLASSES[t])
        if t == 'jtfs':
            kw2 = dict(kw, J=pos[0], J_fr=pos[1], shape=pos[2])
            objs = [E(**kw2, **extra)]
        else:
            objs = [E(*pos, **kw, **extra), E(**kwargs(fe, cfg), **extra)]
        for S in objs:
            if type(S) is not pub:
                raise Violation('%s(frontend=%r): %s.%s' % (CLASSES[t], sp, type(S).__module__, type(S).__name__))
            same(values(fe, S, signal(t, cfg)), values(fe, pub(**kwargs(fe, cfg)), signal(t, cfg)), 0, 0, '%s(frontend=%r)' % (CLASSES[t], sp))
        if sp is None or fe != 'numpy':
            return
        # the same arguments are rejected the same way through both doors
        kw = kwargs(fe, cfg)
        for name, bad in (('missing', {k: v for k, v in kw.items() if k != 'shape'}), ('unknown argument', dict(kw, nonsense=1)), ('backend', dict(kw, backend='torch')),
                          ('backend2', dict(kw, backend='numpy_nonsense'))):
            got = []
            for f in (lambda: E(frontend=sp, **bad), lambda: pub(**bad)):
                try:
                    f()
                    got.append(None)
                except Exception as e:
                    got.append(type(e))
            if got[0] is None or got[0] is not got[1]:
                raise Violation('%s, %s: rejected by %s through kymatio and %s through kymatio.numpy' % (CLASSES[t], name, got[0], got[1]))

    def unknown(t, name):
        import kymatio
        try:
            S = getattr(kymatio, CLASSES[t])(frontend=name, **kwargs('numpy', SMALL[t]))
        except Exception as e:
            if type(e).__name__ in ('UnboundLocalError', 'NameError'):
                raise Violation('%s(frontend=%r): %r' % (CLASSES[t], name, e))
            return
        raise Violation('%s(frontend=%r) was accepted: %s.%s' % (CLASSES[t], name, type(S).__module__, type(S).__name__))

    for fe in FRONTENDS:
        if t not in HAS[fe]:
            pristine.run(unknown, t, fe)
            rep.eval((t, 'unavailable', fe))
            continue
        for sp in SPELL[fe] + ([None] if fe == 'numpy' else []):
            pristine.run(one, t, fe, sp)
            rep.eval((t, 'spelling', sp))
    for name in UNKNOWN:
        pristine.run(unknown, t, name)
        rep.eval((t, 'unknown', name))


# ------------------------------------------------------------------ (c) copies
def make_copy(S, mech):
    if mech == 'copy':
        return copy.copy(S)
    if mech == 'deepcopy':
        return copy.deepcopy(S)
    return pickle.loads(pickle.dumps(S, int(mech[6:])))


def meta_of(t, S):
    if t in ('1d', 'jtfs'):
        return repr({k: plain(v) for k, v in S.meta().items()})
    return None


def same_meta(a, b, w):
    if a != b:
        raise Violation('%s: meta() differs: %s instead of %s' % (w, a[:500], b[:500]))


def failing_call(fe, S, cfg):
    try:
        values(fe, S, np.zeros((2, 1), 'float32'))
    except Exception:
        pass


def copies(case, rep):
    t, fe, cfg = case['t'], case['fe'], case['cfg']
    x, x2 = signal(t, cfg), signal(t, cfg)[::-1] * 2 + 1
    ref = build(t, fe, cfg)
    exp, exp2 = values(fe, ref, x), values(fe, ref, x2)
    m0 = meta_of(t, ref)
    for before, mech in itertools.product(('new', 'called', 'failed', 'copied'), MECH):
        w = '%s %s %s: %s of a %s object' % (fe, t, cfg, mech, before)
        S = build(t, fe, cfg)
        if before == 'called':
            values(fe, S, x2)
        elif before == 'failed':
            failing_call(fe, S, cfg)
        elif before == 'copied':
            S = copy.deepcopy(pickle.loads(pickle.dumps(S)))
        C = make_copy(S, mech)
        if type(C) is not type(S) or C is S:
            raise Violation('%s: %s' % (w, type(C)))
        # interleave calls of both
        same(values(fe, C, x), exp, 0, 0, w)
        same(values(fe, S, x2), exp2, 0, 0, w + ' (the original)')
        same(values(fe, C, x2), exp2, 0, 0, w)
        same(values(fe, S, x), exp, 0, 0, w + ' (the original)')
        same_meta(meta_of(t, C), m0, w)
        if mech != 'copy':
            # independence: changing one object leaves the other alone
            for a, b, n in ((C, S, 'original'), (make_copy(S, mech), make_copy(S, mech), 'other copy')):
                spoil(fe, a)
                same(values(fe, b, x), exp, 0, 0, '%s: the %s after changing the copy in place' % (w, n))
            D = make_copy(S, mech)
            spoil(fe, S)
            same(values(fe, D, x), exp, 0, 0, '%s: the copy after changing the original in place' % w)
        if fe == 'torch' and mech != 'copy':
            S, D = build(t, fe, cfg), None
            D = make_copy(S, mech)
            D.double()
            same(values(fe, S, x), exp, 0, 0, w + ' (the original after copy.double())')
        rep.eval((t, fe, tuple(sorted(map(str, cfg.items()))), before, mech))
    rep.sample(dict(coefficients=sum(a.size for _, a in exp)))


def arrays(o, fe, seen, depth=0):
    """All arrays reachable from the attributes of an object."""
    if id(o) in seen or depth > 6:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray) or native(fe, o):
        yield o
    elif isinstance(o, dict):
        for v in o.values():
            yield from arrays(v, fe, seen, depth + 1)
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from arrays(v, fe, seen, depth + 1)
    elif depth == 0:
        yield from arrays(vars(o), fe, seen, depth + 1)


def spoil(fe, S):
    """Overwrite in place every array held by the object."""
    base = 'numpy' if fe == 'sklearn' else fe
    for a in arrays(S, base, set()):
        if isinstance(a, np.ndarray):
            if a.flags.writeable and a.dtype.kind in 'fc':
                a[...] = 3
        elif base == 'torch' and a.is_floating_point():
            a.data.fill_(3)


def produce(t, fe, cfg, door, called):
    import importlib
    import kymatio
    kw = kwargs(fe, cfg)
    if door == 'entry':
        S = getattr(kymatio, CLASSES[t])(frontend=fe, **kw)
    elif door == 'direct':
        S = getattr(importlib.import_module('kymatio.' + fe), CLASSES[t])(**kw)
    else:                       # built through kymatio, and kymatio.<frontend> imported afterwards
        S = getattr(kymatio, CLASSES[t])(frontend=fe, **kw)
        importlib.import_module('kymatio.' + fe)
    if called:
        values(fe, S, signal(t, cfg) + 1)
    return pickle.dumps(S), values(fe, S, signal(t, cfg))


def consume(t, fe, cfg, data, pre):
    import importlib
    if pre == 'kymatio':
        import kymatio  # noqa
    elif pre != 'nothing':
        importlib.import_module('kymatio.' + pre)
    S = pickle.loads(data)
    y = values(fe, S, signal(t, cfg))
    pub = getattr(importlib.import_module('kymatio.' + fe), CLASSES[t])
    if not isinstance(S, pub):
        raise Violation('unpickled object is a %s.%s, not kymatio.%s.%s' % (type(S).__module__, type(S).__name__, fe, CLASSES[t]))
    pickle.loads(pickle.dumps(S))
    return y


def transfer(case, rep):
    t, fe, cfg = case['t'], case['fe'], case['cfg']
    for door, called in itertools.product(('entry', 'direct', 'late'), (False, True)):
        data, exp = pristine.run(produce, t, fe, cfg, door, called)
        for pre in ['nothing', 'kymatio', fe] + [f for f in FRONTENDS if f != fe] * case['deep']:
            w = '%s %s %s built by %s%s, unpickled where %s was imported' % (fe, t, cfg, door, ' and called' * called, pre)
            same(pristine.run(consume, t, fe, cfg, data, pre), exp, 0, 0, w)
            rep.eval((t, fe, tuple(sorted(map(str, cfg.items()))), 'transfer', door, called, pre))


def run_case(case, rep):
    k = case['kind']
    if k == 'copy':
        # may import kymatio: run it in a fork so that this worker stays pristine
        preload()
        res = pristine.run(copy_child, case)
        for key in res['keys']:
            rep.keys.add(key)
        rep.evaluations += res['evaluations']
        rep.samples += res['samples']
        return
    preload()
    if k == 'dispatch':
        for h in case['hist']:
            pristine.run(dispatch, case['t'], h)
            rep.eval((case['t'], h))
        rep.sample(dict(history=case['hist'][-1]))
    elif k == 'spelling':
        spelling(case['t'], rep)
    else:
        transfer(case, rep)


def copy_child(case):
    from ..core import Report
    rep = Report()
    copies(case, rep)
    return rep.pack()
