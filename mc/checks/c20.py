"""scikit-learn transformers: searches over histories of estimator operations."""
import copy, itertools, json, pickle
import numpy as np
from ..core import Violation, SEED, digest
from .. import fe as F

LEVEL = 'model_checking'
RULE = ('state = (constructor arguments, fingerprint of every attribute of the estimator); transition = one operation (get_params, set_params of every single parameter value of a menu and of pairs, rejected set_params, fit, fit_transform, transform, predict, scattering, clone, '
        'deepcopy, copy, pickle, Pipeline construction and Pipeline.set_params, ParameterGrid step, rejected sample shapes) executed on the real estimator; breadth-first to closure on the parameter lattice plus all histories up to the depth; '
        'after each transition get_params() must equal the model parameters and transform() the flattened output of a NumPy object freshly constructed with them')
ASSUMPTIONS = ['out_type other than "array" and T=0 are exercised through scattering() only (transform needs one array)', 'oversampling (deprecated) is excluded']

# initial parameters and menus; every combination must be valid
SPECS = {
    '1d': (dict(J=2, shape=[16]), dict(J=[2, 3], shape=[[16], [19]], Q=[1, 2, [2, 1]], T=[None, 4, 'global'], stride=[None, 2], max_order=[1, 2], out_type=['array', 'dict'])),
    'jtfs': (dict(J=2, J_fr=1, shape=[16], Q=2), dict(J=[2, 3], shape=[[16], [17]], Q=[1, 2], T=[None, 'global'], F=[None, 'global'], stride=[None, 2], format=['time', 'joint'], stride_fr=[None, 1])),
    '2d': (dict(J=1, shape=[4, 5], L=2), dict(J=[1, 2], shape=[[4, 5], [6, 4]], L=[1, 2], max_order=[1, 2], pre_pad=[False, True], out_type=['array', 'list'])),
    '3d': (dict(J=1, shape=[3, 4, 5], L=1), dict(J=[1, 2], shape=[[3, 4, 5], [4, 4, 4]], L=[0, 1], sigma_0=[1, .8], max_order=[1, 2], rotation_covariant=[True, False], integral_powers=[[.5, 1., 2.], [1.]])),
}
BAD = {'1d': [dict(J=9), dict(T=-1), dict(shape=[4, 4]), dict(T='nothing'), dict(T=99)],      # rejected by the constructor
       'jtfs': [dict(J=9), dict(F=-1), dict(T=-2)],
       '2d': [dict(J=5), dict(shape=[4]), dict(J=4, L=3)],
       '3d': []}
READ = ('get', 'fit', 'fit_transform', 'transform', 'predict', 'scattering', 'clone', 'deepcopy', 'copy', 'pickle', 'pipeline', 'grid', 'bad_name', 'bad_shape', 'noop', 'bad_value')


def tup(v):
    return tuple(v) if isinstance(v, list) else v


def kwargs(p):
    return {k: tup(v) for k, v in p.items()}


def valid(t, p):
    """An incompatible stride is accepted by the constructor and reported by the first call."""
    return not (p.get('stride') and p.get('T') == 'global' or p.get('stride_fr') and p.get('F') == 'global')


def cases(tier, seed):
    deep = tier == 'thorough'
    for t, (init, menu) in SPECS.items():
        params = list(menu)
        sets = [[(k, v)] for k in params for v in menu[k]]
        if deep:
            sets += [[(a, x), (b, y)] for a, b in itertools.combinations(params, 2) for x in menu[a] for y in menu[b]]
        # closure over the lattice of parameters: one case per pair of parameters varied (all of them in thorough)
        groups = list(itertools.combinations(params, 2 if not deep else 3))
        for g in groups:
            yield dict(kind='search', t=t, params=list(g), depth=30, cost=3)
        for i, s in enumerate(sets):
            yield dict(kind='histories', t=t, first=s, depth=2 if not deep else 3, cost=10)
        for o in READ:
            yield dict(kind='histories', t=t, first=o, depth=2 if not deep else 3, cost=10)


_cache = {}


def reference(t, p, shape):
    """Flattened (or structured) NumPy coefficients of the fixed batch of samples for parameters p."""
    key = (t, json.dumps(sorted(p.items())), shape)
    if key not in _cache:
        S = F.build(t, 'numpy', p)
        x = data(shape)
        y = S.scattering(x)
        _cache[key] = F.canon(y)
    return _cache[key]


def data(shape):
    return np.random.default_rng([SEED, 20, len(shape), sum(shape)]).standard_normal((2,) + tuple(shape))


class World:
    def __init__(self, case):
        self.t = case['t']
        self.init, self.menu = SPECS[self.t]
        self.p = dict(self.init)
        self.E = F.cls(self.t, 'sklearn')(**kwargs(self.p))
        self.trail = []
        self.others = []          # (estimator, parameters) left behind by clone/copy: must not be influenced

    def shape(self, p=None):
        p = p or self.p
        if p.get('pre_pad'):
            from .c10 import prepad_size
            return tuple(prepad_size(n, p['J']) for n in p['shape'])
        return tuple(p['shape'])

    def what(self):
        return '%s %s after %s' % (self.t, json.dumps(self.init), self.trail)

    def is_array(self, p):
        return p.get('out_type', 'array') == 'array'

    def check_params(self, E, p, w):
        got = E.get_params()
        if E.get_params(deep=False) != got:
            raise Violation('%s: get_params(deep=False) differs' % w)
        import inspect
        names = {k for k in inspect.signature(type(E).__init__).parameters if k != 'self'}
        if set(got) != names:
            raise Violation('%s: get_params() has keys %s, the constructor takes %s' % (w, sorted(got), sorted(names)))
        sig = inspect.signature(type(E).__init__).parameters
        for k, v in got.items():
            if k == 'backend':
                continue
            want = tup(p[k]) if k in p else sig[k].default
            if k in ('shape', 'Q_fr') and isinstance(want, int):
                want = (want,)
            if k in ('Q', 'Q_fr') and v != want and (v if isinstance(v, tuple) else (v,)) == (want if isinstance(want, tuple) else (want,)):
                continue
            if not (v == want and type(v) == type(want) or v == want and isinstance(v, (int, float)) and isinstance(want, (int, float))):
                raise Violation('%s: get_params() gives %s=%r instead of %r' % (w, k, v, want))

    def check_value(self, E, p, w, how='transform'):
        shape = self.shape(p)
        x = data(shape)
        if not valid(self.t, p):
            try:
                E.scattering(x.copy())
            except ValueError:
                return
            raise Violation('%s: incompatible parameters %s yield a result' % (w, p))
        ref = reference(self.t, p, shape)
        if how == 'scattering' or not self.is_array(p):
            y = F.canon(E.scattering(x.copy()))
            F.same(y, ref, 1e-9, 1e-12, w + ' (scattering)')
            return
        flat = x.reshape(2, -1)
        keep = flat.copy()
        if how == 'fit_transform':
            y = E.fit_transform(flat)
        else:
            y = getattr(E, how)(flat)
        if not np.array_equal(flat, keep):
            raise Violation('%s: %s modified its input' % (w, how))
        want = ref[0][1].reshape(2, -1)
        if not isinstance(y, np.ndarray) or y.shape != want.shape:
            raise Violation('%s: %s returned shape %s instead of %s' % (w, how, getattr(y, 'shape', type(y)), want.shape))
        F.same([('y', y)], [('y', want)], 1e-9, 1e-12, '%s (%s)' % (w, how))
        one = getattr(E, 'transform')(flat[1:])
        F.same([('y', one)], [('y', want[1:])], 1e-6, 1e-9, '%s (transform of one sample)' % w)
        if self.trail and self.trail[-1] == how:
            # the memory layout of the sample matrix does not matter; a single flattened sample is accepted as documented
            wide = np.zeros((2, 2 * flat.shape[1]))
            wide[:, ::2] = flat
            for name, v, ref in (('Fortran-ordered', np.asfortranarray(flat), want), ('strided', wide[:, ::2], want),
                                 ('reversed', flat[::-1], want[::-1]), ('read-only', np.broadcast_to(flat[0], (3, flat.shape[1])), np.repeat(want[:1], 3, 0)),
                                 ('one-dimensional', flat[0], want[0])):
                F.same([('y', getattr(E, how)(v))], [('y', ref)], 1e-6, 1e-9, '%s (%s of %s samples)' % (w, how, name))

    def op(self, o, rep):
        from sklearn.base import clone
        from sklearn.pipeline import Pipeline, make_pipeline
        from sklearn.model_selection import ParameterGrid
        E, t = self.E, self.t
        self.trail.append(o)
        w = self.what()
        rep.transitions += 1
        if isinstance(o, (list, tuple)):
            r = E.set_params(**{k: tup(v) for k, v in o})
            if r is not E:
                raise Violation('%s: set_params does not return the estimator' % w)
            self.p = dict(self.p, **dict((k, v) for k, v in o))
        elif o == 'noop':
            if E.set_params() is not E:
                raise Violation('%s: set_params() does not return the estimator' % w)
            E.set_params(**E.get_params())
        elif o == 'get':
            self.check_params(E, self.p, w)
            d = E.get_params()
            d.clear()
            repr(E)
        elif o == 'fit':
            x = data(self.shape()).reshape(2, -1)
            if E.fit(x) is not E or E.fit(x, np.zeros(2)) is not E or E.fit() is not E:
                raise Violation('%s: fit does not return the estimator' % w)
        elif o in ('fit_transform', 'transform', 'predict', 'scattering'):
            self.check_value(E, self.p, w, o)
        elif o == 'clone':
            C = clone(E)
            if C is E or type(C) is not type(E):
                raise Violation('%s: clone returned %r' % (w, type(C)))
            self.check_params(C, self.p, w + ' (clone)')
            self.others.append((E, self.p))
            self.E = C
        elif o in ('deepcopy', 'copy', 'pickle'):
            C = copy.deepcopy(E) if o == 'deepcopy' else copy.copy(E) if o == 'copy' else pickle.loads(pickle.dumps(E))
            self.others.append((C, self.p) if len(self.trail) % 2 else (E, self.p))
            self.E = E if len(self.trail) % 2 else C
        elif o == 'pipeline':
            if self.is_array(self.p) and valid(t, self.p):
                from sklearn.preprocessing import FunctionTransformer
                P = Pipeline([('id', FunctionTransformer()), ('scat', E)])
                flat = data(self.shape()).reshape(2, -1)
                want = reference(t, self.p, self.shape())[0][1].reshape(2, -1)
                F.same([('y', P.fit_transform(flat))], [('y', want)], 1e-9, 1e-12, w + ' (pipeline)')
                F.same([('y', clone(P).fit(flat).transform(flat))], [('y', want)], 1e-9, 1e-12, w + ' (cloned pipeline)')
                k = list(self.menu)[0]
                v = self.menu[k][-1]
                got = P.get_params()
                if 'scat__' + k not in got or got['scat__' + k] != tup(self.p.get(k, got['scat__' + k])):
                    raise Violation('%s: Pipeline.get_params lacks scat__%s' % (w, k))
                P.set_params(**{'scat__' + k: tup(v)})
                self.p = dict(self.p, **{k: v})
        elif o == 'grid':
            k = list(self.menu)[0]
            for step in ParameterGrid({k: [tup(v) for v in self.menu[k]]}):
                C = clone(E).set_params(**step)
                q = dict(self.p, **{k: next(v for v in self.menu[k] if tup(v) == step[k])})
                self.check_params(C, q, w + ' (grid)')
                self.check_value(C, q, w + ' (grid)')
        elif o == 'bad_name':
            for bad in (dict(no_such=1), dict(J=self.p['J'], j=2), dict(log2_T=3)):
                try:
                    E.set_params(**bad)
                except ValueError:
                    continue
                raise Violation('%s: set_params(%s) was accepted' % (w, bad))
        elif o == 'bad_value':
            for bad in BAD[t]:
                try:
                    E.set_params(**{k: tup(v) for k, v in bad.items()})
                except Exception:
                    continue
                raise Violation('%s: set_params(%s) was accepted' % (w, bad))
        elif o == 'bad_shape':
            if self.is_array(self.p):
                size = int(np.prod(self.shape()))
                for s in ((2, size + 1), (3, size - 1), (size + 1,), (1, 1)):
                    if (np.prod(s) % size) == 0:
                        continue
                    try:
                        E.transform(np.zeros(s))
                    except (ValueError, RuntimeError, TypeError):
                        continue
                    raise Violation('%s: transform accepted samples of shape %s' % (w, s))

    def finish(self, rep):
        w = self.what()
        self.check_params(self.E, self.p, w)
        self.check_value(self.E, self.p, w)
        for C, p in self.others:
            self.check_params(C, p, w + ' (the other copy)')
            self.check_value(C, p, w + ' (the other copy)', 'scattering')
        rep.eval()
        rep.traces += 1

    def fingerprint(self):
        from .c12 import walk
        return digest([json.dumps(sorted(self.p.items())), walk(self.E)])


def run_case(case, rep):
    t = case['t']
    init, menu = SPECS[t]
    if case['kind'] == 'histories':
        sets = [((k, v),) for k in menu for v in menu[k][-1:]]
        first = case['first']
        first = tuple(map(tuple, first)) if isinstance(first, list) else first
        alphabet = list(READ) + sets
        for n in range(case['depth']):
            for rest in itertools.product(alphabet, repeat=n):
                w = World(case)
                for o in (first,) + rest:
                    w.op(o, rep)
                w.finish(rep)
                if n == 0:
                    rep.state(w.fingerprint())
    else:
        moves = [((k, v),) for k in case['params'] for v in menu[k]]
        if len(case['params']) > 1:
            moves += [tuple((k, menu[k][i % len(menu[k])]) for k in case['params']) for i in range(2)]
        ops = moves + ['clone', 'pickle', 'transform', 'bad_value', 'noop']
        frontier, seen = [()], set()
        for d in range(case['depth']):
            new = []
            for h in frontier:
                for o in ops:
                    w = World(case)
                    for q in h + (o,):
                        w.op(q, rep)
                    w.finish(rep)
                    fp = w.fingerprint()
                    if fp not in seen:
                        seen.add(fp)
                        rep.state(fp)
                        new.append(h + (o,))
            frontier = new
            if not new:
                rep.add('closed_searches')
                break
    rep.sample(dict(case=case, last_history=w.trail, parameters=w.p))
