"""Histories of operations on live transform objects, against pristine fresh-object references."""
import copy, itertools, json, pickle, sys
import numpy as np
from ..core import Violation, SEED, digest
from .. import fe as F
from .. import pristine

LEVEL = 'model_checking'
RULE = ('transition = one operation (call, describe, change or restore a setting, failing call, copy, deepcopy, pickle, construct and use a neighbour object, overwrite returned outputs, inputs, metadata and the filters of other objects, fill one input array with other signals) executed on the real objects; '
        'all operation histories up to the depth are executed without reduction, and additionally a breadth-first search with de-duplication on the observed object state runs to closure or to a larger depth; '
        'after every history each live object must return exactly what a fresh object with the same settings returned in a fresh process')
ASSUMPTIONS = ['the states merged by the breadth-first search are equal in settings, in every array reachable from the objects and in the module-level containers of kymatio',
               'outputs are compared to 1e-12 (NumPy) or 1e-5 (single-precision frameworks) relative']

CONFIGS = [
    ('1d', dict(J=3, shape=[20], Q=[2, 1], T=4), dict(J=3, shape=[20], Q=2, T=8, max_order=1)),
    ('1d', dict(J=2, shape=[16], Q=1), dict(J=2, shape=[16], Q=1, T=2, stride=1)),
    ('1d', dict(J=2, shape=[9], Q=1, T='global'), dict(J=3, shape=[9], Q=1, T=0, out_type='dict')),
    ('jtfs', dict(J=2, J_fr=1, shape=[16], Q=2), dict(J=2, J_fr=1, shape=[16], Q=2, T='global', F='global', format='joint')),
    ('2d', dict(J=2, L=2, shape=[4, 5]), dict(J=2, L=2, shape=[6, 5], max_order=1)),
    ('2d', dict(J=1, L=2, shape=[4, 4]), dict(J=1, L=3, shape=[4, 4], out_type='list')),
    ('3d', dict(J=1, L=1, shape=[4, 3, 4]), dict(J=1, L=1, shape=[4, 3, 4], sigma_0=2., rotation_covariant=False)),
]
OPS = ('call', 'clobber', 'meta', 'out_type', 'max_order', 'bad_shape', 'bad_type', 'bad_out_type', 'copy', 'deepcopy', 'pickle', 'fork',
       'other_call', 'other_set', 'third', 'vandal', 'refill')


def cases(tier, seed):
    deep = tier == 'thorough'
    for t, a, b in CONFIGS:
        for fe in ('numpy', 'torch', 'sklearn', 'tensorflow', 'jax', 'keras'):
            if fe not in ('numpy', 'torch') and (a, b) not in [(c[1], c[2]) for c in (CONFIGS[0], CONFIGS[3], CONFIGS[4], CONFIGS[6])]:
                continue
            if fe == 'keras' and t not in ('1d', '2d'):
                continue
            ops = [o for o in OPS if applicable(t, fe, o)]
            if fe in ('tensorflow', 'jax', 'keras'):
                # one process for all histories: every new shape is compiled
                yield dict(t=t, fe=fe, a=a, b=b, first='*', depth=3 if deep else 2, cost=50)
                continue
            depth = (4 if fe == 'numpy' and t in ('1d', '2d') else 3) if deep else (3 if fe == 'numpy' else 2)
            for first in ops:
                yield dict(t=t, fe=fe, a=a, b=b, first=first, depth=depth, cost=1 + (t == 'jtfs'))
            yield dict(t=t, fe=fe, a=a, b=b, first=None, depth=8 if deep else 6, cost=4)
    for t in ('1d', 'jtfs', '2d', '3d'):
        for fe in ('numpy', 'torch', 'sklearn', 'tensorflow', 'jax', 'keras'):
            if fe in ('keras', 'sklearn') and t == 'jtfs' or fe == 'keras' and t == '3d':
                continue
            slow = fe in ('tensorflow', 'jax', 'keras')
            every = 1 if deep else {'numpy': 1, 'torch': 2, 'sklearn': 3}.get(fe, 16)
            yield dict(t=t, fe=fe, kind='many', every=every, slow=slow and not deep, cost=40)
            yield dict(t=t, fe=fe, kind='calls', slow=slow and not deep, cost=20)


def population(t):
    """Many settings of one transform, among them all pairs which differ in one argument only."""
    P = itertools.product
    if t == '1d':
        return [dict(J=J, shape=[N], Q=Q, **({} if T is None else dict(T=T))) for N, J, Q, T in P((16, 17, 20), (1, 2, 3), (1, 2, [2, 1]), (None, 2, 'global'))]
    if t == 'jtfs':
        return [dict(J=J, J_fr=K, shape=[16], Q=Q, format=f, **({} if T is None else dict(T=T)), **({} if G is None else dict(F=G)))
                for J, K, Q, T, G, f in P((2, 3), (0, 1), (1, 2), (None, 2, 'global'), (None, 'global'), ('time', 'joint'))]
    if t == '2d':
        return [dict(J=J, L=L, shape=s, max_order=m) for s, J, L, m in P(([4, 4], [4, 5], [5, 4], [8, 4]), (1, 2), (1, 2, 3), (1, 2))]
    return [dict(J=J, L=L, shape=s, sigma_0=g, rotation_covariant=r) for s, J, L, g, r in P(([3, 4, 4], [4, 3, 4], [4, 4, 4]), (0, 1), (0, 1, 2), (1., 2.), (True, False))]


def applicable(t, fe, o):
    if fe == 'keras':
        return o in ('call', 'clobber', 'other_call', 'third', 'refill')
    if fe == 'jax' and o == 'refill':
        return False            # arrays are immutable
    if fe == 'tensorflow' and o in ('copy', 'deepcopy', 'pickle', 'fork'):
        return False
    if o in ('meta', 'bad_out_type') and t in ('2d', '3d'):
        return False
    if o == 'out_type' and t == '3d':
        return False
    if o == 'max_order' and t == 'jtfs':
        return False
    return True


def inputs(cfg, fe):
    sh = tuple(cfg['shape'])
    rng = np.random.default_rng([SEED, 12])
    dt = 'float64' if fe in ('numpy', 'sklearn') else 'float32'
    x = rng.standard_normal((4,) + sh).astype(dt)
    return [x[0], x[1:3], x[3:, None]]


def settings(cfg, t):
    s = dict(cfg)
    s.setdefault('max_order', 2)
    if t != '3d':
        s.setdefault('out_type', 'array')
        if cfg.get('T') == 0 and s['out_type'] == 'array':
            s['out_type'] = 'list'
    if t == 'jtfs':
        s.pop('max_order')
    return s


def out_types(t, s):
    o = ['array', 'list'] if t == '2d' else ['array', 'list', 'dict']
    if s.get('T') == 0:
        o = o[1:]
    return o


def describe(S, t):
    if t in ('2d', '3d') or not hasattr(S, 'meta'):
        return None
    m = S.meta()
    return [sorted((k, F.plain(v) if not isinstance(v, np.ndarray) else v.tolist()) for k, v in m.items()), S.output_size() if t == '1d' else None]


def reference(t, fe, s):
    S = F.build(t, fe, s)
    outs = [F.canon(apply(S, F.tensor(fe, x), fe), fe, 'reference') for x in inputs(s, fe)]
    return outs, repr(describe(S if fe == 'keras' else F.build(t, fe, s), t))


def apply(S, x, fe):
    return S(x) if fe == 'keras' else S.scattering(x)


class Refs:
    """References, each computed in a process that only ever built that one object."""
    def __init__(self, t, fe):
        self.t, self.fe, self.memo = t, fe, {}

    def get(self, s):
        k = json.dumps(s, sort_keys=True)
        return self.memo[k]

    def prepare(self, s):
        variants = [s]
        if self.fe == 'keras':
            pass
        elif self.t != '3d':
            variants = [dict(v, out_type=o) for v in variants for o in out_types(self.t, s)]
        if self.t != 'jtfs' and self.fe != 'keras':
            variants = [dict(v, max_order=m) for v in variants for m in (1, 2)]
        for v in variants:
            k = json.dumps(v, sort_keys=True)
            if k not in self.memo:
                self.memo[k] = pristine.run(reference, self.t, self.fe, v)


def check(S, s, t, fe, refs, i, what, rep=None):
    x = F.tensor(fe, inputs(s, fe)[i])
    y = apply(S, x, fe)
    got = F.canon(y, fe, what)
    tol = (1e-12, 1e-13) if fe in ('numpy', 'sklearn') else (1e-5, 1e-5)
    if t == '3d':
        tol = (1e-6, 1e-6) if fe in ('numpy', 'sklearn') else (1e-4, 1e-3)
    F.same(got, refs.get(s)[0][i], *tol, what)
    if not np.array_equal(F.to_numpy(x), inputs(s, fe)[i]):
        raise Violation('%s: the call modified its input' % what)
    if fe == 'sklearn' and s.get('out_type', 'array') == 'array':
        flat(S, x, refs.get(s)[0][i], s, tol, what)
    return x, y, got


def flat(S, x, want, s, tol, what):
    """transform() of flattened samples, on the array itself."""
    lead = x.shape[:x.ndim - len(s['shape'])]
    for name in ('transform', 'predict'):
        v = x.reshape(lead + (-1,)) if lead else x.reshape(1, -1)
        got = getattr(S, name)(v)
        F.same([('', got.reshape(want[0][1].shape))], [('', want[0][1])], *tol, what + ', ' + name)


def leaves(y):
    if isinstance(y, dict):
        return list(y.values())
    if isinstance(y, list):
        return [d['coef'] for d in y]
    return [y]


class World:
    def __init__(self, t, fe, a, b, refs):
        self.t, self.fe, self.refs = t, fe, refs
        self.sa, self.sb = settings(a, t), settings(b, t)
        self.A, self.B = F.build(t, fe, self.sa), F.build(t, fe, self.sb)
        self.kept = []          # outputs returned earlier, with their values at that time
        self.trail = []
        self.buffers = {}

    def what(self):
        return '%s frontend=%s %s after %s' % (self.t, self.fe, json.dumps(self.sa), self.trail)

    def keep(self, y, got):
        self.kept.append((y, [v.copy() for _, v in got]))

    def op(self, o, rep):
        t, fe = self.t, self.fe
        self.trail.append(o)
        rep.transitions += 1
        if o == 'call':
            _, y, got = check(self.A, self.sa, t, fe, self.refs, 1, self.what())
            self.keep(y, got)
        elif o == 'clobber':
            x, y, got = check(self.A, self.sa, t, fe, self.refs, 2, self.what())
            if fe not in ('jax', 'tensorflow', 'keras'):
                for v in leaves(y):
                    v[...] = float('nan')
                x[...] = float('nan')
            if isinstance(y, list):
                for d in y:
                    d.clear()
            if isinstance(y, (list, dict)):
                y.clear()
        elif o == 'meta':
            m = self.A.meta()
            self.A.output_size() if t == '1d' else None
            for v in m.values():
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = 0
                elif isinstance(v, list):
                    v.clear()
            m.clear()
        elif o == 'out_type':
            ot = out_types(t, self.sa)
            new = ot[(ot.index(self.sa['out_type']) + 1) % len(ot)]
            self.A.out_type = new
            self.sa = dict(self.sa, out_type=new)
        elif o == 'max_order':
            new = 3 - self.sa['max_order']
            self.A.max_order = new
            self.sa = dict(self.sa, max_order=new)
        elif o in ('bad_shape', 'bad_type'):
            sh = tuple(self.sa['shape'])
            bad = None if o == 'bad_type' else F.tensor(fe, np.zeros((2,) + tuple(n + 1 for n in sh), 'float32'))
            try:
                self.A.scattering(bad)
            except Exception:
                pass
            else:
                raise Violation('%s: an invalid input was accepted' % self.what())
        elif o == 'bad_out_type':
            good, self.A.out_type = self.A.out_type, 'bogus'
            try:
                self.A.scattering(F.tensor(fe, inputs(self.sa, fe)[0]))
            except Exception:
                pass
            else:
                raise Violation('%s: out_type="bogus" was accepted' % self.what())
            self.A.out_type = good
        elif o == 'copy':
            self.A = copy.copy(self.A)
        elif o == 'deepcopy':
            self.A = copy.deepcopy(self.A)
        elif o == 'pickle':
            self.A = pickle.loads(pickle.dumps(self.A))
        elif o == 'fork':
            # a copy with different settings must not disturb the original
            C = copy.deepcopy(self.A)
            s = dict(self.sa)
            if t != '3d':
                ot = out_types(t, s)
                s['out_type'] = C.out_type = ot[(ot.index(s['out_type']) + 1) % len(ot)]
            if t != 'jtfs':
                s['max_order'] = C.max_order = 3 - s['max_order']
            check(C, s, t, fe, self.refs, 0, self.what() + ' (the copy)')
        elif o == 'vandal':
            # objects built anew, deep-copied or unpickled own their filters: overwriting those disturbs nobody
            fresh = [F.build(t, f, s) for f in dict.fromkeys((fe, 'numpy')) for s in (self.sa, self.sb)]
            copies = [copy.deepcopy(self.A), pickle.loads(pickle.dumps(self.A))] if fe != 'tensorflow' else []
            for C in fresh + copies:
                overwrite(vars(C))
                if fe == 'torch' and hasattr(C, 'load_state_dict'):
                    C.load_state_dict({k: v * 0 for k, v in C.state_dict().items()})
            C = F.build(t, fe, self.sa)
            check(C, self.sa, t, fe, self.refs, 0, self.what() + ' (a newly built object)')
        elif o == 'refill':
            # one array, given twice with different contents
            v = inputs(self.sa, fe)[1]
            key = (v.shape, str(v.dtype))
            if key not in self.buffers:
                self.buffers[key] = F.tensor('torch' if fe == 'torch' else 'numpy', np.zeros_like(v))
            buf = self.buffers[key]
            tol = (1e-12, 1e-13) if fe in ('numpy', 'sklearn') else (1e-5, 1e-5)
            if t == '3d':
                tol = (1e-6, 1e-6) if fe in ('numpy', 'sklearn') else (1e-4, 1e-3)
            want = self.refs.get(self.sa)[0][1]
            flatten = buf.reshape(len(v), -1) if fe == 'sklearn' and self.sa.get('out_type', 'array') == 'array' else None
            for turn in (1, -1):
                buf[...] = F.tensor('torch' if fe == 'torch' else 'numpy', np.ascontiguousarray(v[::turn]))
                w = self.what() + (' (the array filled with other signals)' if turn < 0 else '')
                F.same(F.canon(apply(self.A, buf, fe), fe, w), [(k, e[::turn]) for k, e in want], *tol, w)
                if flatten is not None:
                    got = self.A.transform(flatten)
                    F.same([('', got.reshape(want[0][1].shape))], [('', want[0][1][::turn])], *tol, w + ', transform')
        elif o == 'other_call':
            _, y, got = check(self.B, self.sb, t, fe, self.refs, 1, self.what() + ' (the neighbour object)')
            self.keep(y, got)
        elif o == 'other_set':
            if t != 'jtfs':
                self.sb = dict(self.sb, max_order=3 - self.sb['max_order'])
                self.B.max_order = self.sb['max_order']
            else:
                ot = out_types(t, self.sb)
                self.sb = dict(self.sb, out_type=ot[(ot.index(self.sb['out_type']) + 1) % len(ot)])
                self.B.out_type = self.sb['out_type']
        elif o == 'third':
            # construct anew with the settings of both objects, use and discard
            for s in (self.sb, self.sa):
                C = F.build(t, fe, s)
                check(C, s, t, fe, self.refs, 0, self.what() + ' (a newly built object %s)' % json.dumps(s))

    def finish(self, rep):
        w = self.what()
        check(self.A, self.sa, self.t, self.fe, self.refs, 0, w)
        check(self.B, self.sb, self.t, self.fe, self.refs, 0, w + ' (the neighbour object)')
        for S, s in ((self.A, self.sa), (self.B, self.sb)):
            if self.t in ('1d', 'jtfs'):
                if repr(describe(S, self.t)) != self.refs.get(s)[1]:
                    raise Violation('%s: meta() or output_size() of %s changed' % (w, json.dumps(s)))
        for y, vals in self.kept:
            for v, old in zip(leaves(y), vals):
                if not np.array_equal(F.to_numpy(v), old):
                    raise Violation('%s: a previously returned output changed' % w)
        rep.eval()
        rep.traces += 1

    def fingerprint(self):
        return digest([json.dumps(self.sa, sort_keys=True), json.dumps(self.sb, sort_keys=True), walk(self.A), walk(self.B), modules()])


def overwrite(o, depth=0):
    """Zero every array reachable through containers (read-only and immutable arrays are left alone)."""
    if isinstance(o, dict):
        for v in o.values():
            overwrite(v, depth + 1)
    elif isinstance(o, (list, tuple)):
        for v in o:
            overwrite(v, depth + 1)
    elif isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in 'fc':
            o[...] = 0
    elif hasattr(o, 'detach'):
        o.detach().zero_()


def walk(o, depth=0, seen=None):
    """Structural digest of everything reachable through containers and attributes."""
    seen = set() if seen is None else seen
    if isinstance(o, (str, bytes, int, float, complex, bool, type(None))):
        return repr(o)
    if isinstance(o, np.ndarray) or (hasattr(o, 'dtype') and hasattr(o, 'shape')):
        try:
            return digest(F.to_numpy(o))
        except Exception:
            return type(o).__name__
    if id(o) in seen or depth > 12:
        return 'cycle'
    seen = seen | {id(o)}
    if isinstance(o, dict):
        return digest([(repr(k), walk(v, depth + 1, seen)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return digest([walk(v, depth + 1, seen) for v in o])
    if isinstance(o, (type, type(walk), type(len))) or callable(o) and not hasattr(o, '__dict__'):
        return getattr(o, '__qualname__', type(o).__name__)
    if hasattr(o, '__dict__'):
        return digest([type(o).__name__, walk(dict(vars(o)), depth + 1, seen)])
    return type(o).__name__


def modules():
    """Sizes of the mutable containers held by kymatio modules and classes."""
    out = []
    for name, m in sorted(sys.modules.items()):
        if m is None or not (name == 'kymatio' or name.startswith('kymatio.')):
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith('__'):
                continue
            if isinstance(v, (dict, list, set)):
                out.append((name, k, len(v)))
            elif hasattr(v, 'cache_info'):
                out.append((name, k, v.cache_info().currsize))
    return out


def run_case(case, rep):
    if case['fe'] == 'torch':
        import torch
        torch.set_num_threads(1)
    elif case['fe'] == 'sklearn':
        import sklearn.base
    elif case['fe'] in ('tensorflow', 'keras'):
        import tensorflow
    elif case['fe'] == 'jax':
        import jax
    pack = pristine.run({'many': many, 'calls': calls}.get(case.get('kind'), explore), case)
    rep.transitions += pack['transitions']
    rep.traces += pack['traces']
    rep.evaluations += pack['traces']
    rep.states |= pack['states']
    if pack['depth']:
        rep.maximum('closure_depth', pack['depth'])
    rep.sample(dict(history=pack['last']))


class _Rep:
    def __init__(self):
        self.transitions = self.traces = 0
        self.states = set()

    def eval(self, *a):
        pass


def tolerances(t, fe):
    tol = (1e-12, 1e-13) if fe in ('numpy', 'sklearn') else (1e-5, 1e-5)
    if t == '3d':
        tol = (1e-6, 1e-6) if fe in ('numpy', 'sklearn') else (1e-4, 1e-3)
    return tol


def one(t, fe, s):
    x = inputs(s, fe)[1]
    return F.canon(apply(F.build(t, fe, s), F.tensor(fe, x), fe), fe, 'reference')


def many(case):
    """Many objects in one process: cyclic accesses of every period (caches of any size), objects kept and discarded."""
    t, fe = case['t'], case['fe']
    pop = [settings(c, t) for c in population(t)[::case['every']]]
    refs = [pristine.run(one, t, fe, s) for s in pop]
    tol = tolerances(t, fe)
    rep = _Rep()
    trail = []

    def use(S, i, what):
        x = F.tensor(fe, inputs(pop[i], fe)[1])
        F.same(F.canon(apply(S, x, fe), fe, what), refs[i], *tol, '%s frontend=%s %s %s' % (t, fe, json.dumps(pop[i]), what))
        rep.transitions += 1

    def visit(i, keep=None):
        S = F.build(t, fe, pop[i])
        use(S, i, 'built as number %d after %s' % (len(trail), trail[-6:]))
        trail.append(i)
        rep.states.add(digest((t, fe, tuple(trail[-2:]))))
        if keep is not None:
            keep.append((S, i))
    n = len(pop)
    kept = []
    for i in range(n):
        visit(i, kept)
    rep.traces += 1
    for p in ([n] if case['slow'] else sorted({1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, n - 1, n} & set(range(n + 1)))):
        # the same objects again, oldest or newest first; new objects with the same settings, discarded at once
        for order in (range(p), range(p - 1, -1, -1)):
            for i in order:
                visit(i)
            for i in order:
                use(*kept[i], 'in use again after %d objects' % len(trail))
            rep.traces += 1
        # settings which differ in one argument, alternating
        if not case['slow']:
            for i in range(n):
                for j in (i, (i + p) % n, i):
                    if (i + p) % n == i or p not in (1, 3, 9):
                        continue
                    visit(j)
            rep.traces += 1
    return dict(transitions=rep.transitions, traces=rep.traces, states=rep.states, depth=0, last=trail[-8:])


def calls(case):
    """One object, called very often, on arrays which come and go."""
    t, fe = case['t'], case['fe']
    c = {'1d': dict(J=1, shape=[4], Q=1), 'jtfs': dict(J=2, J_fr=0, shape=[4], Q=1), '2d': dict(J=1, L=1, shape=[2, 2]), '3d': dict(J=0, L=1, shape=[2, 2, 2])}[t]
    s = settings(c, t)
    tol = tolerances(t, fe)
    shapes = [(2,), (), (3,), (1, 2)] if case['slow'] else [b for n in range(3) for b in itertools.product((1, 2, 3, 4, 5, 6), repeat=n)]
    pool = np.random.default_rng([SEED, 12, 5]).standard_normal((6,) + tuple(c['shape'])).astype('float64' if fe in ('numpy', 'sklearn') else 'float32')
    alone = pristine.run(pieces, t, fe, s, pool)
    S = F.build(t, fe, s)
    rep = _Rep()
    total = (25 if fe == 'keras' else 60) if case['slow'] else (3000 if t != '3d' else 800)
    kept = []
    for k in range(total):
        b = shapes[k * 5 % len(shapes)] if k % 3 else shapes[0]
        m = int(np.prod(b))
        ids = [(k + 2 * e) % 6 for e in range(m)]
        x = F.tensor(fe, pool[ids].reshape(b + tuple(c['shape'])))
        y = apply(S, x, fe)
        what = '%s frontend=%s call number %d, batch %s' % (t, fe, k, b)
        got = F.canon(y, fe, what)
        exp = [(got[e][0], np.stack([alone[i][e][1] for i in ids]).reshape(b + alone[0][e][1].shape)) for e in range(len(alone[0]))]
        F.same(got, exp, *tol, what)
        rep.transitions += 1
        rep.states.add(digest((t, fe, b, k % 6)))
        if k in (0, 1, 2) or k & (k - 1) == 0:
            kept.append((y, got, what))
    for y, got, what in kept:
        F.same(F.canon(y, fe, what), got, 0., 0., what + ', looked at after the last call')
    rep.traces = 1
    return dict(transitions=rep.transitions, traces=rep.traces, states=rep.states, depth=0, last=[what])


def pieces(t, fe, s, pool):
    S = F.build(t, fe, s)
    return [[(k, v[0]) for k, v in F.canon(apply(S, F.tensor(fe, x[None]), fe), fe, 'reference')] for x in pool]


def explore(case):
    t, fe, a, b = (case[k] for k in ('t', 'fe', 'a', 'b'))
    refs = Refs(t, fe)
    refs.prepare(settings(a, t))
    refs.prepare(settings(b, t))
    rep = _Rep()
    ops = [o for o in OPS if applicable(t, fe, o)]
    closure = 0

    def history(h, fingerprint=False):
        w = World(t, fe, a, b, refs)
        for o in h:
            w.op(o, rep)
        fp = w.fingerprint() if fingerprint else None
        w.finish(rep)
        return fp
    if case['first'] is not None:
        firsts = ops if case['first'] == '*' else [case['first']]
        for n in range(case['depth']):
            for f, *rest in itertools.product(firsts, *[ops] * n):
                h = (f,) + tuple(rest)
                fp = history(h, fingerprint=n <= 1)
                if fp is not None:
                    rep.states.add(fp)
    else:
        frontier, seen, h = [()], {history((), True)}, ()
        for d in range(case['depth']):
            new = []
            for h0 in frontier:
                for o in ops:
                    h = h0 + (o,)
                    fp = history(h, True)
                    if fp not in seen:
                        seen.add(fp)
                        new.append(h)
            frontier = new
            closure = d + 1
            if not new:
                break
            if len(seen) > 400:
                break
        rep.states |= seen
    return dict(transitions=rep.transitions, traces=rep.traces, states=rep.states, depth=closure, last=list(h))
