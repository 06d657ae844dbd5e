"""Two (or three) threads using transform objects, under every schedule with a bounded number of preemptions."""
import copy, importlib, json, os, pickle, signal, sys
import numpy as np
from ..core import Violation, SEED, REPO
from .. import fe as F
from .. import sched

LEVEL = 'model_checking'
RULE = ('trace = one complete execution of real kymatio threads under one schedule; all schedules with one preemption at every operation '
        '(statement, attribute, subscript or call evaluation) of kymatio code executed by either thread, and all schedules with two preemptions at every entry of a kymatio function (every statement in thorough); '
        'also replicas of one PyTorch module with buffers of different precision; objects are cold in every schedule, and in the "cold" cases the whole process is forked before kymatio was first used; '
        'state = (harness, preemption points); transition = one scheduling unit executed under control')
ASSUMPTIONS = ['preemption happens between the operations instrumented in kymatio code; races inside NumPy or PyTorch are out of scope',
               'a thread blocked for one second on a lock is overtaken by the other thread']

A1 = dict(J=2, shape=[8], Q=1)
B1 = dict(J=2, shape=[8], Q=2, T=2, max_order=1)
PAIR = {'1d': (A1, B1), 'jtfs': (dict(J=2, J_fr=1, shape=[8], Q=1), dict(J=2, J_fr=1, shape=[8], Q=2, T='global', F=0, out_type='dict')),
        '2d': (dict(J=2, L=1, shape=[4, 4]), dict(J=1, L=2, shape=[4, 4], max_order=1)),
        '3d': (dict(J=1, L=1, shape=[3, 3, 3]), dict(J=1, L=1, shape=[3, 3, 3], sigma_0=2., rotation_covariant=False, integral_powers=[1.]))}
# smaller objects for two preemptions
SMALL = {'1d': (dict(J=1, shape=[4], Q=1), dict(J=1, shape=[4], Q=1, T=1)),
         'jtfs': (dict(J=2, J_fr=0, shape=[4], Q=1), dict(J=2, J_fr=0, shape=[4], Q=1, T=0, out_type='list')),
         '2d': (dict(J=1, L=1, shape=[2, 2]), dict(J=1, L=2, shape=[2, 2])),
         '3d': (dict(J=0, L=1, shape=[2, 2, 2]), dict(J=0, L=1, shape=[2, 2, 2], sigma_0=2.))}
M = 8


def cases(tier, seed):
    deep = tier == 'thorough'
    for t in PAIR:
        for fe in ('sklearn', 'tensorflow', 'jax', 'keras'):
            if fe == 'keras' and t not in ('1d', '2d') or fe == 'sklearn' and t == 'jtfs':
                continue
            for h in ('call_call', 'call_describe'):
                if h == 'call_describe' and (t in ('2d', '3d') or fe == 'keras'):
                    continue
                unit = 'op' if fe == 'sklearn' else 'line' if deep or t != 'jtfs' else 'call'
                parts = 2
                for part in range(parts):
                    yield dict(t=t, fe=fe, h=h, unit=unit, bound=1, cold=False, threads=2, small=True, part=part, parts=parts, cost=8)
        for fe in ('numpy', 'torch'):
            for h in ('call_call', 'call_describe', 'call_copy', 'build_build', 'build_same', 'call_build', 'call_pickle', 'replicas'):
                if h == 'call_describe' and t in ('2d', '3d') or h == 'replicas' and fe != 'torch':
                    continue
                heavy = t == 'jtfs' or t == '2d' and 'build' in h
                plans = []                                   # (unit, bound, cold, threads, small)
                if h == 'call_call':
                    plans = [('op' if deep or not heavy and (fe == 'numpy' or t in ('1d', '3d')) else 'line', 1, False, 2, False), ('call', 1, True, 2, fe == 'torch')]
                    if fe == 'numpy' and t != 'jtfs' or deep:
                        plans.append(('call', 2, False, 2, True))
                    if deep:
                        plans += [('op', 1, True, 2, False), ('call', 2, False, 2, False), ('call', 1, False, 3, False), ('call', 2, True, 2, True)]
                        if t != 'jtfs':
                            plans.append(('line', 2, False, 2, True))
                elif h == 'replicas':
                    plans = [('line', 1, False, 2, True)]
                    if deep:
                        plans += [('op', 1, False, 2, False), ('call', 2, False, 2, True)]
                elif 'build' in h:
                    plans = [('call' if heavy else 'line', 1, True, 2, True)] if fe == 'numpy' or deep else [('call', 1, True, 2, True)]
                    if deep:
                        plans += [('op' if not heavy else 'line', 1, True, 2, False), ('call', 2, t == '1d', 2, True)]
                else:
                    plans = [('op' if fe == 'numpy' and not heavy else 'line' if not heavy or fe == 'numpy' else 'call', 1, False, 2, fe == 'torch')]
                    if deep:
                        plans += [('op', 1, False, 2, False), ('call', 2, False, 2, True)]
                for unit, bound, cold, threads, small in plans:
                    for part in range(M):
                        yield dict(t=t, fe=fe, h=h, unit=unit, bound=bound, cold=cold, threads=threads, small=small, part=part, parts=M,
                                   cost=bound * (3 if unit == 'op' else 1) + (fe == 'torch') + heavy)


def pair(case):
    return (SMALL if case['small'] else PAIR)[case['t']]


def inputs(cfg, fe):
    rng = np.random.default_rng([SEED, 13])
    dt = 'float64' if fe in ('numpy', 'sklearn') else 'float32'
    sh = tuple(cfg['shape'])
    return [rng.standard_normal(s + sh).astype(dt) for s in ((), (2,), (3,))]


def use(S, t, fe, cfg, x):
    """One call, the way users of the frontend call it."""
    if fe == 'sklearn' and cfg.get('out_type', 'array') == 'array':
        return S.transform(np.asarray(x).reshape(-1, int(np.prod(cfg['shape']))))
    if fe == 'keras':
        return S(x)
    return S.scattering(x)


def make(t, fe, cfg):
    S = F.build(t, fe, cfg)
    if fe == 'keras':
        S(F.tensor(fe, inputs(cfg, fe)[2]))      # Keras builds a layer at its first call
    return S


def preload(fe):
    """Import every module that a lazy import could load (imports hold locks)."""
    if fe == 'torch':
        import torch
        torch.set_num_threads(1)
    if fe in ('tensorflow', 'keras'):
        import tensorflow as tf
        tf.get_logger().setLevel('ERROR')
    importlib.import_module('kymatio.' + fe)
    for d in (1, 2, 3):
        try:
            importlib.import_module('kymatio.scattering%dd.backend.%s_backend' % (d, fe))
        except ImportError:
            pass


def bodies(case, S, warm):
    """Thread bodies; each returns canonical observations."""
    t, fe, h = case['t'], case['fe'], case['h']
    a, b = pair(case)
    xa, xb = inputs(a, fe), inputs(b, fe)

    def call(i):
        return lambda: ('a%d' % i, F.canon(use(S, t, fe, a, F.tensor(fe, xa[i])), fe))

    def build(cfg, who, i):
        xs = (xa if who == 'a' else xb)[i]
        return lambda: ('%s%d' % (who, i), F.canon(use(F.build(t, fe, cfg), t, fe, cfg, F.tensor(fe, xs)), fe))

    def describe():
        m = S.meta()
        return 'meta', [(k, v.tolist() if isinstance(v, np.ndarray) else F.plain(v)) for k, v in sorted(m.items())]

    def replicas():
        # what torch.nn.DataParallel does: shallow copies with buffers of their own, one thread each
        import torch
        out = []
        for i, dt in enumerate((torch.float32, torch.float64)):
            r = S._replicate_for_data_parallel()
            r._buffers = {k: v.to(dt) for k, v in r._buffers.items()}
            out.append(lambda r=r, i=i, dt=dt: ('a%d' % i, F.canon(use(r, t, fe, a, F.tensor(fe, xa[i]).to(dt)), fe)))
        return out
    out = {'replicas': replicas, 'call_call': lambda: [call(0), call(1)], 'call_describe': lambda: [call(0), describe],
           'call_copy': lambda: [call(0), lambda: ('a1', F.canon(use(copy.deepcopy(S), t, fe, a, F.tensor(fe, xa[1])), fe))],
           'call_pickle': lambda: [call(0), lambda: ('a1', F.canon(use(pickle.loads(pickle.dumps(S)), t, fe, a, F.tensor(fe, xa[1])), fe))],
           'build_build': lambda: [build(a, 'a', 0), build(b, 'b', 0)], 'build_same': lambda: [build(a, 'a', 0), build(a, 'a', 1)],
           'call_build': lambda: [call(0), build(b, 'b', 0)]}[h]()
    if case['threads'] == 3:
        out.append(call(2))
    return out


def references(case):
    t, fe = case['t'], case['fe']
    a, b = pair(case)
    ref = {}
    for who, cfg in (('a', a), ('b', b)):
        S = F.build(t, fe, cfg)
        for i, x in enumerate(inputs(cfg, fe)):
            ref['%s%d' % (who, i)] = F.canon(use(S, t, fe, cfg, F.tensor(fe, x)), fe)
    if fe != 'keras' and t in ('1d', 'jtfs'):
        m = F.build(t, fe, a).meta()
        ref['meta'] = [(k, v.tolist() if isinstance(v, np.ndarray) else F.plain(v)) for k, v in sorted(m.items())]
    return ref


def compare(case, ref, res, what):
    tol = (1e-12, 1e-13) if case['fe'] in ('numpy', 'sklearn') else (1e-5, 1e-5)
    if case['t'] == '3d':
        tol = (1e-5, 1e-4)
    if res[0] == 'error':
        raise Violation('%s: a thread raised %s' % (what, res[1]))
    key, got = res[1]
    if key == 'meta':
        if repr(got) != repr(ref['meta']):
            raise Violation('%s: meta() returned something else' % what)
    else:
        F.same(got, ref[key], *tol, '%s: thread computing %s' % (what, key))


def execute(case, S, ref, plan):
    """One schedule, in this process. Returns (steps, switches, violation or None)."""
    r = sched.Run(bodies(case, S, False), plan, case['unit'])
    res = r.go()
    what = '%s %s %s, %d threads, schedule at %s granularity: thread %d first, preempted at %s' % (
        case['t'], case['fe'], case['h'], case['threads'], case['unit'], plan[0], plan[1])
    try:
        if res is None:
            raise Violation('%s: deadlock' % what)
        for x in res:
            compare(case, ref, x, what)
        if case['h'].startswith('call') or case['h'] == 'replicas':
            # the shared object is still good
            x = inputs(pair(case)[0], case['fe'])[2]
            compare(case, ref, ('ok', ('a2', F.canon(use(S, case['t'], case['fe'], pair(case)[0], F.tensor(case['fe'], x)), case['fe']))), what + ', a later call')
    except Violation as e:
        return r.steps, r.switches, str(e)
    return r.steps, r.switches, None


def forked(fn, limit=120):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit or 0)
            os.close(rd)
            try:
                out = fn()
            except BaseException as e:
                import traceback
                out = ([0, 0], 0, 'harness error: ' + traceback.format_exc())
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    try:
        data = b''
        while True:
            c = os.read(rd, 1 << 16)
            if not c:
                break
            data += c
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else ([0, 0], 0, 'the process running the threads died')


def run_case(case, rep):
    if not any(isinstance(f, sched.Finder) for f in sys.meta_path):
        sched.install()
    preload(case['fe'])
    import gc
    gc.freeze()
    ref = forked_refs(case)
    # this process never uses kymatio itself: everything happens in forked children
    pack = forked(lambda: explore(case, ref), limit=None)
    if isinstance(pack, tuple):
        raise RuntimeError(pack[2])
    if pack['violation']:
        raise Violation(pack['violation'])
    rep.traces += pack['traces']
    rep.evaluations += pack['traces']
    rep.transitions += pack['transitions']
    rep.add('schedules_%s_bound_%d%s' % (case['unit'], case['bound'], '_cold_process' if case['cold'] else ''), pack['traces'])
    for k in pack['states']:
        rep.state(k)
    rep.maximum('units_per_thread', max(max(c) for c in pack['counts'].values()))
    rep.sample(dict(harness=case['h'], unit=case['unit'], units_per_thread_by_first_thread=pack['counts']))


def explore(case, ref):
    out = dict(traces=0, transitions=0, states=[], counts={}, violation=None)
    proto = None
    if case['h'].startswith('call') or case['h'] == 'replicas':
        if case['cold']:
            proto = F.build(case['t'], case['fe'], pair(case)[0])
        else:
            t, fe, a = case['t'], case['fe'], pair(case)[0]
            proto = make(t, fe, a)

    def one(plan):
        if case['cold']:
            return forked(lambda: execute(case, proto, ref, plan))
        if proto is None:
            S = None
        elif case['fe'] in ('tensorflow', 'keras'):
            S = make(case['t'], case['fe'], pair(case)[0])
        else:
            S = copy.deepcopy(proto)
        return execute(case, S, ref, plan)
    for first in range(case['threads']):
        steps, _, v = one((first, []))
        if v:
            out['violation'] = v
            return out
        if min(steps) == 0:
            raise RuntimeError('no scheduling point observed: %s' % steps)
        out['counts'][first] = steps
    for first in range(case['threads']):
        for k1 in range(1, out['counts'][first][first] + 1):
            if k1 % case['parts'] != case['part']:
                continue
            second = (first + 1) % case['threads']
            plans = [(first, [k1])] if case['bound'] == 1 else [(first, [k1, k2]) for k2 in range(1, out['counts'][second][second] + 1)]
            for plan in plans:
                steps, sw, v = one(plan)
                out['traces'] += 1
                out['transitions'] += sum(steps)
                out['states'].append((case['t'], case['fe'], case['h'], case['unit'], case['threads'], case['small'], plan))
                if v:
                    out['violation'] = v
                    return out
    return out


def forked_refs(case):
    from .. import pristine
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                out = ('ok', references(case))
            except BaseException:
                import traceback
                out = ('error', traceback.format_exc())
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        kind, val = pickle.load(f)
    os.waitpid(pid, 0)
    if kind == 'error':
        raise RuntimeError(val)
    return val
