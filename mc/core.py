"""Framework shared by all checks.

A check module defines

    LEVEL    'exploration' | 'model_checking' | ...
    RULE     how cases are made and what makes one non-trivial
    def cases(tier, seed): iterable of JSON-able case dicts (the enumeration)
    def run_case(case): explores the case on the real code with a Report; raises Violation

Cases are independent; they are distributed over forked worker processes.  The parent never imports
kymatio or a machine-learning framework.
"""
import hashlib, json, os, signal, sys, time, traceback
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Violation(Exception):
    """The property is broken; args[0] says how, args[1] (optional) is a finding signature."""
    def __init__(self, message, signature=None):
        super().__init__(message)
        self.signature = signature


class CaseTimeout(Exception):
    pass


class Report:
    """What one case covered. Everything is counted as it is executed."""
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}

    def eval(self, key=None, n=1):
        self.evaluations += n
        if key is not None:
            self.keys.add(digest(key))

    def state(self, key):
        self.states.add(digest(key))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def maximum(self, name, v):
        v = float(v)
        self.extra['max_' + name] = max(self.extra.get('max_' + name, 0.), v)

    def pack(self):
        return dict(evaluations=self.evaluations, keys=self.keys, states=self.states,
                    transitions=self.transitions, traces=self.traces, samples=self.samples,
                    extra=self.extra)


def digest(obj):
    import numpy as np
    h = hashlib.blake2b(digest_size=8)
    def feed(o):
        if isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b'(')
            for x in o:
                feed(x)
            h.update(b')')
        elif isinstance(o, dict):
            h.update(b'{')
            for k in sorted(o, key=repr):
                feed(k); feed(o[k])
            h.update(b'}')
        else:
            h.update(repr(o).encode())
    feed(obj)
    return h.digest()


def _worker_init(repo):
    sys.path.insert(0, repo)
    import warnings
    warnings.simplefilter('ignore')


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_one(args):
    modname, idx, case, limit = args
    import importlib
    mod = importlib.import_module(modname)
    rep = Report()
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    viol = None
    try:
        mod.run_case(case, rep)
    except Violation as e:
        viol = dict(message=str(e), signature=e.signature)
    except CaseTimeout:
        viol = dict(message='did not terminate within %d s' % limit, signature=None)
    except MemoryError:
        raise
    except Exception as e:
        # kymatio (or an operation a user can rely on) raised on an admissible case
        viol = dict(message='unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()),
                    signature=None)
    finally:
        signal.alarm(0)
    return idx, rep.pack(), viol, time.time() - t


def known_findings():
    path = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    return repr(o)


def main(pid, tier, replay=None):
    import importlib
    t0 = time.time()
    modname = 'mc.checks.' + pid.lower()
    sys.path.insert(0, REPO)
    mod = importlib.import_module(modname)
    nproc = int(os.environ.get('VERIF_JOBS', getattr(mod, 'JOBS', 8)))
    limit = getattr(mod, 'CASE_LIMIT', {}).get(tier, 400 if tier == 'quick' else 3600)
    if replay:
        case_list = [json.load(open(replay))['case']]
    else:
        case_list = list(mod.cases(tier, SEED))
    for i, c in enumerate(case_list):
        json.dumps(c)
    jobs = [(modname, i, json.loads(json.dumps(c)), limit) for i, c in enumerate(case_list)]
    tot = Report()
    allkeys, allstates = set(), set()
    viols = []
    slow = []
    # fork after the parent imported only light modules
    ctx = mp.get_context('fork')
    keep_going = getattr(mod, 'KEEP_GOING', False)
    if nproc == 1 or len(jobs) == 1:
        _worker_init(REPO)
        results = map(_run_one, jobs)
        pool = None
    else:
        from concurrent.futures import ProcessPoolExecutor
        pool = ProcessPoolExecutor(min(nproc, len(jobs)), mp_context=ctx,
                                   initializer=_worker_init, initargs=(REPO,))
        from concurrent.futures import as_completed
        order = sorted(jobs, key=lambda j: -j[2].get('cost', 0)) if any('cost' in j[2] for j in jobs) else jobs
        futs = [pool.submit(_run_one, j) for j in order]
        results = (f.result() for f in as_completed(futs))
    deadline = t0 + (780 if tier == 'quick' else 24 * 3600)
    for idx, pk, viol, dt in results:
        tot.evaluations += pk['evaluations']
        tot.transitions += pk['transitions']
        tot.traces += pk['traces']
        allkeys |= pk['keys']
        allstates |= pk['states']
        if pk['samples'] and len(tot.samples) < 6:
            tot.samples.append({'case': case_list[idx], 'observed': pk['samples'][0]})
        for k, v in pk['extra'].items():
            if k.startswith('max_'):
                tot.extra[k] = max(tot.extra.get(k, 0.), v)
            else:
                tot.extra[k] = tot.extra.get(k, 0) + v
        slow.append((dt, idx))
        if viol:
            viols.append((idx, viol))
            if len(viols) >= 5 and not keep_going:
                break
    if pool is not None:
        if len(viols) >= 5:
            for p in list(pool._processes.values()):
                p.kill()
        pool.shutdown(wait=True, cancel_futures=True)

    findings = [f for f in known_findings() if f.get('property') == pid]
    real, known = [], []
    for idx, v in viols:
        f = next((f for f in findings if f.get('signature') and f['signature'] == v['signature']), None)
        (known if f else real).append((idx, v, f))
    for idx, v, f in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))

    level = mod.LEVEL
    cov = dict(rule=mod.RULE, cases=len(case_list), samples=jsonable(tot.samples) or ['none'],
               exhaustive=not viols, **jsonable(tot.extra))
    if level == 'model_checking':
        cov.update(states=len(allstates), transitions=tot.transitions,
                   traces_validated_against_impl=tot.traces, evaluations=tot.evaluations)
    else:
        cov.update(evaluations=tot.evaluations, distinct_nontrivial=len(allkeys))
    evid = dict(property=pid, tier=tier, seed=SEED, level=level, coverage=cov,
                assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
                violations=len(real))
    os.makedirs(os.path.join(ROOT, 'evidence', 'replays'), exist_ok=True)
    if not replay:
        tmp = os.path.join(ROOT, 'evidence', '.%s.tmp' % pid)
        with open(tmp, 'w') as fh:
            json.dump(evid, fh, indent=1)
        os.replace(tmp, os.path.join(ROOT, 'evidence', pid + '.json'))
    if real:
        idx, v, _ = min(real, key=lambda r: (len(json.dumps(case_list[r[0]])), r[0]))
        rp = replay or os.path.join('evidence', 'replays', '%s-%d.json' % (pid, idx))
        if not replay:
            with open(os.path.join(ROOT, rp), 'w') as fh:
                json.dump(dict(property=pid, case=case_list[idx], message=v['message'],
                               how='./run %s %s --replay %s' % (pid, tier, rp)), fh, indent=1)
        print('case: %s' % json.dumps(case_list[idx])[:2000])
        print('violation: %s' % v['message'][:4000])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.stdout.flush()
        return 1
    slow.sort(reverse=True)
    print('%s %s: held; %s in %.1f s (slowest case %.1f s: %s)' % (
        pid, tier, ', '.join('%s=%s' % (k, cov[k]) for k in
        ('cases', 'evaluations', 'distinct_nontrivial', 'states', 'transitions', 'traces_validated_against_impl') if k in cov),
        time.time() - t0, slow[0][0], json.dumps(case_list[slow[0][1]])[:200]))
    if os.environ.get('VERIF_TIMES'):
        keys, agg = os.environ['VERIF_TIMES'].split(','), {}
        for dt, i in slow:
            k = tuple(str(case_list[i].get(f)) for f in keys)
            agg[k] = agg.get(k, 0) + dt
        for k, v in sorted(agg.items(), key=lambda e: -e[1])[:25]:
            print('%8.1f s  %s' % (v, k))
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(cov, indent=1)[:6000])
    return 0


# ------------------------------------------------------------------ helpers used by checks
def close(a, b, rtol, atol, what, scale=None):
    """Raise Violation unless |a-b| <= atol + rtol*scale, scale = max|b| by default."""
    import numpy as np
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation('%s: shape %s instead of %s' % (what, a.shape, b.shape))
    if a.size == 0:
        return 0.
    if not np.all(np.isfinite(a)):
        raise Violation('%s: not finite' % what)
    s = float(np.max(np.abs(b))) if scale is None else scale
    d = np.abs(a - b)
    err = float(d.max())
    if not err <= atol + rtol * s:
        i = np.unravel_index(int(d.argmax()), d.shape)
        raise Violation('%s: differs by %.3g at index %s (got %r, expected %r, scale %.3g)' % (
            what, err, tuple(int(k) for k in i), a[i].item(), b[i].item(), s))
    return err / (s + 1e-300)


def product(**kw):
    import itertools
    keys = list(kw)
    for vals in itertools.product(*kw.values()):
        yield dict(zip(keys, vals))
