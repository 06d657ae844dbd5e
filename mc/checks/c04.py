import numpy as np
from ..core import Violation, close, product, SEED
from ..ref1d import signals
from ..refjtfs import RefJTFS

LEVEL = 'exploration'
RULE = ('one evaluation = one (configuration, format, out_type, key) coefficient compared with the reference; all (J, J_fr, Q, N) x (T, stride) x (F, stride_fr) x format x out_type '
        'of the lattice; distinct_nontrivial = distinct (configuration, key) with non-zero reference')
ASSUMPTIONS = ['negative-spin wavelets are truncated at 2e-5 by the code (tolerance 1e-4)', "joint arrays keep the padded frequency rows and T or F='global' sum over padded samples, as the existing tests fix"]


def cases(tier, seed):
    deep = tier == 'thorough'
    base = [(2, 1, 2, 16, 1), (3, 2, 4, 40, 1), (3, 0, 3, 33, 1), (4, 2, [4, 2], 64, 1), (4, 3, 8, 77, 1), (5, 1, 2, 60, 1), (3, 2, 4, 32, 2), (4, 3, 6, 50, 2)]
    if deep:
        base += [(5, 3, 8, 128, 1), (6, 4, 8, 256, 1), (6, 2, [8, 2], 200, 3), (5, 4, 12, 130, 2), (7, 3, 5, 300, 1), (2, 3, 8, 20, 1), (4, 1, 1, 30, 1)]
    for J, J_fr, Q, N, Q_fr in base:
        for T in (None, 0, 'global', 2 ** (J - 1), min(N, 3 * 2 ** J // 2), 1):
            for F in (None, 0, 'global', 1, 2 ** J_fr * 2, 3, 2.5):
                yield dict(J=J, J_fr=J_fr, Q=Q, N=N, Q_fr=Q_fr, T=T, F=F, deep=deep, cost=J * N)


    Ns = list(range(8, 141 if not deep else 401)) + [255, 256, 257, 511, 512, 513] + ([1023, 1024, 1025, 2049] if deep else [])
    for i in range(0, len(Ns), 5):
        yield dict(kind='sizes', Ns=Ns[i:i + 5], cost=400)


def run_case(case, rep):
    if case.get('kind') == 'sizes':
        for N in case['Ns']:
            for T, F in ((None, None), ('global', 'global'), (3, 0)):
                one(dict(J=3, J_fr=2, Q=2, N=N, Q_fr=1, T=T, F=F, deep=False, ots=['list'], base=True), rep)
        return
    one(case, rep)


def one(case, rep):
    from kymatio.numpy import TimeFrequencyScattering
    J, J_fr, N, Q_fr, T, F = (case[k] for k in ('J', 'J_fr', 'N', 'Q_fr', 'T', 'F'))
    Q = tuple(case['Q']) if isinstance(case['Q'], list) else case['Q']
    Q1 = Q if isinstance(Q, int) else Q[0]
    if isinstance(F, (int, float)) and F and F > (J + 1) * Q1:
        return
    x = signals(N, np.random.default_rng([SEED, 4]), impulses=3)[-9:]
    ls = RefJTFS(J, J_fr, Q, N, T=T, F=F)
    for stride in ([None] + [2 ** k for k in range(ls.t.log2_T + 1) if k in (0, 1, 2)] if ls.t.local else [None]):
        for stride_fr in ([None] + [2 ** k for k in range(ls.log2_F + 1)] if ls.local_fr else [None]):
            if case.get('base') and (stride or stride_fr) or stride not in (None, 1) and stride_fr not in (None, 1) and not case['deep']:
                continue
            ref = RefJTFS(J, J_fr, Q, N, T, stride, Q_fr, F, stride_fr)
            exp = ref(x)
            cfg = dict(J=J, J_fr=J_fr, Q=Q, N=N, T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr)
            for fmt in ('time', 'joint'):
                # expected rows in order
                rows = []
                for key, (Z, m, s) in exp.items():
                    if key == ():
                        rows.append(((), Z))
                    elif fmt == 'joint':
                        rows.append((key, Z))
                    else:
                        rows += [((n1,) + key, Z[:, i]) for i, n1 in enumerate(range(0, m, s))]
                for ot in case.get('ots', ('array', 'list', 'dict')):
                    if ot == 'array' and (T == 0 or (fmt == 'joint' and F == 0)):
                        continue
                    w = '%s format=%s out_type=%s' % (cfg, fmt, ot)
                    y = TimeFrequencyScattering(J, J_fr, Q, N, T=T, stride=stride, Q_fr=Q_fr, F=F, stride_fr=stride_fr, format=fmt, out_type=ot)(x)
                    exp_rows = rows[1:] if (fmt == 'joint' and ot == 'array') else rows
                    if ot == 'array':
                        if y.shape[1] != len(exp_rows):
                            raise Violation('%s: %d rows instead of %d' % (w, y.shape[1], len(exp_rows)))
                        got = [y[:, i] for i in range(len(exp_rows))]
                    elif ot == 'list':
                        if [tuple(d['n']) for d in y] != [k for k, _ in exp_rows]:
                            raise Violation('%s: paths %s..., documented %s...' % (w, [tuple(d['n']) for d in y][:8], [k for k, _ in exp_rows][:8]))
                        got = [d['coef'] for d in y]
                    else:
                        if set(y) != set(k for k, _ in exp_rows) or len(y) != len(exp_rows):
                            raise Violation('%s: keys differ from the documented paths' % w)
                        got = [y[k] for k, _ in exp_rows]
                    for (k, e), g in zip(exp_rows, got):
                        if fmt == 'joint' and ot != 'array' and k != ():
                            Z, m, s = exp[k]
                            e = e[:, :len(range(0, m, s))]
                        err = close(g, e, 1e-4, 1e-9, '%s key %s' % (w, k))
                        rep.maximum('relative_error', err if np.abs(e).max(initial=0) > 1e-6 else 0)
                        rep.eval((cfg, fmt, ot, k) if np.abs(e).max(initial=0) > 1e-12 else None, len(x))
    rep.sample(dict(config=w, key=k, values=np.round(np.asarray(g)[-1].ravel()[:5], 8)))
