import math
import numpy as np
from ..core import Violation, close, product, SEED
from ..ref1d import signals

LEVEL = 'exploration'
RULE = ('one evaluation = one described coefficient row (key, order, indices, frequencies, scales and values) compared across list, dict, array, meta() and '
        'output_size(); all configurations of the lattice; distinct_nontrivial = distinct (configuration, key)')
ASSUMPTIONS = ['the values themselves are decided by C01, C02 and C04']


def cases(tier, seed):
    deep = tier == 'thorough'
    for J in range(1, 7 if not deep else 9):
        for N in (2 ** J, 2 ** J + 5, 100) if J < 6 else (2 ** J, 2 ** J + 5):
            if N < max(2 ** J, 4):
                continue
            for Q in ([1, 3, [1, 2], [8, 2]] if not deep else [1, 2, 3, 4, 8, 16, [1, 2], [2, 2], [4, 2], [8, 2]]):
                yield dict(kind='1d', J=J, N=N, Q=Q)
    for J, J_fr, Q, N in [(3, 2, 4, 64), (4, 2, 4, 100), (4, 3, 8, 128), (5, 2, [4, 1], 128), (3, 1, 2, 40), (4, 0, 3, 64)] + (
            [(5, 3, 8, 256), (6, 4, [8, 2], 256), (6, 3, 6, 200)] if deep else []):
        for T in (None, 0, 'global', 2 ** (J - 1)):
            for F in (None, 0, 'global', 2 ** J_fr // 2 or 1, 2 ** J_fr * 2):
                yield dict(kind='jtfs', J=J, J_fr=J_fr, Q=Q, N=N, T=T, F=F, cost=100)
    for J in (1, 2, 3):
        for L in (1, 2, 3, 6, 8):
            for shape in ([8, 8], [16, 11], [9, 24]):
                if min(shape) >= 2 ** J:
                    yield dict(kind='2d', J=J, L=L, shape=shape, cost=J)


def tup(q):
    return tuple(q) if isinstance(q, list) else q


def same(a, b, what):
    close(a, b, 1e-12, 1e-300, what)


def run_case(case, rep):
    dict(zip(('1d', 'jtfs', '2d'), (run_1d, run_jtfs, run_2d)))[case['kind']](case, rep)


def check_row(what, meta, i, banks, n, mo):
    for key in ('xi', 'sigma', 'j'):
        row = meta[key][i]
        if row.shape != (mo,):
            raise Violation('%s: meta[%r] has shape %s' % (what, key, meta[key].shape))
        for o in range(mo):
            e = banks[o][n[o]][key] if o < len(n) else None
            if (e is None) != bool(np.isnan(row[o])) or (e is not None and row[o] != e):
                raise Violation('%s: meta[%r] of path %s is %s, filter has %s' % (what, key, n, row, e))


def run_1d(case, rep):
    from kymatio.numpy import Scattering1D
    J, N, Q = case['J'], case['N'], tup(case['Q'])
    x = signals(N, np.random.default_rng([SEED, 9]), impulses=2)[-2:]
    for T in (None, 0, 'global', 1, 2 ** J // 2, N):
        for stride in ((None, 1, 2) if T is None or (T not in (0, 'global') and T >= 2) else (None,)):
            outs = {}
            for mo in (1, 2):
                w = 'J=%s N=%s Q=%s T=%s stride=%s max_order=%d' % (J, N, Q, T, stride, mo)
                S = Scattering1D(J, N, Q=Q, T=T, stride=stride, max_order=mo, out_type='list')
                lst = S(x)
                meta = S.meta()
                S.out_type = 'dict'
                dct = S(x)
                meta2 = S.meta()
                if T == 0:
                    arr = None
                else:
                    S.out_type = 'array'
                    arr = S(x)
                    if arr.shape[:2] != (len(x), len(lst)):
                        raise Violation('%s: array of shape %s, list of %d' % (w, arr.shape, len(lst)))
                keys = [tuple(int(v) for v in k) for k in meta['key']]
                if keys != [tuple(int(v) for v in k) for k in meta2['key']]:
                    raise Violation('%s: meta() depends on out_type' % w)
                if len(set(keys)) != len(keys) or keys != sorted(keys, key=lambda k: (len(k), k)):
                    raise Violation('%s: meta keys are not strictly ordered' % w)
                if [tuple(int(v) for v in d['n']) for d in lst] != keys or set(dct) != set(keys):
                    raise Violation('%s: meta keys differ from list or dict keys' % w)
                det = S.output_size(detail=True)
                if S.output_size() != len(lst) or sum(det) != len(lst) or tuple(det) != tuple(
                        sum(len(k) == o for k in keys) for o in range(mo + 1) if any(len(k) == o for k in keys)):
                    raise Violation('%s: output_size %s / %s, %d coefficients' % (w, S.output_size(), det, len(lst)))
                for f in ('n', 'xi', 'sigma', 'j', 'order'):
                    if len(meta[f]) != len(lst):
                        raise Violation('%s: meta[%r] has length %d instead of %d' % (w, f, len(meta[f]), len(lst)))
                banks = (S.psi1_f, S.psi2_f)
                for i, (n, d) in enumerate(zip(keys, lst)):
                    wi = '%s key %s' % (w, n)
                    same(dct[n], d['coef'], wi + ' dict against list')
                    if arr is not None:
                        same(arr[..., i, :], d['coef'], wi + ' array against list')
                    if meta['order'][i] != len(n) or d['order'] != len(n):
                        raise Violation('%s: order %s / %s' % (wi, meta['order'][i], d['order']))
                    if tuple(int(v) for v in d['j']) != tuple(banks[o][m]['j'] for o, m in enumerate(n)):
                        raise Violation('%s: list j=%s' % (wi, d['j']))
                    mn = meta['n'][i]
                    if mn.shape != (mo,) or [int(v) for v in mn if not np.isnan(v)] != list(n):
                        raise Violation('%s: meta n=%s' % (wi, mn))
                    check_row(w, meta, i, banks, n, mo)
                    rep.eval((w, n))
                outs[mo] = lst
            if [d['n'] for d in outs[1]] != [d['n'] for d in outs[2]][:len(outs[1])]:
                raise Violation('%s: first-order output is not a prefix' % w)
            for a, b in zip(outs[1], outs[2]):
                same(a['coef'], b['coef'], w + ' max_order=1 against max_order=2 at %s' % (a['n'],))
    rep.sample(dict(w=w, keys=keys[:6], xi=meta['xi'][:4]))


def run_jtfs(case, rep):
    from kymatio.numpy import TimeFrequencyScattering
    J, J_fr, Q, N = case['J'], case['J_fr'], tup(case['Q']), case['N']
    x = signals(N, np.random.default_rng([SEED, 9]), impulses=2)[-2:]
    combos = list(product(T=(case['T'],), F=(case['F'],),
                          stride=(None, 1, 2), stride_fr=(None, 1, 2)))
    for c in combos:
        if c['T'] in (0, 'global') and c['stride'] is not None or c['F'] in (0, 'global') and c['stride_fr'] is not None:
            continue
        F = 2 ** J_fr if c['F'] is None else c['F']
        if c['stride_fr'] is not None and c['stride_fr'] > F:
            continue
        w0 = 'JTFS J=%s J_fr=%s Q=%s N=%s %s' % (J, J_fr, Q, N, c)
        out = {}
        for fmt in ('time', 'joint'):
            for ot in ('list', 'dict', 'array'):
                if ot == 'array' and (c['T'] == 0 or (fmt == 'joint' and c['F'] == 0)):
                    continue
                w = '%s format=%s out_type=%s' % (w0, fmt, ot)
                S = TimeFrequencyScattering(J, J_fr, Q, N, Q_fr=1, format=fmt, out_type=ot, **c)
                y = out[fmt, ot] = S(x)
                meta = S.meta()
                keys = [tuple(int(v) for v in k) for k in meta['key']]
                if ot == 'list':
                    got = [tuple(int(v) for v in d['n']) for d in y]
                elif ot == 'dict':
                    got = [tuple(int(v) for v in k) for k in y]
                else:
                    got = None
                    if y.shape[1] != len(keys):
                        raise Violation('%s: %d rows, meta describes %d' % (w, y.shape[1], len(keys)))
                if got is not None and got != keys:
                    raise Violation('%s: keys and meta() differ: %s / %s' % (w, got[:6], keys[:6]))
                if len(set(keys)) != len(keys):
                    raise Violation('%s: duplicate keys' % w)
                for f in ('n', 'n_fr', 'order', 'xi', 'sigma', 'j', 'xi_fr', 'sigma_fr', 'j_fr', 'spin'):
                    if len(meta[f]) != len(keys):
                        raise Violation('%s: meta[%r] has length %d instead of %d' % (w, f, len(meta[f]), len(keys)))
                if S.output_size() != len(keys):
                    raise Violation('%s: output_size %d, %d keys' % (w, S.output_size(), len(keys)))
                fr = S.filters_fr[1]
                for i, k in enumerate(keys):
                    wi = '%s key %s' % (w, k)
                    body = k[1:] if fmt == 'time' else k    # (n_fr,) or (n2, n_fr)
                    order = 0 if k == () else len(body)
                    if meta['order'][i] != order:
                        raise Violation('%s: order %s instead of %d' % (wi, meta['order'][i], order))
                    if ot == 'list' and y[i]['order'] != order:
                        raise Violation('%s: list order %s instead of %d' % (wi, y[i]['order'], order))
                    if order == 0:
                        if not np.isnan(meta['n_fr'][i]) or not np.isnan(meta['spin'][i]):
                            raise Violation('%s: zeroth order has a frequential filter' % wi)
                        continue
                    n_fr = body[-1]
                    if meta['n_fr'][i] != n_fr:
                        raise Violation('%s: n_fr=%s' % (wi, meta['n_fr'][i]))
                    for key in ('xi', 'sigma', 'j'):
                        if meta[key + '_fr'][i] != fr[n_fr][key]:
                            raise Violation('%s: meta[%r]=%s, filter has %s' % (wi, key + '_fr', meta[key + '_fr'][i], fr[n_fr][key]))
                    if meta['spin'][i] != np.sign(fr[n_fr]['xi']):
                        raise Violation('%s: spin=%s' % (wi, meta['spin'][i]))
                    n2 = body[0] if order == 2 else None
                    for key in ('xi', 'sigma', 'j'):
                        row = meta[key][i]
                        e1 = S.psi1_f[k[0]][key] if fmt == 'time' else None
                        e2 = S.psi2_f[n2][key] if n2 is not None else None
                        for v, e in zip(row, (e1, e2)):
                            if (e is None) != bool(np.isnan(v)) or (e is not None and v != e):
                                raise Violation('%s: meta[%r]=%s, filters have %s' % (wi, key, row, (e1, e2)))
                    if fmt == 'time' and meta['n'][i][0] != k[0]:
                        raise Violation('%s: meta n=%s' % (wi, meta['n'][i]))
                    if fmt == 'joint' and ot == 'list':
                        d = y[i]
                        if list(meta['n'][i][0]) != list(range(0, d['n1_max'], d['n1_stride'])):
                            raise Violation('%s: meta n=%s' % (wi, meta['n'][i]))
                    if fmt == 'joint' and ot != 'array':
                        coef = y[i]['coef'] if ot == 'list' else y[k]
                        if coef.shape[-2] != len(meta['n'][i][0]):
                            raise Violation('%s: %d frequency rows, meta describes %d: %s' % (wi, coef.shape[-2], len(meta['n'][i][0]), meta['n'][i][0]))
                    if ot == 'list':
                        if d_get(y[i], 'n_fr') != n_fr or d_get(y[i], 'spin') != np.sign(fr[n_fr]['xi']) or d_get(y[i], 'j_fr') != fr[n_fr]['j']:
                            raise Violation('%s: list metadata %s' % (wi, {a: b for a, b in y[i].items() if a != 'coef'}))
                        if order == 2 and y[i]['j'][-1] != S.psi2_f[n2]['j']:
                            raise Violation('%s: list j=%s' % (wi, y[i]['j']))
                    rep.eval((w, k))
        for fmt in ('time', 'joint'):
            l = out[fmt, 'list']
            for i, d in enumerate(l):
                same(out[fmt, 'dict'][d['n']], d['coef'], '%s %s dict against list %s' % (w0, fmt, d['n']))
                if fmt == 'time' and (fmt, 'array') in out:
                    same(out[fmt, 'array'][:, i], d['coef'], '%s array against list %s' % (w0, d['n']))
            if fmt == 'joint' and (fmt, 'array') in out:
                a = out[fmt, 'array']
                for i, d in enumerate(l[1:]):
                    m = min(a.shape[2], d['coef'].shape[1])
                    same(a[:, i, :m], d['coef'][:, :m], '%s joint array against list %s' % (w0, d['n']))
        # the same coefficients in both formats
        t, j = out['time', 'dict'], out['joint', 'list']
        n = 0
        for d in j:
            if d['n'] == ():
                same(t[()], d['coef'], w0 + ' zeroth order')
                n += 1
                continue
            for i, n1 in enumerate(range(0, d['n1_max'], d['n1_stride'])):
                key = (n1,) + tuple(d['n'])
                if key not in t:
                    raise Violation('%s: joint row %d of %s missing in time format' % (w0, i, d['n']))
                same(np.squeeze(t[key]), np.squeeze(d['coef'][..., i, :]), '%s time format %s' % (w0, key))
                n += 1
        if n != len(t):
            raise Violation('%s: %d coefficients in time format, %d in joint format' % (w0, len(t), n))
    rep.sample(dict(w=w0, keys=keys[:6], spin=meta['spin'][:6]))


def d_get(d, k):
    v = d[k]
    return v[0] if isinstance(v, tuple) else v


def run_2d(case, rep):
    from kymatio.numpy import Scattering2D
    J, L, (M, N) = case['J'], case['L'], case['shape']
    x = np.random.default_rng([SEED, 9]).standard_normal((2, M, N))
    outs = {}
    for mo in (1, 2):
        w = '2D J=%d L=%d shape=%s max_order=%d' % (J, L, (M, N), mo)
        lst = Scattering2D(J, (M, N), L=L, max_order=mo, out_type='list')(x)
        S = Scattering2D(J, (M, N), L=L, max_order=mo)
        arr = S(x)
        expect = [()] + [(a,) for a in range(J * L)]
        if mo == 2:
            expect += [(a, b) for a in range(J * L) for b in range(J * L) if b // L > a // L]
        if [tuple(d['n']) for d in lst] != expect or arr.shape[1] != len(expect):
            raise Violation('%s: paths %s..., array %s' % (w, [tuple(d['n']) for d in lst][:6], arr.shape))
        for i, (d, n) in enumerate(zip(lst, expect)):
            same(arr[:, i], d['coef'], '%s array against list %s' % (w, n))
            if tuple(d['j']) != tuple(a // L for a in n) or tuple(d['theta']) != tuple(a % L for a in n):
                raise Violation('%s path %s: j=%s theta=%s' % (w, n, d['j'], d['theta']))
            for o, a in enumerate(n):
                if S.psi[a]['j'] != d['j'][o] or S.psi[a]['theta'] != d['theta'][o]:
                    raise Violation('%s path %s: metadata differ from the filter' % (w, n))
            rep.eval((w, n))
        outs[mo] = arr
    same(outs[1], outs[2][:, :outs[1].shape[1]], w + ' max_order=1 prefix')
    rep.sample(dict(w=w, theta=[d['theta'] for d in lst[:4]]))
