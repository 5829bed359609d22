import itertools

import numpy as np
import pandas as pd
from scipy.optimize import linear_sum_assignment

from solarspatialtools import field
from mon.core import size

ID = 'C15'
RULE = ('Random plans and predictions of 1..7 units (all assignments '
        'enumerated) and 8..60 units (dual certificate), scrambled plans, '
        'missing predictions, extra columns, name types; remaps composed '
        'along chains.  Distinct = (workload, units, missing, columns).')
REQUIRED = ['bijection', 'optimal', 'planted', 'remapped-data', 'nan-stay',
            'nan-optimal', 'extra-columns', 'translate', 'remap', 'untouched',
            'subset-columns', 'cascade', 'cascade-data', 'sorted',
            'identity', 'inverse']
ASSUMES = ['Plan and prediction list the units in the same order.']


def names(rng, n):
    k = rng.integers(0, 3)
    if k == 0:
        return [f'CMB-{j:03d}' for j in rng.permutation(n)]
    if k == 1:
        return [int(j) for j in rng.permutation(500)[:n]]
    return [chr(65 + j // 26) + chr(97 + j % 26) for j in range(n)]


def cost(plan, pred, remap):
    return sum(np.hypot(*(np.asarray(plan.loc[b].iloc[:2], float)
                          - np.asarray(pred.loc[a].iloc[:2], float)))
               for a, b in remap)


def optimum(plan, pred):
    A, B = plan.values[:, :2].astype(float), pred.values[:, :2].astype(float)
    D = np.hypot(A[None, :, 0] - B[:, None, 0], A[None, :, 1] - B[:, None, 1])
    n = len(D)
    if n <= 7:
        return min(sum(D[i, p[i]] for i in range(n))
                   for p in itertools.permutations(range(n)))
    r, c = linear_sum_assignment(D)
    return D[r, c].sum()


def check(case, plan, pred, remap, data, clause='optimal'):
    ids = list(plan.index)
    firsts = [a for a, _ in remap]
    seconds = [b for _, b in remap]
    case.ok(sorted(firsts) == sorted(ids) and sorted(seconds) == sorted(ids)
            and len(remap) == len(ids), 'bijection',
            'every unit gets one place and every place one unit', got=remap)
    ok = [k for k in ids if not pred.loc[k].iloc[:2].isna().any()]
    for k in ids:
        if k not in ok:
            case.ok((k, k) in [tuple(x) for x in remap], 'nan-stay',
                    f'{k} has no prediction')
    if ok:
        got = cost(plan, pred, [x for x in remap if x[0] in ok])
        best = optimum(plan.loc[ok], pred.loc[ok])
        case.close(got, best, clause, rtol=1e-9, atol=1e-6,
                   msg='total distance')
    for a, b in remap:
        case.ok((data.loc[a] == plan.loc[b]).all(), 'remapped-data',
                f'{a} sits at {b}')
    case.ok(list(data.index) == ids and list(data.columns)
            == list(plan.columns), 'remapped-data', 'same rows and columns')


def assign(case):
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 12, 30, 60, 110]))
    ids = names(rng, n)
    S = 10 ** rng.uniform(0, 4)
    P = rng.uniform(-S, S, (n, 2)) + rng.choice([0, 1e5])
    plan = pd.DataFrame(P, index=ids, columns=['E', 'N'])
    kind = ['random', 'scrambled', 'near', 'line'][case.index % 4]
    perm = rng.permutation(n)
    if kind == 'random':
        Q = rng.uniform(-S, S, (n, 2)) + P.mean(axis=0)
    elif kind == 'scrambled':
        Q = P[perm]
    elif kind == 'near':
        Q = P[perm] + rng.normal(size=(n, 2)) * S * 0.1
    else:
        Q = np.array([P.mean(axis=0) + [S * k, 0] for k in range(n)])
    pred = pd.DataFrame(Q, index=ids, columns=rng.choice(
        [['E', 'N'], ['x', 'y']][0:2]).tolist())
    extra = rng.integers(0, 2)
    if extra:
        plan['zone'] = 32.0
        pred['score'] = rng.normal(size=n)
        pred.loc[ids[0], 'score'] = np.nan
        case.hit('extra-columns')
    case.note(n=n, kind=kind, extra=int(extra), ids=ids[:4])
    remap, data = case.call(field.assign_positions, plan, pred)
    check(case, plan, pred, remap, data)
    case.ok([a for a, _ in remap] == sorted(ids), 'sorted',
            'ordered by unit')
    if kind == 'scrambled':
        want = {ids[i]: ids[perm[i]] for i in range(n)}
        case.ok(dict(remap) == want, 'planted', f'{remap}')
        case.close(data.values[:, :2].astype(float), Q, 'planted', rtol=0)
    sh = np.array([512., -256.])
    p2, q2 = plan.copy(), pred.copy()
    p2.iloc[:, :2] += sh
    q2.iloc[:, :2] += sh
    r2, d2 = case.call(field.assign_positions, p2, q2)
    check(case, p2, q2, r2, d2, 'translate')
    # units without a prediction
    q = pred.copy()
    k = int(rng.integers(1, n + 1))
    lost = rng.choice(n, k, replace=False)
    for j in lost:
        w = rng.integers(0, 3)
        q.iloc[j, 0 if w == 0 else 1] = np.nan
        if w == 2:
            q.iloc[j, 0] = np.nan
    if k < n:
        r3, d3 = case.call(field.assign_positions, plan, q)
        check(case, plan, q, r3, d3, 'nan-optimal')
    case.sig('assign', n, kind, int(extra), k == n)


def remaps(case):
    rng = case.rng
    n = size(rng, 1, 19, 100)
    ids = names(rng, n)
    data = pd.DataFrame({'E': rng.normal(size=n), 'N': rng.normal(size=n),
                         'k': np.arange(n) * 1.0}, index=ids)
    p = rng.permutation(n)
    remap = [(ids[i], ids[p[i]]) for i in range(n)]
    partial = [remap[i] for i in range(n) if rng.integers(0, 2)]
    remap = [remap[i] for i in rng.permutation(n)]
    before = data.copy()
    cols = [None, ['E'], ['N', 'E']][case.index % 3]
    for r in (remap, partial, []):
        args = (data, list(r)) if cols is None else (data, list(r), cols)
        out = case.call(field.remap_positions, *args)
        m = dict(r)
        for c in data.columns:
            for k in ids:
                if k in m and (cols is None or c in cols):
                    case.ok(out.loc[k, c] == before.loc[m[k], c], 'remap',
                            f'{k} takes the {c} of {m[k]}')
                else:
                    case.ok(out.loc[k, c] == before.loc[k, c], 'untouched',
                            f'{k}.{c}')
        if cols is not None:
            case.hit('subset-columns')
        case.ok(data.equals(before), 'untouched', 'the input is kept')
    inv = [(b, a) for a, b in remap]
    full = case.call(field.remap_positions, data, remap)
    back = case.call(field.remap_positions, full, inv)
    case.close(back.values, before.values, 'inverse', rtol=0)
    case.sig('remap', n, case.index % 3)


def cascade(case):
    rng = case.rng
    n = size(rng, 1, 14, 80)
    ids = names(rng, n)
    data = pd.DataFrame({'E': rng.normal(size=n), 'N': rng.normal(size=n)},
                        index=ids)

    def rnd():
        p = rng.permutation(n)
        r = [(ids[i], ids[p[i]]) for i in range(n)]
        return [r[i] for i in rng.permutation(n)]
    r1, r2, r3 = rnd(), rnd(), rnd()
    case.note(r1=r1, r2=r2)
    c = case.call(field.cascade_remap, r1, r2)
    a, b = dict(r1), dict(r2)
    case.ok(dict(c) == {k: a[b[k]] for k in ids}, 'cascade', f'{c}')
    case.ok([k for k, _ in c] == sorted(ids), 'sorted', f'{c}')
    # remapping twice is remapping once with the cascade
    two = case.call(field.remap_positions,
                    case.call(field.remap_positions, data, r1), r2)
    one = case.call(field.remap_positions, data, c)
    case.close(one.values, two.values, 'cascade-data', rtol=0)
    l = case.call(field.cascade_remap, case.call(field.cascade_remap, r1, r2),
                  r3)
    r = case.call(field.cascade_remap, r1,
                  case.call(field.cascade_remap, r2, r3))
    case.ok(l == r, 'cascade', 'associative')
    e = [(k, k) for k in ids]
    case.ok(dict(case.call(field.cascade_remap, r1, e)) == a
            and dict(case.call(field.cascade_remap, e, r1)) == a,
            'identity')
    case.ok(case.call(field.cascade_remap, r1, [(y, x) for x, y in r1])
            == sorted(e), 'inverse')
    case.sig('cascade', n)


QUICK_X = 2
WORKLOADS = [('assign', assign, 240, 5000), ('remaps', remaps, 90, 2000),
             ('cascade', cascade, 90, 2000)]
