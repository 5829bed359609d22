import numpy as np
import pandas as pd
from scipy.optimize import linear_sum_assignment

from solarspatialtools import cmv

ID = 'C13'
RULE = ('Random, clustered, planted and sparse sets of 3..120 motion vectors; '
        'the chosen subset is compared with the best alignment with an evenly '
        'spaced fan found on a fine grid of fan rotations.  Distinct = (kind, '
        'n, set size, container).')
REQUIRED = ['valid', 'mean-optimal', 'near-optimal', 'planted', 'scale-free', 'sign-free',
            'default', 'rotation-score', 'iloc']
ASSUMES = ['The rotation search may stop in a neighbouring optimum: the score '
           'may be short of the best by 9 % (two vectors), 5 % (three) or 3 % for a single set, and 0.3 % averaged over 25 sets.']


def TOL(n):
    return {2: 0.09, 3: 0.05}.get(n, 0.03)


def fan_scores(ang, n, grid):
    k = np.arange(n) / n * np.pi
    return [np.abs(np.cos(ang[None, :] - (k[:, None] + g))) for g in grid]


def best(ang, n, steps=240):
    """Best total alignment of n of the vectors with a rotated fan."""
    out = -1
    for S in fan_scores(ang, n, np.arange(steps) * np.pi / n / steps):
        r, c = linear_sum_assignment(-S)
        out = max(out, S[r, c].sum())
    return out


def vectors(rng, kind, n):
    N = int(rng.integers(n, 120))
    if kind == 'uniform':
        a = rng.uniform(0, 2 * np.pi, N)
    elif kind == 'cluster':
        a = rng.normal(rng.uniform(0, 6), 0.3, N)
        k = int(rng.integers(0, N // 2 + 1))
        a[:k] = rng.uniform(0, 2 * np.pi, k)
    elif kind == 'tight':
        N = n
        a = rng.uniform(0, 2 * np.pi, N)
    else:
        a = np.repeat(rng.uniform(0, 2 * np.pi, 6), N // 6 + 1)[:N]
    return a


def wrap(rng, x, y):
    k = rng.integers(0, 3)
    if k == 0:
        return 'array', x, y
    ix = np.arange(len(x)) if k == 1 else pd.date_range(
        '2020-01-01', periods=len(x), freq='1h')
    return ['', 'series', 'dated'][k], pd.Series(x, ix), pd.Series(y, ix)


def valid(case, idx, n, N):
    idx = np.asarray(idx)
    case.ok(idx.shape == (n,) and len(set(idx.tolist())) == n
            and idx.min() >= 0 and idx.max() < N
            and np.issubdtype(idx.dtype, np.integer), 'valid',
            f'{n} distinct positions below {N} expected, got {idx}')
    return idx


def subset(case):
    rng = case.rng
    n = int(rng.choice([2, 3, 4, 5, 8, 10]))
    kind = ['uniform', 'cluster', 'tight', 'repeat'][case.index % 4]
    a = vectors(rng, kind, n)
    N = len(a)
    s = 10 ** rng.uniform(-1, 1.5, N)
    x, y = s * np.cos(a), s * np.sin(a)
    c, wx, wy = wrap(rng, x, y)
    case.note(kind=kind, n=n, N=N, container=c)
    idx = valid(case, case.call(cmv.optimum_subset, wx, wy, n), n, N)
    if c != 'array':
        case.ok(len(pd.DataFrame({'x': wx, 'y': wy}).iloc[idx]) == n, 'iloc')
    top = best(a, n)
    got = best(a[idx], n)
    case.note(score=got, best=top)
    case.ok(got >= top - TOL(n) * n, 'near-optimal',
            f'alignment {got} where {top} is possible')
    # neither the length nor the sense of a vector matters
    s2 = 10 ** rng.uniform(-1, 1.5, N)
    i2 = valid(case, case.call(cmv.optimum_subset, s2 * np.cos(a),
                               s2 * np.sin(a), n), n, N)
    case.ok(best(a[i2], n) >= top - TOL(n) * n, 'scale-free')
    f = rng.choice([-1, 1], N)
    i3 = valid(case, case.call(cmv.optimum_subset, f * x, f * y, n), n, N)
    case.ok(best(a[i3], n) >= top - TOL(n) * n, 'sign-free')
    t = rng.uniform(0, np.pi)
    i4 = valid(case, case.call(cmv.optimum_subset, s * np.cos(a + t),
                               s * np.sin(a + t), n), n, N)
    case.ok(best(a[i4], n) >= top - TOL(n) * n, 'rotation-score')
    if N >= 10:
        d = case.call(cmv.optimum_subset, wx, wy)
        valid(case, d, 10, N)
        case.ok(np.array_equal(np.sort(d), np.sort(
            case.call(cmv.optimum_subset, wx, wy, n=10))), 'default')
    case.sig(kind, n, N // 10, c)


def planted(case):
    """A perfect fan hidden among vectors that all point alike."""
    rng = case.rng
    n = int(rng.choice([3, 4, 5, 6]))
    t0 = rng.uniform(0, np.pi)
    fan = t0 + np.arange(n) / n * np.pi + np.pi * rng.integers(0, 2, n)
    M = int(rng.integers(5, 60))
    rest = t0 + np.pi / n * rng.uniform(0.4, 0.6, M) \
        + np.pi * rng.integers(0, 2, M)
    a = np.r_[fan, rest]
    o = rng.permutation(len(a))
    a = a[o]
    s = 10 ** rng.uniform(-1, 1.5, len(a))
    idx = valid(case, case.call(cmv.optimum_subset, pd.Series(s * np.cos(a)),
                                pd.Series(s * np.sin(a)), n), n, len(a))
    got = best(a[idx], n)
    case.ok(got >= n * 0.999, 'planted',
            f'alignment {got} though a perfect fan of {n} is present')
    case.sig('planted', n, M // 10)


def batch(case):
    """Averaged over many sets the choice is as good as the best one."""
    rng = case.rng
    gap = []
    for i in range(25):
        n = int(rng.choice([4, 5, 8]))
        kind = ['uniform', 'cluster', 'repeat'][i % 3]
        a = vectors(rng, kind, n)
        s = 10 ** rng.uniform(-1, 1.5, len(a))
        idx = valid(case, case.call(cmv.optimum_subset, s * np.cos(a),
                                    s * np.sin(a), n), n, len(a))
        gap.append((best(a, n, 120) - best(a[idx], n, 120)) / n)
        case.sig('batch', n, len(a) // 10)
    case.note(mean_gap=np.mean(gap))
    case.ok(np.mean(gap) < 0.003, 'mean-optimal', f'mean shortfall {gap}')


WORKLOADS = [('batch', batch, 12, 300), ('subset', subset, 400, 8000), ('planted', planted, 200, 4000)]
