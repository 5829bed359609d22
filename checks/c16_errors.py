import math

import numpy as np
import pandas as pd

from solarspatialtools import stats

ID = 'C16'
RULE = ('Random baseline and estimate as floats, arrays, Series (aligned and '
        'shuffled labels, missing samples) and frames; every metric against '
        'an element-by-element sum, plus the identities between metrics.  '
        'Distinct = (container, missing, size).')
REQUIRED = ['bias', 'squared', 'absolute', 'mbe', 'mse', 'rmse', 'mae',
            'order', 'antisymmetric', 'symmetric', 'perfect', 'shift',
            'scale', 'aligned', 'missing', 'container']


def data(rng, n):
    k = rng.integers(0, 4)
    if k == 0:
        return rng.normal(size=n) * 10 ** rng.uniform(-3, 5)
    if k == 1:
        return rng.integers(-100, 100, n).astype(float)
    if k == 2:
        return rng.uniform(0, 1000, n)
    return np.full(n, rng.normal())


def want(b, e):
    d = [y - x for x, y in zip(b, e)]
    g = [q for q in d if not math.isnan(q)]
    N = max(len(g), 1)
    return (d, math.fsum(g) / N, math.fsum(q * q for q in g) / N,
            math.fsum(abs(q) for q in g) / N)


def frames(case, n, b, e):
    """Tables: rows and columns belong together by their labels."""
    rng = case.rng
    ix = pd.date_range('2020-01-01', periods=n, freq='1min')
    m = int(rng.integers(1, 5))
    b = np.array([b] + [data(rng, n) for _ in range(m - 1)]).T
    e = np.array([e] + [data(rng, n) for _ in range(m - 1)]).T
    if n > 1 and rng.integers(0, 2):
        b[rng.uniform(size=b.shape) < .1] = np.nan
        e[rng.uniform(size=b.shape) < .1] = np.nan
        b[0] = e[0] = 1.
    L = [f'p{j}' for j in range(m)]
    B, E = pd.DataFrame(b, ix, L), pd.DataFrame(e, ix, L)
    mixed = int(rng.integers(0, 4))
    if mixed & 1:
        E = E.iloc[rng.permutation(n)]
    if mixed & 2:
        E = E[[L[j] for j in rng.permutation(m)]]
    if mixed:
        case.hit('aligned')
    case.note(kind='frame', n=n, m=m, mixed=mixed)
    d = e - b
    sc = np.nanmax(np.abs(np.r_[b, e])) + 1e-300
    for f, w, clause in ((stats.bias_error, d, 'bias'),
                         (stats.squared_error, d ** 2, 'squared'),
                         (stats.absolute_error, np.abs(d), 'absolute')):
        out = case.call(f, B, E)
        if case.ok(isinstance(out, pd.DataFrame) and out.shape == (n, m),
                   'container', f'{type(out)}'):
            case.close(out.loc[ix, L].values, w, clause, rtol=1e-11,
                       atol=1e-13 * sc * (sc if clause == 'squared' else 1))
    for f, w, p in ((stats.mbe, d, 1), (stats.mse, d ** 2, 2),
                    (stats.mae, np.abs(d), 1), (stats.rmse, d ** 2, 1)):
        out = case.call(f, B, E)
        r = np.sqrt if f is stats.rmse else np.asarray
        if np.ndim(out) == 0:            # over all samples
            case.close(float(out), float(r(np.nanmean(w))), f.__name__,
                       rtol=1e-9, atol=1e-11 * sc ** p)
        else:                            # or column by column
            case.close(out[L], r(np.nanmean(w, axis=0)), f.__name__,
                       rtol=1e-9, atol=1e-11 * sc ** p)
    case.sig('frame', n, m, mixed)


def metrics(case):
    rng = case.rng
    n = int(rng.choice([1, 2, 5, 30, 365, 2000]))
    b, e = data(rng, n), data(rng, n)
    kind = ['array', 'series', 'shuffled', 'missing', 'frame', 'float',
            'int', 'matrix'][case.index % 8]
    B, E = b, e
    if kind == 'int':
        b = rng.integers(0, 255, n)
        e = rng.integers(0, 255, n)
        dt = rng.choice(['int64', 'int32'])
        B, E = b.astype(dt), e.astype(dt)
        b, e = b.astype(float), e.astype(float)
    if kind == 'float':
        b, e = b[:1], e[:1]
        B, E = float(b[0]), float(e[0])
    if kind in ('series', 'shuffled', 'missing'):
        ix = pd.date_range('2020-01-01', periods=n, freq='1min')
        if kind == 'missing' and n > 1:
            b, e = b.copy(), e.copy()
            b[rng.uniform(size=n) < 0.2] = np.nan
            e[rng.uniform(size=n) < 0.2] = np.nan
            b[0] = e[0] = 1.0
        B, E = pd.Series(b, ix), pd.Series(e, ix)
        if kind == 'shuffled':
            E = E.iloc[rng.permutation(n)]
    if kind == 'frame':
        return frames(case, n, b, e)
    if kind == 'matrix':
        w = int(rng.integers(1, 6))
        b = np.concatenate([data(rng, n) for _ in range(w)])
        e = np.concatenate([data(rng, n) for _ in range(w)])
        B, E = b.reshape(n, w), e.reshape(n, w)
    case.note(kind=kind, n=n)
    sc = np.nanmax(np.abs(np.r_[b, e])) + 1e-300
    d, mb, ms, ma = want(b, e)
    got = case.call(stats.bias_error, B, E)
    sq = case.call(stats.squared_error, B, E)
    ab = case.call(stats.absolute_error, B, E)
    if kind in ('series', 'shuffled', 'missing'):
        for g in (got, sq, ab):
            case.ok(isinstance(g, pd.Series) and len(g) == n, 'container')
        got, sq, ab = [g.sort_index() for g in (got, sq, ab)]
        if kind == 'shuffled':
            case.hit('aligned')
        if kind == 'missing':
            case.hit('missing')
    case.close(np.ravel(got), d, 'bias', rtol=1e-12, atol=1e-13 * sc)
    case.close(np.ravel(sq), np.array(d) ** 2, 'squared', rtol=1e-11,
               atol=1e-13 * sc ** 2)
    case.close(np.ravel(ab), np.abs(d), 'absolute', rtol=1e-12,
               atol=1e-13 * sc)
    M = {k: float(case.call(getattr(stats, k), B, E))
         for k in ('mbe', 'mse', 'rmse', 'mae')}
    case.close(M['mbe'], mb, 'mbe', rtol=1e-9, atol=1e-11 * sc)
    case.close(M['mse'], ms, 'mse', rtol=1e-9, atol=1e-11 * sc ** 2)
    case.close(M['rmse'], math.sqrt(ms), 'rmse', rtol=1e-9, atol=1e-11 * sc)
    case.close(M['mae'], ma, 'mae', rtol=1e-9, atol=1e-11 * sc)
    t = 1e-9 * sc
    case.ok(abs(M['mbe']) <= M['mae'] + t <= M['rmse'] + 2 * t
            and min(M['mse'], M['mae'], M['rmse']) >= 0, 'order', f'{M}')
    R = {k: float(case.call(getattr(stats, k), E, B)) for k in M}
    case.close(R['mbe'], -M['mbe'], 'antisymmetric', rtol=1e-9,
               atol=1e-11 * sc)
    for k in ('mse', 'rmse', 'mae'):
        case.close(R[k], M[k], 'symmetric', rtol=1e-9)
        case.close(float(case.call(getattr(stats, k), B, B)), 0, 'perfect',
                   atol=0)
    c = float(rng.normal() * sc)
    case.close(float(case.call(stats.mbe, B, E + c)), mb + c, 'shift',
               rtol=1e-9, atol=1e-10 * (sc + abs(c)))
    k = 10 ** rng.uniform(-2, 2)
    case.close(float(case.call(stats.rmse, B * k, E * k)), k * M['rmse'],
               'scale', rtol=1e-9, atol=1e-10 * sc * k)
    case.close(float(case.call(stats.mse, B * k, E * k)), k * k * M['mse'],
               'scale', rtol=1e-9, atol=1e-10 * (sc * k) ** 2)
    case.sig(kind, n)


QUICK_X = 4
WORKLOADS = [('metrics', metrics, 420, 12000)]
