import numpy as np
import pandas as pd

from solarspatialtools import irradiance
from mon.core import size
from mon.core import grain
from mon.core import labels

ID = 'C19'
RULE = ('Scalars, arrays, series and frames of irradiance against scalar, '
        'array and series clear-sky references with zero, negative, NaN and '
        'infinite members, and several caps; every member is recomputed from '
        'the definition.  Distinct = (container, reference container, cap, '
        'which special members occurred).')
REQUIRED = ['value', 'bounds', 'finite', 'container', 'labels', 'default-cap',
            'columns', 'scale-free', 'cap-monotone', 'scalar', 'no-nan-origin']
ASSUMES = ['A missing or infinite member of the input may give 0 or NaN (the '
           'package documents 0, the library it wraps keeps NaN).',
           'A plain Python float is not divided by a plain Python zero.']


def members(rng, n):
    g = rng.uniform(0, 1500, n)
    c = rng.uniform(50, 1100, n)
    for arr, bad in ((g, [0.0, -5.0, np.nan, np.inf]),
                     (c, [0.0, -3.0, np.nan, np.inf, 1e-9])):
        k = rng.uniform(size=n) < 0.25
        arr[k] = rng.choice(bad, k.sum())
    return g, c


def want(g, c, cap):
    """-> (value, exact?) for one pair."""
    if not np.isfinite(g) or not np.isfinite(c):
        return None
    with np.errstate(all='ignore'):
        r = np.float64(g) / np.float64(c)
    if not np.isfinite(r):
        return 0.0
    return min(max(r, 0.0), cap)


def judge(case, got, g, c, cap):
    got = np.asarray(got, float)
    case.ok(got.shape == g.shape, 'value', f'shape {got.shape}')
    fin = got[np.isfinite(got)]
    case.ok(np.all(fin >= 0) and np.all(fin <= cap + 1e-12), 'bounds',
            'outside of [0, cap]')
    case.ok(not np.any(np.isinf(got)), 'finite', 'an infinite index')
    c = np.broadcast_to(c, g.shape)
    for k in np.ndindex(g.shape):
        w = want(g[k], c[k], cap)
        case.hit('value')
        if w is None:
            if not (np.isnan(got[k]) or got[k] == 0):
                case.ok(False, 'no-nan-origin',
                        f'{got[k]} from {g[k]} / {c[k]}')
            case.hit('no-nan-origin')
        elif not abs(got[k] - w) <= 1e-9 * max(1, w):
            case.ok(False, 'value',
                    f'{got[k]} for {g[k]} / {c[k]} with cap {cap}, '
                    f'expected {w}')


def arrays(case):
    rng = case.rng
    n = size(rng, 1, 60, 3000)
    g, c = members(rng, n)
    cap = float(rng.choice([2.0, 1.0, 1.2, 0.5, 5.0, rng.uniform(0.3, 3)]))
    kind = ['array', 'series', 'array-scalar', 'series-array',
            'series-scalar', '2d'][rng.integers(0, 6)]
    case.note(kind=kind, n=n, cap=cap)
    case.sig(kind, round(cap, 1), np.isnan(g).any(), np.isinf(g).any(),
             (c == 0).any())
    ix = pd.date_range('2020-06-01', periods=n, freq='1min', tz='UTC')
    cc = c
    if kind == 'array':
        a, b = g, c
    elif kind == 'series':
        a, b = pd.Series(g, ix, name='q'), pd.Series(c, ix, name='cs')
    elif kind == 'array-scalar':
        cc = np.array(float(rng.uniform(10, 1000)))
        a, b = g, float(cc)
    elif kind == 'series-scalar':
        cc = np.array(float(rng.uniform(10, 1000)))
        a, b = pd.Series(g, ix), float(cc)
    elif kind == 'series-array':
        a, b = pd.Series(g, ix), c
    else:
        g = np.stack([g, g[::-1]])
        a, b = g, c
    out = case.call(irradiance.clearsky_index, a, b, cap)
    if isinstance(a, pd.Series):
        case.ok(isinstance(out, pd.Series), 'container', str(type(out)))
        case.ok(out.index.equals(a.index), 'labels')
    judge(case, out, g, cc, cap)
    # twice the irradiance under twice the clear sky
    o2 = case.call(irradiance.clearsky_index, a * 2, b * 2, cap)
    case.close(np.asarray(o2, float), np.asarray(out, float), 'scale-free')
    o3 = case.call(irradiance.clearsky_index, a, b,
                   max_clearsky_index=cap * 1.5)
    with np.errstate(invalid='ignore'):
        case.ok(not np.any(np.asarray(o3) < np.asarray(out) - 1e-12),
                'cap-monotone')
    o4 = case.call(irradiance.clearsky_index, a, b)
    judge(case, o4, g, cc, 2.0)
    case.hit('default-cap')


def frames(case):
    rng = case.rng
    n, m = size(rng, 2, 40, 1000), size(rng, 1, 5, 40)
    g = np.empty((n, m))
    for j in range(m):
        g[:, j], c = members(rng, n)
    cap = float(rng.choice([2.0, 1.0, 1.3, 4.0]))
    ix = pd.date_range('2020-06-01', periods=n, freq='10s')
    ix = grain(ix, rng.integers(0, 4))
    cols = labels(rng, m)
    df = pd.DataFrame(g, ix, cols)
    kind = ['series', 'array', 'scalar'][rng.integers(0, 3)]
    cc = c[:, None]
    if kind == 'series':
        b = pd.Series(c, ix)
    elif kind == 'array':
        b = c
    else:
        b = float(rng.uniform(10, 1000))
        cc = np.array(b)
    case.note(kind=kind, n=n, m=m, cap=cap)
    case.sig('frame', kind, m, cap)
    out = case.call(irradiance.clearsky_index, df, b, cap)
    case.ok(isinstance(out, pd.DataFrame), 'container', str(type(out)))
    case.ok(list(out.columns) == cols and out.index.equals(ix), 'labels')
    judge(case, out.values, g, cc, cap)
    for j in range(m):
        one = case.call(irradiance.clearsky_index, df[cols[j]], b, cap)
        case.close(out[cols[j]].values, np.asarray(one), 'columns')
    o4 = case.call(irradiance.clearsky_index, df, b)
    judge(case, o4.values, g, cc, 2.0)
    case.hit('default-cap')


def scalars(case):
    rng = case.rng
    for _ in range(20):
        g, c = members(rng, 1)
        cap = float(rng.uniform(0.5, 3))
        a, b = float(g[0]), float(c[0])
        if b == 0 or rng.integers(0, 2):
            a, b = np.float64(a), np.float64(b)
        out = case.call(irradiance.clearsky_index, a, b, cap)
        judge(case, np.asarray(out, float), np.asarray(a), np.asarray(b), cap)
        case.hit('scalar')
        case.sig('scalar', a == 0, a < 0, b == 0, np.isnan(a), np.isnan(b))


QUICK_X = 8
WORKLOADS = [
    ('arrays', arrays, 300, 6000),
    ('frames', frames, 120, 2500),
    ('scalars', scalars, 40, 400),
]
