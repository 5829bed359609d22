import numpy as np
import pandas as pd

from solarspatialtools.dataio import hope_campaign as hc
from mon.core import size

ID = 'C25'
RULE = ('Random multi-station records with sentinels, flags and gaps of every '
        'length around the limit, at the ends and next to each other; each '
        'sample of the result is decided by a scan of its neighbours.  '
        'Distinct = (function, stations, gap pattern class, limit, level).')
REQUIRED = ['flag', 'flag-default', 'null', 'null-edge', 'gap-filled',
            'gap-kept', 'at-limit', 'over-limit', 'ends', 'good-kept',
            'default-limit', 'labels', 'keeps-input', 'bounded', 'columns',
            'no-gap', 'all-missing', 'idempotent', 'limit-monotone',
            'pipeline']
ASSUMES = ['Interpolation is by position (regular sampling).',
           'Limits are positive whole numbers.']


def frame(rng, n=None):
    n = n or size(rng, 3, 120, 3000)
    m = size(rng, 1, 5, 40)
    ix = pd.date_range('2013-09-08 09:00', periods=n, freq='1s',
                       tz=['UTC', None][rng.integers(0, 2)])
    cols = sorted(int(c) for c in rng.choice(np.arange(1, 100), m, False))
    if rng.integers(0, 4) == 0:
        cols = [f'S{c}' for c in cols]
    dt = ['float64', 'float32'][rng.integers(0, 2)]
    return pd.DataFrame(rng.uniform(0, 1200, (n, m)).astype(dt), ix, cols)


def gaps(rng, df, limit):
    a = df.values.copy()
    n, m = a.shape
    for j in range(m):
        k = rng.integers(0, 5)
        if k == 0:
            a[rng.uniform(size=n) < rng.uniform(0.1, 0.8), j] = np.nan
        elif k == 4:
            continue
        else:
            i = int(rng.integers(0, 3))
            while i < n:
                L = int(rng.choice([1, limit - 1, limit, limit + 1,
                                    2 * limit, 3 * limit + 2]))
                L = max(1, L)
                a[i:i + L, j] = np.nan
                i += L + int(rng.integers(1, 8))
    if rng.integers(0, 6) == 0:            # infinite values are not gaps
        for _ in range(4):
            j = int(rng.integers(0, m))
            i = int(rng.integers(0, n))
            L = int(rng.integers(1, 2 * limit + 2))
            if not np.isnan(a[max(i - 1, 0):i + L + 1, j]).any():
                a[i:i + L, j] = np.inf
    return pd.DataFrame(a, df.index, df.columns)


def fill_ref(x, limit):
    """-> expected values, one column."""
    n = len(x)
    out = x.astype(float).copy()
    kinds = {}
    i = 0
    while i < n:
        if not np.isnan(x[i]):
            i += 1
            continue
        j = i
        while j < n and np.isnan(x[j]):
            j += 1
        L = j - i
        if i == 0 or j == n:
            kinds['ends'] = kinds.get('ends', 0) + 1
        elif L > limit:
            kinds['gap-kept'] = kinds.get('gap-kept', 0) + 1
            if L == limit + 1:
                kinds['over-limit'] = 1
        else:
            kinds['gap-filled'] = kinds.get('gap-filled', 0) + 1
            if L == limit:
                kinds['at-limit'] = 1
            for q in range(i, j):
                f = (q - i + 1) / (L + 1)
                out[q] = x[i - 1] * (1 - f) + x[j] * f
        i = j
    return out, kinds


def same_labels(case, out, df):
    case.ok(isinstance(out, pd.DataFrame) and out.index.equals(df.index)
            and list(out.columns) == list(df.columns), 'labels')


def interp(case):
    rng = case.rng
    limit = int(rng.choice([1, 2, 3, 5, 8, 20]))
    df = gaps(rng, frame(rng), limit)
    keep = df.copy(deep=True)
    use_default = limit == 5 and rng.integers(0, 2)
    out = case.call(hc.interp_nan, df) if use_default else \
        case.call(hc.interp_nan, df, limit)
    same_labels(case, out, df)
    rt = 1e-9 if df.values.dtype == np.float64 else 1e-5
    pattern = set()
    for j in range(df.shape[1]):
        x = keep.values[:, j].astype(float)
        want, kinds = fill_ref(x, limit)
        got = out.values[:, j].astype(float)
        pattern |= set(kinds)
        for k, v in kinds.items():
            case.hit(k, v)
        good = ~np.isnan(x)
        case.close(got[good], x[good], 'good-kept', rtol=0, atol=0)
        case.close(got, want, 'default-limit' if use_default else 'columns',
                   rtol=rt, atol=1e-9)
        f = np.isnan(x) & ~np.isnan(got)
        if f.any():
            case.ok(got[f].min() >= np.nanmin(x) - 1e-3 and
                    got[f].max() <= np.nanmax(x) + 1e-3, 'bounded')
        one = case.call(hc.interp_nan, keep.iloc[:, [j]], limit)
        case.close(one.values[:, 0], got, 'columns', rtol=rt)
    case.note(shape=df.shape, limit=limit, pattern=sorted(pattern))
    case.sig('interp', df.shape[1], limit, tuple(sorted(pattern)),
             str(df.values.dtype))
    case.ok(df.equals(keep), 'keeps-input', 'the input was changed')
    if rng.integers(0, 3) == 0:
        big = case.call(hc.interp_nan, df, limit + 3)
        a, b = out.notna().values, big.notna().values
        case.ok(not np.any(a & ~b), 'limit-monotone')
    # the large gaps stay, filling again changes nothing
    case.close(case.call(hc.interp_nan, out, limit).values, out.values,
               'idempotent', rtol=rt)


def trivial(case):
    rng = case.rng
    df = frame(rng)
    case.close(case.call(hc.interp_nan, df).values, df.values, 'no-gap',
               rtol=0, atol=0)
    df.iloc[:, 0] = np.nan
    out = case.call(hc.interp_nan, df)
    case.ok(out.iloc[:, 0].isna().all(), 'all-missing')
    for L, filled in ((5, True), (6, False)):
        d = frame(rng, 30).astype(float)
        s = int(rng.integers(1, 20))
        d.iloc[s:s + L, 0] = np.nan
        o = case.call(hc.interp_nan, d)
        case.ok(bool(o.iloc[s:s + L, 0].notna().all()) == filled and
                bool(o.iloc[s:s + L, 0].isna().any()) != filled,
                'default-limit', f'a gap of {L}')
    case.sig('trivial', df.shape[1])


def flags(case):
    rng = case.rng
    df = frame(rng)
    fl = pd.DataFrame(rng.choice([1, 2, 3, 4], df.shape, p=[.6, .2, .1, .1])
                      .astype(['int8', 'int64', 'float64'][rng.integers(0, 3)]),
                      df.index, df.columns)
    level = int(rng.integers(1, 6))
    keep, fk = df.copy(), fl.copy()
    if rng.integers(0, 2) and len(df.index) == len(set(df.index)):
        # flags belong to stations and times, whatever their order
        fl = fl.iloc[rng.permutation(len(fl)), rng.permutation(fl.shape[1])]
    out = case.call(hc.flag_qc, df, fl, level)
    fl = fl.loc[df.index, df.columns]
    same_labels(case, out, df)
    want = np.where(fl.values >= level, np.nan, df.values)
    case.close(out.values, want, 'flag', rtol=0, atol=0)
    out = case.call(hc.flag_qc, df, fl)
    case.close(out.values, np.where(fl.values >= 2, np.nan, df.values),
               'flag-default', rtol=0, atol=0)
    case.ok(df.equals(keep) and fl.equals(fk), 'keeps-input')
    case.sig('flag', df.shape[1], level)


def nulls(case):
    rng = case.rng
    df = frame(rng)
    a = df.values
    k = rng.uniform(size=a.shape)
    a = np.where(k < 0.1, -999, a)
    a = np.where((k > 0.1) & (k < 0.2), rng.uniform(-99, 0), a)
    a = np.where((k > 0.2) & (k < 0.25), -100.0, a)
    a = np.where((k > 0.25) & (k < 0.3), -9999, a)
    a = np.where((k > 0.3) & (k < 0.35), np.nan, a)
    df = pd.DataFrame(a, df.index, df.columns)
    keep = df.copy()
    out = case.call(hc.null_qc, df)
    same_labels(case, out, df)
    bad = (a == -999) | (a == -9999) | np.isnan(a)
    case.ok(np.isnan(out.values[bad]).all(), 'null', 'a sentinel survived')
    case.close(out.values[~bad], a[~bad], 'null-edge', rtol=0, atol=0)
    case.ok(df.equals(keep), 'keeps-input')
    case.sig('null', df.shape[1], int(bad.sum()) // 10)
    # the order the tool uses: sentinels first, then short gaps
    o = case.call(hc.interp_nan, out)
    w = np.stack([fill_ref(np.where(bad[:, j], np.nan, a[:, j]), 5)[0]
                  for j in range(a.shape[1])], axis=1)
    case.close(o.values, w, 'pipeline', rtol=1e-5, atol=2e-3)


QUICK_X = 3
WORKLOADS = [
    ('interp', interp, 300, 6000),
    ('trivial', trivial, 30, 300),
    ('flags', flags, 120, 2500),
    ('nulls', nulls, 120, 2500),
]
