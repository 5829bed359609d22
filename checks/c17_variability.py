import numpy as np
import pandas as pd

from solarspatialtools import stats
from mon import ref
from mon.core import size
from mon.core import grain

ID = 'C17'
RULE = ('Random, smooth, stepped and gappy irradiance series and frames, '
        'sampling periods from 0.1 s to 10 min, increments and averaging '
        'windows, compared with loops written from the definitions.  '
        'Distinct = (metric, kind, increment, averaging, percent, period).')
REQUIRED = ['vs', 'vs-average', 'vs-pct', 'vs-frame', 'darr', 'darr-average',
            'darr-pct', 'darr-frame', 'vi', 'vi-average', 'vi-norm',
            'vi-clear', 'offset-free', 'scales', 'constant', 'type-error',
            'lag', 'time-shift', 'default']
ASSUMES = ['Ramps of equal size are not larger than each other; after '
           'averaging, where rounding decides which ramps are equal, scores '
           'are judged by bounds.',
           'Averaging windows start at multiples of the window counted from '
           'midnight of the first day, as resampling does.']


def series(rng, dt, n=None, drop=False):
    n = n or size(rng, 12, 400, 3000)
    kind = ['noise', 'walk', 'cloudy', 'day'][rng.integers(0, 4)]
    if kind == 'noise':
        x = rng.uniform(0, 1000, n)
    elif kind == 'walk':
        x = 500 + np.cumsum(rng.normal(size=n)) * 10
    elif kind == 'cloudy':
        x = np.where(rng.uniform(size=n) < 0.5, 900, 300) \
            + rng.normal(size=n)
    else:
        x = 1000 * np.sin(np.linspace(0, np.pi, n)) + rng.normal(size=n)
    if rng.integers(0, 4) == 0:        # whole counts: many equal ramps
        kind += '-counts'
        x = np.round(x / (q := float(rng.choice([1, 1, 20])))) * q
        if rng.integers(0, 5) == 0:
            x = np.arange(n) * q
    # windows are anchored at midnight: start on a grid point of any period
    start = pd.Timestamp('2021-03-04') + pd.to_timedelta(
        int(rng.integers(0, 40)) * dt, unit='s')
    idx = start + pd.to_timedelta(
        np.round(np.arange(n) * dt * 1e9).astype('int64'), unit='ns')
    idx = grain(idx, rng.integers(0, 4))
    s = pd.Series(x, idx, name='g')
    if drop and rng.integers(0, 4) == 0:       # samples that never came
        keep = rng.uniform(size=n) > .05
        keep[0] = True
        if rng.integers(0, 2):
            keep[1] = False
        if keep.sum() > 10:
            kind, s = kind + '-holes', s[keep]
    return kind, s


def averaged(s, tau, dt):
    """Mean over windows of tau samples anchored at midnight."""
    day = s.index[0].normalize()
    t = np.round((s.index - day).total_seconds().values / dt).astype(int)
    b = t // int(tau)
    out = {}
    for k, v in zip(b, s.values):
        out.setdefault(k, []).append(v)
    ks = range(min(out), max(out) + 1)
    return np.array([np.nanmean(out[k]) if k in out
                     and not np.all(np.isnan(out[k])) else np.nan
                     for k in ks])


def vs_ref(x, lag):
    r = np.abs(x[lag:] - x[:-lag])
    r = r[~np.isnan(r)]
    if len(r) == 0:
        return np.nan, np.nan, np.nan
    N = len(r)
    def score(r0, strict):
        return r0 * (1 - np.sum(r <= r0 if strict else r < r0) / N)
    best = max(q * np.sum(r > q) / N for q in r)
    hi = max(q * np.sum(r >= q) / N for q in r)
    tied = len(np.unique(np.round(r, 9))) < N
    return best, hi, tied


def darr_ref(x, lag):
    return np.nansum(np.abs(x[lag:] - x[:-lag]))


def pick(rng):
    dt = float(rng.choice([1, 1, 60, 10, 0.5, 0.1, 30, 300, 0.25, 1.5,
                           0.0025, 86400]))
    return dt


def vs_darr(case):
    rng = case.rng
    dt = pick(rng)
    kind, s = series(rng, dt, drop=True)
    tau = int(rng.choice([1, 1, 2, 3, 5, 10]))
    ma = bool(rng.integers(0, 2))
    pct = bool(rng.integers(0, 2))
    if rng.integers(0, 3) == 0:
        h = rng.choice(len(s), max(1, len(s) // 15), replace=False)
        s.iloc[h] = np.nan
        kind += '-gaps'
    case.note(kind=kind, n=len(s), dt=dt, tau=tau, average=ma, pct=pct)
    if ma and tau > 1:
        x, lag = averaged(s, tau, dt), 1
    else:
        x, lag = s.values, tau
        if tau > 1:
            case.hit('lag')
    if len(x) <= lag + 2:
        x = None
    sc = 0.1 if pct else 1.0
    v = case.call(stats.variability_score, s, tau, ma, pct)
    d = case.call(stats.darr, s, tau, ma, pct)
    suffix = '-average' if ma and tau > 1 else ''
    if x is not None:
        lo, hi, tied = vs_ref(x, lag)
        if not np.isnan(lo):
            c = 'vs' + suffix
            if tied and suffix:
                case.ok(lo * sc - 1e-6 <= v <= hi * sc + 1e-6, c,
                        f'{v} outside {lo * sc} .. {hi * sc}')
            else:
                case.close(v, lo * sc, c, rtol=1e-7, atol=1e-7)
            case.close(d, darr_ref(x, lag) * sc, 'darr' + suffix, rtol=1e-8,
                       atol=1e-7)
    v1 = case.call(stats.variability_score, s, tau=tau, moving_avg=ma,
                   pct=not pct)
    case.close(v1, v * (0.1 if not pct else 10), 'vs-pct', rtol=1e-9)
    d1 = case.call(stats.darr, s, tau=tau, moving_avg=ma, pct=not pct)
    case.close(d1, d * (0.1 if not pct else 10), 'darr-pct', rtol=1e-9)
    if ma and not pct:           # the documented defaults
        case.close(case.call(stats.variability_score, s, tau), v, 'defaults',
                   rtol=1e-12)
        case.close(case.call(stats.darr, s, tau), d, 'defaults', rtol=1e-12)
        if tau == 1:
            case.close(case.call(stats.darr, s), d, 'defaults', rtol=1e-12)
            case.close(case.call(stats.variability_score, s), v, 'defaults',
                       rtol=1e-12)
    # a constant offset is no variability, a gain is proportional
    o, k = rng.normal() * 300, float(rng.choice([0.5, 2, 4]))
    for f, name in ((stats.variability_score, 'vs'), (stats.darr, 'darr')):
        b = v if name == 'vs' else d
        case.close(case.call(f, s * k, tau, ma, pct), b * k, 'scales',
                   rtol=1e-7, atol=1e-7)
        if 'cloudy' not in kind and 'counts' not in kind:
            case.close(case.call(f, s + o, tau, ma, pct), b, 'offset-free',
                       rtol=1e-6, atol=1e-6)
        q = case.call(f, s * 0 + 7.0, tau, ma, pct)
        case.ok(np.isnan(q) or abs(q) < 1e-9, 'constant', f'{q}')
        m = s.copy()
        m.index = m.index + pd.Timedelta(days=3)
        case.close(case.call(f, m, tau, ma, pct), b, 'time-shift', rtol=1e-9,
                   atol=1e-9)
        d0 = case.call(f, s)
        case.close(d0, case.call(f, s, 1, True, False), 'default', rtol=1e-12)
    # frames column by column
    kind2, s2 = series(rng, dt, len(s))
    s2.index = s.index
    fr = pd.DataFrame({'b': s2, 'a': s})
    fv = case.call(stats.variability_score, fr, tau, ma, pct)
    fd = case.call(stats.darr, fr, tau, ma, pct)
    for c, q in (('a', s), ('b', s2)):
        case.close(fv[c], case.call(stats.variability_score, q, tau, ma, pct),
                   'vs-frame', rtol=1e-9)
        case.close(fd[c], case.call(stats.darr, q, tau, ma, pct),
                   'darr-frame', rtol=1e-9)
    case.raises(TypeError, 'type-error', stats.darr, s.values, tau)
    case.sig('vd', kind, tau, ma, pct, dt)


def vi(case):
    rng = case.rng
    dt = pick(rng)
    kind, g = series(rng, dt, drop=True)
    n = len(g)
    c = pd.Series(1000 * np.sin(np.linspace(0.1, 3, n)), g.index, name='c')
    tau = int(rng.choice([1, 1, 2, 5]))
    norm = bool(rng.integers(0, 2))
    case.note(kind=kind, n=n, dt=dt, tau=tau, norm=norm)
    if tau > 1:
        x, y, step = averaged(g, tau, dt), averaged(c, tau, dt), dt * tau / 60
    else:
        x, y, step = g.values, c.values, dt / 60
    out = case.call(stats.variability_index, g, c, tau, norm)
    if len(x) > 2:
        num = np.nansum([np.hypot(b - a, step)
                         for a, b in zip(x[:-1], x[1:])])
        den = np.nansum([np.hypot(b - a, step)
                         for a, b in zip(y[:-1], y[1:])])
        w = num / den * (np.sqrt(step) if norm else 1)
        case.close(out, w, 'vi-average' if tau > 1 else 'vi', rtol=1e-8)
        other = case.call(stats.variability_index, g, c, tau, not norm)
        a, b = (out, other) if norm else (other, out)
        case.close(a, b * np.sqrt(step), 'vi-norm', rtol=1e-9)
        case.close(case.call(stats.variability_index, c, c, tau), 1.0,
                   'vi-clear', rtol=1e-9)
        case.close(case.call(stats.variability_index, g, c),
                   case.call(stats.variability_index, g, c, 1, False),
                   'default', rtol=1e-12)
        f = case.call(stats.variability_index, pd.DataFrame({'k': g}),
                      pd.DataFrame({'k': c}), tau, norm)
        case.close(np.ravel(f), [out], 'vi', rtol=1e-9)
    case.raises(TypeError, 'type-error', stats.variability_index, g.values,
                c.values)
    case.sig('vi', kind, tau, norm, dt)


QUICK_X = 5
WORKLOADS = [('vs_darr', vs_darr, 200, 5000), ('vi', vi, 120, 3000)]
