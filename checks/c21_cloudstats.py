import numpy as np
import pandas as pd

from solarspatialtools.synthirrad import cloudfield as cf
from mon.core import grain

ID = 'C21'
RULE = ('Clear-sky index records (numeric and time indexes, 1 s to 60 s '
        'sampling, lengths 30 to 3000, missing samples for the plain '
        'statistics) whose statistics and octave energies are recomputed; '
        'and points read out of marked fields at many positions and speeds.  '
        'Distinct = (index, sampling, length class, threshold) and '
        '(field shape, speed, duration).')
REQUIRED = ['mean', 'low', 'max', 'clear-fraction', 'default-threshold',
            'vs', 'weights', 'weights-sum', 'scales', 'offset-free',
            'gain-free', 'tone', 'tone-order', 'position', 'duration',
            'downwind-delay', 'crosswind', 'default-duration', 'end-of-field',
            'roundtrip', 'order-free']
ASSUMES = ['Records for octave energies have no missing samples.',
           'Positions are inside of the field.']


def record(rng, n=None):
    n = n or int(rng.choice([30, 61, 300, 900, 3000]))
    kind = rng.integers(0, 3)
    if kind == 0:
        x = rng.uniform(0.1, 1.3, n)
    elif kind == 1:
        x = 0.7 + np.cumsum(rng.normal(size=n)) * 0.02
    else:
        x = np.where(np.cumsum(rng.uniform(size=n) < 0.02) % 2, 1.02, 0.4) \
            + rng.normal(size=n) * 0.03
    return x


def index(rng, n):
    dt = int(rng.choice([1, 1, 1, 2, 10, 60]))
    if rng.integers(0, 3) == 0:
        return pd.RangeIndex(0, n), 1, 'numeric'
    ix = pd.date_range('2022-07-01 10:00', periods=n, freq=f'{dt}s',
                       tz=[None, 'UTC'][rng.integers(0, 2)])
    return grain(ix, rng.integers(0, 4)), dt, 'time'


def energies(x, dt):
    """Mean square of the difference of successive centred averages over
    windows of 2**i samples, with the record mirrored at both ends."""
    n = len(x)
    levels = int(13 - np.ceil(np.log2(dt)))
    p = np.concatenate([x[::-1], x, x[::-1]])
    cs = np.concatenate([[0.0], np.cumsum(p)])
    N = len(p)
    avg = [p]
    for i in range(1, levels):
        w = 2 ** i
        # a centred window of even length w covers [k - w/2, k + w/2 - 1];
        # the transform then moves it by one sample
        k = np.arange(N) + 1
        k = np.minimum(k, N - 1)
        lo = np.clip(k - w // 2, 0, N)
        hi = np.clip(k + w // 2, 0, N)
        avg.append((cs[hi] - cs[lo]) / (hi - lo))
    return np.array([np.mean((avg[i] - avg[i + 1])[n:2 * n] ** 2)
                     for i in range(levels - 1)])


def statistics(case):
    rng = case.rng
    x = record(rng)
    if rng.integers(0, 3) == 0:       # samples right at the threshold
        x = np.round(np.minimum(x, rng.choice([9.0, 0.99])), 2)
    ix, dt, kind = index(rng, len(x))
    th = float(rng.choice([0.95, 0.8, 1.0, rng.uniform(0.3, 1.1),
                           rng.choice(x)]))
    case.note(n=len(x), dt=dt, kind=kind, threshold=th)
    case.sig(kind, dt, len(x), round(th, 1))
    s = pd.Series(x, ix)
    out = case.call(cf.get_timeseries_stats, s, th)
    mean, low, top, frac, vs, w, sc = out
    case.close(mean, x.sum() / len(x), 'mean')
    so = np.sort(x)
    p = 0.01 * (len(x) - 1)
    a = int(p)
    case.close(low, so[a] + (so[a + 1] - so[a]) * (p - a), 'low')
    case.close(top, so[-1], 'max')
    case.close(frac, np.sum(x > th) / len(x), 'clear-fraction')
    if dt == 1:
        r = np.sort(np.abs(np.diff(x)))
        nn = len(r)
        above = nn - np.searchsorted(r, r, 'right')      # ties: either end
        level = nn - np.searchsorted(r, r, 'left')
        best = max(r * above) / nn * 1e4
        hi = max(r * level) / nn * 1e4
        case.ok(best - 1e-6 <= vs <= hi + 1e-6, 'vs',
                f'{vs} not in [{best}, {hi}]')
    e = energies(x, dt)
    case.close(w, e / e.sum(), 'weights', rtol=1e-6, atol=1e-10)
    case.close(np.sum(w), 1, 'weights-sum')
    case.ok(list(sc) == list(range(1, len(w) + 1)), 'scales', str(sc))
    d = case.call(cf.get_timeseries_stats, s)
    case.close(d[3], np.sum(x > 0.95) / len(x), 'default-threshold')
    # level and gain
    off, g = float(rng.uniform(0.1, 2)), float(rng.uniform(0.2, 3))
    o = case.call(cf.get_timeseries_stats, s + off, th + off)
    case.close(o[5], w, 'offset-free', rtol=1e-6, atol=1e-9)
    case.close([o[0], o[1], o[2]], [mean + off, low + off, top + off],
               'offset-free')
    o = case.call(cf.get_timeseries_stats, s * g, th * g)
    case.close(o[5], w, 'gain-free', rtol=1e-6, atol=1e-9)
    case.close([o[0], o[1], o[2]], [mean * g, low * g, top * g], 'gain-free')
    if len(np.unique(np.abs(np.diff(x)).round(9))) == len(x) - 1:
        case.close(o[4], vs * g, 'gain-free')
    # the plain statistics do not depend on the order of samples
    q = pd.Series(rng.permutation(x), ix)
    o = case.call(cf.get_timeseries_stats, q, th)
    case.close([o[0], o[1], o[2], o[3]], [mean, low, top, frac],
               'order-free')


def tones(case):
    rng = case.rng
    n = 2048
    ix = pd.date_range('2022-07-01', periods=n, freq='1s')
    peaks = []
    ks = sorted(rng.choice(np.arange(1, 8), 3, replace=False))
    for k in ks:
        per = 2.0 ** k * 1.5
        x = 0.7 + 0.2 * np.sin(2 * np.pi * np.arange(n) / per
                               + rng.uniform(0, 6))
        w = case.call(cf.get_timeseries_stats, pd.Series(x, ix))[5]
        peaks.append(int(np.argmax(w)))
        case.ok(abs(peaks[-1] - k) <= 1, 'tone',
                f'period {per} s has most energy in octave {peaks[-1] + 1}')
    case.ok(all(b > a for a, b in zip(peaks, peaks[1:])
                ) or len(set(np.diff(ks))) and np.min(np.diff(ks)) < 2,
            'tone-order', f'{ks} {peaks}')
    case.sig('tones', tuple(ks))


def points(case):
    rng = case.rng
    nx, ny = int(rng.integers(40, 900)), int(rng.integers(1, 60))
    f = np.arange(nx)[:, None] * 1000.0 + np.arange(ny)[None, :]
    v = float(rng.choice([1.0, 5.0, 12.5, round(rng.uniform(0.5, 40), 2)]))
    i, j = int(rng.integers(0, nx)), int(rng.integers(0, ny))
    u = rng.uniform(0.05, 0.95, 2)
    pos = ((i + u[0]) * v, (j + u[1]) * v)
    dur = int(rng.integers(1, nx))
    case.note(shape=f.shape, speed=v, pixel=(i, j), duration=dur)
    case.sig('points', nx // 100, ny // 10, v, dur // 100)
    out = case.call(cf.get_positional_ts, pos, f, v, dur)
    n = min(dur + 1, nx - i)
    want = (np.arange(n) + i) * 1000.0 + j
    case.close(out, want, 'position')
    case.ok(len(out) == n, 'duration', f'{len(out)} for {dur}')
    if n < dur + 1:
        case.hit('end-of-field')
    d = case.call(cf.get_positional_ts, pos, f, v)
    case.ok(len(d) == min(3601, nx - i), 'default-duration', f'{len(d)}')
    case.ok(len(case.call(cf.get_positional_ts, pos, f, v, float(dur)))
            == n, 'duration')
    # k pixels further along the motion: the same record k seconds on
    k = int(rng.integers(0, nx - i))
    o2 = case.call(cf.get_positional_ts, (pos[0] + k * v, pos[1]), f, v, dur)
    m = min(len(out) - k, len(o2))
    if m > 0:
        case.close(o2[:m], out[k:k + m], 'downwind-delay')
    # twice the speed at twice the distance is the same pixel
    o3 = case.call(cf.get_positional_ts, (pos[0] * 2, pos[1] * 2), f, v * 2,
                   dur)
    case.close(o3, out, 'position')
    j2 = int(rng.integers(0, ny))
    o4 = case.call(cf.get_positional_ts, (pos[0], (j2 + u[1]) * v), f, v, dur)
    case.close(o4 - out, np.full(n, float(j2 - j)), 'crosswind')


def long(case):
    rng = case.rng
    nx = 3700 + int(rng.integers(0, 600))
    f = np.arange(nx)[:, None] * 10.0 + np.arange(4)[None, :]
    v = float(rng.uniform(3, 30))
    i = int(rng.integers(0, 99))
    o = case.call(cf.get_positional_ts, ((i + .5) * v, 2.5 * v), f, v)
    case.close(o, (np.arange(3601) + i) * 10.0 + 2, 'default-duration')
    case.sig('long', i)


def roundtrip(case):
    """Statistics of a record drive a field; the field has them."""
    rng = case.rng
    x = np.clip(record(rng, 900), 0.1, 1.3)
    s = pd.Series(x, pd.RangeIndex(len(x)))
    mean, low, top, frac, vs, w, sc = case.call(cf.get_timeseries_stats, s)
    if frac > 0.8 or top <= 1.01 or mean < 0.2 or not np.isfinite(w).all():
        frac, top, mean = 0.3, 1.2, 0.7
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    f = case.call(cf.cloudfield_timeseries, w, sc, (300, 40), frac, mean, top,
                  low)
    case.ok(f.shape == (300, 40) and np.isfinite(f).all(), 'roundtrip')
    case.ok(abs(np.sum(f == 1) / f.size - frac) < 0.05, 'roundtrip',
            f'clear {np.mean(f == 1)} for {frac}')
    col = case.call(cf.get_positional_ts, (15.0, 25.0), f, 10.0, 200)
    case.close(col, f[1:202, 2], 'roundtrip')
    case.sig('roundtrip', round(frac, 1), round(mean, 1))


QUICK_X = 2
WORKLOADS = [
    ('statistics', statistics, 120, 2000),
    ('tones', tones, 20, 200),
    ('points', points, 200, 4000),
    ('long', long, 6, 50),
    ('roundtrip', roundtrip, 20, 300),
]
