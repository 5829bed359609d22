import datetime

import numpy as np
import pandas as pd

from solarspatialtools import stats
from mon.core import grain

ID = 'C18'
RULE = ('Multi-day series and frames at periods from 0.5 s (in short daily '
        'sessions) to 6 h, with missing samples, missing values, missing days '
        'and time zones; every output sample is recomputed by collecting the '
        'values of the same time of day over the window.  Distinct = '
        '(container, time zone, period, days, window, level, holes).')
REQUIRED = ['value', 'warm-up', 'index', 'column', 'container', 'scale',
            'one-value', 'monotone-level', 'min-max', 'past-only',
            'too-short', 'clock-change', 'lost-day', 'default-window',
            'default-level', 'two-columns']
ASSUMES = ['For midnight samples the window may or may not include the '
           'midnight that ends it (both are accepted).',
           'Days whose window starts on a day without data may be left empty.',
           'At a clock change a day has the local times its clock shows; a '
           'time shown twice has two samples in the window.']


# days on which the clocks of a zone change
CHANGES = [('America/New_York', '2021-03-14'),
           ('America/New_York', '2021-11-07'),
           ('Europe/Berlin', '2020-10-25'), ('Europe/Berlin', '2020-03-29'),
           ('Asia/Beirut', '2021-03-28'), ('America/Havana', '2021-11-07'),
           ('Australia/Lord_Howe', '2021-04-04'),
           ('Australia/Lord_Howe', '2021-10-03'),
           ('America/Sao_Paulo', '2018-11-04')]


def build(rng, days=None, steps=None):
    days = days or int(rng.integers(2, 14))
    dt = steps or float(rng.choice([3600, 1800, 900, 7200, 21600, 5000, 600,
                                    0.5]))
    change = rng.integers(0, 3) == 0
    tz = [None, None, 'UTC', 'Etc/GMT+7', 'Asia/Kolkata',
          'America/New_York'][rng.integers(0, 6)]
    # any part of the calendar: ends of years, leap days, before 1970
    start = pd.Timestamp(str(rng.choice(
        ['2021-05-03', '2023-12-27', '2024-12-24', '2020-12-30',
         '2024-02-26', '2020-02-24', '1999-12-25', '1969-12-26',
         '1964-02-27', '2000-02-25', '2100-02-26'])))
    if dt < 1:
        t = []
        for d in range(days):
            t.append(start + pd.Timedelta(days=d, hours=11)
                     + pd.to_timedelta(np.arange(30) * dt, unit='s'))
        ix = t[0]
        for u in t[1:]:
            ix = ix.append(u)
    else:
        first = rng.choice([0.0, 0.0, 4 * 3600.0])
        per = int((86400 - first) // dt)
        off = np.concatenate([d * 86400 + first + np.arange(per) * dt
                              for d in range(days)])
        ix = start + pd.to_timedelta(np.round(off * 1e3), unit='ms')
    keep = np.ones(len(ix), bool)
    holes = rng.integers(0, 4)
    if holes == 1:
        keep &= rng.uniform(size=len(ix)) > 0.1
    if holes == 2 and days > 4:
        gone = rng.integers(1, days - 1)
        dd = (ix.normalize() - start).days.values
        keep &= dd != gone
    ix = ix[keep]
    if len(ix) < 3:
        ix = start + pd.to_timedelta(np.arange(3), unit='h')
    ix = grain(ix, rng.integers(0, 4))
    if tz:
        ix = ix.tz_localize(tz)
    elif change:
        zone, day = CHANGES[rng.integers(0, len(CHANGES))]
        t0 = pd.Timestamp(day) - pd.Timedelta(days=int(rng.integers(0, days)))
        ix = (ix + (t0 - start)).tz_localize('UTC').tz_convert(zone)
        ix = ix - (ix[0].tz_localize(None) - t0).floor('h')
        tz = zone
        days = (ix[-1].date() - ix[0].date()).days + 1
    v = rng.uniform(0, 1000, len(ix))
    if holes == 3:
        v[rng.uniform(size=len(v)) < 0.15] = np.nan
    return ix, v, (days, dt, tz, int(holes))


def quantile(v, q):
    v = np.sort(v[~np.isnan(v)])
    if len(v) == 0:
        return np.nan
    p = q * (len(v) - 1)
    a = int(np.floor(p))
    b = min(a + 1, len(v) - 1)
    return v[a] + (v[b] - v[a]) * (p - a)


def judge(case, out, ix, v, n, q):
    got = out.values[:, 0].astype(float)
    by = {}
    for k, t in enumerate(ix):
        by.setdefault(t.time(), {}).setdefault(t.date(), []).append(v[k])
    offsets = {t.utcoffset() for t in ix}
    if len(offsets) > 1:
        case.hit('clock-change')
    dates = {t.date() for t in ix}
    first = ix[0].date()
    bad = None
    for k, t in enumerate(ix):
        D = t.date()
        s = D - datetime.timedelta(days=n)
        if s < first:
            case.ok(np.isnan(got[k]), 'warm-up',
                    f'a value {got[k]} at {t}, {n} days not available')
            continue
        same = by[t.time()]
        win = [w for j in range(n)
               for w in same.get(s + datetime.timedelta(days=j), [])]
        wants = [quantile(np.array(win, float), q)]
        if t.time() == datetime.time(0):
            wants.append(quantile(np.array(win + same[D], float), q))
        if s not in dates:
            case.hit('lost-day')
        case.hit('value')
        if not any((np.isnan(w) and np.isnan(got[k]))
                   or abs(got[k] - w) <= 1e-9 * (1 + abs(w)) for w in wants):
            case.ok(False, 'value', f'{got[k]} at {t}, expected {wants}')


def values(case):
    rng = case.rng
    ix, v, what = build(rng)
    n = int(rng.integers(1, max(2, what[0])))
    q = float(rng.choice([0.9, 0.5, 0.0, 1.0, round(rng.uniform(), 2)]))
    frame = bool(rng.integers(0, 2))
    name = ['ghi', 'a b', 'X'][rng.integers(0, 3)]
    ts = pd.Series(v, ix, name=name)
    if frame:
        ts = ts.to_frame()
    case.note(what=what, n=n, q=q, frame=frame)
    case.sig(what, n, q, frame)
    out = case.call(stats.calc_quantile, ts, f'{n}d', q)
    case.ok(isinstance(out, pd.DataFrame), 'container', str(type(out)))
    case.ok(out.index.equals(ix), 'index', 'a different index')
    case.ok(list(out.columns) == [name + '_quant'], 'column',
            str(list(out.columns)))
    judge(case, out, ix, v, n, q)
    # metamorphic: scaling
    o2 = case.call(stats.calc_quantile, ts * 3.0, f'{n}d', q)
    case.close(o2.values, out.values * 3.0, 'scale', rtol=1e-9)
    # other spellings of the same window
    o3 = case.call(stats.calc_quantile, ts, n_days=f'{n} days', quantile=q)
    case.close(o3.values, out.values, 'value', rtol=1e-12)


def levels(case):
    rng = case.rng
    ix, v, what = build(rng)
    n = int(rng.integers(1, max(2, what[0])))
    ts = pd.Series(v, ix, name='g')
    case.note(what=what, n=n)
    case.sig(what, n)
    qs = [0.0, 0.3, 0.6, 0.9, 1.0]
    outs = [case.call(stats.calc_quantile, ts, f'{n}d', q).values[:, 0]
            for q in qs]
    with np.errstate(all='ignore'):
        for a, b in zip(outs, outs[1:]):
            case.ok(not np.any(b < a - 1e-9), 'monotone-level',
                    'a higher level gives a lower value')
    mn, mx = np.nanmin(v), np.nanmax(v)
    fin = np.concatenate([o[~np.isnan(o)] for o in outs])
    case.ok(np.all((fin >= mn - 1e-9) & (fin <= mx + 1e-9)), 'min-max')
    for a, b in zip(outs, outs[1:]):
        case.ok(np.array_equal(np.isnan(a), np.isnan(b)), 'warm-up',
                'availability depends on the level')
    # a constant time-of-day profile is its own quantile
    wall = ix.tz_localize(None)
    tod = (wall - wall.normalize()).total_seconds().values
    prof = pd.Series(np.sin(tod / 86400 * np.pi) * 1000, ix, name='g')
    o = case.call(stats.calc_quantile, prof, f'{n}d', 0.9).values[:, 0]
    m = ~np.isnan(o)
    case.close(o[m], prof.values[m], 'one-value', rtol=1e-9, atol=1e-9)
    # only the past counts: changing a day changes no earlier day
    days = np.array(sorted({t.date() for t in ix}))
    d = days[rng.integers(0, len(days))]
    mask = np.array([t.date() >= d for t in ix])
    v2 = v.copy()
    v2[mask] = rng.uniform(0, 1000, mask.sum())
    a = case.call(stats.calc_quantile, ts, f'{n}d', 0.5).values[:, 0]
    b = case.call(stats.calc_quantile, pd.Series(v2, ix, name='g'), f'{n}d',
                  0.5).values[:, 0]
    case.close(a[~mask], b[~mask], 'past-only')


def short(case):
    rng = case.rng
    ix, v, what = build(rng)
    n = what[0] + int(rng.integers(0, 5))
    case.sig(what, n)
    out = case.call(stats.calc_quantile, pd.Series(v, ix, name='g'), f'{n}d',
                    0.9)
    case.ok(out.shape == (len(ix), 1) and out.isna().values.all(),
            'too-short', 'a value without enough days')
    # no name
    n = max(1, what[0] - 1)
    out = case.call(stats.calc_quantile, pd.Series(v, ix), f'{n}d', 0.9)
    case.ok(out.shape == (len(ix), 1) and list(out.columns) == ['quantile'],
            'container', str(list(out.columns)))
    judge(case, out, ix, v, n, 0.9)
    # more than one column is refused
    case.raises(Exception, 'two-columns', stats.calc_quantile,
                pd.DataFrame({'a': v, 'b': v}, ix), '1d', 0.9)


def defaults(case):
    rng = case.rng
    days = int(rng.integers(31, 38))
    ix = pd.date_range('2020-02-10', periods=days * 8, freq='3h',
                       tz=[None, 'UTC'][rng.integers(0, 2)])
    v = rng.uniform(0, 1000, len(ix))
    ts = pd.DataFrame({'p': v}, ix)
    case.note(days=days)
    case.sig(days, str(ix.tz))
    out = case.call(stats.calc_quantile, ts)
    judge(case, out, ix, v, 30, 0.9)
    case.ok(out.notna().values.sum() == (days - 30) * 8, 'default-window',
            f'{out.notna().values.sum()} values')
    o2 = case.call(stats.calc_quantile, ts, '30d', 0.9)
    case.close(out.values, o2.values, 'default-level')


WORKLOADS = [
    ('values', values, 300, 2500),
    ('levels', levels, 40, 500),
    ('short', short, 30, 200),
    ('defaults', defaults, 8, 60),
]
