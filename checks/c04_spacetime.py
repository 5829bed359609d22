import math

import numpy as np
import pandas as pd

from solarspatialtools import spatial
from mon.core import grain

ID = 'C04'
RULE = ('Random site sets, regular and irregular time stamps (zones, units, '
        'sub-second), cloud speeds and directions; every entry of the matrix '
        'is recomputed with plain arithmetic.  Distinct = (number of sites, '
        'number of times, index kind, container).')
REQUIRED = ['shape', 'entry', 'symmetric', 'zero-diagonal', 'advected',
            'frozen', 'triangle', 'origin-free']


def times(rng, n):
    k = rng.integers(0, 8)
    if k == 0:
        t = pd.date_range('2024-01-01', periods=n, freq=f'{rng.integers(1,90)}s')
    elif k == 1:
        t = pd.date_range('2023-06-30 23:59:30', periods=n, freq='10s',
                          tz='America/Denver')
    elif k == 2:
        t = pd.to_datetime('2020-02-29') + pd.to_timedelta(
            np.sort(rng.uniform(0, 5000, n)), unit='s')
    elif k == 5:              # across a change of the machine's clock
        t = pd.date_range(['2024-03-10 01:58', '2024-11-03 00:59:30'][
            rng.integers(0, 2)], periods=n, freq=f'{rng.integers(5, 900)}s')
    elif k == 3:
        t = pd.date_range('2024-01-01', periods=n, freq='250ms')
    elif k == 6:              # an early record, at odd fractions of seconds
        t = pd.date_range(['1969-12-31 23:59:58', '1952-02-29'][
            rng.integers(0, 2)], periods=n,
            freq=f'{rng.integers(1, 3000000)}us')
    elif k == 7:              # microseconds, nanoseconds
        t = pd.Timestamp('2021-12-31 23:59:59.999999') + pd.to_timedelta(
            np.cumsum(rng.integers(1, 10 ** rng.integers(1, 10), n)),
            unit='ns')
    else:
        t = pd.date_range('2024-01-01 06:00', periods=n, freq='30min')
    if n > 1 and rng.integers(0, 3) == 0:      # in no particular order
        t = pd.DatetimeIndex(t)[rng.permutation(n)]
        k += 100
        if rng.integers(0, 4) == 0:
            t = t[rng.integers(0, n, n)]
    return int(k), grain(pd.DatetimeIndex(t), rng.integers(0, 4))


def case_(case):
    rng = case.rng
    ns, nt = int(rng.integers(1, 6)), int(rng.integers(1, 8))
    big = rng.integers(0, 12)
    if big == 0:
        ns, nt = int(rng.integers(1, 4)), int(rng.integers(8, 160))
    elif big == 1:
        ns, nt = int(rng.integers(6, 80)), int(rng.integers(1, 5))
    x = rng.normal(size=ns) * 10 ** rng.uniform(0, 4)
    y = rng.normal(size=ns) * 10 ** rng.uniform(0, 4)
    cs = float(rng.choice([0, rng.uniform(0, 40), -rng.uniform(0, 40)],
                          p=[.15, .7, .15]))
    cd = float(rng.uniform(-7, 7))
    if rng.integers(0, 6) == 0:
        cd = float(rng.integers(-4, 5)) * math.pi / 2
    k, t = times(rng, nt)
    kind = ['array', 'list', 'series'][case.index % 3]
    mk = {'array': np.array, 'list': list,
          'series': lambda q: pd.Series(q, index=[f's{j}' for j in
                                             range(len(q))])
          }[kind]
    case.note(x=x, y=y, cs=cs, cd=cd, t=t, kind=kind)
    D = np.asarray(case.call(spatial.spacetime_distances, mk(x), mk(y), t,
                             cs, cd))
    N = ns * nt
    case.ok(D.shape == (N, N), 'shape', f'{D.shape}')
    sec = np.array([(q - t[0]).as_unit('ns').value / 1e9 for q in t])
    scale = 1 + np.abs(x).max() + np.abs(y).max() \
        + abs(cs) * np.abs(sec).max()
    want = np.empty((N, N))
    for i in range(N):
        si, ti = divmod(i, nt)            # all the times of a site together
        for sj in range(ns):
            dt = sec[ti] - sec
            want[i, sj * nt:(sj + 1) * nt] = np.hypot(
                x[si] - x[sj] - cs * dt * math.cos(cd),
                y[si] - y[sj] - cs * dt * math.sin(cd))
    case.close(D, want, 'entry', rtol=1e-9, atol=1e-9 * scale)
    case.close(D, D.T, 'symmetric', rtol=1e-9, atol=1e-9 * scale)
    case.ok(np.all(np.abs(np.diag(D)) <= 1e-9 * scale), 'zero-diagonal')
    for _ in range(20):
        i, j, m = rng.integers(0, N, 3)
        case.ok(D[i, j] <= D[i, m] + D[m, j] + 1e-8 * scale, 'triangle')
    # a site carried along with the cloud sees the same air later
    if nt > 1:
        lag = sec[-1] - sec[0]
        x2 = np.array([x[0], x[0] + cs * lag * math.cos(cd)])
        y2 = np.array([y[0], y[0] + cs * lag * math.sin(cd)])
        D2 = np.asarray(case.call(spatial.spacetime_distances, x2, y2, t, cs,
                                  cd))
        case.close(D2[0, 2 * nt - 1], 0, 'advected', atol=1e-8 * scale)
        # site 0 against itself: pure drift
        case.close(D2[0, nt - 1], abs(cs * lag), 'advected', rtol=1e-8,
                   atol=1e-8 * scale)
    else:
        case.hit('advected', 0)
    D0 = np.asarray(case.call(spatial.spacetime_distances, x, y, t, 0.0, cd))
    case.close(D0[::nt, ::nt], np.hypot(x[:, None] - x, y[:, None] - y),
               'frozen', rtol=1e-9, atol=1e-9 * scale)
    D3 = np.asarray(case.call(spatial.spacetime_distances, x + 1234.5,
                              y - 77.25, t + pd.Timedelta('3h'), cs, cd))
    case.close(D3, D, 'origin-free', rtol=1e-6, atol=1e-7 * scale)
    case.sig(min(ns, 9), min(nt, 9), k, kind)


WORKLOADS = [('entries', case_, 1200, 12000)]
