import numpy as np
import pandas as pd

from solarspatialtools import signalproc
from mon import ref
from mon.core import size
from mon.core import clock

ID = 'C06'
RULE = ('Frames of 1..8 signal pairs (advected noise with known integer '
        'shifts, unrelated noise, drifting, strongly offset) go through the '
        'loop and the FFT mode and a per-pair direct-sum reference.  Distinct '
        '= (scaling, columns, length, sampling period).')
REQUIRED = ['delay:loop', 'delay:fft', 'peak', 'mean', 'zero', 'modes-agree',
            'recovered', 'dead-column', 'antisymmetric', 'column-independence',
            'uncorrelated-zero', 'bad-mode', 'bad-scaling', 'xcorr-agrees']
ASSUMES = ['Where two lags tie within 1e-9 of the peak either is accepted.']


def frame(a, dt, cols):
    idx = clock(len(a), dt)
    return pd.DataFrame(a, index=idx, columns=cols)


def signals(rng, n, m):
    kind = ['advected', 'noise', 'drift', 'offset'][rng.integers(0, 4)]
    if kind == 'advected':
        w = max(1, n // 8)
        s = np.convolve(rng.normal(size=3 * n), np.ones(5) / 5, 'same')
        sh = rng.integers(-w, w + 1, (2, m))
        A = np.array([s[n - k:2 * n - k] for k in sh[0]]).T
        B = np.array([s[n - k:2 * n - k] for k in sh[1]]).T
        A = A + 0.02 * rng.normal(size=A.shape)
    elif kind == 'noise':
        A, B = rng.normal(size=(2, n, m))
    elif kind == 'drift':
        A, B = np.cumsum(rng.normal(size=(2, n, m)), axis=1)
    else:
        A, B = rng.uniform(0, 1, (2, n, m)) + 20
    lo = [-1, -1, -9][rng.integers(0, 3)]
    return kind, A * 10 ** rng.uniform(lo, 2), B * 10 ** rng.uniform(lo, 2)


def reference(a, b, scaling):
    if scaling == 'coeff':
        a, b = a - a.mean(), b - b.mean()
        s = np.sqrt((a * a).sum() * (b * b).sum())
    else:
        s = 1.0
    c, lags = ref.xcorr_full(a, b)
    return c / s, lags


def live(A, B, j):
    """A sensor that is constant or has gaps has no correlation to judge,
    but must not disturb the other columns."""
    return all(np.isfinite(q[:, j]).all() and np.ptp(q[:, j]) > 0
               for q in (A, B))


def judge(case, A, B, scaling, dt, mode, delay, ex):
    n, m = A.shape
    case.ok(np.shape(delay) == (m,), f'delay:{mode}', f'{np.shape(delay)}')
    for j in range(m):
        if not live(A, B, j):
            case.hit('dead-column')
            continue
        c, lags = reference(A[:, j], B[:, j], scaling)
        tol = 1e-9 * np.abs(c).max()
        top = 1.0
        if scaling == 'none':        # the largest possible correlation
            top = np.sqrt((A[:, j] ** 2).sum() * (B[:, j] ** 2).sum())
        tol += 1e-11 * top
        pk = c.max()
        if pk < -tol:
            case.ok(delay[j] == 0, 'uncorrelated-zero')
        elif pk > 1e-9 * top + tol:
            k = -delay[j] / dt
            case.ok(abs(k - round(k)) < 1e-6 and abs(round(k)) <= n - 1,
                    f'delay:{mode}', f'{delay[j]} is no multiple of {dt}')
            case.close(c[int(round(k)) + n - 1], pk, f'delay:{mode}',
                       rtol=0, atol=tol, msg=f'column {j}: delay {delay[j]} '
                       f'is not the best lag {-lags[c.argmax()] * dt}')
        case.close(np.asarray(ex['peak_corr'])[j], pk, 'peak', rtol=1e-7,
                   atol=tol)
        case.close(np.asarray(ex['mean_corr'])[j], c.mean(), 'mean',
                   rtol=1e-7, atol=tol)
        case.close(np.asarray(ex['zero_corr'])[j], c[n - 1], 'zero',
                   rtol=1e-7, atol=tol)
    for k in ('peak_corr', 'mean_corr', 'zero_corr'):
        case.ok(np.shape(ex[k]) == (m,), k.split('_')[0],
                f'{k} has shape {np.shape(ex[k])}')


def pairs(case):
    rng = case.rng
    n = int(rng.choice([8, 21, 50, 128, 301, 600, 1400]))
    m = size(rng, 1, 6, 30)
    dt = float(rng.choice([1, 0.5, 0.1, 2, 10, 60, 0.0025, 0.0004, 3600]))
    sc = ['coeff', 'none'][case.index % 2]
    if rng.integers(0, 60) == 0:
        n, m = int(rng.integers(3000, 9500)), 2
    kind, A, B = signals(rng, n, m)
    if m > 1 and rng.integers(0, 3) == 0:
        for j in rng.choice(m, int(rng.integers(1, m)), replace=False):
            q = A if rng.integers(0, 2) else B
            if rng.integers(0, 2):
                q[:, j] = rng.choice([0.0, 1.0, 517.25])
            else:
                q[rng.integers(0, n), j] = np.nan
        kind += ' dead'
    fa = frame(A, dt, [f'a{j}' for j in range(m)])
    fb = frame(B, dt, [f'b{j}' for j in range(m)])
    if rng.integers(0, 2):
        fb.columns = fa.columns
    case.note(n=n, m=m, dt=dt, scaling=sc, kind=kind)
    out = {}
    for mode in ('loop', 'fft'):
        d, ex = case.call(signalproc.compute_delays, fa, fb, mode, sc)
        judge(case, A, B, sc, dt, mode, np.asarray(d), ex)
        out[mode] = (np.asarray(d), ex)
        case.note(**{f'delay_{mode}': d})
    good = [j for j in range(m) if live(A, B, j)]
    for j in good:
        c, _ = reference(A[:, j], B[:, j], sc)
        s = np.sort(c)
        if s[-1] - s[-2] > 1e-8 * abs(s[-1]):
            case.close(out['loop'][0][j], out['fft'][0][j], 'modes-agree',
                       atol=1e-9)
    if sc == 'coeff':
        d0, _ = case.call(signalproc.compute_delays, fa, fb)
        case.close(np.asarray(d0)[good], out['loop'][0][good], 'modes-agree',
                   rtol=1e-12)
    # each column alone
    j = int(rng.choice(good))
    for mode in ('loop', 'fft'):
        d, ex = case.call(signalproc.compute_delays, fa.iloc[:, [j]],
                          fb.iloc[:, [j]], mode=mode, scaling=sc)
        judge(case, A[:, [j]], B[:, [j]], sc, dt, mode, np.asarray(d), ex)
        case.hit('column-independence')
    d, p = case.call(signalproc.xcorr_delay, fa.iloc[:, j], fb.iloc[:, j], sc)
    case.close(p, np.asarray(out['loop'][1]['peak_corr'])[j], 'xcorr-agrees',
               rtol=1e-7, atol=1e-9)
    # swapped
    for mode in ('loop', 'fft'):
        d, ex = case.call(signalproc.compute_delays, fb, fa, mode, sc)
        judge(case, B, A, sc, dt, mode, np.asarray(d), ex)
        case.close(np.asarray(ex['peak_corr'])[good],
                   np.asarray(out[mode][1]['peak_corr'])[good],
                   'antisymmetric', rtol=1e-7, atol=1e-7)
    case.sig(kind, sc, m, n, dt)


def recovery(case):
    rng = case.rng
    n = int(rng.choice([60, 150, 400]))
    m = size(rng, 1, 6, 30)
    dt = float(rng.choice([1, 0.5, 2, 10, 0.0125]))
    h = n // 3
    A, B = np.zeros((n, m)), np.zeros((n, m))
    want = []
    for j in range(m):
        p = rng.normal(size=h)
        s0, s1 = rng.integers(0, n - h + 1, 2)
        A[s0:s0 + h, j] = p
        B[s1:s1 + h, j] = p * rng.uniform(0.2, 3)
        want.append((s1 - s0) * dt)
    cols = list(rng.permutation(m))
    fa, fb = frame(A, dt, cols), frame(B, dt, cols)
    case.note(n=n, dt=dt, want=want)
    for mode in ('loop', 'fft'):
        d, ex = case.call(signalproc.compute_delays, fa, fb, mode=mode,
                          scaling='none')
        case.close(d, want, 'recovered', atol=1e-9, msg=mode)
        d2, _ = case.call(signalproc.compute_delays, fb, fa, mode=mode,
                          scaling='none')
        case.close(d2, -np.array(want), 'antisymmetric', atol=1e-9, msg=mode)
        # signals with no positive correlation at any lag
        d3, _ = case.call(signalproc.compute_delays, np.abs(fa) + 0.1,
                          -np.abs(fb) - 0.1, mode=mode, scaling='none')
        case.close(d3, np.zeros(m), 'uncorrelated-zero', atol=0, msg=mode)
    case.raises(ValueError, 'bad-mode', signalproc.compute_delays, fa, fb,
                'bad')
    case.raises(ValueError, 'bad-scaling', signalproc.compute_delays, fa, fb,
                'loop', 'energy')
    case.sig('rec', n, m, dt)


WORKLOADS = [('pairs', pairs, 400, 10000), ('recovery', recovery, 200, 5000)]
