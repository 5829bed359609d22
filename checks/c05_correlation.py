import numpy as np
import pandas as pd

from solarspatialtools import signalproc
from mon import ref
from mon.core import size
from mon.core import clock

ID = 'C05'
RULE = ('Random, smooth, integer, spiky and offset signals of length 2..400 '
        'as arrays and Series are correlated under every scaling and compared '
        'with a direct sum over every lag; delayed copies of known shift are '
        'recovered.  Distinct = (scaling, container, kind, length class).')
REQUIRED = ['lags', 'none', 'energy', 'coeff', 'unbiased_energy',
            'unbiased_coeff', 'bounded', 'mirror', 'case', 'bad-scaling',
            'delay', 'delay-peak', 'delay-recovered', 'affine']
ASSUMES = ['Unequal lengths are judged only for the scalings whose '
           'documentation defines them there (none, energy).']
SCALES = ['none', 'energy', 'coeff', 'unbiased_energy', 'unbiased_coeff']


def make(rng, n):
    kind = ['normal', 'smooth', 'int', 'spike', 'offset'][rng.integers(0, 5)]
    if kind == 'normal':
        x = rng.normal(size=n)
    elif kind == 'smooth':
        x = np.cumsum(rng.normal(size=n)) / np.sqrt(n)
    elif kind == 'int':
        x = rng.integers(-9, 10, n).astype(float)
    elif kind == 'spike':
        x = rng.normal(size=n) * 1e-3
        x[rng.integers(0, n)] += 50
    else:
        x = rng.uniform(0, 1, n) + 10 ** rng.uniform(0, 2)
    if np.std(x) < 1e-6:
        x[0] += 1
    return kind, x * 10 ** rng.uniform(-1, 2)


def wrap(rng, x, dt=1.0):
    k = rng.integers(0, 3)
    if k == 0:
        return 'array', x
    idx = clock(len(x), dt)
    if k == 1:
        return 'series', pd.Series(x, index=idx)
    return 'rseries', pd.Series(x, index=np.arange(len(x)))


def expected(x, y, scaling):
    xm, ym = x - x.mean(), y - y.mean()
    c, lags = ref.xcorr_full(*((xm, ym) if 'coeff' in scaling else (x, y)))
    if scaling == 'none':
        return c, lags, 1.0
    if 'energy' in scaling:
        s = (x * x).sum()
    else:
        s = np.sqrt((xm * xm).sum()) * np.sqrt((ym * ym).sum())
        if len(x) != len(y):
            s = len(x) * xm.std() * ym.std()
    c = c / s
    if scaling.startswith('unbiased'):
        c = c / ((len(x) - np.abs(lags)) / len(x))
    return c, lags, s


def values(case):
    rng = case.rng
    n = int(rng.choice([2, 3, 5, 8, 31, 64, 100, 257, 400, 1100]))
    if rng.integers(0, 40) == 0:
        n = int(rng.integers(3000, 9500))
    kx, x = make(rng, n)
    ky, y = make(rng, n)
    sc = SCALES[case.index % 5]
    m = n
    if sc in ('none', 'energy') and rng.integers(0, 2):
        m = int(rng.integers(2, 2 * n + 1))
        ky, y = make(rng, m)
    cx, wx = wrap(rng, x)
    cy, wy = wrap(rng, y)
    if 'rseries' in (cx, cy) or cx != cy:
        pass
    case.note(scaling=sc, n=n, m=m, kinds=(kx, ky), containers=(cx, cy))
    got, lags = case.call(signalproc.correlation, wx, wy, sc)
    want, wl, s = expected(x, y, sc)
    case.close(lags, wl, 'lags', rtol=0, atol=0)
    tol = 1e-9 * np.abs(expected(x, y, 'none')[0]).max() / s \
        * (n if sc.startswith('unb') else 1) + 1e-13 \
        + 1e-12 * np.linalg.norm(x) * np.linalg.norm(y) / s
    case.close(got, want, sc, rtol=1e-8, atol=tol)
    if sc == 'coeff':
        case.ok(np.all(np.abs(got) <= 1 + 1e-9), 'bounded')
        d, _ = case.call(signalproc.correlation, wx, wy)
        case.close(d, got, 'case', rtol=1e-12)
    if sc in ('none', 'coeff', 'unbiased_coeff'):
        back, bl = case.call(signalproc.correlation, wy, wx, sc)
        case.close(np.asarray(back)[::-1], got, 'mirror', rtol=1e-7,
                   atol=10 * tol)
        case.close(np.asarray(bl)[::-1], -np.asarray(lags), 'lags', rtol=0)
    if 'coeff' in sc:
        a, b = 10 ** rng.uniform(-1, 1, 2)
        o = rng.normal(size=2)
        g2, _ = case.call(signalproc.correlation, a * wx + o[0],
                          b * wy + o[1], sc)
        case.close(g2, got, 'affine', rtol=1e-6, atol=1e3 * tol)
    up = ''.join(ch.upper() if rng.integers(0, 2) else ch for ch in sc)
    g3, _ = case.call(signalproc.correlation, wx, wy, up)
    case.close(g3, got, 'case', rtol=1e-12)
    case.raises(ValueError, 'bad-scaling', signalproc.correlation, wx, wy,
                rng.choice(['bad', '', 'coef', 'unbiased', 'energy ']))
    case.sig(sc, cx, cy, n, m == n)


def delays(case):
    rng = case.rng
    n = int(rng.choice([20, 33, 64, 150, 300]))
    dt = float(rng.choice([1, 0.5, 0.1, 2, 10, 60, 0.25]))
    sc = SCALES[case.index % 5]
    k1, x = make(rng, n)
    k2, y = make(rng, n)
    idx = clock(n, dt)
    X, Y = pd.Series(x, idx), pd.Series(y, idx)
    d, p = case.call(signalproc.xcorr_delay, X, Y, sc)
    c, lags, _ = expected(x, y, sc)
    case.note(n=n, dt=dt, sc=sc, delay=d)
    k = -d / dt
    case.ok(abs(k - round(k)) < 1e-6 and abs(round(k)) <= n - 1, 'delay',
            f'{d} is no multiple of {dt}')
    tol = 1e-8 * np.abs(c).max()
    case.close(p, c.max(), 'delay-peak', rtol=1e-8, atol=tol)
    case.close(c[int(round(k)) + n - 1], c.max(), 'delay', rtol=0, atol=tol)
    if sc == 'coeff':
        d0, p0 = case.call(signalproc.xcorr_delay, X, Y)
        case.close([d0, p0], [d, p], 'delay', rtol=1e-12)
    # known shift: a signal that is zero outside a window
    h = n // 3
    pulse = rng.normal(size=h)
    s0 = int(rng.integers(0, n - h + 1))
    s1 = int(rng.integers(0, n - h + 1))
    a, b = np.zeros(n), np.zeros(n)
    a[s0:s0 + h] = pulse
    b[s1:s1 + h] = pulse * 3.0
    for q in ['none', 'energy']:
        d, p = case.call(signalproc.xcorr_delay, pd.Series(a, idx),
                         pd.Series(b, idx), q)
        case.close(d, (s1 - s0) * dt, 'delay-recovered', atol=1e-9,
                   msg='positive when the second signal comes later')
    case.sig('delay', sc, dt, n)


def fftcorr(case):
    rng = case.rng
    n = size(rng, 2, 200, 1500)
    m = size(rng, 1, 5, 30)
    if rng.integers(0, 12) == 0:
        n, m = int(rng.integers(3000, 9500)), 2
    sc = ['coeff', 'none'][case.index % 2]
    X = np.array([make(rng, n)[1] for _ in range(m)])
    Y = np.array([make(rng, n)[1] for _ in range(m)])
    got, lags = case.call(signalproc._fftcorrelate, pd.DataFrame(X.T),
                          pd.DataFrame(Y.T), sc)
    for j in range(m):
        want, wl, s = expected(X[j], Y[j], sc)
        case.close(lags, wl, 'lags', rtol=0, atol=0)
        case.close(got[j], want, sc, rtol=1e-7,
                   atol=1e-11 * np.linalg.norm(X[j]) * np.linalg.norm(Y[j])
                   / s + 1e-12)
    case.raises(ValueError, 'bad-scaling', signalproc._fftcorrelate,
                pd.DataFrame(X.T), pd.DataFrame(Y.T), 'bad')
    case.sig('fft', sc, n % 2, m)


QUICK_X = 2
WORKLOADS = [('values', values, 800, 20000), ('delays', delays, 400, 8000),
             ('fftcorr', fftcorr, 150, 3000)]
