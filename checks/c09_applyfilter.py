import numpy as np
import pandas as pd

from solarspatialtools import signalproc
from mon import ref
from mon.core import Skip
from mon.core import labels
from mon.core import size
from mon.core import clock

ID = 'C09'
RULE = ('Random complex responses (sorted, FFT-ordered, shuffled frequency '
        'axes) are interpolated, delayed and applied to random signals and '
        'compared with a matrix DFT; identity, pure-delay, cascade and linear '
        'combinations give exact expectations.  Distinct = (function, '
        'container, axis order, parity, period).')
REQUIRED = ['delay', 'delay-recovered', 'interp', 'interp-nodes',
            'interp-type', 'interp-order', 'interp-range', 'filter',
            'filter-identity', 'filter-shift', 'filter-linear',
            'filter-frame', 'filter-uncovered', 'filter-index', 'cleanfreq']
ASSUMES = ['Responses whose phase steps lie within 1e-6 of pi are not '
           'generated (unwrapping is ambiguous there).']


def times(n, dt):
    return clock(n, dt)


def response(rng, f, dmax):
    """A complex response on ascending f with bounded phase steps."""
    n = len(f)
    mag = 10 ** rng.uniform(-1, 1, n)
    kind = rng.integers(0, 2)
    if kind:
        ph = -2 * np.pi * f * rng.uniform(-dmax, dmax)
    else:
        ph = np.cumsum(rng.uniform(-3.1, 3.1, n))
    return mag, ph


def delay(case):
    rng = case.rng
    nf = size(rng, 8, 80, 2000)
    df = 10 ** rng.uniform(-4, -1)
    f = np.arange(nf) * df
    if rng.integers(0, 2):
        f = np.fft.fftshift(f - f[nf // 2])
    mag, ph = response(rng, f, 0.4 / df)
    k = rng.integers(0, 4)
    if k == 0:                 # part of an axis, or an irregular one
        keep = np.sort(rng.choice(nf, int(rng.integers(1, nf + 1)), False))
        f, mag, ph = f[keep], mag[keep], ph[keep]
    elif k == 1:
        f = f * rng.uniform(0.5, 1.5, nf)
    tf = pd.DataFrame({'x': mag * np.exp(1j * ph)}, index=f)
    d = float(rng.uniform(-2, 2) / df)
    case.note(nf=nf, df=df, d=d)
    out = np.asarray(case.call(signalproc.apply_delay, tf, d)).ravel()
    case.close(out, mag * np.exp(1j * (ph - 2 * np.pi * f * d)), 'delay',
               rtol=1e-9, atol=1e-10)
    case.close(np.abs(out), mag, 'delay', rtol=1e-9)
    g = np.arange(nf) * df
    one = pd.DataFrame({'x': np.ones(nf)}, index=g)
    d = float(rng.uniform(-0.45, 0.45) / df)
    out = np.asarray(case.call(signalproc.apply_delay, one, d)).ravel()
    coh = pd.Series(np.ones(nf), index=g)
    got, _ = case.call(signalproc.tf_delay, pd.Series(out, index=g), coh,
                       None, None, 'fit')
    case.close(np.ravel(got)[0], d, 'delay-recovered', rtol=1e-6,
               atol=1e-7 / df)
    case.sig('delay', nf % 2)


def interp(case):
    rng = case.rng
    n = size(rng, 3, 60, 600)
    f = np.sort(rng.uniform(-1, 1, n)) * 10 ** rng.uniform(-2, 1)
    f = np.unique(f)
    n = len(f)
    if np.min(np.diff(f)) < 1e-9:
        raise Skip
    m = size(rng, 1, 3, 12)
    cols = labels(rng, m)
    M, P = [], []
    for _ in range(m):
        a, b = response(rng, f, 0.4 / np.max(np.diff(f)))
        M.append(a)
        P.append(b)
    M, P = np.array(M).T, np.array(P).T
    H = M * np.exp(1j * P)
    order = ['sorted', 'shuffled', 'fft'][case.index % 3]
    o = {'sorted': np.arange(n), 'shuffled': rng.permutation(n),
         'fft': np.r_[np.arange(n // 2, n), np.arange(n // 2)]}[order]
    new = rng.uniform(f[0], f[-1], int(rng.integers(1, 50)))
    if rng.integers(0, 2):
        new = np.sort(new)
    as_series = bool(rng.integers(0, 2))
    nf = pd.Index(new) if rng.integers(0, 2) else new
    if as_series:
        tf = pd.Series(H[o, 0], index=f[o])
    else:
        tf = pd.DataFrame(H[o], index=f[o], columns=cols)
    case.note(order=order, n=n, m=m, series=as_series)
    out = case.call(signalproc.interp_tf, nf, tf)
    case.ok(type(out) is type(tf) and (as_series
                                       or list(out.columns) == cols),
            'interp-type', f'{type(out)}')
    case.close(np.asarray(out.index, float), new, 'interp-type', rtol=0)
    got = np.asarray(out).reshape(len(new), -1)
    for j in range(got.shape[1]):
        want = ref.interp1(new, f, M[:, j]) * np.exp(
            1j * ref.interp1(new, f, P[:, j]))
        case.close(got[:, j], want, 'interp', rtol=1e-7,
                   atol=1e-8 * np.abs(want).max())
    if order != 'sorted':
        case.hit('interp-order')
    at = case.call(signalproc.interp_tf, f, tf)
    case.close(np.asarray(at).reshape(n, -1),
               H[:, :got.shape[1]], 'interp-nodes', rtol=1e-8, atol=1e-10)
    case.raises(ValueError, 'interp-range', signalproc.interp_tf,
                np.array([f[0], f[-1] + (f[-1] - f[0]) * 0.01]), tf)
    case.sig('interp', order, as_series, m, n % 2)


def dft(x):
    n = len(x)
    k = np.arange(n)
    E = np.exp(-2j * np.pi * (np.outer(k, k) % n) / n)
    return E @ x, E


def freqs(n, dt):
    k = np.arange(n)
    k = np.where(k < (n + 1) // 2, k, k - n)
    return k / (n * dt)


def apply(case):
    rng = case.rng
    n = size(rng, 8, 160, 500)
    if case.index % 20 == 7:
        n = int(rng.integers(1001, 5000))
        case.hit('long')
    dt = float(rng.choice([1, 0.5, 0.1, 2, 10, 60, 0.0025, 0.0004, 3600]))
    t = times(n, dt)
    x = rng.normal(size=n) * 10 ** rng.uniform(-1, 3) \
        + rng.choice([0, 100.0])
    X = pd.Series(x, index=t, name='x')
    fx = freqs(n, dt)
    F = 0.5 / dt * rng.uniform(1.0 + 1e-9, 2.0)
    nf = int(rng.integers(4, 60))
    f = np.linspace(0, F, nf)
    f = np.r_[-f[:0:-1], f]
    order = ['sorted', 'fft', 'shuffled'][case.index % 3]
    o = {'sorted': np.arange(len(f)),
         'fft': np.r_[np.arange(nf - 1, len(f)), np.arange(nf - 1)],
         'shuffled': rng.permutation(len(f))}[order]
    # a physical (conjugate-symmetric) response
    mag, ph = response(rng, f[nf - 1:], 0.4 / (f[1] - f[0]))
    ph = ph - ph[0]
    mag, ph = np.r_[mag[:0:-1], mag], np.r_[-ph[:0:-1], ph]
    H = pd.Series((mag * np.exp(1j * ph))[o], index=f[o])
    case.note(n=n, dt=dt, order=order, nf=nf)
    G = ref.interp1(fx, f, mag) * np.exp(1j * ref.interp1(fx, f, ph))
    if n <= 600:
        S, E = dft(x)
        want = ((np.conj(E) @ (S * G)) / n).real
    else:
        want = np.fft.ifft(np.fft.fft(x) * G).real
    out = case.call(signalproc.apply_filter, X, H)
    sc = np.abs(x).max() * mag.max()
    case.close(np.asarray(out), want, 'filter', rtol=1e-6, atol=1e-8 * sc)
    case.ok(isinstance(out, pd.Series) and out.index.equals(t),
            'filter-index', 'the time axis of the input is kept')
    one = pd.Series(np.ones(len(f), complex)[o], index=f[o])
    case.close(np.asarray(case.call(signalproc.apply_filter, X, one)), x,
               'filter-identity', rtol=1e-9, atol=1e-9 * np.abs(x).max())
    # a pure delay is a circular shift
    kmax = int(0.45 / (f[1] - f[0]) / dt)
    k = int(rng.integers(-kmax, kmax + 1)) if kmax else 0
    D = pd.Series(np.exp(-2j * np.pi * f * k * dt)[o], index=f[o])
    case.close(np.asarray(case.call(signalproc.apply_filter, X, D)),
               np.roll(x, k), 'filter-shift', rtol=1e-7,
               atol=1e-7 * np.abs(x).max(), msg=f'delay of {k} samples')
    # linear in the signal
    y = rng.normal(size=n)
    a, b = rng.normal(size=2)
    oy = np.asarray(case.call(signalproc.apply_filter,
                              pd.Series(y, index=t), H))
    oz = np.asarray(case.call(signalproc.apply_filter,
                              pd.Series(a * x + b * y, index=t), H))
    case.close(oz, a * np.asarray(out) + b * oy, 'filter-linear', rtol=1e-7,
               atol=1e-8 * sc * (abs(a) + abs(b) + 1))
    # every column of a frame along its own time axis
    fr = pd.DataFrame({'b': y, 'a': x, 'c': y * 0 + 1}, index=t)
    of = case.call(signalproc.apply_filter, fr, H)
    case.ok(isinstance(of, pd.DataFrame) and list(of.columns)
            == ['b', 'a', 'c'] and of.index.equals(t), 'filter-frame',
            'same columns and time axis')
    case.close(of['a'].values, want, 'filter-frame', rtol=1e-6,
               atol=1e-8 * sc)
    case.close(of['b'].values, oy, 'filter-frame', rtol=1e-9,
               atol=1e-9 * sc)
    short = pd.Series(np.ones(41, complex),
                      index=np.linspace(-1, 1, 41) * np.max(fx) * 0.97)
    case.raises(ValueError, 'filter-uncovered', signalproc.apply_filter, X,
                short)
    case.sig('filter', order, n % 2, dt)


def clean(case):
    rng = case.rng
    n = size(rng, 2, 60, 6000)
    f = freqs(n, 1.0)
    v = rng.normal(size=n) + 1j * rng.normal(size=n)
    s = pd.Series(v.copy(), index=f)
    out = case.call(signalproc.cleanfreq, s)
    case.ok(out is not None, 'cleanfreq', 'returns the signal')
    case.close(np.asarray(out), v, 'cleanfreq', rtol=0)
    ix = np.asarray(out.index, float)
    want = f.copy()
    want[n // 2] = np.nan
    case.close(ix, want, 'cleanfreq', rtol=1e-12,
               msg='only the wrap-around frequency is blanked')
    case.sig('clean', n)


QUICK_X = 3
WORKLOADS = [('delay', delay, 200, 4000), ('interp', interp, 300, 6000),
             ('apply', apply, 300, 6000), ('clean', clean, 60, 600)]
