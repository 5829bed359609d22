import numpy as np
import pandas as pd

from solarspatialtools import signalproc
from mon import ref
from mon.core import size
from mon.core import labels
from mon.core import clock

ID = 'C07'
RULE = ('Random coloured signals, 1..5 columns, every shape pairing (NxN, '
        '1xN, Nx1, Series), window, overlap, detrend and scaling, compared '
        'with an independent Welch estimate.  Distinct = (quantity, window, '
        'detrend, overlap, parity, shape).')
REQUIRED = ['psd', 'psd-frequency', 'psd-scaling', 'psd-labels', 'parseval',
            'tf', 'tf-frequency', 'tf-labels', 'coherence',
            'coherence-bounds', 'self-unity', 'linear', 'series', 'mismatch',
            'not-pandas', 'default', 'tf-place']
ASSUMES = ['Transfer functions are compared in bins that hold more than '
           '1e-10 of the input\'s peak power.']


def frame(a, dt, cols):
    idx = clock(len(a), dt)
    return pd.DataFrame(a, index=idx, columns=cols)


def sigs(rng, n, m):
    out = []
    for _ in range(m):
        k = rng.integers(0, 3)
        x = rng.normal(size=n)
        if k == 1:
            x = np.convolve(x, np.ones(4) / 4, 'same')
        elif k == 2:
            x = x + np.linspace(0, rng.normal() * 3, n) + rng.normal() * 5
        out.append(x)
    return np.array(out).T


def settings(rng):
    n = size(rng, 40, 700, 6000)
    navgs = int(rng.choice([1, 2, 3, 5, 8, 13]))
    ov = float(rng.choice([0.5, 0, 0.25, 0.75, 0.6]))
    win = str(rng.choice(['hamming', 'hann', 'boxcar']))
    det = ['linear', 'constant', False][rng.integers(0, 3)]
    dt = float(rng.choice([1, 0.5, 0.1, 10, 60, 3, 0.0025, 0.0004, 3600]))
    return n, navgs, ov, win, det, dt


def psd(case):
    rng = case.rng
    n, navgs, ov, win, det, dt = settings(rng)
    m = size(rng, 1, 4, 20)
    sc = ['density', 'spectrum'][case.index % 2]
    X = sigs(rng, n, m)
    cols = labels(rng, m)
    f = frame(X, dt, cols)
    case.note(n=n, navgs=navgs, ov=ov, win=win, det=det, dt=dt, scaling=sc)
    out = case.call(signalproc.averaged_psd, f, navgs, ov, win, det, sc)
    case.ok(list(out.columns) == cols, 'psd-labels', f'{list(out.columns)}')
    for j in range(m):
        fr, p = ref.cross_spectrum(X[:, j], X[:, j], 1 / dt, navgs, ov, win,
                                   det, sc)
        p = p.real
        case.close(np.asarray(out.index, float), fr, 'psd-frequency',
                   rtol=1e-9)
        case.close(out.iloc[:, j].values, p,
                   'psd' if sc == 'density' else 'psd-scaling',
                   rtol=1e-7, atol=1e-11 * p.max())
        # total power of the windowed segments
        if sc == 'density':
            S, w, nper = ref.segments(X[:, j], navgs, ov, win, det)
            tot = np.mean([np.sum(np.abs(np.fft.irfft(s, nper)) ** 2)
                           for s in S]) / (w * w).sum()
            case.close(out.iloc[:, j].sum() * (fr[1] - fr[0]), tot,
                       'parseval', rtol=1e-7)
    j = int(rng.integers(0, m))
    one = case.call(signalproc.averaged_psd, f.iloc[:, j], navgs, overlap=ov,
                    window=win, detrend=det, scaling=sc)
    case.close(np.asarray(one).ravel(), out.iloc[:, j].values, 'series',
               rtol=1e-9, atol=1e-15)
    d = case.call(signalproc.averaged_psd, f, navgs)
    d2 = case.call(signalproc.averaged_psd, f, navgs, 0.5, 'hamming',
                   'linear', 'density')
    case.close(d.values, d2.values, 'default', rtol=1e-12)
    case.close(d.iloc[:, 0].values,
               ref.cross_spectrum(X[:, 0], X[:, 0], 1 / dt, navgs, 0.5,
                                  'hamming', 'linear')[1].real, 'default',
               rtol=1e-6, atol=1e-10 * d.iloc[:, 0].max())
    case.sig('psd', win, det, ov, sc, n // navgs % 2, m)


def tf(case):
    rng = case.rng
    n, navgs, ov, win, det, dt = settings(rng)
    shape = ['NxN', '1xN', 'Nx1', '1x1'][case.index % 4]
    m = size(rng, 2, 4, 20)
    ni = {'NxN': m, '1xN': 1, 'Nx1': m, '1x1': 1}[shape]
    no = {'NxN': m, '1xN': m, 'Nx1': 1, '1x1': 1}[shape]
    X, Y = sigs(rng, n, ni), sigs(rng, n, no)
    if rng.integers(0, 2):          # correlated outputs
        Y = Y * 0.3 + np.roll(X[:, [0]], 2, axis=0)
    ci = [f'i{j}' for j in range(ni)]
    co = [f'o{j}' for j in range(no)]
    fi, fo = frame(X, dt, ci), frame(Y, dt, co)
    ai, ao = fi, fo
    if ni == 1 and rng.integers(0, 2):
        ai = fi.iloc[:, 0]
    if no == 1 and rng.integers(0, 2):
        ao = fo.iloc[:, 0]
    if ai is not fi or ao is not fo:
        case.hit('series')
    case.note(shape=shape, n=n, navgs=navgs, ov=ov, win=win, det=det, dt=dt)
    t, c = case.call(signalproc.averaged_tf, ai, ao, navgs, ov, win, det)
    k = max(ni, no)
    labels = [f'{ci[j % ni]}_{co[j % no]}' for j in range(k)]
    case.ok(list(t.columns) == labels and list(c.columns) == labels,
            'tf-labels', f'{list(t.columns)} instead of {labels}')
    for j in range(k):
        x, y = X[:, j % ni], Y[:, j % no]
        fr, pxy = ref.cross_spectrum(x, y, 1 / dt, navgs, ov, win, det)
        pxx = ref.cross_spectrum(x, x, 1 / dt, navgs, ov, win, det)[1].real
        pyy = ref.cross_spectrum(y, y, 1 / dt, navgs, ov, win, det)[1].real
        case.close(np.asarray(t.index, float), fr, 'tf-frequency', rtol=1e-9)
        case.close(np.asarray(c.index, float), fr, 'tf-frequency', rtol=1e-9)
        use = (pxx > 1e-10 * pxx.max()) & (pyy > 1e-10 * pyy.max())
        if det == 'constant' or det == 'linear':
            use[0] = use[0] and pxx[0] > 1e-6 * pxx.max() \
                and pyy[0] > 1e-6 * pyy.max()
        h = pxy[use] / pxx[use]
        case.close(t.iloc[:, j].values[use], h, 'tf', rtol=1e-6,
                   atol=1e-7 * np.abs(h).max())
        case.close(c.iloc[:, j].values[use],
                   np.abs(pxy[use]) ** 2 / (pxx[use] * pyy[use]),
                   'coherence', rtol=1e-6, atol=1e-7)
        cu = c.iloc[:, j].values[use]
        case.ok(np.all((cu > -1e-9) & (cu < 1 + 1e-6)), 'coherence-bounds')
    # columns pair by place, whatever they are called
    if shape == 'NxN':
        order = [int(q) for q in rng.permutation(m)]
        names = [f'q{j}' for j in range(m)]
        q1 = fi.set_axis(names, axis=1)
        q2 = fo.set_axis([names[q] for q in order], axis=1)
        tq, cq = case.call(signalproc.averaged_tf, q1, q2, navgs, ov, win,
                           det)
        case.ok(list(tq.columns) == [f'q{j}_q{q}' for j, q in
                                     enumerate(order)], 'tf-labels',
                f'{list(tq.columns)}')
        case.close(tq.values, t.values, 'tf-place', rtol=1e-9,
                   atol=1e-12 * np.abs(t.values).max())
        case.close(cq.values, c.values, 'tf-place', rtol=1e-9, atol=1e-12)
    # algebra: scaling the output scales the response, not the coherence
    a = rng.uniform(-3, 3)
    t2, c2 = case.call(signalproc.averaged_tf, ai, ao * a, navgs, ov, win,
                       det)
    for j in range(k):
        x = X[:, j % ni]
        pxx = ref.cross_spectrum(x, x, 1 / dt, navgs, ov, win, det)[1].real
        use = pxx > 1e-6 * pxx.max()
        h = t.iloc[:, j].values[use]
        case.close(t2.iloc[:, j].values[use], a * h, 'linear', rtol=1e-6,
                   atol=1e-8 * np.abs(h).max())
    # a signal against itself
    t3, c3 = case.call(signalproc.averaged_tf, fi, fi, navgs, ov, win, det)
    for j in range(ni):
        pxx = ref.cross_spectrum(X[:, j], X[:, j], 1 / dt, navgs, ov, win,
                                 det)[1].real
        use = pxx > 1e-6 * pxx.max()
        case.close(t3.iloc[:, j].values[use], np.ones(use.sum()),
                   'self-unity', rtol=1e-6)
        case.close(c3.iloc[:, j].values[use], np.ones(use.sum()),
                   'self-unity', rtol=1e-6)
    d, dc = case.call(signalproc.averaged_tf, ai, ao, navgs)
    e, ec = case.call(signalproc.averaged_tf, ai, ao, navgs, overlap=0.5,
                      window='hamming', detrend='linear')
    case.close(d.values, e.values, 'default', rtol=1e-12)
    case.close(dc.values, ec.values, 'default', rtol=1e-12)
    bad = frame(sigs(rng, n, m + 1), dt, [f'z{j}' for j in range(m + 1)])
    two = frame(sigs(rng, n, m), dt, [f'y{j}' for j in range(m)])
    case.raises(ValueError, 'mismatch', signalproc.averaged_tf, bad, two,
                navgs)
    case.raises(ValueError, 'mismatch', signalproc.averaged_tf, two, bad,
                navgs)
    case.raises(ValueError, 'not-pandas', signalproc.averaged_tf, fi,
                fo.values, navgs)
    case.sig('tf', shape, win, det, ov, n // navgs % 2)


WORKLOADS = [('psd', psd, 400, 8000), ('tf', tf, 400, 8000)]
