import numpy as np
import pandas as pd

from solarspatialtools import signalproc, field
from mon import ref
from mon.core import Skip
from mon.core import labels
from mon.core import size
from mon.core import clock

ID = 'C08'
RULE = ('Synthetic transfer functions of known delay (with unusable bins '
        'filled with arbitrary phase), noisy real signals judged against an '
        'independent spectral estimate and fit, and band-limited signals '
        'delayed by known fractions of a sample.  Distinct = (method, shape, '
        'limits, window, parity).')
REQUIRED = ['fit', 'multi', 'diff', 'mask', 'isolation', 'nan-column',
            'errors', 'delay:fit', 'delay:multi', 'mean-coherence',
            'fractional', 'antisymmetric', 'xcorr-extras', 'wrapper',
            'gain-free', 'limit-none', 'nothing-usable', 'default',
            'undefined-bins']
ASSUMES = ['A line fit through the origin may be least squares or zero mean '
           'residual; phases may be unwrapped before or after the mask.',
           'Columns where an unwrapping step lies within 1e-6 of pi, or a '
           'coherence within 1e-9 of the limit, are not judged.']


def frame(a, dt, cols):
    idx = clock(len(a), dt)
    return pd.DataFrame(a, index=idx, columns=cols)


# ------------------------------------------------------------ synthetic ----
def synthetic(case):
    rng = case.rng
    nf = size(rng, 8, 80, 1500, .06)
    df = 10 ** rng.uniform(-4, -1)
    f = np.arange(nf) * df
    m = size(rng, 1, 5, 25)
    climit = [None, 0.6, 0.3, 0.0][rng.integers(0, 4)]
    flimit = [None, float(f[rng.integers(3, nf)]),
              float((f[rng.integers(3, nf)] + 0.4 * df))][rng.integers(0, 3)]
    okf = np.ones(nf, bool) if flimit is None else f < flimit
    coh = rng.uniform((climit or 0) + 0.05, 1.0, (nf, m))
    garbage = np.zeros((nf, m), bool)
    if climit:
        garbage = rng.uniform(size=(nf, m)) < 0.3
        garbage[1:3] = False
        coh[garbage] = rng.uniform(0, climit, garbage.sum())
        edge = rng.uniform(size=(nf, m)) < 0.1
        coh[garbage & edge] = climit          # exactly at the limit: unused
    use = okf[:, None] & (coh > climit if climit is not None
                          else np.ones((nf, m), bool))
    small = bool(garbage.any())
    fmax = f[okf].max() if okf.any() else f[-1]
    # longest run that a single unwrapping step has to bridge
    gaps = [np.diff(np.flatnonzero(use[:, j])).max() for j in range(m)]
    dmax = np.array([0.45 / (g * df) for g in gaps])
    if small:                # keep every phase inside (-pi/2, pi/2)
        dmulti = 0.24 / fmax
    else:
        dmulti = 0.45 / df
    gain = 10 ** rng.uniform(-2, 2, (nf, m))
    case.note(nf=nf, df=df, m=m, coh_limit=climit, freq_limit=flimit)
    index = pd.Index(f)
    if climit is None or flimit is None:
        case.hit('limit-none')

    def build(d, wild):
        tf = gain * np.exp(-2j * np.pi * np.outer(f, d))
        bad = garbage | ~okf[:, None]
        ph = rng.uniform(-np.pi if wild else -1.5, np.pi if wild else 1.5,
                         (nf, m))
        out = ~okf
        ph[out] = rng.uniform(-np.pi, np.pi, (out.sum(), m))
        return np.where(bad, gain * np.exp(1j * ph), tf)

    # one column at a time, least squares
    d = rng.uniform(-1, 1, m) * dmax
    tf = build(d, True)
    j = int(rng.integers(0, m))
    forms = [(pd.Series(tf[:, j], index), pd.Series(coh[:, j], index)),
             (pd.DataFrame(tf[:, [j]], index), pd.Series(coh[:, j], index)),
             (pd.DataFrame(tf[:, [j]], index),
              pd.DataFrame(coh[:, [j]], index))]
    t, c = forms[rng.integers(0, 3)]
    got, ix = case.call(signalproc.tf_delay, t, c, climit, flimit, 'fit')
    case.close(np.ravel(got), [d[j]], 'fit', rtol=1e-5,
               atol=1e-6 * dmax[j])
    case.ok(np.array_equal(np.ravel(ix), use[:, j]), 'mask',
            'bins above the coherence limit and below the frequency limit',
            got=np.ravel(ix), want=use[:, j])
    # all columns at once
    d = rng.uniform(-1, 1, m) * dmulti
    tf = build(d, False)
    got, ix = case.call(signalproc.tf_delay, pd.DataFrame(tf, index),
                        pd.DataFrame(coh, index), coh_limit=climit,
                        freq_limit=flimit, method='multi')
    case.close(np.ravel(got), d, 'multi', rtol=1e-5, atol=1e-6 * dmulti)
    case.ok(np.array_equal(np.asarray(ix), use), 'mask', 'multi')
    # columns do not talk to each other
    k = int(rng.integers(0, m))
    tf2, coh2 = tf.copy(), coh.copy()
    tf2[:, k] = np.nan
    coh2[:, k] = np.nan
    got2, ix2 = case.call(signalproc.tf_delay, pd.DataFrame(tf2, index),
                          pd.DataFrame(coh2, index), climit, flimit, 'multi')
    got2 = np.ravel(got2)
    case.ok(np.isnan(got2[k]), 'nan-column', f'{got2[k]} from an empty column')
    rest = np.arange(m) != k
    case.close(got2[rest], d[rest], 'isolation', rtol=1e-5,
               atol=1e-6 * dmulti)
    # bins without a value that are not used anyway (no power in the input
    # there) do not matter, wherever they are
    tf3, coh3 = tf.copy(), coh.copy()
    hole = (garbage if climit else np.zeros((nf, m), bool)) | ~okf[:, None]
    hole &= rng.uniform(size=(nf, m)) < 0.5
    if climit is not None:
        hole[0] = rng.uniform(size=m) < 0.5
    if hole.any():
        case.hit('undefined-bins')
        tf3[hole] = np.nan
        coh3[hole] = np.nan
        got3, ix3 = case.call(signalproc.tf_delay, pd.DataFrame(tf3, index),
                              pd.DataFrame(coh3, index), climit, flimit,
                              'multi')
        case.close(np.ravel(got3), d, 'undefined-bins', rtol=1e-5,
                   atol=1e-6 * dmulti)
        case.ok(np.array_equal(np.asarray(ix3), use & ~hole), 'mask',
                'undefined bins')
    if not small:
        j = int(rng.integers(0, m))
        clean = gain * np.exp(-2j * np.pi * np.outer(f, d))
        got, _ = case.call(signalproc.tf_delay,
                           pd.DataFrame(clean[:, [j]], index),
                           pd.DataFrame(coh[:, [j]], index), climit, flimit,
                           'diff')
        case.close(np.ravel(got), [d[j]], 'diff', rtol=1e-5,
                   atol=1e-6 * dmulti)
    if climit:
        zero = pd.DataFrame(np.zeros((nf, 1)), index)
        got, ix = case.call(signalproc.tf_delay,
                            pd.DataFrame(tf[:, [0]], index), zero, climit,
                            flimit, 'fit')
        case.ok(np.isnan(np.ravel(got)[0]) and not np.any(ix),
                'nothing-usable', f'{got}')
    if m > 1:
        T, C = pd.DataFrame(tf, index), pd.DataFrame(coh, index)
        for q in ('fit', 'diff'):
            case.raises(ValueError, 'errors', signalproc.tf_delay, T, C,
                        climit, flimit, q)
        case.raises(ValueError, 'errors', signalproc.tf_delay, T, C, climit,
                    flimit, 'bad')
    case.sig('syn', m, climit, flimit is None, small)


# --------------------------------------------------- against own spectra ---
def model(x, y, dt, navgs, climit, flimit, ov, win):
    fr, pxy = ref.cross_spectrum(x, y, 1 / dt, navgs, ov, win, None)
    pxx = ref.cross_spectrum(x, x, 1 / dt, navgs, ov, win, None)[1].real
    pyy = ref.cross_spectrum(y, y, 1 / dt, navgs, ov, win, None)[1].real
    coh = np.abs(pxy) ** 2 / (pxx * pyy)
    band = fr < flimit
    use = band & (coh > climit)
    doubt = bool(np.any(np.abs(coh[band] - climit) < 1e-9)) or \
        bool(np.any(np.abs(fr - flimit) < 1e-9 * flimit))
    cands = []
    if use.sum() > 0 and (fr[use] != 0).any():
        for before in (True, False):
            if before:
                p = np.angle(pxy[band])
                up = ref.unwrap(p)[use[band]]
            else:
                p = np.angle(pxy[use])
                up = ref.unwrap(p)
            r = np.abs(np.diff(p)) / np.pi
            doubt |= bool(np.any(np.abs(r - 1) < 1e-6))
            doubt |= bool(np.any(np.abs(np.abs(p) - np.pi) < 1e-6))
            ff = fr[use]
            cands += [-(ff * up).sum() / (2 * np.pi * (ff * ff).sum()),
                      -up.sum() / (2 * np.pi * ff.sum())]
    return cands, coh, use, coh[band].mean(), doubt


def signals(rng, n, m, dt):
    base = ref.smooth_signal(rng, n * dt, 0, 1, 8 * dt, n * dt / 4)
    t = np.arange(n) * dt
    off = rng.choice([0.0, 0.0, 0.5, 5.0])
    x = base(t)
    Y = np.array([base(t - rng.uniform(-3, 3) * dt)
                  * rng.uniform(0.3, 3)
                  + rng.choice([0, 0.02, 0.3]) * rng.normal(size=n)
                  for _ in range(m)]).T
    return x + 0.01 * rng.normal(size=n) + off, Y + off


def against(case):
    rng = case.rng
    n = size(rng, 60, 900, 4000)
    dt = float(rng.choice([1, 0.5, 2, 10, 60, 0.0025, 3600]))
    navgs = int(rng.choice([3, 5, 8]))
    n = max(n, 10 * navgs)
    m = size(rng, 1, 5, 25)
    nper = n // navgs
    flimit = float(rng.uniform(3, nper / 2) / (nper * dt))
    climit = float(rng.choice([0.6, 0.3, 0.9, 0.0]))
    ov = float(rng.choice([0.5, 0.0, 0.75]))
    win = str(rng.choice(['hamming', 'hann', 'boxcar']))
    method = ['fit', 'multi'][case.index % 2]
    x, Y = signals(rng, n, m, dt)
    shape = ['series', '1xN', 'NxN', 'Nx1'][rng.integers(0, 4)]
    cols = labels(rng, m)
    fo = frame(Y, dt, cols)
    if shape == 'series':
        fi = pd.Series(x, fo.index, name='r')
        X = np.repeat(x[:, None], m, 1)
    elif shape == '1xN':
        fi = frame(x[:, None], dt, ['r'])
        X = np.repeat(x[:, None], m, 1)
    elif shape == 'NxN':
        X = np.array([x + 0.05 * rng.normal(size=n) for _ in range(m)]).T
        names = [f'q{j}' for j in range(m)]
        if rng.integers(0, 3) == 0:      # pairs that are called the same
            names = ['a' if j % 2 else 'a_b' for j in range(m)]
            cols = ['b_c' if j % 2 else 'c' for j in range(m)]
            fo = frame(Y, dt, cols)
        fi = frame(X, dt, names)
    else:
        X = Y
        Y = np.repeat(x[:, None], m, 1)
        fi, fo = fo, frame(x[:, None], dt, ['r'])
        if rng.integers(0, 2):
            fo = fo.iloc[:, 0]
    xc = bool(rng.integers(0, 2))
    case.note(n=n, dt=dt, navgs=navgs, flimit=flimit, climit=climit, ov=ov,
              win=win, method=method, shape=shape)
    kw = dict(navgs=navgs, coh_limit=climit, freq_limit=flimit,
              method=method, overlap=ov, window=win, compute_xcorr=xc)
    d, ex = case.call(signalproc.compute_delays_tf, fi, fo, **kw)
    d = np.asarray(d)
    case.ok(d.shape == (m,), f'delay:{method}', f'shape {d.shape}')
    ix = np.asarray(ex['ix'])
    judged = 0
    sure = np.zeros(m, bool)
    for j in range(m):
        cands, coh, use, mc, doubt = model(X[:, j], Y[:, j], dt, navgs,
                                           climit, flimit, ov, win)
        case.close(np.ravel(ex['mean_coh'])[j], mc, 'mean-coherence',
                   rtol=1e-6, atol=1e-8)
        if doubt or not cands:
            continue
        judged += 1
        sure[j] = True
        case.ok(np.array_equal(ix[:, j], use), 'mask', f'column {j}')
        case.ok(any(abs(d[j] - c) < 1e-5 * abs(c) + 1e-6 * dt
                    for c in cands), f'delay:{method}',
                f'column {j}: {d[j]!r} is none of {cands}')
    if not judged:
        raise Skip
    if xc:
        for j in range(m):
            a, b = X[:, j] - X[:, j].mean(), Y[:, j] - Y[:, j].mean()
            c, lags = ref.xcorr_full(a, b)
            c = c / np.sqrt((a * a).sum() * (b * b).sum())
            case.close(ex['mean_corr'][j], c.mean(), 'xcorr-extras',
                       rtol=1e-6, atol=1e-9)
            case.close(ex['zero_corr'][j], c[n - 1], 'xcorr-extras',
                       rtol=1e-6, atol=1e-9)
            if abs(d[j] / dt) < n - 2:
                case.close(ex['peak_corr'][j],
                           ref.interp1(-d[j] / dt, lags, c)[0],
                           'xcorr-extras', rtol=1e-5, atol=1e-7)
    else:
        case.ok('peak_corr' not in ex, 'xcorr-extras', 'not asked for')
    # swapping input and output negates the delay
    d2, ex2 = case.call(signalproc.compute_delays_tf, fo, fi, **kw)
    case.close(np.asarray(d2)[sure], -d[sure], 'antisymmetric', rtol=1e-4,
               atol=1e-5 * dt)
    case.close(ex2['mean_coh'], ex['mean_coh'], 'antisymmetric', rtol=1e-6)
    # positive gain is irrelevant
    g = 10 ** rng.uniform(-2, 2)
    d3, ex3 = case.call(signalproc.compute_delays_tf, fi, fo * g, **kw)
    case.close(np.asarray(d3)[sure], d[sure], 'gain-free', rtol=1e-4,
               atol=1e-5 * dt)
    case.close(ex3['mean_coh'], ex['mean_coh'], 'gain-free', rtol=1e-6)
    # a dead column only spoils itself
    if shape in ('series', '1xN', 'NxN') and m > 1:
        k = int(rng.integers(0, m))
        fo2 = fo.copy()
        fo2.iloc[:, k] = np.nan
        d4, ex4 = case.call(signalproc.compute_delays_tf, fi, fo2, **kw)
        rest = np.arange(m) != k
        case.ok(np.isnan(np.asarray(d4)[k]), 'nan-column', f'{d4[k]}')
        case.close(np.asarray(d4)[rest & sure], d[rest & sure], 'isolation',
                   rtol=1e-4, atol=1e-5 * dt)
        case.close(ex4['mean_coh'][rest], ex['mean_coh'][rest], 'isolation',
                   rtol=1e-9)
    if m > 2 and shape == 'NxN':
        case.raises(ValueError, 'errors', signalproc.compute_delays_tf, fi,
                    fo.iloc[:, :2], **kw)
        case.raises(ValueError, 'errors', signalproc.compute_delays_tf, fi,
                    fo, navgs=navgs, method='bad')
    case.sig('own', method, shape, win, ov, nper % 2, climit)


# ------------------------------------------------- known fractional delay --
def fractional(case):
    rng = case.rng
    dt = float(rng.choice([1, 0.5, 2, 10, 0.0125]))
    navgs = int(rng.choice([3, 5]))
    nper = int(rng.integers(120, 300))
    n = nper * navgs
    m = size(rng, 1, 5, 25)
    base = ref.smooth_signal(rng, n * dt, -1, 1, 6 * dt, nper * dt / 3,
                             m=60)
    t = np.arange(n) * dt
    want = rng.uniform(-4, 4, m) * dt
    x = base(t)
    Y = np.array([rng.uniform(0.5, 2) * base(t - w) for w in want]).T
    off = float(rng.choice([1.2, 2.0]))       # a kt-like positive signal
    cols = labels(rng, m)
    fo = frame(Y + off, dt, cols)
    fi = pd.Series(x + off, fo.index, name='r')
    flimit = 0.1 / dt
    method = ['fit', 'multi'][case.index % 2]
    case.note(dt=dt, nper=nper, navgs=navgs, want=want / dt, method=method)
    d, ex = case.call(signalproc.compute_delays_tf, fi, fo, navgs=navgs,
                      freq_limit=flimit, method=method)
    err = np.abs(np.asarray(d) - want) / dt
    case.ok(np.all(err < 0.4 + 0.3 * np.abs(want / dt)), 'fractional',
            f'delays {d}, built with {want}', err=err)
    case.ok(np.all(np.sign(d)[np.abs(want) > dt]
                   == np.sign(want)[np.abs(want) > dt]), 'fractional',
            'a later output has a positive delay')
    case.note(worst_error_in_samples=err.max())
    # the deprecated field wrapper
    both = pd.concat([fi, fo], axis=1)
    for q in (method,):
        w, coh = case.call(field.compute_delays, both, 'r', navgs=navgs,
                           freq_limit=flimit, method=q)
        case.close(np.asarray(w)[1:], d, 'wrapper', rtol=1e-6, atol=1e-8)
        case.close(np.asarray(coh)[1:], ex['mean_coh'], 'wrapper', rtol=1e-9)
        case.close(np.asarray(w)[0], 0, 'wrapper', atol=1e-9 * dt)
        case.close(np.asarray(coh)[0], 1, 'wrapper', rtol=1e-9)
    a, ea = case.call(signalproc.compute_delays_tf, fi, fo)
    b, eb = case.call(signalproc.compute_delays_tf, fi, fo, navgs=5,
                      coh_limit=0.6, freq_limit=0.02, method='multi',
                      overlap=0.5, window='hamming', compute_xcorr=False)
    case.close(a, b, 'default', rtol=1e-9)
    a, ea = case.call(field.compute_delays, both, 'r')
    b, eb = case.call(signalproc.compute_delays_tf, fi, both)
    case.close(a, b, 'default', rtol=1e-9)
    case.close(ea, eb['mean_coh'], 'default', rtol=1e-9)
    case.sig('frac', method, dt, navgs, nper % 2)


WORKLOADS = [('synthetic', synthetic, 400, 10000),
             ('against', against, 300, 10000),
             ('fractional', fractional, 80, 3000)]
