import numpy as np
import pandas as pd

from solarspatialtools import cmv, signalproc
from mon import ref, cmvref
from mon.core import Skip
from mon.core import labels
from mon.core import size
from mon.core import clock

ID = 'C12'
RULE = ('Clusters of 3..12 sensors seeing a moving pattern with noise, some '
        'sensors dead, missing, overcast, steady or unrelated, plus real plant '
        'and pyranometer data, with random thresholds, references, methods '
        'and backends.  Every pair flag is judged by the documented rules and '
        'the result by a closed-form solution over exactly the good pairs.  '
        'Distinct = (method, backend, reference kind, set of flags).')
REQUIRED = ['pairs', 'lag', 'peak', 'good', 'flag', 'velocity:jamaly',
            'angle:jamaly', 'velocity:gagne', 'angle:gagne', 'overall',
            'allbad', 'trend', 'details', 'isolation', 'bad-option',
            'options-kept', 'bad-method', 'bad-backend', 'range', 'case',
            'defaults', 'correlation-threshold']
ASSUMES = ['Pairs within 1e-7 of a threshold may be flagged either way.',
           'Directions are judged where the variance ellipse is not round '
           '(eigenvalue ratio below 0.9).']


def frame(a, dt, cols):
    idx = clock(len(a), dt)
    return pd.DataFrame(a, index=idx, columns=cols)


REAL = {}


def real(rng):
    name = ['plant', 'hope'][rng.integers(0, 2)]
    try:
        if name == 'plant':
            fn = '/repo/demos/data/sample_plant_1.h5'
            key = 'data_' + 'abcde'[rng.integers(0, 5)]
        else:
            fn = '/repo/demos/data/hope_melpitz_1s.h5'
            key = 'data'
        if (fn, key) not in REAL:
            REAL[fn, key] = pd.read_hdf(fn, key, mode='r').astype(float)
            REAL[fn, 'utm'] = pd.read_hdf(fn, 'utm', mode='r')[['E', 'N']]
    except (OSError, KeyError):
        return None
    d, p = REAL[fn, key], REAL[fn, 'utm']
    k = int(rng.integers(4, 12))
    if name == 'plant':
        d = d / np.nanmax(d.values)
        c = rng.integers(0, len(p) - 20)
        ids = list(p.index[np.sort(rng.choice(np.arange(c, c + 20), k,
                                              replace=False))])
        d = d[ids]
    else:
        ids = list(rng.choice(p.index.values, k, replace=False))
        s = int(rng.integers(0, len(d) - 1000))
        d = d[ids].iloc[s:s + int(rng.integers(400, 1000))]
        d = d / np.nanmax(d.values)
    return d, p.loc[ids]


def scene(rng):
    if rng.integers(0, 6) == 0:
        r = real(rng)
        if r is not None:
            return ('real',) + r
    m = size(rng, 3, 10, 20, .06)
    n = size(rng, 120, 420, 3000)
    dt = float(rng.choice([1, 2, 10, 0.5]))
    v = float(rng.uniform(2, 25))
    th = rng.uniform(0, 2 * np.pi)
    u = np.array([np.cos(th), np.sin(th)])
    span = v * dt * rng.uniform(4, 16)
    P = rng.uniform(-span, span, (m, 2))
    A = cmvref.field(rng, n, dt, P, u, v, noise=rng.choice([0, 0.005, 0.03]))
    kinds = ['ok'] * m
    for j in range(m):
        r = rng.uniform()
        if r < 0.05:
            A[:, j] = 0.7
            kinds[j] = 'dead'
        elif r < 0.09:
            A[:, j] = np.nan
            kinds[j] = 'missing'
        elif r < 0.12:
            A[int(rng.integers(0, n)), j] = np.nan
            kinds[j] = 'hole'
        elif r < 0.16:
            A[:, j] *= 0.3
            kinds[j] = 'overcast'
        elif r < 0.20:
            A[:, j] = 0.95 + 0.02 * A[:, j]
            kinds[j] = 'steady'
        elif r < 0.25:
            A[:, j] = rng.uniform(0.3, 1, n)
            kinds[j] = 'unrelated'
        elif r < 0.28 and j:
            A[:, j] = A[:, j - 1]
            kinds[j] = 'copy'
        elif r < 0.33:                        # stuck but for a faint ripple
            q = A[:, j] - np.nanmean(A[:, j])
            A[:, j] = 0.7 + q / (np.nanstd(q) or 1) * rng.choice(
                [.0003, .0006, .0009, .0012, .003])
            kinds[j] = 'faint'
    ids = labels(rng, m)
    P = pd.DataFrame(P + rng.choice([0, 4e5]), index=ids,
                     columns=[['E', 'N'], ['x', 'y']][rng.integers(0, 2)])
    d = frame(A, dt, ids)
    d = d[list(rng.permutation(np.array(ids, dtype=object)))]
    return 'made', d, P


def options(rng, method):
    full = {'minvelocity': float(rng.choice([0, 0.5, 2, 5])),
            'maxvelocity': float(rng.choice([70, 30, 10, 200])),
            'var_s_lim': float(rng.choice([0.05, 0.1, 0.2, 0.0])),
            'ktlim': float(rng.choice([0.4, 0.2, 0.9, 0.6])),
            'mincorr': float(rng.choice([0.8, 0.5, 0.9, 0.95]))}
    if method == 'gagne':
        full = {'ktlim': full['ktlim']}
    keys = [k for k in full if rng.integers(0, 2)]
    if rng.integers(0, 3) == 0:
        return None
    return {k: full[k] for k in keys}


def references(rng, ids):
    k = rng.integers(0, 4)
    if k == 0:
        return 'one', ids[rng.integers(0, len(ids))]
    if k == 1:
        q = int(rng.integers(1, len(ids) + 1))
        r = [ids[j] for j in rng.choice(len(ids), q, replace=False)]
        return 'some', (r if rng.integers(0, 2) else tuple(r))
    return 'all', None


def judge(case, ts, pos, refid, method, opt, backend, out):
    """Judge one estimate; returns the good pairs."""
    vel, th, w = out
    full = dict(cmvref.DEFAULTS[method], **(opt or {}))
    ids = list(pos.index)
    if refid is None:
        refs = ids
    elif isinstance(refid, (list, tuple)):
        refs = list(refid)
    else:
        refs = [refid]
    key = {str(k): k for k in ids}
    pairs = [(key[str(a)], key[str(b)]) for a, b in w.allpairs]
    want = sorted(str(sorted((str(a), str(b)))) for i, a in enumerate(ids)
                  for b in ids[i:] if a in refs or b in refs)
    got = sorted(str(sorted((str(a), str(b)))) for a, b in pairs)
    case.ok(got == want, 'pairs', 'every pair that holds a reference, once',
            got=got[:9], want=want[:9])
    P = {k: pos.loc[k].values.astype(float) for k in ids}
    flags = [f.name for f in w.pair_flag]
    case.ok(len(flags) == len(pairs), 'pairs', f'{len(flags)} flags')
    dt = (ts.index[1] - ts.index[0]).total_seconds()
    n = len(ts)
    lags = w.pair_lag
    peaks = w.corr_lag
    known = lags is not None
    cc = {}
    for i, (a, b) in enumerate(pairs):
        A, B = ts[a].values.astype(float), ts[b].values.astype(float)
        if np.isnan(A).any() or np.isnan(B).any() or A.std() < 1e-9 \
                or B.std() < 1e-9:
            cc[i] = None
            continue
        cc[i] = cmvref.xcorr(A, B)
    if not known:
        A = ts[[p[0] for p in pairs]]
        B = ts[[p[1] for p in pairs]]
        if backend == 'xcorr':
            lags, ex = signalproc.compute_delays(A, B, 'loop',
                                                 scaling='coeff')
        else:
            lags, ex = signalproc.compute_delays_tf(A, B, compute_xcorr=True)
        peaks = ex['peak_corr']
    elif backend == 'tf':
        A = ts[[p[0] for p in pairs]]
        B = ts[[p[1] for p in pairs]]
        l2, ex = signalproc.compute_delays_tf(A, B, compute_xcorr=True)
        case.close(lags, l2, 'lag', rtol=1e-6, atol=1e-6 * dt)
        case.close(w.pair_coh, ex['mean_coh'], 'details', rtol=1e-9)
    allowed = []
    vague = False
    for i, (a, b) in enumerate(pairs):
        if cc[i] is not None:
            c, cl = cc[i]
            if backend == 'xcorr':
                k = -lags[i] / dt
                case.ok(abs(k - round(k)) < 1e-6, 'lag', f'{lags[i]}')
                case.close(c[int(round(k)) + n - 1], c.max(), 'lag', rtol=0,
                           atol=1e-8, msg=f'pair {a},{b}')
                want = c.max()
            else:
                want = ref.interp1(-lags[i] / dt, cl, c)[0] \
                    if abs(lags[i]) < (n - 1) * dt else np.nan
            if known:
                case.close(peaks[i], want, 'peak', rtol=1e-6, atol=1e-7)
            mean = c.mean()
            peak = want
        else:
            peak, mean = np.nan, np.nan
        p = cmvref.Pair(ts[a].values.astype(float),
                        ts[b].values.astype(float), a == b,
                        np.hypot(*(P[a] - P[b])), lags[i], peak, mean,
                        method, full)
        allowed.append((p, peak))
    # gagne: the strictest of three correlation limits that leaves a dozen
    if method == 'gagne':
        base = [not p.bad for p, _ in allowed]
        vague = any(p.doubt for p, _ in allowed)
        lim = None
        for q in (0.99, 0.95, 0.9):
            cnt = sum(g and pk >= q for g, (p, pk) in zip(base, allowed))
            if any(abs(pk - q) < 1e-7 for _, pk in allowed):
                vague = True
            lim = q
            if cnt >= 12:
                break
        enough = cnt >= 12
        for p, pk in allowed:
            if not pk >= lim:
                p.bad.add('LOWCORR')
        if vague:
            raise Skip
        case.hit('correlation-threshold')
    for (p, _), f, ab in zip(allowed, flags, pairs):
        if p.doubt:
            continue
        case.ok((f == 'GOOD') == (not p.bad), 'good',
                f'pair {ab} is {f}, rules violated: {sorted(p.bad)}')
        if p.bad and p.bad != {'EMPTY'}:
            case.ok(f in p.bad, 'flag',
                    f'pair {ab} is {f}, rules violated: {sorted(p.bad)}')
    good = np.array([f == 'GOOD' for f in flags])
    if good.sum() <= 1:
        case.ok(vel == 0 and th == 0 and w.flag.name == 'ALLBAD', 'allbad',
                f'{vel}, {th}, {w.flag}')
        return good, flags
    vec = np.array([P[b] - P[a] for a, b in pairs])
    lag = np.asarray(lags, float)
    case.ok(vel >= 0 and 0 <= th <= 2 * np.pi, 'range', f'{vel}, {th}')
    case.ok(w.wind_speed == vel and w.wind_angle == th, 'details',
            'the record repeats the result')
    u = np.array([np.cos(th), np.sin(th)])
    s = np.abs(vec).max()
    case.close(np.ravel(w.pair_dists), vec @ u, 'details', rtol=1e-7,
               atol=1e-7 * s, msg='distances along the motion')
    if backend == 'xcorr':
        for i in range(len(pairs)):
            if cc[i] is not None:
                case.close(w.corr_raw[i], cc[i][0][n - 1], 'details',
                           rtol=1e-6, atol=1e-7, msg='zero-lag correlation')
    if method == 'jamaly':
        v0, t0, vv, cond = cmvref.jamaly(vec[good], lag[good])
        if good.sum() == 2:
            raise Skip          # two pairs fit any direction
        if cond < 0.9:
            tol = 1e-4 / (1 - cond)
            amb = v0 < 10 * tol * np.abs(vec[good] / lag[good][:, None]).max()
            if not amb:
                case.close(vel, v0, 'velocity:jamaly', rtol=1e-3,
                           atol=tol * np.abs(vec[good]
                                             / lag[good][:, None]).max())
                case.ok(cmvref.ang(th, t0) < tol + 1e-4, 'angle:jamaly',
                        f'{th} instead of {t0}')
        vv = (vec[good] @ u) / lag[good]
        v60, v40 = cmvref.percentile(vv, 60), cmvref.percentile(vv, 40)
        case.close(np.median(vv), vel, 'velocity:jamaly', rtol=1e-6,
                   msg='median over the good pairs')
        err = (v60 - v40) / vel
        if abs(err - 0.4) > 1e-6:
            case.ok((w.flag.name == 'TREND') == (err > 0.4)
                    and w.flag.name in ('TREND', 'GOOD'), 'overall',
                    f'{w.flag} for spread {err}')
            if err > 0.4:
                case.hit('trend')
        md = w.method_data
        case.close(abs(md['error_index']), err, 'details', rtol=1e-5,
                   atol=1e-8)
        case.close(np.sort(np.abs([md['v60'], md['v40']])),
                   np.sort(np.abs([v60, v40])), 'details', rtol=1e-5,
                   atol=1e-8)
        case.close(np.sort(np.abs(np.ravel(md['velocity']))),
                   np.sort(np.abs(vv)), 'details', rtol=1e-5, atol=1e-8)
        case.ok(md['ngood'] == good.sum(), 'details', 'number of good pairs')
        if good.sum() > 2 and np.ptp(lag[good]) > 0:
            r = abs(np.corrcoef(lag[good], vec[good] @ u)[0, 1])
            case.close(md['r_corr'], r, 'details', rtol=1e-5, atol=1e-6)
    else:
        v0, t0, cond = cmvref.gagne(vec[good], lag[good])
        if cond > 1e-6:          # the sites do not lie on one line
            case.close(vel, v0, 'velocity:gagne', rtol=1e-4)
            case.ok(cmvref.ang(th, t0) < 1e-4, 'angle:gagne',
                    f'{th} instead of {t0}')
        case.ok(w.flag.name == ('GOOD' if enough else 'ALLBAD'), 'overall',
                f'{w.flag} with at least a dozen pairs: {enough}')
    return good, flags


def estimate(case):
    rng = case.rng
    kind, ts, pos = scene(rng)
    method = ['jamaly', 'gagne'][case.index % 2]
    backend = ['xcorr', 'xcorr', 'tf'][case.index % 3]
    opt = options(rng, method)
    if method == 'gagne':
        rk, refid = ('all', None) if rng.integers(0, 3) else \
            references(rng, list(pos.index))
    else:
        rk, refid = references(rng, list(pos.index))
    case.note(kind=kind, sensors=len(pos), n=len(ts), method=method,
              backend=backend, options=opt, reference=refid)
    keep = None if opt is None else dict(opt)
    out = case.call(cmv.compute_cmv, ts, pos, refid, method, opt, backend)
    case.ok(opt == keep, 'options-kept', f'{opt}')
    good, flags = judge(case, ts, pos, refid, method, opt, backend, out)
    case.sig(kind, method, backend, rk, tuple(sorted(set(flags))))
    case.note(speed=out[0], angle=out[1], flags=sorted(set(flags)))
    # a sensor that is lost only takes its own pairs with it
    up = case.call(cmv.compute_cmv, ts, pos, refid, method.upper(), opt,
                   backend.capitalize())
    case.close(up[:2], out[:2], 'case', rtol=1e-12)
    if method == 'jamaly' and good.sum() > 3 and len(pos) > 3:
        ids = list(pos.index)
        k = ids[rng.integers(0, len(ids))]
        if k != refid and not (isinstance(refid, (list, tuple))
                               and k in refid):
            ts2 = ts.copy()
            ts2[k] = np.nan
            o2 = case.call(cmv.compute_cmv, ts2, pos, refid, method, opt,
                           backend)
            o3 = case.call(cmv.compute_cmv, ts.drop(columns=[k]),
                           pos.drop(index=k), refid, method, opt, backend)
            case.close(o2[:2], o3[:2], 'isolation', rtol=1e-6, atol=1e-8,
                       msg=f'sensor {k} lost')
    d = case.call(cmv.compute_cmv, ts, pos)
    e = case.call(cmv.compute_cmv, ts, pos, reference_id=None,
                  method='jamaly', options=dict(cmvref.DEFAULTS['jamaly']),
                  delay_backend='xcorr')
    case.close(d[:2], e[:2], 'defaults', rtol=1e-9)
    case.ok([f.name for f in d[2].pair_flag]
            == [f.name for f in e[2].pair_flag], 'defaults')


def errors(case):
    rng = case.rng
    _, ts, pos = scene(rng)
    m = ['jamaly', 'gagne'][case.index % 2]
    bad = {'jamaly': ['min_velocity', 'kt', 'MINCORR', ''],
           'gagne': ['mincorr', 'minvelocity', 'KTLIM']}[m]
    o = {'ktlim': 0.3, bad[rng.integers(0, len(bad))]: 0.5}
    case.raises(ValueError, 'bad-option', cmv.compute_cmv, ts, pos, None, m,
                o)
    case.raises(ValueError, 'bad-method', cmv.compute_cmv, ts, pos, None,
                rng.choice(['jam', 'gagné', 'x', '']))
    case.raises(ValueError, 'bad-backend', cmv.compute_cmv, ts, pos, None, m,
                None, rng.choice(['fft', 'corr', '']))
    # all sensors overcast or flat: nothing to estimate from
    v, t, w = case.call(cmv.compute_cmv, ts * 0.2, pos, None, m)
    case.ok(v == 0 and t == 0 and w.flag.name == 'ALLBAD', 'allbad',
            f'{v}, {t}, {w.flag}')
    v, t, w = case.call(cmv.compute_cmv, ts * 0 + 0.8, pos, None, m)
    case.ok(v == 0 and t == 0 and w.flag.name == 'ALLBAD', 'allbad',
            f'{v}, {t}, {w.flag}')
    case.sig('errors', m)


WORKLOADS = [('estimate', estimate, 400, 20000), ('errors', errors, 20, 200)]
