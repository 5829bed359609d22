"""One sensor's record or place never changes another sensor's result."""
import math

import numpy as np
import pandas as pd

from solarspatialtools import cmv, field, irradiance, signalproc, spatial
from solarspatialtools import stats
from solarspatialtools.dataio import hope_campaign as hope
from mon.core import clock

ID = 'C35'
RULE = ('Every function that takes a table of sensors (or arrays of places) '
        'is run on all sensors, on each alone, on some of them in another '
        'order, and with another sensor broken (missing, stuck, spiking, '
        'huge, with gaps); the result of a sensor must be the same.  '
        'Distinct = (function, number of sensors, kind of break).')
REQUIRED = ['alone', 'others', 'broken']
ASSUMES = ['Results are compared to 1e-7 of their scale.',
           'Cross-correlation peaks are compared by their height and, where '
           'the peak is unique, by their lag.',
           'A transfer function after removal of a linear trend is not asked '
           'for when a sensor has missing samples (scipy refuses it).']


def record(rng, n):
    x = np.convolve(rng.normal(size=n + 20), np.ones(9) / 9, 'same')[10:-10]
    return 500 + 300 * x / np.abs(x).max() + rng.normal(size=n)


def broken(rng, x, nan=True):
    """The record of a sensor that has failed."""
    kind = rng.choice(['missing', 'gaps', 'one'][:3 if nan else 0]
                      + ['stuck', 'zero', 'spike', 'huge', 'tiny', 'step'])
    y = x.copy()
    if kind == 'missing':
        y[:] = np.nan
    elif kind == 'gaps':
        y[rng.uniform(size=len(y)) < .3] = np.nan
    elif kind == 'one':
        y[int(rng.integers(0, len(y)))] = np.nan
    elif kind == 'stuck':
        y[:] = y[0]
    elif kind == 'zero':
        y[:] = 0
    elif kind == 'spike':
        y[int(rng.integers(0, len(y)))] = 1e6
    elif kind == 'huge':
        y = y * 1e5
    elif kind == 'tiny':
        y = y * 1e-5
    else:
        y[len(y) // 2:] += 5e4
    return y, str(kind)


def cols(frame):
    return [frame.iloc[:, j].to_numpy() for j in range(frame.shape[1])]


# ------------------------------------------------------- tables of records
def tables(rng):
    n = int(rng.choice([60, 120, 301, 500]))
    dt = float(rng.choice([1, 10, 60, .5, .0025, 3600]))
    t = clock(n, dt)
    navgs = int(rng.choice([2, 3, 5]))
    win = str(rng.choice(['hamming', 'hann', 'boxcar']))
    ref = pd.Series(record(rng, n), t, name='ref')
    tau = int(rng.choice([1, 2, 5]))
    ma = bool(rng.integers(0, 2))
    fr = np.linspace(-.5 / dt, .5 / dt, 41)
    filt = pd.Series(np.exp(-np.abs(fr) * dt * 3 - 2j * fr * dt), fr)
    flags = rng.integers(0, 5, n)
    lim = float(rng.choice([.3, .6]))
    flim = float(rng.choice([.1, .3])) / dt
    kt = pd.Series(rng.uniform(0, 1000, n), t)

    def F(X):
        return pd.DataFrame(np.array(X).T, t, [f's{j}' for j in
                                               range(len(X))])

    def R(X):
        return pd.DataFrame(np.array([ref.values] * len(X)).T, t,
                            [f'r{j}' for j in range(len(X))])

    def delays(mode, scaling):
        def f(X):
            d, e = signalproc.compute_delays(R(X), F(X), mode, scaling)
            return [np.array([e['peak_corr'][j], e['mean_corr'][j],
                              e['zero_corr'][j], d[j]])
                    for j in range(len(X))]
        return f

    def tfdelays(method, one, corr):
        def f(X):
            d, e = signalproc.compute_delays_tf(
                ref if one else R(X), F(X), navgs, lim, flim, method,
                window=win, compute_xcorr=corr)
            out = [np.r_[d[j], e['mean_coh'][j], e['ix'][:, j]]
                   for j in range(len(X))]
            if corr:
                out = [np.r_[o, e['peak_corr'][j], e['mean_corr'][j],
                             e['zero_corr'][j]] for j, o in enumerate(out)]
            return out
        return f

    def atf(side, det):
        def f(X):
            a, b = (F(X), ref) if side == 'in' else \
                (ref, F(X)) if side == 'out' else (R(X), F(X))
            t_, c_ = signalproc.averaged_tf(a, b, navgs, window=win,
                                            detrend=det)
            k = 1 if det else 0      # no mean is left to compare
            return [np.r_[p[k:], q[k:]] for p, q in zip(cols(t_), cols(c_))]
        return f

    def itf(X):
        g = signalproc.interp_tf(np.linspace(0, 5, 17), pd.DataFrame(
            np.array([x[:30] * np.exp(1j * x[30:60] / 300) for x in X]).T,
            np.arange(30.)))
        return cols(g)

    def per(f, *a):
        return lambda X: list(np.asarray(f(F(X), *a)))
    base = np.array([ref.values]).T
    every = {
        'averaged_psd': (lambda X: cols(signalproc.averaged_psd(
            F(X), navgs, window=win, detrend='constant')), True),
        'averaged_psd linear': (lambda X: cols(signalproc.averaged_psd(
            F(X), navgs, window=win)), False),
        'averaged_tf in': (atf('in', None), True),
        'averaged_tf out': (atf('out', 'constant'), True),
        'averaged_tf pairs': (atf('pairs', 'linear'), False),
        'interp_tf': (itf, False),
        'compute_delays loop': (delays('loop', 'coeff'), True),
        'compute_delays loop none': (delays('loop', 'none'), True),
        'compute_delays fft': (delays('fft', 'coeff'), True),
        'compute_delays_tf fit': (tfdelays('fit', True, False), True),
        'compute_delays_tf fit pairs': (tfdelays('fit', False, True), True),
        'compute_delays_tf multi': (tfdelays('multi', True, False), True),
        'compute_delays_tf multi pairs': (tfdelays('multi', False, True),
                                          True),
        'apply_filter': (lambda X: cols(signalproc.apply_filter(F(X), filt)),
                         True),
        'variability_score': (per(stats.variability_score, tau, ma), True),
        'darr': (per(stats.darr, tau, ma), True),
        'variability_index': (lambda X: list(np.asarray(
            stats.variability_index(F(X), R(X).set_axis(
                F(X).columns, axis=1), tau))), True),
        'clearsky_index': (lambda X: cols(irradiance.clearsky_index(
            F(X), kt)), True),
        'flag_qc': (lambda X: cols(hope.flag_qc(F(X), pd.DataFrame(
            np.array([np.roll(flags, int(x[0] if x[0] == x[0] else 0) * 0)
                      for x in X]).T, t, F(X).columns))), True),
        'null_qc': (lambda X: cols(hope.null_qc(F(X) - 500)), True),
        'interp_nan': (lambda X: cols(hope.interp_nan(
            F(X).where(lambda d: (d * 7 % 5 > 1)), 3)), True),
        'bias_error': (lambda X: cols(stats.bias_error(
            R(X).set_axis(F(X).columns, axis=1), F(X))), True),
        'squared_error': (lambda X: cols(stats.squared_error(
            R(X).set_axis(F(X).columns, axis=1), F(X))), True),
        'absolute_error': (lambda X: cols(stats.absolute_error(
            R(X).set_axis(F(X).columns, axis=1), F(X))), True),
    }
    return every, n, base


def close(a, b, rtol=1e-7):
    a, b = np.ravel(np.asarray(a)), np.ravel(np.asarray(b))
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'O' or b.dtype.kind == 'O':
        return list(a) == list(b)
    fin = b[np.isfinite(b)]
    s = np.abs(fin).max() if len(fin) else 0.
    with np.errstate(all='ignore'):
        return bool(np.isclose(a, b, rtol=rtol, atol=rtol * s,
                               equal_nan=True).all())


def compare(case, name, clause, got, want, what):
    """Delays: a lag is one of several equal peaks where they tie."""
    if name.startswith('compute_delays_tf') and close(got[1:], want[1:]):
        case.ok(close(got[0], want[0], 1e-4), clause,
                f'{name} {what}: delay {got[0]} instead of {want[0]}')
        return
    if name.startswith('compute_delays ') and close(got[:3], want[:3]) \
            and not (np.isnan(want[0]) or abs(want[0]) < 1e-3):
        case.ok(close(got[3], want[3]), clause,
                f'{name} {what}: lag {got[3]} instead of {want[3]}')
        return
    if name.startswith('compute_delays '):
        got, want = got[:3], want[:3]
        if not np.isfinite(want).all() or abs(want[0]) < 1e-3:
            case.hit(clause)
            return
    case.ok(close(got, want), clause,
            f'{name} {what}: {np.ravel(got)[:4]} instead of '
            f'{np.ravel(want)[:4]}')


def judge(case, name, run, P, spoil):
    """P: what belongs to each sensor; run(P): the result of each."""
    rng = case.rng
    m = len(P)
    case.note(function=name, sensors=m)
    full = case.call(run, P)
    case.ok(len(full) == m, 'alone', f'{name}: {len(full)} results of {m}')
    j = int(rng.integers(0, m))
    one = case.call(run, [P[j]])
    compare(case, name, 'alone', one[0], full[j], f'sensor {j} alone')
    order = [int(q) for q in rng.permutation(m)[:int(rng.integers(1, m + 1))]]
    some = case.call(run, [P[q] for q in order])
    for a, q in zip(some, order):
        compare(case, name, 'others', a, full[q], f'among {order}')
    bad = [int(q) for q in rng.permutation(m)[:int(rng.integers(1, m))]]
    kinds = []
    Q = list(P)
    for q in bad:
        Q[q], k = spoil(rng, P[q])
        kinds.append(k)
    case.note(broken=kinds, at=bad)
    out = case.call(run, Q)
    for q in range(m):
        if q not in bad:
            compare(case, name, 'broken', out[q], full[q],
                    f'sensor {q}, others {kinds}')
    case.sig(name, m, kinds[0])


def records(case):
    rng = case.rng
    every, n, _ = tables(rng)
    m = int(rng.integers(2, 7))
    for name, (run, nan) in every.items():
        P = [record(rng, n) for _ in range(m)]
        judge(case, name, run, P,
              lambda r, x, nan=nan: broken(r, x, nan))


# --------------------------------------------------------- arrays of places
def far(rng, p):
    k = str(rng.choice(['nan', 'zero', 'far', 'near', 'inf']))
    q = np.array(p, float)
    if k == 'nan':
        q[int(rng.integers(0, len(q)))] = np.nan
    elif k == 'zero':
        q = q * 0
    elif k == 'far':
        q = q * 1e6
    elif k == 'inf':
        q[int(rng.integers(0, len(q)))] = np.inf
    else:
        q = q + 1e-3
    return q, k


def globe(rng, p):
    k = str(rng.choice(['nan', 'pole', 'elsewhere', 'south']))
    la, lo = p
    q = {'nan': (np.nan, lo), 'pole': (83.9, lo), 'south': (-la, lo),
         'elsewhere': (la * .3, lo + 2.5)}[k]
    return np.array(q), k


def places(case):
    rng = case.rng
    m = int(rng.integers(2, 8))
    th, d = float(rng.uniform(-7, 7)), rng.normal(size=2)
    la, lo = float(rng.uniform(-79, 79)), float(rng.uniform(-170, 170))
    zone = int((lo + 180) // 6) + 1
    t = pd.date_range('2024-01-01', periods=3, freq='20s')
    o = rng.normal(size=2) * 100

    def T(P):
        return np.array(P, float).T

    def two(r):
        return list(np.array([np.asarray(r[0], float),
                              np.asarray(r[1], float)]).T)

    def frame(P):
        return pd.DataFrame(np.array(P, float), columns=['x', 'y'],
                            index=[f's{j}' for j in range(len(P))])

    def project(P):
        r = spatial.project_vectors(frame(P), d)
        return list(np.asarray(r, float))

    def vectors(P):
        f = frame(P)
        return list(np.asarray(spatial.compute_vectors(f.x, f.y, o), float))
    flat = {
        'dot': lambda P: list(spatial.dot(T(P), d)),
        'magnitude': lambda P: list(spatial.magnitude(T(P))),
        'unit': lambda P: list(spatial.unit(T(P)).T),
        'rect2pol': lambda P: two(spatial.rect2pol(*T(P))),
        'pol2rect': lambda P: two(spatial.pol2rect(*T(P))),
        'rotate_vector': lambda P: list(np.asarray(spatial.rotate_vector(
            T(P), th)).T),
        'project_vectors': project,
        'project_vectors array': lambda P: list(np.asarray(
            spatial.project_vectors(np.array(P, float), d), float)),
        'compute_vectors': vectors,
    }
    for name, run in flat.items():
        with np.errstate(all='ignore'):
            judge(case, name, run, [rng.normal(size=2) * 100
                                    for _ in range(m)], far)
    round_ = {
        'latlon2utm': lambda P: list(spatial.latlon2utm(*T(P), zone)),
        'latlon2lcs': lambda P: two(spatial.latlon2lcs(*T(P), la, lo)),
        'lla2flat': lambda P: two(spatial.lla2flat(*T(P), la, lo)),
        'lla2flat tmerc': lambda P: two(spatial.lla2flat(
            *T(P), la, lo, method='tmerc')),
    }
    G = [np.array([la + rng.normal() * .1, lo + rng.normal() * .1])
         for _ in range(m)]
    for name, run in round_.items():
        judge(case, name, run, G, globe)
    en = np.array(spatial.latlon2utm(la, lo, zone)[:2], float)
    judge(case, 'utm2latlon', lambda P: list(spatial.utm2latlon(
        *T(P), zone, la < 0)), [en + rng.normal(size=2) * 1e3
                                for _ in range(m)],
        lambda r, p: (p + r.normal(size=2) * 1e4, 'far'))
    judge(case, 'lcs2latlon', lambda P: two(spatial.lcs2latlon(
        *T(P), la, lo)), [rng.normal(size=2) * 1e3 for _ in range(m)],
        lambda r, p: (p + r.normal(size=2) * 1e4, 'far'))

    # distances between the samples of two sites
    def blocks(P):
        D = np.asarray(spatial.spacetime_distances(*T(P), t, 7., th))
        n = len(t)
        return [D[j * n:(j + 1) * n, j * n:(j + 1) * n]
                for j in range(len(P))]
    with np.errstate(all='ignore'):
        judge(case, 'spacetime_distances', blocks,
              [rng.normal(size=2) * 100 for _ in range(m)], far)


# ------------------------------------------------------------- whole plants
def motion(case):
    """A dead or foreign sensor changes nothing among the others."""
    rng = case.rng
    n = int(rng.choice([240, 400, 600]))
    m = int(rng.integers(4, 7))
    sp, th = float(rng.uniform(3, 12)), float(rng.uniform(-math.pi, math.pi))
    xy = rng.uniform(-80, 80, (m, 2))
    lag = np.round((xy @ [math.cos(th), math.sin(th)]) / sp).astype(int)
    long = np.convolve(rng.normal(size=n + 200), np.ones(15) / 15, 'same')
    long = .7 + .25 * long / np.abs(long).max()
    X = np.array([long[100 - q:100 - q + n] for q in lag]).T
    L = [f's{j}' for j in range(m)]
    t = clock(n, 1.)
    D, P = pd.DataFrame(X, t, L), pd.DataFrame(xy, L, ['E', 'N'])
    method = str(rng.choice(['jamaly', 'gagne']))
    back = str(rng.choice(['xcorr', 'tf']))
    v, a, w = case.call(cmv.compute_cmv, D, P, method=method,
                        delay_backend=back)
    y, kind = broken(rng, X[:, 0], True)
    if kind not in ('missing', 'stuck', 'zero'):
        y, kind = y * np.nan, 'missing'
    at = int(rng.integers(0, m + 1))
    D2, P2 = D.copy(), P.T.copy()
    D2.insert(at, 'bad', y)
    P2.insert(at, 'bad', rng.uniform(-80, 80, 2))
    P2 = P2.T
    case.note(method=method, backend=back, kind=kind, at=at, n=n, v=sp, th=th)
    v2, a2, w2 = case.call(cmv.compute_cmv, D2, P2, method=method,
                           delay_backend=back)
    case.close([v2, a2], [v, a], 'plant', rtol=1e-5, atol=1e-6)
    p1 = {tuple(map(str, p)): i for i, p in enumerate(w.allpairs)}
    p2 = {tuple(map(str, p)): i for i, p in enumerate(w2.allpairs)}
    for p, i in p1.items():
        case.ok(p in p2 and w2.pair_flag[p2[p]] == w.pair_flag[i], 'plant',
                f'{p} has another flag')
        if w.pair_lag is not None and w2.pair_lag is not None:
            case.close(w2.pair_lag[p2[p]], w.pair_lag[i], 'plant',
                       rtol=1e-4, atol=1e-4)
    case.ok(all(w2.pair_flag[i] != cmv.Flag.GOOD for p, i in p2.items()
                if 'bad' in p), 'plant', 'the dead sensor takes part')
    # places are assigned among the units that have a prediction
    Q = P + rng.normal(size=P.shape) * 30
    hole = int(rng.integers(0, m))
    r1 = dict(case.call(field.assign_positions, P.drop(index=L[hole]),
                        Q.drop(index=L[hole]))[0])
    Q.loc[L[hole], 'N'] = np.nan
    r2 = dict(case.call(field.assign_positions, P, Q)[0])
    case.ok(r2.get(L[hole]) == L[hole]
            and all(r2[q] == r1[q] for q in r1), 'plant',
            f'assignment {r2} instead of {r1}')
    # a remap moves what it names and nothing else
    data = pd.DataFrame(rng.normal(size=(m, 3)), L, list('abc'))
    i, j = [L[q] for q in rng.permutation(m)[:2]]
    got = case.call(field.remap_positions, data, [(i, j), (j, i)], ['a', 'c'])
    want = data.copy()
    want.loc[i, ['a', 'c']] = data.loc[j, ['a', 'c']]
    want.loc[j, ['a', 'c']] = data.loc[i, ['a', 'c']]
    case.close(got.values, want.values, 'plant')
    # a unit that is not used for the prediction
    recs = []
    for ang in (0.3, 1.9):
        lg = np.round((xy @ [math.cos(ang), math.sin(ang)]) / sp).astype(int)
        recs.append(pd.DataFrame(np.array(
            [long[100 - q:100 - q + n] for q in lg]).T, t, L))
    cv = [spatial.pol2rect(sp, .3), spatial.pol2rect(sp, 1.9)]
    mode = str(rng.choice(['all', 'distance']))
    k = dict(mode=mode, ndownsel=m)
    o1 = case.call(field.compute_predicted_position, recs, P, L[0], cv, **k)
    P3 = P.copy()
    P3.loc['off'] = [1e5, 1e5]
    recs3 = [r.assign(off=y) for r in recs]
    o3 = case.call(field.compute_predicted_position, recs3, P3, L[0], cv, **k)
    if mode == 'distance':
        case.close(o3[0], o1[0], 'plant', rtol=1e-6, atol=1e-5)
    for q in (0, 1):
        c1, c3 = o1[1][q], o3[1][q]
        ix = [s for s in c1.index if s in c3.index]
        case.close(c3.loc[ix].values, c1.loc[ix].values, 'plant', rtol=1e-4,
                   atol=1e-4)
    case.sig('plant', method, back, kind, m, mode)


REQUIRED = REQUIRED + ['plant']
WORKLOADS = [('records', records, 80, 2400), ('places', places, 120, 6000),
             ('motion', motion, 80, 3000)]
