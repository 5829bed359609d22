import numpy as np
import pandas as pd

from solarspatialtools import cmv, field, signalproc, spatial
from solarspatialtools.synthirrad import cloudfield, copula
from mon import cmvref
from mon.core import Skip
from mon.core import labels
from mon.core import clock

ID = 'C32'
RULE = ('One and the same delay, or one and the same moving cloud pattern, is '
        'handed to every module that speaks about it: filters and delay '
        'estimators; cloud motion, space-time distance, plant filter and '
        'position prediction; synthetic clouds and cloud motion.  They have '
        'to tell the same story.  Distinct = (workload, octant, sampling, '
        'sites).')
REQUIRED = ['delay:xcorr', 'delay:loop', 'delay:fft', 'delay:tf',
            'delay:phase', 'delay:filter', 'scene:cmv', 'scene:spacetime',
            'scene:camfilter', 'scene:position', 'copula:motion',
            'cloudfield:motion', 'coords:cmv', 'filter:spectrum']
ASSUMES = ['Synthetic clouds are random: their motion is judged to 30 % and '
           '0.5 rad, and by the lags of most pairs of sites.']


def frame(a, dt, cols):
    idx = clock(len(a), dt)
    return pd.DataFrame(a, index=idx, columns=cols)


def delay(case):
    """A delay put in by a filter is the delay read by every estimator."""
    rng = case.rng
    n = int(rng.integers(300, 700)) * 2
    dt = float(rng.choice([1, 0.5, 2, 10]))
    m = int(rng.integers(1, 4))
    # periodic, so that a circular delay is exact; quiet ends
    kmax = max(12, n // 14)
    x = np.zeros((n, m))
    t = np.arange(n)
    for j in range(m):
        k = np.arange(1, kmax)
        a = rng.normal(size=len(k)) / np.sqrt(k)
        x[:, j] = (a[:, None] * np.cos(
            2 * np.pi * k[:, None] * t / n
            + rng.uniform(0, 6.3, len(k))[:, None])).sum(0)
    # nothing at the ends, so that nothing is lost there
    x *= np.clip(np.hanning(n) - 0.02, 0, None)[:, None]
    x -= np.where(x != 0, x.sum(axis=0) / (x != 0).sum(axis=0), 0)
    k = int(rng.integers(1, 9)) * int(rng.choice([-1, 1]))
    D = k * dt
    cols = labels(rng, m)
    X = frame(x, dt, cols)
    f = np.fft.fftfreq(n, dt)
    one = pd.DataFrame({'tf': np.ones(n, complex)}, index=f)
    H = pd.Series(np.asarray(case.call(signalproc.apply_delay, one,
                                       D)).ravel(), index=f)
    Y = pd.DataFrame({c: np.asarray(case.call(
        signalproc.apply_filter, X[c], H)) for c in cols},
        index=X.index)
    case.note(n=n, dt=dt, D=D, m=m)
    case.close(Y.values, np.roll(x, k, axis=0), 'delay:filter', rtol=1e-6,
               atol=1e-6 * np.abs(x).max(), msg='a delay makes it later')
    for mode in ('loop', 'fft'):
        d, _ = case.call(signalproc.compute_delays, X, Y, mode=mode)
        case.close(d, np.full(m, D), f'delay:{mode}', atol=1e-9)
    d, _ = case.call(signalproc.xcorr_delay, X[cols[0]], Y[cols[0]])
    case.close(d, D, 'delay:xcorr', atol=1e-9)
    # cross spectra (biased short, not in sign)
    for method in ('fit', 'multi'):
        d, ex = case.call(signalproc.compute_delays_tf, X[cols[0]],
                          Y[[cols[0]]], 5, 0.6, 0.05 / dt, method)
        r = float(np.ravel(d)[0]) / D
        case.ok(0.6 < r < 1.1, 'delay:tf', f'{np.ravel(d)[0]} instead of {D}')
    # the phase of the very filter
    g = f >= 0
    coh = pd.DataFrame(np.ones((g.sum(), 1)), index=f[g], columns=['tf'])
    Hp = pd.DataFrame(np.asarray(H)[g].reshape(-1, 1), index=f[g],
                      columns=['tf'])
    d, _ = case.call(signalproc.tf_delay, Hp, coh, None, 0.4 / abs(D), 'fit')
    case.close(np.ravel(d)[0], D, 'delay:phase', rtol=1e-6)
    case.sig('delay', dt, np.sign(k), m)


def scene(case):
    rng = case.rng
    dt = float(rng.choice([1, 2, 5]))
    n = int(rng.integers(500, 800))
    v = float(rng.uniform(4, 20))
    th = rng.uniform(0, 2 * np.pi)
    u = np.array([np.cos(th), np.sin(th)])
    w = np.array([-u[1], u[0]])
    m = int(rng.integers(8, 12))
    k = rng.choice(np.arange(-7, 8), m, replace=False)
    P = (k * v * dt)[:, None] * u + rng.uniform(-1, 1, (m, 1)) * 4 * v * dt * w
    off = rng.choice([0., 5e5]) * np.array([1., 8.])
    ids = labels(rng, m)
    A = cmvref.field(rng, n, dt, P, u, v)
    ts = frame(A, dt, ids)
    pos = pd.DataFrame(P + off, index=ids, columns=['E', 'N'])
    case.note(v=v, th=th, dt=dt, m=m)
    V, th2, wd = case.call(cmv.compute_cmv, ts, pos, None, 'jamaly',
                           {'mincorr': 0.5})
    if sum(f.name == 'GOOD' for f in wd.pair_flag) < 10:
        raise Skip
    case.ok(abs(V / v - 1) < 0.15 and cmvref.ang(th2, th) < 0.15, 'scene:cmv',
            f'{V} at {th2} instead of {v} at {th}')
    # the very numbers the motion comes out with go into the others
    vec = np.array(case.call(spatial.pol2rect, v, th))
    case.close(vec, v * u, 'scene:cmv', rtol=1e-9)
    r0 = int(rng.integers(20, n - 40))
    rows = np.arange(r0, r0 + 16)
    D = np.asarray(case.call(spatial.spacetime_distances, pos['E'].values,
                             pos['N'].values, ts.index[rows], v, th))
    # sites first, then times
    flat = A[rows].T.ravel()
    phase = (rows[None, :] - k[:, None]).ravel()
    same = phase[:, None] == phase[None, :]
    # on the same streamline the distance is across only
    acr = (P @ w)
    acr = np.repeat(acr, len(rows))
    want = np.hypot((phase[:, None] - phase[None, :]) * v * dt,
                    acr[:, None] - acr[None, :])
    case.close(D, want, 'scene:spacetime', rtol=1e-5,
               atol=1e-5 * v * dt * 20 + 1e-4,
               msg='samples of one piece of cloud are not together')
    sp = np.abs(flat[:, None] - flat[None, :])[same]
    case.ok(sp.max() < 1e-6, 'scene:spacetime', 'scene is not frozen')
    # plant filter: the reference turned into the mean of the plant
    f = np.fft.fftfreq(n, dt)
    j = int(np.argmin(np.abs(k)))
    ref = pos.loc[ids[j]]
    dx = v * dt / 20
    xmax = v * dt * n
    H = case.call(signalproc.get_camfilter, pos, v, tuple(u), ref, dx=dx,
                  xmax=min(xmax, dx * 60000))
    y = np.asarray(case.call(signalproc.apply_filter, ts[ids[j]], H))
    true = A.mean(axis=1)
    mid = slice(60, n - 60)
    amp = np.ptp(true[mid])
    err = np.abs(y - true)[mid].max() / amp
    err2 = np.abs(A[:, j] - true)[mid].max() / amp
    case.note(filter_error=err, without=err2)
    case.ok(err < max(0.1, 0.6 * err2), 'scene:camfilter',
            f'filtered reference misses the mean of the plant by {err}, '
            f'unfiltered by {err2}')
    case.sig('scene', int(th // (np.pi / 4)), dt, m)


def position(case):
    """With the motion the clouds have, a true plan is predicted."""
    rng = case.rng
    dt = float(rng.choice([1, 5, 10]))
    n = int(rng.integers(500, 800))
    m = 16
    t1 = rng.uniform(0, 2 * np.pi)
    th = np.array([t1, t1 + rng.choice([-1, 1])
                   * rng.uniform(np.pi / 3, 2 * np.pi / 3)])
    v = rng.uniform(5, 15) * np.array([1, rng.uniform(0.8, 1.25)])
    L = v.mean() * dt * 2.5
    P = np.array([(i % 4, i // 4) for i in range(m)], float)
    P = (P + rng.uniform(-0.2, 0.2, P.shape)) * L
    ids = labels(rng, m)
    pos = pd.DataFrame(P, index=ids, columns=['E', 'N'])
    dfs = [frame(cmvref.field(rng, n, dt, P, np.array(
        [np.cos(a), np.sin(a)]), q), dt, ids) for a, q in zip(th, v)]
    vec = [np.array(spatial.pol2rect(q, a)) for a, q in zip(th, v)]
    j = ids[int(rng.choice([5, 6, 9, 10]))]
    p, _ = case.call(field.compute_predicted_position, dfs, pos, j, vec,
                     freq_limit=0.2 / dt)
    e = np.hypot(*(p - pos.loc[j].values)) / L
    # a wrong motion must fit worse
    q, _ = case.call(field.compute_predicted_position, dfs, pos, j,
                     [-c for c in vec], freq_limit=0.2 / dt)
    case.note(error=e)
    case.ok(e < 0.6, 'scene:position', f'{p} instead of {pos.loc[j].values}: '
            f'{e} spacings off')
    case.sig('pos', int(t1 // (np.pi / 4)), dt)


def fromcopula(case):
    rng = case.rng
    dt = 15.0
    v = float(rng.uniform(3, 20))
    th = rng.uniform(0, 2 * np.pi)
    u = np.array([np.cos(th), np.sin(th)])
    w = np.array([-u[1], u[0]])
    m = 8
    k = rng.permutation(m) * 2 - 7
    P = (k * v * dt)[:, None] * u \
        + (rng.uniform(-1, 1, m) * min(4.0, v * dt * 0.02))[:, None] * w
    t = pd.date_range('2024-01-01 10:00', periods=130, freq='15s')
    c = case.call(copula.downscale, t, P[:, 0], P[:, 1], v, th,
                  float(rng.uniform(0.4, 0.7)), copula.DEFAULT_PARAMS,
                  int(rng.integers(0, 10 ** 6)))
    ids = [f'p{j}' for j in range(m)]
    ts = pd.DataFrame(c, index=t, columns=ids)
    pos = pd.DataFrame(P, index=ids, columns=['E', 'N'])
    # the sites lie along the wind: speed and sense, by the lag of each pair
    d, _ = case.call(signalproc.compute_delays, ts[[ids[0]] * (m - 1)],
                     ts[ids[1:]].set_axis([ids[0]] * (m - 1), axis=1))
    want = (k[1:] - k[0]) * dt
    n_ok = int(np.sum(np.abs(np.asarray(d) - want) < dt / 2))
    case.note(lags=d, want=want)
    case.ok(n_ok >= (m - 1) * 0.6, 'copula:motion',
            f'lags {np.asarray(d)} of the sites instead of {want}')
    case.sig('copula', int(th // (np.pi / 4)))


def fromfield(case):
    said = []
    for _ in range(3):               # clouds are random: three fields at most
        V, A, v, th = onefield(case)
        if abs(V / v - 1) < 0.3 and cmvref.ang(A, th) < 0.5:
            case.hit('cloudfield:motion')
            return
        said.append(f'{V} at {A} instead of {v} at {th}')
    case.ok(False, 'cloudfield:motion', '; '.join(said))


def onefield(case):
    rng = case.rng
    v = float(rng.uniform(5, 25))
    th = rng.uniform(0, 2 * np.pi)
    m = 12
    # positions in the frame of the wind, in pixels
    a = rng.choice(np.arange(0, 40), m, replace=False)
    b = rng.integers(0, 12, m)
    X = np.column_stack([a + 0.5, b + 0.5]) * v
    T = int(rng.integers(900, 1500))
    w = np.ones(8)
    w = 2.0 ** np.arange(8) / 2 ** 8
    w = w / w.sum()
    np.random.seed(int(rng.integers(0, 10 ** 6)))
    fld = case.call(cloudfield.cloudfield_timeseries, w,
                    np.arange(1, 9), (T + 50, 24), 0.3, 0.7, 1.1, 0.3)
    if fld.shape[0] < T + 45:
        raise Skip
    hi = a.max()
    cols = {}
    for j in range(m):
        # the time axis of the field runs against the wind
        x = (hi - a[j] + 0.5) * v
        cols[f'p{j}'] = np.asarray(case.call(
            cloudfield.get_positional_ts, (x, X[j, 1]), fld, v, T))
    ts = frame(np.column_stack(list(cols.values())), 1.0, list(cols))
    E, N = case.call(spatial.rotate_vector, (X[:, 0], X[:, 1]), th)
    pos = pd.DataFrame({'E': E, 'N': N}, index=list(cols))
    V, A, w = case.call(cmv.compute_cmv, ts, pos, None, 'jamaly',
                        {'mincorr': 0.6})
    g = sum(f.name == 'GOOD' for f in w.pair_flag)
    case.note(speed=V, angle=A, want=(v, th), good=g)
    if g < 15:
        raise Skip
    case.sig('field', int(th // (np.pi / 4)))
    return V, A, v, th


def coords(case):
    """Where the sensors are told by UTM, local or flat coordinates."""
    rng = case.rng
    lat = float(rng.uniform(-60, 60))
    lon = float(rng.uniform(-179, 179))
    m = int(rng.integers(6, 10))
    dt, v = 1.0, float(rng.uniform(5, 15))
    th = rng.uniform(0, 2 * np.pi)
    u = np.array([np.cos(th), np.sin(th)])
    Q = rng.uniform(-1, 1, (m, 2)) * v * dt * 8
    la = lat + np.degrees(Q[:, 1] / 6.371e6)
    lo = lon + np.degrees(Q[:, 0] / 6.371e6 / np.cos(np.radians(lat)))
    ids = labels(rng, m)
    ts = frame(cmvref.field(rng, 400, dt, Q, u, v), dt, ids)
    out = []
    # one zone for the whole plant
    if len(set(((lo + 180) // 6).tolist())) > 1 or len(set(la > 0)) > 1:
        raise Skip
    q = case.call(spatial.latlon2utm, pd.Series(la), pd.Series(lo))
    out.append((np.asarray(q['E']), np.asarray(q['N'])))
    out.append(case.call(spatial.latlon2lcs, la, lo, lat, lon))
    case.note(lat=lat, lon=lon, v=v, th=th)
    res = []
    for E, N in out:
        pos = pd.DataFrame({'E': np.asarray(E, float),
                            'N': np.asarray(N, float)}, index=ids)
        V, A, w = case.call(cmv.compute_cmv, ts, pos, None, 'jamaly',
                            {'mincorr': 0.5})
        if sum(f.name == 'GOOD' for f in w.pair_flag) < 5:
            raise Skip
        res.append((V, A))
    case.close(res[1][0], res[0][0], 'coords:cmv', rtol=1e-4)
    case.ok(cmvref.ang(res[0][1], res[1][1]) < 1e-3, 'coords:cmv',
            f'{res[0][1]} and {res[1][1]}')
    for meth in ('matlab', 'tmerc'):
        E, N = case.call(spatial.lla2flat, la, lo, lat, lon, method=meth)
        d1 = np.hypot(np.subtract.outer(E, E), np.subtract.outer(N, N))
        d2 = np.hypot(np.subtract.outer(*[out[0][0]] * 2),
                      np.subtract.outer(*[out[0][1]] * 2))
        i = np.triu_indices(m, 1)
        case.ok(np.all(np.abs(d1[i] / d2[i] - 1) < 3e-3), 'coords:cmv',
                'distances differ between coordinate systems')
    case.sig('coords', int(th // (np.pi / 4)), lat > 0)


def spectrum(case):
    """A filter that was applied is the one that is measured."""
    rng = case.rng
    n = int(rng.integers(3000, 6000))
    dt = float(rng.choice([1, 0.5, 5]))
    x = frame(rng.normal(size=(n, 1)), dt, ['x'])['x']
    f = np.fft.fftfreq(n, dt)
    fc = rng.uniform(0.05, 0.3) / dt
    H = pd.Series(1 / (1 + 1j * f / fc), index=f)
    g = float(rng.uniform(0.3, 3))
    y = case.call(signalproc.apply_filter, x, H * g)
    y = pd.Series(np.asarray(y).real, index=x.index, name='x')
    tf, coh = case.call(signalproc.averaged_tf, x, y, 12)
    fr = np.asarray(tf.index, float)
    want = g / (1 + 1j * fr / fc)
    k = (fr > 0.02 / dt) & (fr < 0.42 / dt)
    e = np.abs(np.ravel(tf.values) - want)[k] / np.abs(want)[k]
    case.ok(np.median(e) < 0.05 and np.ravel(coh.values)[k].mean() > 0.9,
            'filter:spectrum', f'measured filter is off by {np.median(e)}')
    p, q = (case.call(signalproc.averaged_psd, s, 12) for s in (x, y))
    r = np.ravel(q.values)[k] / np.ravel(p.values)[k] / np.abs(want[k]) ** 2
    case.ok(abs(np.median(r) - 1) < 0.08, 'filter:spectrum',
            f'power is not filtered by |H|^2: ratio {np.median(r)}')
    case.sig('spectrum', dt)


WORKLOADS = [('delay', delay, 100, 2500), ('scene', scene, 60, 1200),
             ('position', position, 40, 900), ('copula', fromcopula, 24, 300),
             ('cloudfield', fromfield, 40, 700), ('coords', coords, 60, 1200),
             ('spectrum', spectrum, 30, 700)]
