"""Results carry the units of their inputs: lengths, times, signals."""
import math

import numpy as np
import pandas as pd

from solarspatialtools import cmv, field, irradiance, signalproc, spatial
from solarspatialtools import stats
from solarspatialtools.synthirrad import cloudfield, copula
from mon.core import clock, grain
from checks.c22_downscale import params

ID = 'C36'
RULE = ('Every function is run with its lengths, times and signals expressed '
        'in other units (all inputs of that kind times a factor, mostly a '
        'power of two so that the arithmetic stays exact); each result must '
        'change by the power of the factors that its unit says.  Distinct = '
        '(function, factor of length, factor of time, factor of signal).')
REQUIRED = ['length', 'time', 'signal', 'all']
ASSUMES = ['Limits that are documented in absolute units (clear-sky index '
           'limits, the 0.02 Hz of the delay estimate inside compute_cmv, '
           'decay of the correlation with distance, percent of 1000 W/m2) '
           'are given in the same unit or left out.',
           'The least-squares search of the motion estimate is compared to '
           '1e-5, other results to 1e-8 of their scale.']
WIDE = [2. ** -30, 2. ** 20]  # of signals
FACT = [1 / 256, 1 / 64, 1 / 16, 1 / 4, 1 / 2, 1, 1, 2, 4, 16, 64]


def series(rng, n, m):
    """m smooth records of n samples."""
    x = rng.normal(size=(n + 40, m))
    x = np.array([np.convolve(c, np.ones(9) / 9, 'same') for c in x.T])
    return x.T[20:-20] + rng.normal(size=(n, m)) * .05 + rng.normal()


class Units:
    """The inputs in units that are smaller by the given factors."""
    def __init__(self, a=1., b=1., c=1.):
        self.a, self.b, self.c = a, b, c


def moving(rng, n, m, sp, th, dt):
    xy = rng.uniform(-60, 60, (m, 2)) * sp * dt / 5
    lag = np.round((xy @ [math.cos(th), math.sin(th)]) / sp / dt).astype(int)
    g = np.convolve(rng.normal(size=n + 200), np.ones(15) / 15, 'same')
    g = .7 + .25 * g / np.abs(g).max()
    return xy, np.array([g[100 - q:100 - q + n] for q in lag]).T


def table(rng):
    """name -> (function of the units, powers of (a, b, c) of each result)."""
    n = int(rng.choice([64, 151, 240, 400]))
    dt = float(rng.choice([1, 2, 10, 60]))
    t0 = clock(n, dt)[0]
    m = int(rng.integers(2, 6))
    X, Y = series(rng, n, m), series(rng, n, m)
    navgs = int(rng.choice([2, 3, 5]))
    L = [f's{j}' for j in range(m)]
    flim = float(rng.choice([.1037, .3041])) / dt
    sp, th = float(rng.uniform(2, 20)), float(rng.uniform(-3, 3))
    xy = rng.normal(size=(m, 2)) * 100
    o = rng.normal(size=2) * 50
    tr = int(rng.integers(0, 4))
    tau = int(rng.choice([1, 2, 3]))
    ma = bool(rng.integers(0, 2))
    seed = int(rng.integers(0, 10 ** 6))
    det = rng.choice(['linear', 'constant'])
    fr = np.linspace(-.6 / dt, .6 / dt, 41)
    H = np.exp(-np.abs(fr) * dt * 2 - 3j * fr * dt)
    plan, moved = moving(rng, n, 5, sp, th, dt)
    PL = [f'u{j}' for j in range(5)]
    method = str(rng.choice(['jamaly', 'gagne']))
    shape = str(rng.choice(['square', 'gaussian']))
    dmode = str(rng.choice(['loop', 'fft']))
    ref0 = pd.Series({'E': float(o[0]), 'N': float(o[1])})
    par = params(rng)
    csi = float(rng.uniform(.3, .8))
    cf = rng.uniform(size=(400, 60))

    def T(u, k=n):
        ix = t0 + pd.to_timedelta(
            np.round(np.arange(k) * dt * u.b * 1e9).astype('int64'), unit='ns')
        return grain(ix, tr)

    def F(u, Z, names=L):
        return pd.DataFrame(Z * u.c, T(u), names[:Z.shape[1]])

    def S(u, Z):
        return pd.Series(Z[:, 0] * u.c, T(u), name='g')

    def P(u, Z=xy, names=L):
        return pd.DataFrame(Z * u.a, names, ['E', 'N'])

    def psd(u, sc):
        r = signalproc.averaged_psd(F(u, X), navgs, detrend=str(det),
                                    scaling=sc)
        return np.asarray(r.index, float), r.values

    def atf(u):
        a, b = signalproc.averaged_tf(F(u, X), F(u, Y), navgs)
        return np.asarray(a.index, float), a.values, b.values

    def tfd(u, method):
        a, b = signalproc.averaged_tf(F(u, X), F(u, X + .1 * Y), navgs)
        if method != 'multi':
            a, b = a.iloc[:, [0]], b.iloc[:, [0]]
        d, ix = signalproc.tf_delay(a, b, .3, flim / u.b, method)
        return np.asarray(d, float), np.asarray(ix, float)

    def delays(u, mode, sc):
        d, e = signalproc.compute_delays(F(u, X), F(u, Y), mode, sc)
        return d, e['peak_corr'], e['mean_corr'], e['zero_corr']

    def dtf(u, method):
        d, e = signalproc.compute_delays_tf(
            F(u, X), F(u, X + .1 * Y), navgs, .3, flim / u.b, method,
            compute_xcorr=True)
        return d, e['mean_coh'], e['peak_corr']

    def xd(u, sc):
        return signalproc.xcorr_delay(S(u, X), S(u, Y), sc)

    def flt(u):
        return (signalproc.apply_filter(F(u, X), pd.Series(H, fr / u.b))
                .values,)

    def delay(u):
        return (np.asarray(signalproc.apply_delay(
            pd.DataFrame(H, fr / u.b), 3.7 * dt * u.b)),)

    def plant(u):
        c, x = signalproc.get_1d_plant(xy[:, 0] * u.a, o[0] * u.a,
                                       width=32. * u.a, shape=shape,
                                       dx=8. * u.a, xmax=2048. * u.a)
        return c, x

    def cam(u):
        f = signalproc.get_camfilter(P(u), sp * u.a / u.b,
                                     (math.cos(th), math.sin(th)), ref0 * u.a,
                                     dx=8. * u.a, width=32. * u.a,
                                     xmax=2048. * u.a, shape=shape)
        return np.asarray(f.index, float), f.values

    def motion(u):
        k = {'maxvelocity': 4 * sp * u.a / u.b} if method == 'jamaly' else {}
        v, a, w = cmv.compute_cmv(
            pd.DataFrame(moved, T(u), PL), P(u, plan, PL), method=method,
            options=k)
        if w.wind_speed is None:
            return v, 0, 0, np.zeros(1), np.zeros(1)
        return (v, math.cos(a), math.sin(a), np.asarray(w.pair_lag),
                np.ravel(np.asarray(w.pair_dists)))

    def subset(u):
        g = np.random.default_rng(seed).normal(size=(9, 2)) * u.a / u.b
        return (np.sort(cmv.optimum_subset(pd.Series(g[:, 0]),
                                           pd.Series(g[:, 1]), 4)),)

    def predicted(u):
        p, c = field.compute_predicted_position(
            [pd.DataFrame(moved, T(u), PL), pd.DataFrame(
                moved[:, [2, 1, 3, 0, 4]], T(u), PL)], P(u, plan, PL), 'u0',
            [np.array(spatial.pol2rect(sp, th)) * u.a / u.b,
             np.array(spatial.pol2rect(sp * .7, th + 1.4)) * u.a / u.b],
            mode='all', navgs=3, freq_limit=flim / u.b, coh_limit=.2)
        return (p, c[0].delay.values, c[0].coh.values,
                c[0].delay_dist.values, c[1].plan_dist.values)

    def assign(u):
        r, d = field.assign_positions(P(u), P(u, xy[::-1] + 7.))
        return np.array([L.index(q[1]) for q in r]), d.values

    def apart(u):
        return (np.asarray(spatial.spacetime_distances(
            *(xy * u.a).T, T(u, 6), sp * u.a / u.b, th)),)

    def vectors(u):
        V = xy * u.a
        return (spatial.magnitude(V.T), spatial.unit(V.T),
                spatial.dot(V.T, o * u.a), *spatial.rect2pol(*V.T),
                np.asarray(spatial.rotate_vector(V.T, th)),
                np.asarray(spatial.project_vectors(V, o * u.a)),
                np.asarray(spatial.compute_vectors(*V.T, o * u.a)),
                np.asarray(spatial.compute_intersection(
                    V[:1], V[1:2])))

    def errors(u):
        a, b = F(u, X), F(u, Y)
        return tuple(np.asarray(f(a, b)) for f in (
            stats.bias_error, stats.absolute_error, stats.squared_error,
            stats.mbe, stats.mae, stats.mse, stats.rmse))

    def var(u):
        # windows are counted from midnight
        x = pd.DataFrame(X * u.c, pd.Timestamp('2023-05-06')
                         + (T(u) - t0), L)
        return tuple(np.asarray(f(x, tau, ma)) for f in (
            stats.variability_score, stats.darr))

    def quant(u):
        ix = pd.date_range('2021-03-01', periods=96, freq='2h')
        return (stats.calc_quantile(pd.Series(cf[:96, 0] * u.c, ix, name='g'),
                                    '3d', .7).values,)

    def clear(u):
        return (irradiance.clearsky_index(F(u, np.abs(X)), S(
            u, np.abs(Y) + .1)).values,)

    def energy(u, sc):
        return signalproc.correlation(X[:, 0] * u.c, Y[:, 0] * u.c, sc)

    def ts(u):
        p = (np.abs(xy[0]) % 90) * sp
        return (cloudfield.get_positional_ts(
            (p[0] * u.a / 4, p[1] * u.a / 4), cf, sp * u.a, 200),)

    def down(u):
        q = np.linspace(0, 90, m)
        ix = t0 + pd.to_timedelta(np.arange(12) * 8 * u.b, unit='s')
        return (copula.downscale(ix, q, q[::-1] * .5, 5. / u.b, th, csi, par,
                                 seed=seed),)
    none = (0, 0, 0)
    len_, time, sig = (1, 0, 0), (0, 1, 0), (0, 0, 1)
    hz = (0, -1, 0)
    out = {
        'averaged_psd density': (lambda u: psd(u, 'density'),
                                 [hz, (0, 1, 2)]),
        'averaged_psd spectrum': (lambda u: psd(u, 'spectrum'),
                                  [hz, (0, 0, 2)]),
        'averaged_tf': (atf, [hz, none, none]),
        'tf_delay fit': (lambda u: tfd(u, 'fit'), [time, none]),
        'tf_delay multi': (lambda u: tfd(u, 'multi'), [time, none]),
        'tf_delay diff': (lambda u: tfd(u, 'diff'), [time, none]),
        'compute_delays loop': (lambda u: delays(u, 'loop', 'coeff'),
                                [time, none, none, none]),
        'compute_delays fft': (lambda u: delays(u, 'fft', 'coeff'),
                               [time, none, none, none]),
        'compute_delays none': (lambda u: delays(u, dmode, 'none'),
                                [time] + [(0, 0, 2)] * 3),
        'compute_delays_tf multi': (lambda u: dtf(u, 'multi'),
                                    [time, none, none]),
        'compute_delays_tf fit': (lambda u: dtf(u, 'fit'),
                                  [time, none, none]),
        'xcorr_delay coeff': (lambda u: xd(u, 'coeff'), [time, none]),
        'xcorr_delay energy': (lambda u: xd(u, 'energy'), [time, none]),
        'xcorr_delay none': (lambda u: xd(u, 'none'), [time, (0, 0, 2)]),
        'apply_filter': (flt, [sig]),
        'apply_delay': (delay, [none]),
        'get_1d_plant': (plant, [none, len_]),
        'get_camfilter': (cam, [hz, none]),
        'compute_cmv': (motion, [(1, -1, 0), none, none, time, len_]),
        'optimum_subset': (subset, [none]),
        'compute_predicted_position': (predicted, [len_, time, none, len_,
                                                   len_]),
        'assign_positions': (assign, [none, len_]),
        'spacetime_distances': (apart, [len_]),
        'vectors': (vectors, [len_, none, (2, 0, 0), len_, none, len_, len_,
                              len_, len_]),
        'errors': (errors, [sig, sig, (0, 0, 2), sig, sig, (0, 0, 2), sig]),
        'variability': (var, [sig, sig]),
        'calc_quantile': (quant, [sig]),
        'clearsky_index': (clear, [none]),
        'correlation coeff': (lambda u: energy(u, 'coeff'), [none, none]),
        'correlation energy': (lambda u: energy(u, 'unbiased_energy'),
                               [none, none]),
        'correlation none': (lambda u: energy(u, 'none'),
                             [(0, 0, 2), none]),
        'get_positional_ts': (ts, [none]),
        'downscale': (down, [none]),
    }
    return out, dt


LOOSE = {'compute_cmv': 1e-5, 'compute_predicted_position': 1e-6,
         'downscale': 1e-5, 'tf_delay multi': 1e-5,
         'compute_delays_tf multi': 1e-5, 'tf_delay fit': 1e-3,
         'compute_delays_tf fit': 1e-3}


def units(case):
    rng = case.rng
    T, dt = table(rng)
    for name, (f, powers) in T.items():
        first = case.call(f, Units())
        case.ok(len(first) == len(powers), 'all', f'{name}: {len(first)}')
        for clause in ('length', 'time', 'signal', 'all'):
            a, b, c = (float(rng.choice(FACT)) if clause in (q, 'all') else 1.
                       for q in ('length', 'time', 'signal'))
            if clause == 'signal' and rng.integers(0, 3) == 0:
                c = float(rng.choice(WIDE))
            case.note(function=name, a=a, b=b, c=c)
            out = case.call(f, Units(a, b, c))
            for i, (g, w, p) in enumerate(zip(out, first, powers)):
                k = a ** p[0] * b ** p[1] * c ** p[2]
                w = np.asarray(w) * k
                ok = np.isfinite(w)
                s = np.abs(w[ok]).max() if ok.any() else 0.
                if p == (0, 1, 0):       # delays: of the sampling period
                    s = max(s, dt * b)
                elif p == (0, 0, 0):
                    s = max(s, 1.)
                r = LOOSE.get(name, 1e-8)
                case.close(g, w, clause, rtol=r, atol=r * s,
                           msg=f'{name} result {i}')
            case.sig(name, a, b, c)


def odd(case):
    """Units that are not powers of two: kilometres, miles, minutes, W."""
    rng = case.rng
    T, dt = table(rng)
    for name, (f, powers) in T.items():
        a = float(rng.choice([1e-3, .3048, 1 / 1609.344, 100.]))
        b = float(rng.choice([60., 3., 3600., 1.]))
        c = float(rng.choice([1e-3, 100., .1, 1e3]))
        if name in ('get_1d_plant', 'get_camfilter', 'get_positional_ts'):
            a = 2.               # cells and edges of pixels
        case.note(function=name, a=a, b=b, c=c)
        first, out = case.call(f, Units()), case.call(f, Units(a, b, c))
        for i, (g, w, p) in enumerate(zip(out, first, powers)):
            k = a ** p[0] * b ** p[1] * c ** p[2]
            w = np.asarray(w) * k
            ok = np.isfinite(w)
            s = np.abs(w[ok]).max() if ok.any() else 0.
            if p == (0, 1, 0):
                s = max(s, dt * b)
            elif p == (0, 0, 0):
                s = max(s, 1.)
            r = max(LOOSE.get(name, 1e-8), 1e-7)
            case.close(g, w, 'all', rtol=r, atol=r * s,
                       msg=f'{name} result {i}')
        case.sig('odd', name, a, b, c)


WORKLOADS = [('units', units, 60, 3000), ('odd', odd, 60, 3000)]
