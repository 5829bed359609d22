import math

import numpy as np
import pandas as pd

from solarspatialtools.synthirrad import copula
from mon.core import Skip
from mon.core import size
from mon.core import grain

ID = 'C22'
RULE = ('Downscaling of one period over random site sets, times, cloud '
        'velocities, mean indexes, parameter sets and seeds, with every '
        'combination of the scaling and non-negativity switches; relations '
        'between runs of one seed are judged.  Distinct = (sites, times, '
        'sampling, switches, mean class).')
REQUIRED = ['shape', 'finite', 'nonnegative', 'mean', 'clip', 'scaled',
            'raw-range', 'repeatable', 'seed-matters', 'unseeded', 'defaults',
            'advected', 'twin-sites', 'still', 'global-stream', 'keeps-input',
            'negatives']
ASSUMES = ['Equality between perfectly correlated samples is judged to 1e-4 '
           '(the factorization of the singular covariance is not exact).']


def params(rng):
    p = {k: (list(v) if isinstance(v, list) else v)
         for k, v in copula.DEFAULT_PARAMS.items()}
    if rng.integers(0, 2):
        p['comp'][2] *= rng.uniform(0.9, 1.1)
        p['mean'][0] *= rng.uniform(0.95, 1.05)
        p['sdevClear'][0] *= rng.uniform(0.8, 1.2)
        p['sdevCloud'][0] *= rng.uniform(0.8, 1.2)
        p['corr_quadr'] *= float(rng.choice([0.1, 1, 3, 10]))
    return p


def setup(rng, ns=None, nt=None):
    ns = ns or size(rng, 1, 7, 25, .08)
    nt = nt or size(rng, 2, 30, 60, .08)
    dt = float(rng.choice([1, 5, 10, 60, 0.5]))
    t = pd.date_range('2021-06-01 12:00', periods=nt, freq=f'{int(dt*1000)}ms',
                      tz=[None, 'UTC'][rng.integers(0, 2)])
    t = grain(t, rng.integers(0, 4))
    e = rng.uniform(0, 1, ns) * 10 ** rng.uniform(1, 3.5)
    n = rng.uniform(0, 1, ns) * 10 ** rng.uniform(1, 3.5)
    return t, dt, e, n, float(rng.uniform(0.5, 30)), \
        float(rng.uniform(-3.2, 6.3)), float(rng.uniform(0.08, 1.1)), \
        seed_of(rng)


def seed_of(rng):
    return [0, 1, int(rng.integers(2, 2 ** 31))][min(rng.integers(0, 8), 2)]


def switches(case):
    rng = case.rng
    t, dt, e, n, v, d, k, seed = setup(rng)
    p = params(rng)
    e0, n0 = e.copy(), n.copy()
    p0 = repr(p)
    case.note(sites=len(e), times=len(t), dt=dt, v=v, dir=d, mean=k, seed=seed)
    case.sig(len(e), len(t) // 8, dt, round(k, 1))
    run = lambda **kw: case.call(copula.downscale, t, e, n, v, d, k, p, **kw)
    raw = run(seed=seed, scale=False, noneg=False)
    case.ok(raw.shape == (len(t), len(e)), 'shape',
            f'{raw.shape} for {len(t)} times, {len(e)} sites')
    case.ok(np.isfinite(raw).all(), 'finite')
    case.ok(np.all(np.abs(raw) <= 2), 'raw-range', f'{raw.min()} {raw.max()}')
    pos = run(seed=seed, scale=False, noneg=True)
    case.close(pos, np.maximum(raw, 0), 'clip', rtol=1e-12)
    if abs(raw.mean()) > 1e-3:
        sc = run(seed=seed, scale=True, noneg=False)
        case.close(sc, raw * (k / raw.mean()), 'scaled', rtol=1e-9)
        case.close(sc.mean(), k, 'mean', rtol=1e-9)
    if pos.mean() > 1e-3:
        out = run(seed=seed)
        case.close(out, pos * (k / pos.mean()), 'defaults', rtol=1e-9)
        case.close(out.mean(), k, 'mean', rtol=1e-9)
        case.ok(np.all(out >= 0), 'nonnegative', f'{out.min()}')
    # streams
    np.random.seed(5)
    state = np.random.get_state()[1].copy()
    again = run(seed=seed, scale=False, noneg=False)
    case.close(again, raw, 'repeatable', rtol=0, atol=0)
    case.ok(np.array_equal(np.random.get_state()[1], state), 'global-stream',
            'the global random stream moved')
    other = run(seed=seed + 1, scale=False, noneg=False)
    case.ok(not np.allclose(other, raw), 'seed-matters')
    u1 = run(scale=False, noneg=False)
    u2 = run(scale=False, noneg=False)
    case.ok(not np.allclose(u1, u2), 'unseeded', 'two unseeded runs agree')
    case.ok(np.array_equal(e, e0) and np.array_equal(n, n0)
            and repr(p) == p0, 'keeps-input')


def advection(case):
    rng = case.rng
    t, dt, e, n, v, d, k, seed = setup(rng, ns=int(rng.integers(2, 5)),
                                       nt=int(rng.integers(8, 25)))
    p = params(rng)
    lag = int(rng.integers(1, 5))
    # the last site sees what the first saw `lag` steps before
    e[-1] = e[0] + v * dt * lag * np.cos(d)
    n[-1] = n[0] + v * dt * lag * np.sin(d)
    case.note(v=v, dir=d, lag=lag, mean=k)
    case.sig('advection', lag, dt, len(e))
    out = case.call(copula.downscale, t, e, n, v, d, k, p, seed, False, False)
    case.close(out[lag:, -1], out[:-lag, 0], 'advected', rtol=0, atol=1e-4)
    # same place
    e[-1], n[-1] = e[0], n[0]
    out = case.call(copula.downscale, t, e, n, v, d, k, p, seed, False, False)
    case.close(out[:, -1], out[:, 0], 'twin-sites', rtol=0, atol=1e-4)
    # clouds that do not move: nothing changes in time
    out = case.call(copula.downscale, t, e, n, 0.0, d, k, p, seed, False,
                    False)
    case.close(out, np.repeat(out[:1], len(t), axis=0), 'still', rtol=0,
               atol=1e-4)


def large(case):
    """More than a thousand samples in one call."""
    rng = case.rng
    ns = int(rng.integers(2, 60))
    nt = int(np.ceil(rng.uniform(1010, 1250) / ns))
    t, dt, e, n, v, d, k, seed = setup(rng, ns=ns, nt=nt)
    p = params(rng)
    k = min(k, 0.9)
    case.note(sites=ns, times=nt, dt=dt, v=v, dir=d, mean=k, seed=seed)
    case.sig('large', ns // 8)
    raw = case.call(copula.downscale, t, e, n, v, d, k, p, seed, False, False)
    case.ok(raw.shape == (nt, ns) and np.isfinite(raw).all(), 'shape')
    pos = np.maximum(raw, 0)
    if pos.mean() > 1e-3:
        out = case.call(copula.downscale, t, e, n, v, d, k, p, seed)
        case.close(out, pos * (k / pos.mean()), 'defaults', rtol=1e-9)
        case.close(out.mean(), k, 'mean', rtol=1e-9)


def negatives(case):
    """A wide cloudy component: a good part of the samples is negative."""
    from checks.c23_copulastats import cdf, model
    rng = case.rng
    p = params(rng)
    p['sdevCloud'][0] *= float(rng.uniform(4, 8))
    k = float(rng.uniform(0.25, 0.6))
    w, m, s, kk = model(k, p)
    inside = cdf(2, w, m, s) - cdf(-2, w, m, s)
    q = (cdf(-0.05, w, m, s) - cdf(-2, w, m, s)) / inside
    N = int(rng.integers(300, 400))
    if q < 0.08:
        raise Skip
    e = np.arange(N) * 60 / kk
    t = pd.date_range('2020-01-01', periods=1, freq='1s')
    seed = seed_of(rng)
    case.note(mean=k, sites=N, negative=q, seed=seed)
    case.sig('negatives', round(k, 1), round(q, 1))
    run = lambda *a: case.call(copula.downscale, t, e, np.zeros(N), 5.0, 1.0,
                               k, p, seed, *a)
    raw = run(False, False)
    case.ok(abs(np.mean(raw < 0) - q) < 6.5 * math.sqrt(q / N) + 0.05,
            'negatives', f'{np.mean(raw < 0)} of the samples are negative, '
            f'expected {q}')
    case.close(run(False, True), np.maximum(raw, 0), 'clip', rtol=1e-12)
    if abs(raw.mean()) > 1e-3:
        case.close(run(True, False), raw * (k / raw.mean()), 'scaled',
                   rtol=1e-9)
    pos = np.maximum(raw, 0)
    if pos.mean() > 1e-3:
        case.close(run(True, True), pos * (k / pos.mean()), 'defaults',
                   rtol=1e-9)


QUICK_X = 3
WORKLOADS = [
    ('switches', switches, 80, 1500),
    ('advection', advection, 60, 1200),
    ('large', large, 3, 40),
    ('negatives', negatives, 30, 500),
]
