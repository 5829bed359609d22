import math

import numpy as np
import pandas as pd
from scipy.special import ndtr, ndtri

from solarspatialtools.synthirrad import copula
from checks.c22_downscale import params

ID = 'C23'
RULE = ('Model quantities against the published equations over random mean '
        'indexes and parameters; Monte Carlo over seeds for the distribution '
        'of single samples and for the correlation between samples as a '
        'function of space-time distance.  Distinct = (quantity, mean class, '
        'parameters, arrangement).')
REQUIRED = ['sigmoid', 'weights', 'mixture-mean', 'clear-mean', 'sdev',
            'decay', 'decay-floor', 'decay-array', 'pdf', 'cdf', 'inverse',
            'inverse-monotone', 'inverse-range', 'marginal', 'sample-mean',
            'uniform', 'independent-runs', 'correlation', 'rows',
            'row-correlation', 'moves-with-clouds']
ASSUMES = ['Monte Carlo verdicts leave six standard errors, plus the step of '
           'the grid of index values.']


def model(K, p):
    """Equations 9 to 14, as the package documents them."""
    sg = lambda x, a, c: 1 / (1 + math.exp(-a * (x - c)))
    wc = 1 - p['comp'][0] * sg(K, p['comp'][1], p['comp'][2])
    ws = 1 - wc
    ms = p['mean'][0] * wc * K + p['mean'][1] * ws * (K - p['mean'][2])
    mc = (K - ws * ms) / wc
    ss = p['sdevClear'][0] * (1 - sg(K, p['sdevClear'][1], p['sdevClear'][2]))
    sc = p['sdevCloud'][0] * sg(K, p['sdevCloud'][1], p['sdevCloud'][2])
    return (wc, ws), (mc, ms), (sc, ss), max(p['corr_quadr'] * K * (1 - K),
                                             1e-5)


def cdf(x, w, m, s):
    return sum(a * ndtr((np.asarray(x) - b) / c) for a, b, c in zip(w, m, s))


def pdf(x, w, m, s):
    x = np.asarray(x)
    return sum(a * np.exp(-0.5 * ((x - b) / c) ** 2) / (c * math.sqrt(2 *
               math.pi)) for a, b, c in zip(w, m, s))


def equations(case):
    rng = case.rng
    K = float(rng.uniform(0.03, 1.2))
    p = params(rng)
    case.note(K=K)
    case.sig('eq', round(K, 1), p['corr_quadr'])
    w, m, s, k = model(K, p)
    a, c = float(rng.uniform(-20, 20)), float(rng.uniform(-1, 2))
    x = rng.uniform(-2, 2, 9)
    case.close(case.call(copula._sigmoid, x, a, c),
               [1 / (1 + math.exp(-a * (q - c))) for q in x], 'sigmoid')
    mu, wt, var, kk = case.call(copula._process_params, K, p)
    case.close(wt, w, 'weights', rtol=1e-9)
    case.close(sum(np.multiply(wt, mu)), K, 'mixture-mean', rtol=1e-9)
    case.close(mu, m, 'clear-mean', rtol=1e-8)
    case.close(var, np.square(s), 'sdev', rtol=1e-9)
    case.close(kk, k, 'decay', rtol=1e-9)
    case.close(case.call(copula._exponential_decay_parameter,
                         float(rng.choice([0.0, 1.0, 1.1])), p['corr_quadr']),
               1e-5, 'decay-floor')
    Ks = rng.uniform(0, 1.2, 6)
    case.close(case.call(copula._exponential_decay_parameter, Ks.copy(),
                         p['corr_quadr']),
               np.maximum(p['corr_quadr'] * Ks * (1 - Ks), 1e-5),
               'decay-array', rtol=1e-9)
    g = np.arange(-2, 2, float(rng.choice([0.01, 0.02, 0.005])))
    f, F, k2 = case.call(copula._solar_gmm, g, K, p)
    want = pdf(g, w, m, s)
    case.close(f, want, 'pdf', rtol=1e-6, atol=1e-12)
    cs = np.cumsum(want)
    case.close(F, cs / cs[-1], 'cdf', rtol=1e-6, atol=1e-12)
    case.close(k2, k, 'decay', rtol=1e-9)
    # inverse sampling
    r = np.sort(rng.uniform(0, 1, (5, 7)).ravel())
    q = case.call(copula._inverse_sample, g, F, r)
    case.ok(np.all(np.diff(q) >= -1e-12), 'inverse-monotone')
    case.ok(np.all(np.abs(q) <= 2), 'inverse-range')
    inner = (r > F[0] + 1e-12) & (r < 1 - 1e-9)
    u, idx = np.unique(F, return_index=True)
    case.close(q[inner], np.interp(r[inner], u, g[idx]), 'inverse',
               atol=1e-9)
    back = np.interp(q[inner], g, F)
    case.close(back, r[inner], 'inverse', rtol=0, atol=1e-7)
    # forward: the grid values come back
    mid = (F > 1e-6) & (F < 1 - 1e-6)
    case.close(case.call(copula._inverse_sample, g, F, F[mid]), g[mid],
               'inverse', atol=1e-6)


def ks(x, F):
    x = np.sort(x)
    n = len(x)
    f = F(x)
    return max(np.max(np.arange(1, n + 1) / n - f), np.max(f - np.arange(n) /
               n))


def marginal(case):
    """Sites so far apart that their samples are independent."""
    rng = case.rng
    p = params(rng)
    K = float(rng.uniform(0.1, 0.95))
    w, m, s, k = model(K, p)
    N, M = 250, 8
    e = np.arange(N) * 60 / k
    t = pd.date_range('2020-01-01', periods=1, freq='1s')
    xs = [case.call(copula.downscale, t, e, np.zeros(N), 5.0, 1.0, K, p,
                    int(rng.integers(0, 2 ** 31)), False, False).ravel()
          for _ in range(M)]
    x = np.concatenate(xs)
    n = len(x)
    case.note(K=K, n=n)
    case.sig('marginal', round(K, 1), p['corr_quadr'])
    g = np.linspace(-2, 2, 4001)
    norm = cdf(2, w, m, s) - cdf(-2, w, m, s)
    F = lambda q: (cdf(q, w, m, s) - cdf(-2, w, m, s)) / norm
    step = 0.012 * pdf(g, w, m, s).max()
    lim = math.sqrt(math.log(2 / 1e-10) / (2 * n)) + step
    dist = ks(x, F)
    case.ok(dist < lim, 'marginal', f'KS distance {dist} > {lim} of {n}')
    f = pdf(g, w, m, s)
    mean = np.sum(g * f) / np.sum(f)
    sd = math.sqrt(np.sum((g - mean) ** 2 * f) / np.sum(f))
    case.ok(abs(x.mean() - mean) < 6.5 * sd / math.sqrt(n) + 0.011,
            'sample-mean', f'{x.mean()} for {mean}')
    # independent between sites and between runs
    z = [ndtri(np.clip(F(q), 1e-9, 1 - 1e-9)) for q in xs]
    c = np.corrcoef(z[0], z[1])[0, 1]
    case.ok(abs(c) < 6.5 / math.sqrt(N), 'independent-runs', f'{c}')
    lagged = np.mean([np.corrcoef(q[1:], q[:-1])[0, 1] for q in z])
    case.ok(abs(lagged) < 6.5 / math.sqrt(N * M), 'correlation', f'{lagged}')


def correlation(case):
    rng = case.rng
    p = params(rng)
    K = float(rng.uniform(0.2, 0.9))
    w, m, s, k = model(K, p)
    ns, nt = int(rng.integers(2, 4)), int(rng.integers(2, 4))
    L = 1 / k
    e = rng.uniform(0, 1.2, ns) * L
    n = rng.uniform(0, 1.2, ns) * L
    dt = 10.0
    v = float(rng.uniform(0.2, 0.8)) * L / dt
    d = float(rng.uniform(0, 2 * np.pi))
    t = pd.date_range('2020-01-01', periods=nt, freq='10s')
    M = 700 if case.tier == 'quick' else 1500
    base = int(rng.integers(0, 2 ** 30))
    raw = np.array([case.call(copula.downscale, t, e, n, v, d, K, p, base + i,
                              False, False).ravel() for i in range(M)])
    norm = cdf(2, w, m, s) - cdf(-2, w, m, s)
    z = ndtri(np.clip((cdf(raw, w, m, s) - cdf(-2, w, m, s)) / norm, 1e-9,
                      1 - 1e-9))
    got = np.corrcoef(z.T)
    N = ns * nt
    moved = 0
    for a in range(N):
        for b in range(a):
            ta, sa = divmod(a, ns)
            tb, sb = divmod(b, ns)
            dd = math.hypot(e[sa] - e[sb] - v * dt * (ta - tb) * math.cos(d),
                            n[sa] - n[sb] - v * dt * (ta - tb) * math.sin(d))
            rho = math.exp(-k * dd)
            lim = 6.5 * (1 - rho ** 2 + 0.02) / math.sqrt(M) + 0.02
            case.ok(abs(got[a, b] - rho) < lim, 'correlation',
                    f'{got[a, b]} at distance {dd}, expected {rho}')
            moved += ta != tb and sa != sb
    if moved:
        case.hit('moves-with-clouds', moved)
    case.note(K=K, sites=ns, times=nt, runs=M)
    case.sig('corr', ns, nt, round(K, 1), round(d))
    # the rank transform gives uniforms
    u = ndtr(z[:, 0])
    case.ok(ks(u, lambda q: q) < math.sqrt(math.log(2 / 1e-10) / (2 * M))
            + 0.012 * pdf(np.linspace(-2, 2, 999), w, m, s).max(), 'uniform')


def rows(case):
    """Many versions in one draw."""
    rng = case.rng
    p = params(rng)
    K = float(rng.uniform(0.2, 0.9))
    w, m, s, k = model(K, p)
    g = np.arange(-2, 2, 0.01)
    F = case.call(copula._solar_gmm, g, K, p)[1]
    N = int(rng.integers(2, 6))
    x = rng.uniform(0, 2 / k, (N, 2))
    D = np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
    n = 6000
    seed = int(rng.integers(0, 2 ** 31))
    out = case.call(copula._space_time_copula, n, D, g, F, k, seed=seed)
    case.ok(out.shape == (n, N), 'rows', f'{out.shape}')
    z = ndtri(np.clip(np.interp(out, g, F), 1e-9, 1 - 1e-9))
    got = np.corrcoef(z.T)
    rho = np.exp(-k * D)
    lim = 6.5 * (1 - rho ** 2 + 0.01) / math.sqrt(n) + 0.005
    case.ok(np.all(np.abs(got - rho) < lim), 'row-correlation',
            f'{got} for {rho}')
    seq = [np.corrcoef(z[1:, j], z[:-1, j])[0, 1] for j in range(N)]
    case.ok(np.max(np.abs(seq)) < 6.5 / math.sqrt(n), 'independent-runs')
    for j in range(N):
        case.ok(ks(ndtr(z[:, j]), lambda q: q) < math.sqrt(
            math.log(2 / 1e-10) / (2 * n)) + 1e-3, 'uniform')
    u = case.call(copula._copularnd_gaussian, n, rho, seed)
    case.ok(u.shape == (n, N) and np.all((u >= 0) & (u <= 1)), 'rows')
    case.close(case.call(copula._inverse_sample, g, F, u), out, 'rows',
               rtol=1e-9)
    case.sig('rows', N, round(K, 1))


WORKLOADS = [
    ('equations', equations, 200, 3000),
    ('marginal', marginal, 8, 80),
    ('correlation', correlation, 8, 60),
    ('rows', rows, 20, 300),
]
