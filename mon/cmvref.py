"""Independent model of the cloud motion estimate: pair quality rules, the
minimum-variance direction in closed form, and the least-squares estimate."""
import numpy as np

from . import ref

DEFAULTS = {'jamaly': dict(minvelocity=0, maxvelocity=70, var_s_lim=0.05,
                           ktlim=0.4, mincorr=0.8),
            'gagne': dict(ktlim=0.4)}


def xcorr(a, b):
    """Correlation coefficient at every lag (FFT for speed, direct sums are
    compared in C05)."""
    a = a - a.mean()
    b = b - b.mean()
    n = len(a)
    L = 1 << int(np.ceil(np.log2(2 * n)))
    c = np.fft.irfft(np.fft.rfft(a, L) * np.conj(np.fft.rfft(b, L)), L)
    c = np.r_[c[-(n - 1):], c[:n]]
    with np.errstate(all='ignore'):
        return c / np.sqrt((a * a).sum() * (b * b).sum()), \
            np.arange(-(n - 1), n)


class Pair:
    """What the documented quality rules say about one pair."""

    def __init__(self, a, b, same, dist, lag, peak, mean, method, opt):
        bad, doubt = set(), False

        def rule(violated, name, value, limit, tol=1e-7):
            nonlocal doubt
            if np.isfinite(value) and abs(value - limit) < tol:
                doubt = True
            if violated:
                bad.add(name)
        with np.errstate(all='ignore'):
            if same:
                bad.add('SAME')
            for s in (a, b):
                g = s[~np.isnan(s)]
                if len(g) == 0:
                    bad.add('EMPTY')
                    continue
                rule(g.std() < 0.001, 'NOSIGNAL', g.std(), 0.001)
                rule(g.max() < opt['ktlim'], 'OVERCAST', g.max(),
                     opt['ktlim'])
                if method == 'jamaly':
                    v = 1 - g.mean() / g.max()
                    rule(v < opt['var_s_lim'], 'LOWVAR_S', v,
                         opt['var_s_lim'])
            if lag == 0:
                bad.add('NOLAG')
            if np.isnan(peak) or np.isnan(mean):
                bad.add('LOWCORR')
            elif method == 'jamaly':
                rule(peak < opt['mincorr'], 'LOWCORR', peak, opt['mincorr'])
                r = 1 - mean / peak
                rule(r < opt['mincorr'], 'LOWCORR', r, opt['mincorr'])
            if method == 'jamaly':
                v = abs(dist / lag) if lag else np.inf
                if np.isnan(lag):
                    v = np.nan
                good = opt['minvelocity'] < v < opt['maxvelocity']
                for q in ('minvelocity', 'maxvelocity'):
                    rule(not good, 'VELLIMIT', v, opt[q],
                         1e-7 * max(1, opt[q]))
                if same:
                    doubt = False
        self.bad, self.doubt = bad, doubt


def jamaly(vec, lag):
    """Direction of least velocity variance and the median velocity."""
    w = vec / lag[:, None]
    C = np.cov(w.T, bias=True)
    ev, U = np.linalg.eigh(C)
    u = U[:, 0]
    v = w @ u
    if np.median(v) < 0:
        u, v = -u, -v
    cond = ev[0] / ev[1] if ev[1] > 0 else 1.0
    return np.median(v), np.arctan2(u[1], u[0]) % (2 * np.pi), v, cond


def gagne(vec, lag):
    G = vec.T @ vec
    if np.linalg.matrix_rank(vec) < 2:
        return np.nan, np.nan, 0.0
    a = np.linalg.solve(G, vec.T @ lag)
    s = 1 / (a @ a)
    ev = np.linalg.eigvalsh(G)
    return np.sqrt(s), np.arctan2(a[1], a[0]) % (2 * np.pi), \
        ev[0] / ev[1]


def percentile(v, q):
    s = np.sort(v)
    p = q / 100 * (len(s) - 1)
    k = int(np.floor(p))
    k1 = min(k + 1, len(s) - 1)
    return s[k] + (p - k) * (s[k1] - s[k])


def ang(a, b):
    return abs((a - b + np.pi) % (2 * np.pi) - np.pi)


def field(rng, n, dt, pos, u, v, noise=0.0, rough=True):
    """A frozen pattern moving with velocity v*u seen at the positions: each
    row of time, each column a site; plus structure across the motion."""
    long = pos @ u
    T = n * dt
    lo, hi = 6 * dt, max(20 * dt, T / 6)
    f1 = ref.smooth_signal(rng, T, 0.25, 1.05, lo, hi, m=60)
    t = np.arange(n) * dt
    out = np.array([f1(t - d / v) for d in long]).T
    return out + noise * rng.normal(size=out.shape)
