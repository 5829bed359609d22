"""Independent reference models.  Nothing here uses the package, pyproj or the
library routines the package is built on."""
import math

import numpy as np

# ---------------------------------------------------------------- geodesy ---
A = 6378137.0
F = 1 / 298.257223563
N3 = F / (2 - F)
E2 = F * (2 - F)
ECC = math.sqrt(E2)


def _krueger():
    n = N3
    a1 = A / (1 + n) * (1 + n**2 / 4 + n**4 / 64 + n**6 / 256)
    alpha = [
        n/2 - 2*n**2/3 + 5*n**3/16 + 41*n**4/180 - 127*n**5/288
        + 7891*n**6/37800,
        13*n**2/48 - 3*n**3/5 + 557*n**4/1440 + 281*n**5/630
        - 1983433*n**6/1935360,
        61*n**3/240 - 103*n**4/140 + 15061*n**5/26880 + 167603*n**6/181440,
        49561*n**4/161280 - 179*n**5/168 + 6601661*n**6/7257600,
        34729*n**5/80640 - 3418889*n**6/1995840,
        212378941*n**6/319334400]
    beta = [
        n/2 - 2*n**2/3 + 37*n**3/96 - n**4/360 - 81*n**5/512
        + 96199*n**6/604800,
        n**2/48 + n**3/15 - 437*n**4/1440 + 46*n**5/105
        - 1118711*n**6/3870720,
        17*n**3/480 - 37*n**4/840 - 209*n**5/4480 + 5569*n**6/90720,
        4397*n**4/161280 - 11*n**5/504 - 830251*n**6/7257600,
        4583*n**5/161280 - 108847*n**6/3991680,
        20648693*n**6/638668800]
    return a1, alpha, beta


A1, ALPHA, BETA = _krueger()


def wrap180(d):
    return (d + 180.0) % 360.0 - 180.0


def tm_forward(lat, lon, lon0, k0=1.0):
    """Transverse Mercator (Krueger series, order 6); metres from the equator
    and the central meridian."""
    phi = math.radians(lat)
    lam = math.radians(wrap180(lon - lon0))
    s = math.sin(phi)
    t = math.sinh(math.atanh(s) - ECC * math.atanh(ECC * s)) \
        if abs(s) < 1 else math.copysign(1e18, s)
    xi = math.atan2(t, math.cos(lam))
    eta = math.asinh(math.sin(lam) / math.hypot(t, math.cos(lam)))
    x, y = eta, xi
    for j, a in enumerate(ALPHA, 1):
        x += a * math.cos(2*j*xi) * math.sinh(2*j*eta)
        y += a * math.sin(2*j*xi) * math.cosh(2*j*eta)
    return k0 * A1 * x, k0 * A1 * y


def tm_inverse(x, y, lon0, k0=1.0):
    xi = y / (k0 * A1)
    eta = x / (k0 * A1)
    xp, ep = xi, eta
    for j, b in enumerate(BETA, 1):
        xp -= b * math.sin(2*j*xi) * math.cosh(2*j*eta)
        ep -= b * math.cos(2*j*xi) * math.sinh(2*j*eta)
    taup = math.sin(xp) / math.hypot(math.sinh(ep), math.cos(xp))
    lam = math.atan2(math.sinh(ep), math.cos(xp))
    # Newton iteration for tau (Karney 2011)
    tau = taup / (1 - E2)
    for _ in range(8):
        sig = math.sinh(ECC * math.atanh(ECC * tau / math.hypot(1, tau)))
        ti = tau * math.hypot(1, sig) - sig * math.hypot(1, tau)
        d = (taup - ti) / math.hypot(1, ti) \
            * (1 + (1 - E2) * tau * tau) / ((1 - E2) * math.hypot(1, tau))
        tau += d
        if abs(d) < 1e-15 * max(1, abs(tau)):
            break
    return math.degrees(math.atan(tau)), wrap180(math.degrees(lam) + lon0)


def utm_zone(lon):
    return min(int(math.floor((lon + 180.0) / 6.0)) + 1, 60)


def utm_cm(zone):
    return zone * 6.0 - 183.0


def utm_forward(lat, lon, zone=None, south=None):
    if zone is None:
        zone = utm_zone(lon)
    if south is None:
        south = lat < 0
    x, y = tm_forward(lat, lon, utm_cm(zone), 0.9996)
    return x + 500000.0, y + (1e7 if south else 0.0), zone


def utm_inverse(e, n, zone, south=False):
    return tm_inverse(e - 500000.0, n - (1e7 if south else 0.0),
                      utm_cm(zone), 0.9996)


# ---------------------------------------------------------------- signals ---
def xcorr_full(x, y):
    """Direct sum: c[l] = sum_i x[i + l] * y[i] for every lag with overlap."""
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    nx, ny = len(x), len(y)
    lags = np.arange(-(ny - 1), nx)
    c = np.empty(len(lags))
    for k, l in enumerate(lags):
        i0, i1 = max(0, -l), min(ny, nx - l)
        c[k] = np.dot(x[i0 + l:i1 + l], y[i0:i1])
    return c, lags


def window(name, n):
    k = np.arange(n)
    if name == 'boxcar':
        return np.ones(n)
    if name == 'hamming':
        return 0.54 - 0.46 * np.cos(2 * np.pi * k / n)
    if name == 'hann':
        return 0.5 - 0.5 * np.cos(2 * np.pi * k / n)
    raise ValueError(name)


def _detrended(seg, how):
    if not how:
        return seg
    if how == 'constant':
        return seg - seg.mean()
    t = np.arange(len(seg)) - (len(seg) - 1) / 2
    b = (t * seg).sum() / (t * t).sum()
    return seg - seg.mean() - b * t


def segments(x, navgs, overlap, win, detrend):
    x = np.asarray(x, float)
    nper = int(len(x) // navgs)
    nov = int(nper * overlap)
    step = nper - nov
    w = window(win, nper)
    out = [np.fft.rfft(w * _detrended(x[s:s + nper], detrend))
           for s in range(0, len(x) - nper + 1, step)]
    return np.array(out), w, nper


def cross_spectrum(x, y, fs, navgs, overlap, win, detrend,
                   scaling='density'):
    X, w, nper = segments(x, navgs, overlap, win, detrend)
    Y, _, _ = segments(y, navgs, overlap, win, detrend)
    p = np.mean(np.conj(X) * Y, axis=0)
    p = p / (fs * (w * w).sum()) if scaling == 'density' \
        else p / w.sum() ** 2
    one = np.ones(len(p)) * 2
    one[0] = 1
    if nper % 2 == 0:
        one[-1] = 1
    return np.arange(len(p)) * fs / nper, p * one


def unwrap(ph):
    out = np.array(ph, float)
    for i in range(1, len(out)):
        d = out[i] - out[i - 1]
        out[i:] -= 2 * np.pi * np.round(d / (2 * np.pi))
    return out


def interp1(x, xp, fp):
    """Piecewise linear interpolation on ascending xp, no extrapolation."""
    x = np.atleast_1d(np.asarray(x, float))
    xp = np.asarray(xp, float)
    k = np.clip(np.searchsorted(xp, x, side='right') - 1, 0, len(xp) - 2)
    w = (x - xp[k]) / (xp[k + 1] - xp[k])
    fp = np.asarray(fp)
    return fp[k] * (1 - w) + fp[k + 1] * w


def smooth_signal(rng, n, lo, hi, period_min, period_max, m=40):
    """A random smooth function of time (callable), band limited between the
    two periods, scaled into [lo, hi] on [0, n]."""
    per = np.exp(rng.uniform(np.log(period_min), np.log(period_max), m))
    ph = rng.uniform(0, 2 * np.pi, m)
    amp = rng.uniform(0.5, 1.0, m) * np.sqrt(per / period_max)

    def raw(t):
        t = np.asarray(t, float)
        return (amp * np.sin(2 * np.pi * t[..., None] / per + ph)).sum(-1)
    s = raw(np.linspace(0, n, 2000))
    a, b = s.min(), s.max()
    return lambda t: lo + (hi - lo) * (raw(t) - a) / (b - a)
