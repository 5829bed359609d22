import numpy as np
import pandas as pd

from solarspatialtools import signalproc
from mon import ref
from mon.core import size
from mon.core import clock
from mon.core import labels

ID = 'C10'
RULE = ('Random plants (sites, widths, shapes, grids, odd and even domains), '
        'cloud speeds of both signs and directions of any length are turned '
        'into filters and compared with the sum over sites of pure delays; '
        'the filters are then applied to signals.  Distinct = (shape, parity, '
        'speed sign, coordinates, sites).')
REQUIRED = ['on-grid', 'plant-square', 'plant-gaussian', 'plant-support', 'plant-grid',
            'plant-errors', 'cam-exact', 'cam-frequency', 'cam-dc',
            'cam-conjugate', 'cam-bounded', 'sites', 'sites-latlon',
            'direction-length', 'translation', 'end-to-end',
            'end-to-end-mean', 'marcos', 'marcos-default']
ASSUMES = ['Site positions are represented on the plant grid to half a grid '
           'step, so that site filters are compared with that phase bound.']


def grid_ok(case, x, dx, xmax):
    case.ok(len(x) >= 2 and np.allclose(np.diff(x), dx, rtol=1e-9,
                                        atol=1e-9 * xmax)
            and -xmax / 2 - 1 - dx <= x[0] <= -xmax / 2 + 1
            and xmax / 2 - 1 - 2 * dx <= x[-1] <= xmax / 2 + 1,
            'plant-grid', f'{x[:2]} .. {x[-1]} for dx={dx}, xmax={xmax}')


def plant(case):
    rng = case.rng
    dx = float(rng.choice([1, 0.5, 2, 0.25, 5]))
    xmax = int(rng.choice([400, 401, 1000, 1001, 2000]))
    ns = size(rng, 1, 7, 400)
    integer = bool(rng.integers(0, 2))
    c = rng.integers(-100, 100, ns) if integer else rng.uniform(-100, 100, ns)
    r = float(rng.choice([0, 10, -7.25, 3.5]))
    w = rng.choice([None, 1.0, 7.5, 20.0])
    if w is not None:
        w = float(max(w, dx))
    shape = ['square', 'gaussian', 'triangle'][case.index % 3]
    kind = rng.integers(0, 4)
    cc = [list(c), np.array(c), np.array(c)[:, None],
          pd.DataFrame({'dist': c})][kind]
    case.note(dx=dx, xmax=xmax, centers=c, ref=r, width=w, shape=shape)
    p, x = case.call(signalproc.get_1d_plant, cc, r, width=w,
                     shape=shape.upper() if rng.integers(0, 2) else shape,
                     dx=dx, xmax=xmax)
    grid_ok(case, x, dx, xmax)
    W = dx if w is None else w
    want = np.zeros(len(x))
    near = np.zeros(len(x), bool)
    inside = np.zeros(len(x), bool)
    for q in c:
        q = q - r
        d = x - q
        near |= np.abs(np.abs(d) - W / 2) < 1e-9
        inside |= np.abs(d) < W / 2
        if shape == 'gaussian':
            want = want + np.exp(-d ** 2 / (2 * (W / 2.355) ** 2))
    if shape == 'gaussian':
        case.close(p, want, 'plant-gaussian', rtol=1e-9, atol=1e-12)
    elif shape == 'square':
        use = ~near
        case.close(p[use], inside[use].astype(float), 'plant-square',
                   rtol=1e-12)
        # half-open: a centred site of width dx is exactly one grid cell
        if w is None and ns == 1:
            case.close(p.sum(), 1, 'plant-square', rtol=1e-12)
    else:
        out = ~inside & ~near
        case.ok(np.all(p[out] == 0) and np.all(p[inside] >= 0),
                'plant-support', 'nothing outside the sites')
    case.raises(ValueError, 'plant-errors', signalproc.get_1d_plant, cc, r,
                shape='blob')
    case.sig('plant', shape, dx, xmax % 2, integer, kind)


def cam(case):
    rng = case.rng
    n = int(rng.integers(20, 260))
    dx = float(rng.choice([1, 0.5, 2, 10]))
    p = np.abs(rng.normal(size=n)) * (rng.uniform(size=n) < 0.3)
    p[rng.integers(0, n)] += 1
    x = (np.arange(n) - rng.integers(0, n)) * dx
    v = float(rng.uniform(0.5, 30) * rng.choice([-1, 1]))
    case.note(n=n, dx=dx, v=v)
    H = case.call(signalproc.plant1d_to_camfilter, p, x, v)
    f = np.asarray(H.index, float)
    k = np.arange(n)
    k = np.where(k < (n + 1) // 2, k, k - n)
    wantf = k * abs(v) / (n * dx)
    case.close(np.sort(f), np.sort(wantf), 'cam-frequency', rtol=1e-9)
    want = np.exp(-2j * np.pi * np.outer(f, x) / v) @ p / p.sum()
    case.close(H.values, want, 'cam-exact', rtol=1e-7, atol=1e-9)
    case.close(H.values[np.argmin(np.abs(f))], 1, 'cam-dc', rtol=1e-9)
    case.ok(np.all(np.abs(H.values) <= 1 + 1e-9), 'cam-bounded')
    g = {round(a / (abs(v) / (n * dx))): b for a, b in zip(f, H.values)}
    for a in g:
        if -a in g:
            case.close(g[-a], np.conj(g[a]), 'cam-conjugate', atol=1e-9)
    case.sig('cam', n % 2, v > 0, dx)


def sites(case):
    rng = case.rng
    m = size(rng, 1, 5, 40)
    dx = float(rng.choice([1, 0.5, 2]))
    xmax = int(rng.choice([4000, 5001, 8000]))
    a = rng.uniform(0, 2 * np.pi)
    length = 10 ** rng.uniform(-2, 2)
    dirn = (length * np.cos(a), length * np.sin(a))
    u = np.array([np.cos(a), np.sin(a)])
    while True:
        xy = rng.uniform(-600, 600, (m, 2))
        pr = np.sort(xy @ u)
        if m == 1 or np.min(np.diff(pr)) > 2.5 * dx:
            break
    v = float(rng.uniform(1, 25) * rng.choice([-1, 1]))
    latlon = bool(case.index % 3 == 2)
    if latlon:
        zone = int(rng.integers(1, 61))
        lat0, lon0 = rng.uniform(-60, 60), ref.utm_cm(zone) + \
            rng.uniform(-2, 2)
        place = rng.integers(0, 4)
        if place % 2:             # the plant lies across the edge of a zone
            lon0 = ref.utm_cm(zone) + rng.choice([-1, 1]) * (
                3 - abs(rng.normal()) * 0.002)
        if place > 1:             # or across the equator
            lat0 = rng.normal() * 0.002
        lon0 = float(np.clip(lon0, -180, 179.999999))
        case.sig('place', int(place))
        e0, n0, _ = ref.utm_forward(lat0, lon0, zone)
        ll = np.array([ref.utm_inverse(e0 + q[0], n0 + q[1], zone, lat0 < 0)
                       for q in xy])
        pos = pd.DataFrame({'lat': ll[:, 0], 'lon': ll[:, 1]},
                           index=labels(rng, m))
        rp = pd.Series({'lat': lat0, 'lon': lon0})
        rel = xy
    else:
        o = rng.uniform(-1e5, 1e5, 2) * rng.integers(0, 2)
        pos = pd.DataFrame(xy + o, columns=['E', 'N'],
                           index=labels(rng, m))
        rp = pd.Series({'E': o[0], 'N': o[1]})
        rel = xy
    w = [None, 10.0][rng.integers(0, 2)] if m == 1 else None
    kw = {} if w is None else {'width': w}
    case.note(m=m, dx=dx, xmax=xmax, v=v, dir=dirn, latlon=latlon, width=w)
    H = case.call(signalproc.get_camfilter, pos, v, dirn, rp, dx=dx,
                  xmax=xmax, **kw)
    f = np.asarray(H.index, float)
    d = rel @ u
    want = np.exp(-2j * np.pi * np.outer(f, d) / v).mean(axis=1)
    if w is not None:
        want = want * np.sinc(f * w / v)
    tol = 2 * np.pi * np.abs(f) / abs(v) * (dx / 2 * 1.001 + 1e-3) + 1e-9
    if w is not None:
        tol = tol * 2 + 2 * dx / w * (np.pi * np.abs(f * w / v)) ** 0.5
    low = tol < 0.5
    bad = np.abs(H.values - want)[low] > tol[low]
    case.ok(not bad.any() and low.sum() > 3,
            'sites-latlon' if latlon else 'sites',
            f'{bad.sum()} of {low.sum()} frequencies off; worst '
            f'{np.max(np.abs(H.values - want)[low])}')
    case.close(H.values[np.argmin(np.abs(f))], 1, 'cam-dc', rtol=1e-9)
    if not latlon:
        # powers of two leave the direction bit-for-bit the same
        H2 = case.call(signalproc.get_camfilter, pos, v,
                       (dirn[0] * 8, dirn[1] * 8), rp, dx=dx, xmax=xmax, **kw)
        case.close(H2.values, H.values, 'direction-length', rtol=1e-6,
                   atol=1e-9)
        sh = np.array([1024., -2048.])
        q = pos.copy()
        if np.all(pos.values == (pos.values + sh) - sh) and \
                np.all(rp.values == (rp.values + sh) - sh):
            q[['E', 'N']] += sh
            H3 = case.call(signalproc.get_camfilter, q, v, dirn, rp + sh,
                           dx=dx, xmax=xmax, **kw)
            case.close(H3.values, H.values, 'translation', rtol=1e-6,
                       atol=1e-9)
        else:
            sh = np.floor(sh)
            q = (pos.round(3) * 8).round() / 8
            rq = (rp * 8).round() / 8
            A = case.call(signalproc.get_camfilter, q, v, dirn, rq, dx=dx,
                          xmax=xmax, **kw)
            B = case.call(signalproc.get_camfilter, q + sh, v, dirn, rq + sh,
                          dx=dx, xmax=xmax, **kw)
            case.close(B.values, A.values, 'translation', rtol=1e-6,
                       atol=1e-9)
    case.sig('sites', m, latlon, v > 0, xmax % 2, w)


def ongrid(case):
    """Sites that sit on points of the grid: no rounding, so exact."""
    rng = case.rng
    dx = float(rng.choice([1, 0.5, 2, 0.25, 4]))
    half = int(rng.choice([60, 150, 400]))
    xmax = int(2 * half * dx)
    ax = int(rng.integers(0, 4))
    u = [(1., 0.), (0., 1.), (-1., 0.), (0., -1.)][ax]
    m = int(rng.integers(1, 6))
    room = half // 2
    k = rng.choice(np.arange(-room, room), m, replace=False)
    rp = rng.integers(-400, 400, 2) * dx
    E = rng.integers(-99, 99, (m, 2)) * dx
    E[:, ax % 2] = k * dx * (1 if ax < 2 else -1)
    pos = pd.DataFrame(E + rp, columns=['E', 'N'], index=labels(rng, m))
    ref_ = pd.Series({'E': rp[0], 'N': rp[1]})
    v = float(rng.choice([1, 4, 10])) * float(rng.choice([-1, 1]))
    shape = ['square', 'gaussian'][rng.integers(0, 2)]
    w = [None, 2 * dx, 7 * dx][rng.integers(0, 3)]
    kw = {}
    if w is not None:
        kw['width'] = w
    if shape != 'square' or rng.integers(0, 2):
        kw['shape'] = shape
    if dx != 1 or rng.integers(0, 2):
        kw['dx'] = dx
    length = float(rng.choice([1, 4, 0.5]))
    case.note(dx=dx, xmax=xmax, k=k, v=v, u=u, kw=kw)
    H = case.call(signalproc.get_camfilter, pos, v,
                  (u[0] * length, u[1] * length), ref_, xmax=xmax, **kw)
    x = (np.arange(2 * half) - half) * dx
    W = dx if w is None else w
    P = np.zeros(2 * half)
    for c in k * dx:
        if shape == 'square':
            P[(x >= c - W / 2) & (x < c + W / 2)] = 1
        else:
            P += np.exp(-(x - c) ** 2 / (2 * (W / 2.355) ** 2))
    f = np.asarray(H.index, float)
    case.ok(len(f) == 2 * half, 'on-grid', f'{len(f)} frequencies')
    want = np.exp(-2j * np.pi * np.outer(f, x) / v) @ P / P.sum()
    case.close(H.values, want, 'on-grid', rtol=1e-6, atol=1e-8)
    case.sig('ongrid', m, dx, shape, w is None, v > 0, ax)


def endtoend(case):
    """The plant sees what the reference saw, later by distance / speed."""
    rng = case.rng
    dt = float(rng.choice([1, 2, 0.5]))
    n = int(rng.integers(200, 500))
    v = float(rng.choice([4, 8, 16]))
    dx = 1.0
    a = rng.uniform(0, 2 * np.pi)
    u = np.array([np.cos(a), np.sin(a)])
    perp = np.array([-u[1], u[0]])
    m = int(rng.integers(1, 5)) if case.index % 2 else 1
    k = rng.choice(np.arange(-12, 13), m, replace=False)
    rp = pd.Series(rng.uniform(-1000, 1000, 2), index=['E', 'N'])
    d = k * v * dt
    pos = pd.DataFrame([rp.values + q * u + rng.uniform(-300, 300) * perp
                        for q in d], columns=['E', 'N'])
    t = clock(n, dt)
    # periodic, smooth
    ks = np.arange(1, 9)
    x = (rng.normal(size=8)[:, None] * np.sin(
        2 * np.pi * ks[:, None] * np.arange(n) / n
        + rng.uniform(0, 6.28, 8)[:, None])).sum(0) + 3
    X = pd.Series(x, index=t)
    sgn = rng.choice([-1, 1])
    dirn = (float(u[0]) * sgn, float(u[1]) * sgn)
    case.note(dt=dt, n=n, v=v * sgn, shifts=k, m=m)
    # positive speed along +u, and the same motion written the other way
    for vv, dd in ((v * sgn, dirn), (v, (float(u[0]), float(u[1])))):
        H = case.call(signalproc.get_camfilter, pos, vv, dd, rp, dx=dx,
                      xmax=20000)
        y = np.asarray(case.call(signalproc.apply_filter, X, H))
        want = np.mean([np.roll(x, int(q)) for q in k], axis=0)
        # half a grid step of delay
        tol = 0.6 * dx / v / dt * np.max(np.abs(np.diff(np.r_[x, x[0]]))) \
            + 1e-6
        if m == 1:
            case.close(y, want, 'end-to-end', rtol=0, atol=tol)
        else:
            case.close(y, want, 'end-to-end-mean', rtol=0,
                       atol=tol + 0.02 * np.ptp(x))
    case.sig('e2e', m, dt, v, sgn)


def marcos(case):
    rng = case.rng
    s = 10 ** rng.uniform(-2, 4)
    f = np.sort(rng.uniform(-1, 1, 30)) * 10 ** rng.uniform(-3, 0)
    fk = f if rng.integers(0, 2) else pd.Index(f)
    H = case.call(signalproc.get_marcosfilter, s, fk)
    fc = 0.02 * s ** -0.5
    case.close(H.values, 1 / (1 + 1j * f / fc), 'marcos', rtol=1e-5,
               atol=1e-6)
    case.close(np.asarray(H.index, float), f, 'marcos', rtol=1e-12)
    c = case.call(signalproc.get_marcosfilter, s,
                  np.array([0.0, fc]))
    case.close(np.abs(c.values) ** 2, [1, 0.5], 'marcos', rtol=1e-5)
    D = case.call(signalproc.get_marcosfilter, s)
    g = np.asarray(D.index, float)
    case.ok(g[0] == 0 and abs(g[-1] - 0.5) < 1e-12 and np.all(np.diff(g) > 0),
            'marcos-default', 'a reference axis from 0 to 0.5 Hz')
    case.close(D.values, 1 / (1 + 1j * g / fc), 'marcos-default', rtol=1e-5,
               atol=1e-6)
    case.sig('marcos', int(np.log10(s)))


QUICK_X = 3
WORKLOADS = [('plant', plant, 200, 4000), ('cam', cam, 200, 4000),
             ('sites', sites, 120, 2500), ('ongrid', ongrid, 300, 4000), ('endtoend', endtoend, 80, 1500),
             ('marcos', marcos, 100, 1000)]
