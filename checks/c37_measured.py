"""The supplied measurements through the documented analyses, step by step."""
import numpy as np
import pandas as pd
import pvlib

from solarspatialtools import cmv, field, irradiance, signalproc, spatial
from solarspatialtools import stats
from solarspatialtools.synthirrad import cloudfield as cf
from mon import ref as R
from mon.core import Skip
from checks import c12_cmvqc as c12, c14_position as c14, c17_variability as c17
from checks import c21_cloudstats as c21

ID = 'C37'
RULE = ('Random sensors, units and parts of the measured records that come '
        'with the package go through the analyses of its worked examples '
        '(coordinates, clear-sky index, variability, cloud motion, predicted '
        'places, reassignment, plant filters, cloud statistics); every step '
        'is judged by its definition, and the worked examples must end in '
        'the results published with them.  Distinct = (workload, record, '
        'method, number of sensors, length).')
REQUIRED = ['published:reassignment', 'published:motion', 'published:stats',
            'published:filters',
            'utm', 'value', 'vs', 'vs-average', 'darr', 'vi', 'good', 'peak',
            'velocity:jamaly', 'velocity:gagne', 'position:coherence',
            'position:distance', 'optimal', 'remap', 'cascade', 'tf', 'coh',
            'psd', 'cam', 'filtered', 'errors', 'mean', 'weights', 'speed']
ASSUMES = ['The published results are compared to the digits printed in the '
           'documentation of the worked examples.',
           'Clear-sky irradiance comes from pvlib, which is not judged.']
HOPE = '/repo/demos/data/hope_melpitz_1s.h5'
PLANT = '/repo/demos/data/sample_plant_1.h5'
CACHE = {}


def table(fn, key):
    if (fn, key) not in CACHE:
        try:
            CACHE[fn, key] = pd.read_hdf(fn, key, mode='r')
        except (OSError, KeyError):
            raise Skip
    return CACHE[fn, key].copy()


def clear(ix):
    if 'cs' not in CACHE:
        p = table(HOPE, 'latlon')
        loc = pvlib.location.Location(np.mean(p['lat']), np.mean(p['lon']))
        CACHE['cs'] = loc.get_clearsky(table(HOPE, 'data').index,
                                       model='simplified_solis')['ghi']
    return CACHE['cs'].loc[ix].copy()


def part(rng, lo=3, hi=14):
    """Some sensors of the pyranometer network during some time."""
    d = table(HOPE, 'data')
    ids = list(rng.choice(d.columns.values, int(rng.integers(lo, hi)),
                          replace=False))
    n = int(rng.integers(300, 1500))
    s = int(rng.integers(0, len(d) - n))
    step = int(rng.choice([1, 1, 2, 5]))
    return d[ids].iloc[s:s + n:step]


def averaged(s, width):
    """Means over windows that are counted from midnight."""
    t = (s.index - s.index[0].normalize()).total_seconds().values
    b = np.floor(t / width + 1e-9).astype(int)
    return np.array([s.values[b == k].mean() if (b == k).any() else np.nan
                     for k in range(b[0], b[-1] + 1)])


# ------------------------------------------------------------ network ------
def network(case):
    rng = case.rng
    d = part(rng)
    ids = list(d.columns)
    ll = table(HOPE, 'latlon').loc[ids]
    case.note(sensors=ids, start=d.index[0], n=len(d))
    # coordinates
    utm = case.call(spatial.latlon2utm, ll['lat'], ll['lon'])
    case.ok(list(utm.index) == ids, 'utm', f'{list(utm.index)}')
    for k in ids:
        w = R.utm_forward(float(ll.lat[k]), float(ll.lon[k]), 33)
        case.close(np.asarray(utm.loc[k, ['E', 'N']], float), w[:2], 'utm',
                   rtol=0, atol=1e-3)
    case.close(utm[['E', 'N']].values.astype(float),
               table(HOPE, 'utm').loc[ids, ['E', 'N']].values, 'utm', rtol=0,
               atol=.5)
    # clear-sky index
    cs = clear(d.index)
    cap = float(rng.choice([2., 1.2]))
    kt = case.call(irradiance.clearsky_index, d, cs, cap)
    case.ok(list(kt.columns) == ids and kt.index.equals(d.index), 'value')
    w = np.clip(d.values.astype(float) / cs.values[:, None], 0, cap)
    case.close(kt.values.astype(float), w, 'value', rtol=1e-5, atol=1e-6)
    case.ok(np.all(np.asarray(kt) <= cap * (1 + 1e-6)), 'value')
    # variability
    x = d.astype(float)
    dt = (d.index[1] - d.index[0]).total_seconds()
    tau = int(rng.choice([1, 2, 5, 30, 60]))
    avg = bool(rng.integers(0, 2))
    vs = case.call(stats.variability_score, x, tau, avg)
    da = case.call(stats.darr, x, tau, avg)
    for k in ids:
        a, lag = (averaged(x[k], tau * dt), 1) if avg and tau > 1 \
            else (x[k].values, tau)
        lo, hi, _ = c17.vs_ref(a, lag)
        t = 1e-7 * max(hi, 1)
        case.ok(lo - t <= vs[k] <= hi + t, 'vs-average' if avg else 'vs',
                f'sensor {k}: {vs[k]} not in [{lo}, {hi}]')
        case.close(da[k], c17.darr_ref(a, lag), 'darr', rtol=1e-8)
    vi = case.call(stats.variability_index, x[ids[0]], cs)
    m = dt / 60
    w = np.hypot(np.diff(x[ids[0]].values), m).sum() / np.hypot(
        np.diff(cs.values), m).sum()
    case.close(vi, w, 'vi', rtol=1e-7)
    # cloud motion
    method = ['jamaly', 'gagne'][case.index % 2]
    pos = utm[['E', 'N']].astype(float)
    if rng.integers(0, 3) == 0:
        pos = pos.iloc[rng.permutation(len(pos))]
    opt = None
    if method == 'jamaly':
        opt = {'mincorr': float(rng.choice([.8, .5])),
               'maxvelocity': float(rng.choice([70., 40.]))}
    case.sig('network', method, len(ids), len(d), tau, avg)
    out = case.call(cmv.compute_cmv, kt, pos, None, method, opt)
    c12.judge(case, kt, pos, None, method, opt, 'xcorr', out)


# -------------------------------------------------------------- plant ------
def best(cost):
    """Least total cost of a one-to-one assignment, over all of them."""
    n = len(cost)
    total = np.full(1 << n, np.inf)
    total[0] = 0
    for s in range(1 << n):
        i = bin(s).count('1')
        if i < n:
            for j in range(n):
                if not s >> j & 1:
                    t = s | 1 << j
                    total[t] = min(total[t], total[s] + cost[i, j])
    return total[-1]


KNOWN = {'a': (10.7, 3.29), 'c': (3.14, 1.92)}


def plant(case):
    rng = case.rng
    pos = table(PLANT, 'utm').infer_objects()
    inv = str(rng.choice(sorted({k.split('-')[1] for k in pos.index})))
    units = [k for k in pos.index if k.split('-')[1] == inv][:9]
    # the inverter among some others
    keep = [k for k in pos.index if k in units or rng.uniform() < .25]
    pos = pos.loc[keep]
    if rng.integers(0, 2):
        pos = pos.iloc[rng.permutation(len(pos))]
    dfs = [table(PLANT, 'data_' + q) for q in 'ac']
    vecs = [np.array(spatial.pol2rect(*KNOWN[q])) for q in 'ac']
    mode = ['coherence', 'global_coherence', 'distance', 'all'][
        case.index % 4]
    kw = dict(navgs=5, coh_limit=float(rng.choice([.6, .5])),
              freq_limit=float(rng.choice([.02, .015])),
              delay_method='multi')
    nd = int(rng.choice([8, 5, 12]))
    pred = pd.DataFrame(index=units, columns=['E', 'N'], dtype=float)
    case.note(inverter=inv, units=len(units), among=len(keep), mode=mode,
              nd=nd, **kw)
    for k in units:
        p, data = case.call(field.compute_predicted_position, dfs, pos, k,
                            vecs, mode=mode, ndownsel=nd, **kw)
        pred.loc[k] = np.ravel(p)
        if k in units[:2]:
            w, sel, full = c14.formula(case, dfs, pos, k, vecs, mode, nd, kw)
            if w is not None:
                case.close(np.ravel(p), w, f'position:{mode}', rtol=1e-6,
                           atol=1e-2)
    if not np.isfinite(pred.values).all():
        raise Skip
    plan = pos.loc[units, ['E', 'N']]
    remap, dist = case.call(field.assign_positions, plan, pred)
    case.ok(sorted(a for a, _ in remap) == sorted(units)
            and sorted(b for _, b in remap) == sorted(units), 'optimal',
            f'not one-to-one: {remap}')
    cost = np.array([[np.hypot(*(pred.loc[a] - plan.loc[b])) for b in units]
                     for a in units])
    got = sum(cost[units.index(a), units.index(b)] for a, b in remap)
    case.close(got, best(cost), 'optimal', rtol=1e-9)
    fixed = case.call(field.remap_positions, pos, remap)
    m = dict(remap)
    w = pos.copy()
    for k in units:
        w.loc[k] = pos.loc[m[k]].values
    case.close(fixed[['E', 'N']].values.astype(float),
               w[['E', 'N']].values.astype(float), 'remap', rtol=1e-12)
    second = [(k, units[j]) for k, j in zip(sorted(units),
                                            rng.permutation(len(units)))]
    out = dict(case.call(field.cascade_remap, remap, second))
    twice = case.call(field.remap_positions, fixed, second)
    once = case.call(field.remap_positions, pos, sorted(out.items()))
    case.close(once.values.astype(float), twice.values.astype(float),
               'cascade', rtol=1e-12)
    case.sig('plant', inv, mode, nd)


# ------------------------------------------------------------- motion ------
def motion(case):
    rng = case.rng
    key = 'abcde'[case.index % 5]
    d = table(PLANT, 'data_' + key)
    pos = table(PLANT, 'utm').infer_objects()
    inv = rng.choice(sorted({k.split('-')[1] for k in pos.index}),
                     int(rng.integers(1, 3)), replace=False)
    ids = [k for k in pos.index if k.split('-')[1] in inv]
    n = int(rng.integers(120, len(d) + 1))
    s = int(rng.integers(0, len(d) - n + 1))
    kt = d[ids].iloc[s:s + n] / np.nanmax(d.values)
    method = ['jamaly', 'gagne'][case.index // 5 % 2]
    backend = ['xcorr', 'xcorr', 'tf'][rng.integers(0, 3)]
    ref = None
    if rng.integers(0, 2):
        ref = [str(k) for k in rng.choice(ids, 3, replace=False)]
    case.note(record=key, units=ids, n=n, method=method, backend=backend,
              reference=ref)
    case.sig('motion', key, method, backend, ref is None)
    out = case.call(cmv.compute_cmv, kt, pos.loc[ids], ref, method, None,
                    backend)
    c12.judge(case, kt, pos.loc[ids], ref, method, None, backend, out)


# ------------------------------------------------------------ filters ------
def filters(case):
    rng = case.rng
    d = part(rng, 2, 12).astype(float)
    ids = list(d.columns)
    pos = table(HOPE, 'utm').loc[ids, ['E', 'N']]
    dt = (d.index[1] - d.index[0]).total_seconds()
    n = len(d)
    x, agg = d[ids[0]], d.mean(axis=1)
    navgs = int(rng.choice([2, 3, 5, 8]))
    win = str(rng.choice(['hamming', 'hann', 'boxcar']))
    det = [None, 'linear', 'constant'][rng.integers(0, 3)]
    case.note(sensors=ids, n=n, dt=dt, navgs=navgs, window=win, detrend=det)
    tf, coh = case.call(signalproc.averaged_tf, x, agg, navgs, .5, win, det)
    spec = [R.cross_spectrum(a, b, 1 / dt, navgs, .5, win, det)
            for a, b in ((x, x), (x, agg), (agg, agg))]
    f, (sxx, sxy, syy) = spec[0][0], [q[1] for q in spec]
    case.close(np.asarray(tf.index, float), f, 'tf', rtol=1e-9)
    # bins without any power left by the detrending are rounding only
    use = (sxx.real > 1e-9 * sxx.real.max()) \
        & (syy.real > 1e-9 * syy.real.max())
    case.close(np.ravel(tf)[use], (sxy / sxx)[use], 'tf', rtol=1e-5,
               atol=1e-6)
    case.close(np.ravel(coh)[use],
               (np.abs(sxy) ** 2 / sxx.real / syy.real)[use], 'coh',
               rtol=1e-5, atol=1e-6)
    psd = case.call(signalproc.averaged_psd, x, navgs, .5, win, det)
    case.close(np.ravel(psd)[use], sxx.real[use], 'psd', rtol=1e-5)
    # the cloud advection model: every site is a pure delay
    v, th = float(rng.uniform(5, 30)), float(rng.uniform(-np.pi, np.pi))
    u = np.array([np.cos(th), np.sin(th)])
    H = case.call(signalproc.get_camfilter, pos, v, tuple(u),
                  pos.loc[ids[0]])
    fh = np.asarray(H.index, float)
    low = np.abs(fh) < .02
    s = (pos.values - pos.loc[ids[0]].values) @ u
    if len(np.unique(np.round(s))) == len(s):
        w = np.exp(-2j * np.pi * np.outer(fh[low], s) / v).mean(axis=1)
        case.close(H.values.ravel()[low], w, 'cam', rtol=0,
                   atol=2.2 * np.pi * .02 / v)
    y = case.call(signalproc.apply_filter, x, H)
    case.ok(y.index.equals(x.index), 'filtered')
    fx = np.fft.fftfreq(n, dt)
    o = np.argsort(fh)
    inside = np.abs(fx) <= np.abs(fh).max() * .98
    if inside.all():
        h = np.interp(fx, fh[o], np.abs(H.values.ravel()[o])) * np.exp(
            1j * np.interp(fx, fh[o], np.unwrap(np.angle(
                H.values.ravel()[o]))))
        far = np.abs(np.fft.fft(x.values)) * np.abs(h)
        got = np.abs(np.fft.fft(np.ravel(y)))
        case.close(got[1:n // 2], far[1:n // 2], 'filtered', rtol=1e-6,
                   atol=1e-6 * far.max())
    a, b = agg.values, np.ravel(y)
    for fn, w in ((stats.rmse, np.sqrt(np.mean((b - a) ** 2))),
                  (stats.mbe, np.mean(b - a)),
                  (stats.mae, np.mean(np.abs(b - a)))):
        case.close(case.call(fn, agg, pd.Series(b, agg.index)), w, 'errors',
                   rtol=1e-9, atol=1e-9)
    case.sig('filters', len(ids), n, dt, navgs, win)


# ------------------------------------------------------------- clouds ------
def clouds(case):
    rng = case.rng
    d = part(rng, 1, 2)
    k = d.columns[0]
    cs = clear(d.index)
    kt = case.call(irradiance.clearsky_index, d[k], cs)
    x = kt.values.astype(float)
    dt = (d.index[1] - d.index[0]).total_seconds()
    th = float(rng.choice([.95, .8, .6]))
    case.note(sensor=k, n=len(x), dt=dt, threshold=th)
    out = case.call(cf.get_timeseries_stats, kt, th)
    so = np.sort(x)
    p = .01 * (len(x) - 1)
    a = int(p)
    case.close(out[:4], [x.mean(), so[a] + (so[a + 1] - so[a]) * (p - a),
                         so[-1], np.mean(x > th)], 'mean', rtol=1e-6)
    if dt == 1:
        r = np.sort(np.abs(np.diff(x)))
        m = len(r)
        lo = max(r * (m - np.searchsorted(r, r, 'right'))) / m * 1e4
        hi = max(r * (m - np.searchsorted(r, r, 'left'))) / m * 1e4
        case.ok(lo - 1e-5 * hi <= out[4] <= hi * (1 + 1e-5), 'vs',
                f'{out[4]} not in [{lo}, {hi}]')
    e = c21.energies(x, dt)
    case.close(out[5], e / e.sum(), 'weights', rtol=1e-5, atol=1e-8)
    # what a point of a moving field sees
    nx, ny = int(rng.integers(60, 300)), int(rng.integers(5, 60))
    fld = np.arange(nx)[:, None] + rng.uniform(size=(nx, ny))
    v = float(rng.uniform(5, 25))
    dur = int(rng.integers(5, 50))
    i, j = int(rng.integers(0, nx)), int(rng.integers(0, ny))
    ts = np.ravel(case.call(cf.get_positional_ts, ((i + .5) * v, (j + .5)
                                                   * v), fld, v, dur))
    case.close(ts, fld[i:i + dur + 1, j], 'speed', rtol=1e-9)
    case.sig('clouds', k, len(x), dt, th)


# ---------------------------------------------------------- published ------
FINAL = dict(zip(range(1, 10), (9, 8, 7, 6, 5, 1, 2, 3, 4)))
FIRST = dict(zip(range(1, 10), (9, 7, 5, 6, 2, 1, 3, 4, 8)))


def reassignment(case):
    """field_reassignment_demo: the units of inverter 20 swap places."""
    dfs = [table(PLANT, 'data_' + q) for q in 'ac']
    pos = table(PLANT, 'utm').infer_objects()
    vecs = [spatial.pol2rect(*KNOWN[q]) for q in 'ac']
    refs = [k for k in pos.index if k.split('-')[1] == '20']

    def step(p):
        pred = pd.DataFrame(index=refs, columns=['E', 'N'], dtype=float)
        for r in refs:
            pred.loc[r] = case.call(field.compute_predicted_position, dfs, p,
                                    r, vecs)[0]
        return case.call(field.assign_positions, p.loc[refs], pred)[0]

    def named(m):
        return sorted((f'CMB-20-{a:02d}', f'CMB-20-{b:02d}')
                      for a, b in m.items())
    c = 'published:reassignment'
    r0 = step(pos)
    case.ok(sorted(r0) == named(FIRST), c, 'first remap', got=r0)
    p1 = case.call(field.remap_positions, pos, r0)
    r1 = case.call(field.cascade_remap, r0, step(p1))
    case.ok(sorted(r1) == named(FINAL), c, 'second remap', got=r1)
    p2 = case.call(field.remap_positions, pos, r1)
    r2 = case.call(field.cascade_remap, r1, step(p2))
    case.ok(sorted(r2) == named(FINAL), c, 'settled remap', got=r2)
    case.sig(c)


def synthetic(case):
    """synthetic_clouds_demo: motion and statistics of the record."""
    d, cs = table(HOPE, 'data'), None
    cs = clear(d.index)
    cs = 1000 / max(cs) * cs
    utm = table(HOPE, 'utm')
    kt = case.call(irradiance.clearsky_index, d, cs, 2)
    v, a, _ = case.call(cmv.compute_cmv, kt, utm, reference_id=None,
                        method='jamaly')
    c = 'published:motion'
    case.close([v, np.rad2deg(a)], [19.67, 90.70], c, rtol=0, atol=.0101)
    rot = case.call(spatial.rotate_vector, (utm['E'], utm['N']), theta=-a)
    ext = [np.ptp(np.asarray(q)) for q in rot]
    case.close(ext, [1919.58, 2023.44], c, rtol=0, atol=.06)
    case.close([np.ceil(ext[0] / v + 3600), np.ceil(ext[1] / v)],
               [3698, 103], c, rtol=0, atol=0)
    out = case.call(cf.get_timeseries_stats, kt[40], plot=False)
    case.close(np.array(out[:5], float), [.64, .38, 1.09, .12, 25.31],
               'published:stats', rtol=0, atol=.0051)
    case.sig(c)


def smoothing(case):
    """signalproc_demo: how well the models smooth."""
    pts = [60, 79, 92, 43, 42, 40, 86, 7, 14, 70]
    pos = table(HOPE, 'latlon')
    utm = case.call(spatial.latlon2utm, pos['lat'], pos['lon'])
    d = table(HOPE, 'data')
    x, agg = d[40], d[pts].sum(axis=1) / len(pts)
    loc = pvlib.location.Location(np.mean(pos.loc[pts, 'lat']),
                                  np.mean(pos.loc[pts, 'lon']))
    cs = loc.get_clearsky(d.index, model='simplified_solis')['ghi']
    cam = case.call(signalproc.get_camfilter, utm.loc[pts], 20, (0, 1),
                    utm.loc[40])
    mar = case.call(signalproc.get_marcosfilter, 10, cam.index)
    y = [case.call(signalproc.apply_filter, x, q) for q in (cam, mar)]
    kt = [np.clip(q / cs, 0, 2) for q in (x, agg, *y)]
    c = 'published:filters'
    e = [case.call(stats.rmse, kt[1], q) for q in (kt[0], *kt[2:])]
    case.ok(e[1] < .5 * e[0] and e[1] < .5 * e[2] and e[2] < e[0], c,
            f'errors of the sensor, the advection and the plain model: {e}')
    v = [case.call(stats.variability_score, q, tau=5., moving_avg=True,
                   pct=True) for q in (x, agg, *y)]
    case.close(v[2], v[1], c, rtol=.1, atol=0, msg='variability score')
    case.sig(c)


def published(case):
    [reassignment, synthetic, smoothing][case.index % 3](case)


WORKLOADS = [('published', published, 3, 3), ('network', network, 60, 3000),
             ('plant', plant, 24, 1200), ('motion', motion, 20, 1000),
             ('filters', filters, 80, 4000), ('clouds', clouds, 60, 3000)]
