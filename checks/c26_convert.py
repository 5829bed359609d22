import builtins
import os
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd
import netCDF4

from solarspatialtools.dataio import hope_campaign as hc
from solarspatialtools.dataio import nrcan_data
from checks.c25_qc import fill_ref

ID = 'C26'
RULE = ('Synthetic campaign files written with netCDF4 and pandas (several '
        'days, packed and plain variables, unsorted stations, sensors with '
        'irregular time stamps), converted by the package and read back.  '
        'Distinct = (tool, files, stations, storage, options).')
REQUIRED = ['parse-data', 'parse-flag', 'parse-place', 'parse-time',
            'h5-data', 'h5-flag', 'h5-place', 'h5-order', 'refuse',
            'refuse-intact', 'overwrite', 'other-files', 'sources-kept',
            'nrcan-ghi', 'nrcan-gti', 'nrcan-grid', 'nrcan-place',
            'nrcan-sites', 'nrcan-append', 'nrcan-zone', 'half-ordered']
ASSUMES = ['Source files are complete and of the documented layout.',
           'The command line clauses are driven while the entry point is '
           'called _main.']


def write_nc(path, t, ids, lat, lon, g, f, packed):
    d = netCDF4.Dataset(path, 'w')
    try:
        d.createDimension('time', None)
        d.createDimension('station', len(ids))
        v = d.createVariable('time', 'f8', ('time',))
        v.units = 'seconds since 1970-01-01 00:00:00'
        v[:] = t
        d.createVariable('station_id', 'i4', ('station',))[:] = ids
        d.createVariable('lat', 'f4', ('station',))[:] = lat
        d.createVariable('lon', 'f4', ('station',))[:] = lon
        if packed:
            v = d.createVariable('rsds', 'i2', ('time', 'station'),
                                 fill_value=-32768)
            v.scale_factor = 0.1
            v.add_offset = 800.0
        else:
            v = d.createVariable('rsds', 'f4', ('time', 'station'))
        v[:] = g
        d.createVariable('rsds_flag', 'i1', ('time', 'station'))[:] = f
    finally:
        d.close()


def campaign(rng, root, nfiles):
    m = int(rng.integers(1, 7))
    ids = rng.choice(np.arange(1, 100), m, replace=False)
    lat = rng.uniform(50, 52, m).astype('f4')
    lon = rng.uniform(-7, 13, m).astype('f4')
    packed = bool(rng.integers(0, 2))
    step = rng.choice([1, 1, 10, 0.5, 2.5])
    day0 = pd.Timestamp('2013-04-0%d' % rng.integers(1, 9))
    parts = []
    for k in range(nfiles):
        day = day0 + pd.Timedelta(days=k)
        n = int(rng.integers(5, 60))
        t = day.value // 10 ** 9 + 36000 + np.arange(n) * step
        g = np.round(rng.uniform(0, 1200, (n, m)), 1)
        k2 = rng.uniform(size=g.shape)
        g = np.where(k2 < 0.1, -999.0, g)
        f = rng.choice([1, 2, 3, 4], (n, m)).astype('i1')
        fn = f'pyrnet_rsds_{day:%Y%m%d}.nc'
        parts.append((fn, t, g, f))
    # written in another order than that of the names
    for q in rng.permutation(nfiles):
        fn, t, g, f = parts[q]
        write_nc(os.path.join(root, fn), t, ids, lat, lon, g, f, packed)
    for junk in ('readme.txt', 'x_metadata.xml', 'old.nc.part', 'a.h5'):
        if rng.integers(0, 2):
            with open(os.path.join(root, junk), 'w') as h:
                h.write('junk')
    return ids, lat, lon, packed, parts


def snapshot(root):
    out = {}
    for fn in sorted(os.listdir(root)):
        p = os.path.join(root, fn)
        if os.path.isfile(p):
            out[fn] = open(p, 'rb').read()
    return out


def stamps(t):
    return pd.DatetimeIndex(pd.to_datetime(t, unit='s')).tz_localize('UTC')


def same_time(case, idx, t, clause):
    case.ok(idx.tz is not None and len(idx) == len(t) and
            np.array_equal(idx.tz_convert('UTC').as_unit('ns').asi8,
                           np.round(np.asarray(t, float) * 10).astype('int64')
                           * 10 ** 8), clause,
            f'{idx[:3]} for {t[:3]}')


def frames(case, data, flag, place, ids, lat, lon, t, g, f, pre):
    same_time(case, data.index, t, pre + ('time' if pre == 'parse-' else
                                          'data'))
    same_time(case, flag.index, t, pre + 'flag')
    case.ok(list(data.columns) == list(ids) and list(flag.columns)
            == list(ids), pre + 'data', f'{list(data.columns)} for {ids}')
    case.close(data.values, g, pre + 'data', rtol=1e-6, atol=1e-3)
    case.ok(np.array_equal(flag.values, f), pre + 'flag')
    case.ok(list(place.index) == list(ids) and list(place.columns)
            == ['lat', 'lon'], pre + 'place', str(place))
    case.close(place['lat'].values, lat, pre + 'place', rtol=1e-6)
    case.close(place['lon'].values, lon, pre + 'place', rtol=1e-6)


def read(p):
    return [pd.read_hdf(p, key=k, mode='r') for k in ('data', 'flag',
                                                      'latlon')]


def hope(case):
    rng = case.rng
    root = tempfile.mkdtemp(prefix='hope-')
    try:
        n = int(rng.integers(1, 5))
        ids, lat, lon, packed, parts = campaign(rng, root, n)
        case.note(files=n, stations=list(ids), packed=packed)
        case.sig('hope', n, len(ids), packed)
        for fn, t, g, f in parts:
            d, fl, pl = case.call(hc.parse_file, os.path.join(root, fn))
            frames(case, d, fl, pl, ids, lat, lon, t, g, f, 'parse-')
        src = snapshot(root)
        tgt = os.path.join(root, 'out.h5')
        T = np.concatenate([p[1] for p in parts])
        G = np.concatenate([p[2] for p in parts])
        F = np.concatenate([p[3] for p in parts])
        case.call(hc.dataset_to_h5, root, tgt,
                  verbose=bool(rng.integers(0, 2)))
        d, fl, pl = read(tgt)
        frames(case, d, fl, pl, ids, lat, lon, T, G, F, 'h5-')
        case.ok(d.index.is_monotonic_increasing, 'h5-order')
        now = snapshot(root)
        case.ok(all(now[k] == v for k, v in src.items()), 'sources-kept')
        case.hit('other-files')
        # refuse to touch an existing file
        case.raises(ValueError, 'refuse', hc.dataset_to_h5, root, tgt)
        case.raises(ValueError, 'refuse', hc.dataset_to_h5, root, tgt, False,
                    False)
        case.ok(snapshot(root)['out.h5'] == now['out.h5'], 'refuse-intact')
        # replace, not append
        if n > 1:
            gone = parts.pop(int(rng.integers(0, n)))
            os.remove(os.path.join(root, gone[0]))
        case.call(hc.dataset_to_h5, root, tgt, overwrite=True, verbose=False)
        T = np.concatenate([p[1] for p in parts])
        G = np.concatenate([p[2] for p in parts])
        F = np.concatenate([p[3] for p in parts])
        d, fl, pl = read(tgt)
        frames(case, d, fl, pl, ids, lat, lon, T, G, F, 'h5-')
        case.ok(len(d) == len(T), 'overwrite')
    finally:
        shutil.rmtree(root, ignore_errors=True)


def nrcan_day(rng, src, sites, day, t0, span):
    """The files of one day; returns what each sensor measured (ms)."""
    os.mkdir(src)
    truth = {}
    whole = rng.integers(0, 2)
    for k, s in enumerate(sites):
        n = int(rng.integers(3, 40))
        off = np.unique(rng.integers(0, span, n))
        if k == 0 or whole:              # spans the record
            off = np.unique(np.concatenate([[0], off, [span]]))
        frac = rng.uniform(0, 9.0, len(off)) if rng.integers(0, 2) \
            else np.zeros(len(off))
        if k == 0:
            frac[0] = frac[-1] = 0
        ms = (t0 + off) * 10 + np.round(frac)
        ms = np.unique(ms).astype('int64')
        truth[s] = [ms, np.round(rng.uniform(0, 1200, len(ms)), 2),
                    np.round(rng.uniform(0, 1300, len(ms)), 2)]
    if len(sites) > 1 and not whole:
        # the first sensor starts later and ends earlier than another
        lo, hi = sorted(rng.integers(0, span, 2))
        a = truth[sites[0]]
        keep = (a[0] >= (t0 + lo) * 10) & (a[0] <= (t0 + hi) * 10)
        if keep.any():
            b = truth[sites[1]]
            truth[sites[0]] = [q[keep] for q in a]
            ends = [t0 * 10, (t0 + span) * 10]
            inner = (b[0] > ends[0]) & (b[0] < ends[1])
            truth[sites[1]] = [
                np.concatenate([[ends[0]], b[0][inner], [ends[1]]])] + [
                np.concatenate([q[:1] + 1, q[inner], q[-1:] + 2])
                for q in b[1:]]
    for s, (ms, g1, g2) in truth.items():
        rows = []
        for a, b, c in zip(ms, g1, g2):
            h, r = divmod(int(a), 3600000)
            mi, r = divmod(r, 60000)
            se, q = divmod(r, 1000)
            rows.append([day, f'{h:02d}:{mi:02d}:{se:02d}.{q:03d}', b, c])
        pd.DataFrame(rows, columns=['Date', 'Time', 'G1 (W/m2)',
                                    'G2 (W/m2)']).to_csv(
            os.path.join(src, f'{day.replace("-", "")}_{s}.csv'),
            index=False)
    return truth


def nrcan_same(case, part, truth, day, sites, clause=None):
    """One day of the converted tables against its source files."""
    base = pd.Timestamp(day, tz='UTC') + pd.Timedelta(hours=5)
    lo = min(a[0][0] for a in truth.values()) // 10 * 10
    hi = max(a[0][-1] for a in truth.values()) // 10 * 10
    grid = np.arange(lo, hi + 1, 10)
    for q, which in zip(part, (1, 2)):
        case.ok(q.index.tz is not None, 'nrcan-zone')
        ms = np.round((q.index.tz_convert('UTC') - base)
                      .total_seconds().values * 1000).astype('int64')
        case.ok(np.array_equal(ms, grid), clause or 'nrcan-grid',
                f'{ms[:3]}..{ms[-1:]} for {grid[:3]}..{grid[-1:]}')
        for s in sites:
            a, v = truth[s][0], truth[s][which]
            k = np.searchsorted(a, grid, side='right') - 1
            # a sensor is held from its first to its last sample
            live = (k >= 0) & (grid <= a[-1] // 10 * 10)
            w = np.where(live, v[np.maximum(k, 0)], np.nan)
            case.close(q[s].values.astype(float), w, clause or
                       ('nrcan-ghi', 'nrcan-gti')[which - 1], rtol=1e-9,
                       msg=s)


def nrcan(case):
    rng = case.rng
    root = tempfile.mkdtemp(prefix='nrcan-')
    try:
        src = os.path.join(root, 'day')
        m = int(rng.integers(1, 5))
        sites = [f'ALD{i:02d}' for i in sorted(
            rng.choice(np.arange(1, 30), m, False))]
        dd = int(rng.integers(1, 9))
        day = '2015-10-0%d' % dd
        t0 = int(rng.integers(40000, 70000)) * 100       # in 10 ms
        span = int(rng.integers(60, 400))
        truth = nrcan_day(rng, src, sites, day, t0, span)
        ll = pd.DataFrame({'Site': sites, 'Latitude': rng.uniform(44, 46, m),
                           'Longitude': rng.uniform(-79, -73, m)})
        inside = bool(rng.integers(0, 2))
        lf = os.path.join(src if inside else root, 'site_latlon.csv')
        ll.to_csv(lf, index=False)
        tgt = os.path.join(root, 'o.h5')
        before = snapshot(src)
        case.note(sites=sites, span=span, inside=inside)
        case.sig('nrcan', m, inside, span // 50)
        case.call(nrcan_data.process_files, src, lf, tgt)
        case.ok(snapshot(src) == before, 'sources-kept')
        out = [pd.read_hdf(tgt, key=k, mode='r')
               for k in ('data', 'data_tilt')]
        pl = pd.read_hdf(tgt, key='latlon', mode='r')
        case.ok(all(list(q.columns) == sites for q in out), 'nrcan-sites',
                f'{list(out[0].columns)} for {sites}')
        case.ok(list(pl.index) == sites, 'nrcan-place')
        case.close(pl[['lat', 'lon']].values, ll[['Latitude', 'Longitude']]
                   .values, 'nrcan-place')
        nrcan_same(case, out, truth, day, sites)
        # the next day goes into the same file
        n1 = len(out[0])
        src2 = os.path.join(root, 'next')
        day2 = '2015-10-0%d' % (dd + 1)
        truth2 = nrcan_day(rng, src2, sites, day2, t0 + 500, span)
        case.call(nrcan_data.process_files, src2, os.path.join(
            src if inside else root, 'site_latlon.csv'), tgt)
        both = [pd.read_hdf(tgt, key=k, mode='r')
                for k in ('data', 'data_tilt')]
        for q, o in zip(both, out):
            case.ok(q.iloc[:n1].equals(o), 'nrcan-append',
                    'the first day is not what it was')
        nrcan_same(case, [q.iloc[n1:] for q in both], truth2, day2, sites,
                   'nrcan-append')
    finally:
        shutil.rmtree(root, ignore_errors=True)


def cli(case):
    """The command line, with the web replaced by files."""
    main, urls = getattr(hc, '_main', None), getattr(hc, 'URLS', None)
    if main is None or not isinstance(urls, dict):
        return
    rng = case.rng
    root = tempfile.mkdtemp(prefix='cli-')
    saved = (sys.argv, builtins.input, dict(urls))
    asked = []
    answer = ['n']
    try:
        web = os.path.join(root, 'web')
        os.mkdir(web)
        ids, lat, lon, packed, parts = campaign(rng, web, int(
            rng.integers(1, 4)))
        with open(os.path.join(web, 'wget.sh'), 'w') as h:
            for fn, *_ in parts:
                h.write(f'wget -N file://{web}/{fn}\n')
        with open(os.path.join(web, 'meta.xml'), 'w') as h:
            h.write('<meta/>')
        name = list(urls)[rng.integers(0, len(urls))]
        for k in list(urls):
            urls[k] = {'wget': f'file://{web}/wget.sh',
                       'meta': f'file://{web}/meta.xml'}
        arg = name.lower() if rng.integers(0, 2) else name
        tgt = os.path.join(root, 'new', 'dir')

        def ask(*a):
            asked.append(a)
            return answer[0]
        builtins.input = ask

        def run(*opts):
            sys.argv = ['hope_campaign.py', arg, tgt] + list(opts)
            return case.call(main)
        T = np.concatenate([p[1] for p in parts])
        G = np.concatenate([p[2] for p in parts])
        F = np.concatenate([p[3] for p in parts])
        low = name.lower()
        qc = ['interp', 'null', 'flag'][rng.integers(0, 3)]
        case.note(dataset=arg, qc=qc)
        case.sig('cli', name, qc, len(parts))
        run('-m', '-h5', '-q', qc)
        case.ok(open(os.path.join(tgt, arg + '_metadata.xml')).read()
                == '<meta/>', 'cli-metadata')
        for fn, *_ in parts:
            case.ok(open(os.path.join(tgt, fn), 'rb').read() ==
                    open(os.path.join(web, fn), 'rb').read(), 'cli-files')
        d, fl, pl = read(os.path.join(tgt, low + '.h5'))
        frames(case, d, fl, pl, ids, lat, lon, T, G, F, 'h5-')
        bad = G < -100
        if qc == 'flag':
            w = np.where(F >= 2, np.nan, G)
        else:
            w = np.where(bad, np.nan, G)
            if qc == 'interp':
                w = np.stack([fill_ref(w[:, j], 5)[0]
                              for j in range(w.shape[1])], axis=1)
        q = read(os.path.join(tgt, f'{low}-qc{qc}.h5'))
        same_time(case, q[0].index, T, 'cli-qc')
        case.close(q[0].values, w, 'cli-qc', rtol=1e-5, atol=1e-2)
        case.ok(np.array_equal(q[1].values, F) and q[2].equals(pl), 'cli-qc')
        # again, and decline to overwrite
        before = snapshot(tgt)
        del asked[:]
        run('-h5', '-q', qc, '-s')
        case.ok(snapshot(tgt) == before, 'cli-declined')
        case.ok(len(asked) == 2, 'cli-declined', f'{len(asked)} questions')
        # accept
        answer[0] = ['y', 'Y'][rng.integers(0, 2)]
        run('-h5', '-q', qc, '-s')
        d, fl, pl = read(os.path.join(tgt, low + '.h5'))
        frames(case, d, fl, pl, ids, lat, lon, T, G, F, 'h5-')
        q2 = read(os.path.join(tgt, f'{low}-qc{qc}.h5'))
        case.ok(all(a.equals(b) for a, b in zip(q, q2)), 'cli-accepted')
        case.ok(set(snapshot(tgt)) == set(before), 'cli-accepted')
        # refusals
        sys.argv = ['x', 'nowhere', tgt]
        case.raises((ValueError, SystemExit), 'cli-bad', main)
        sys.argv = ['x', arg, tgt, '-q', 'best']
        case.raises((ValueError, SystemExit), 'cli-bad', main)
        case.ok(set(snapshot(tgt)) == set(before), 'cli-bad')
    finally:
        sys.argv, builtins.input = saved[0], saved[1]
        if isinstance(urls, dict):
            urls.clear()
            urls.update(saved[2])
        shutil.rmtree(root, ignore_errors=True)


def ordered(case):
    """Stations keep their own columns whatever their order in the file."""
    rng = case.rng
    root = tempfile.mkdtemp(prefix='ord-')
    try:
        m = int(rng.integers(3, 9))
        ids = rng.permutation(np.arange(1, m + 1))
        t = 1378630800 + np.arange(4)
        g = np.tile(ids * 10.0, (4, 1))
        f = np.ones((4, m), 'i1')
        p = os.path.join(root, 'a.nc')
        write_nc(p, t, ids, ids + 40.0, ids + 5.0, g, f, False)
        d, fl, pl = case.call(hc.parse_file, p)
        for i in ids:
            case.close(d[i].values, np.full(4, i * 10.0), 'half-ordered')
            case.close(pl.loc[i, ['lat', 'lon']].values.astype(float),
                       [i + 40, i + 5], 'half-ordered')
        case.sig('ordered', m)
    finally:
        shutil.rmtree(root, ignore_errors=True)


WORKLOADS = [
    ('hope', hope, 30, 500),
    ('nrcan', nrcan, 30, 500),
    ('cli', cli, 16, 200),
    ('ordered', ordered, 10, 100),
]
