import numpy as np
import pandas as pd

from solarspatialtools import spatial
from mon import ref
from mon.core import Skip
from mon.core import size

ID = 'C01'
RULE = ('Points drawn over the globe (uniform, on zone edges, on the equator, '
        'at the antimeridian, high latitude) are converted as scalars and in '
        'every container, and judged against an independent Krueger-series '
        'transverse Mercator.  Distinct = (container, zone mode, hemisphere '
        'mix, zone).')
REQUIRED = ['forward', 'zone', 'inverse', 'roundtrip-ll', 'roundtrip-en',
            'container-forward', 'container-inverse', 'container-type',
            'length-mismatch']
ASSUMES = ['The Krueger n^6 series is exact to well below the 1e-4 m used.']


def point(rng):
    kind = rng.integers(0, 8)
    lat = rng.uniform(-80, 84)
    lon = rng.uniform(-180, 180)
    if kind == 1:
        lon = float(rng.integers(-30, 30) * 6) \
            + rng.choice([0, 1e-9, -1e-9, 1e-4, -1e-4])
    elif kind == 2:
        lat = float(rng.choice([0.0, 1e-9, -1e-9, 1e-3, -1e-3]))
    elif kind == 3:
        lon = float(rng.choice([180.0, -180.0, 179.9999999, -179.9999999,
                                177.0, -177.0]))
    elif kind == 4:
        lat = float(rng.choice([-1, 1]) * rng.uniform(80, 88))
    elif kind == 5:
        lat, lon = int(rng.integers(-79, 84)), int(rng.integers(-180, 181))
    if not (-180 <= lon <= 180):
        lon = float(np.clip(lon, -180, 180))
    return lat, lon


def pick_zone(rng, lon):
    nat = ref.utm_zone(lon)
    mode = rng.integers(0, 3)
    if mode == 0:
        return None, nat
    if mode == 1:
        return nat, nat
    z = int((nat - 1 + rng.integers(-2, 3)) % 60 + 1)
    return z, z


def lon_close(case, got, want, clause):
    case.ok(abs(ref.wrap180(float(got) - float(want))) < 1e-8, clause,
            f'longitude {got!r} instead of {want!r}')


def scalar(case):
    rng = case.rng
    for _ in range(8):
        lat, lon = point(rng)
        zone, z = pick_zone(rng, lon)
        case.note(lat=lat, lon=lon, zone=zone)
        out = case.call(spatial.latlon2utm, lat, lon, zone) if zone is not None \
            else case.call(spatial.latlon2utm, lat, lon)
        e, n, zz = out
        we, wn, _ = ref.utm_forward(lat, lon, z)
        case.ok(zz == z, 'zone', f'zone {zz} instead of {z} at {lon}')
        case.close([e, n], [we, wn], 'forward', rtol=0, atol=1e-4)
        la, lo = case.call(spatial.utm2latlon, e, n, z, lat < 0)
        case.close(la, lat, 'roundtrip-ll', rtol=0, atol=1e-8)
        lon_close(case, lo, lon, 'roundtrip-ll')
        # from the projected side
        south = bool(rng.integers(0, 2))
        e2 = rng.uniform(1e5, 9e5)
        n2 = rng.uniform(0, 9.3e6) if not south else rng.uniform(1e6, 1e7)
        z2 = int(rng.integers(1, 61))
        la, lo = case.call(spatial.utm2latlon, e2, n2, z2, south) \
            if south or rng.integers(0, 2) else \
            case.call(spatial.utm2latlon, e2, n2, z2)
        wl, wo = ref.utm_inverse(e2, n2, z2, south)
        case.close(la, wl, 'inverse', rtol=0, atol=1e-8)
        lon_close(case, lo, wo, 'inverse')
        if -180 < wo < 180 and abs(la) > 1e-7 and (la < 0) == south:
            back = case.call(spatial.latlon2utm, la, lo, z2)
            case.close(back[:2], [e2, n2], 'roundtrip-en', rtol=0, atol=1e-3)
        case.sig(z, zone is None, lat < 0)


KINDS = ['list', 'tuple', 'array', 'series', 'series-dup']


def wrap(kind, v, idx):
    if kind == 'list':
        return list(v)
    if kind == 'tuple':
        return tuple(v)
    if kind == 'array':
        return np.array(v)
    return pd.Series(v, index=idx)


def container(case):
    rng = case.rng
    kind = KINDS[case.index % len(KINDS)]
    n = size(rng, 1, 8, 300)
    lat = []
    lon = []
    hemi = rng.integers(0, 3)
    for _ in range(n):
        a, b = point(rng)
        if hemi == 1:
            a = abs(a)
        elif hemi == 2:
            a = -abs(a) - 1e-6
        lat.append(float(a))
        lon.append(float(b))
    idx = [f's{k}' for k in rng.permutation(n)] if rng.integers(0, 2) \
        else list(rng.permutation(1000)[:n])
    if kind == 'series-dup':
        idx = list(rng.choice(['a', 'b', 'c'], n))
    mode = rng.integers(0, 2)
    zone = None if mode else int(rng.integers(1, 61))
    if zone is not None:       # stay near the zone
        lon = [float(ref.wrap180(ref.utm_cm(zone) + rng.uniform(-12, 12)))
               for _ in range(n)]
    case.note(kind=kind, lat=lat, lon=lon, zone=zone, idx=idx)
    la, lo = wrap(kind, lat, idx), wrap(kind, lon, idx)
    out = case.call(spatial.latlon2utm, la, lo, zone) if zone is not None \
        else case.call(spatial.latlon2utm, la, lo)
    want = np.array([ref.utm_forward(a, b, zone) for a, b in zip(lat, lon)])
    if kind.startswith('series'):
        case.ok(isinstance(out, pd.DataFrame), 'container-type',
                f'{type(out)}')
        case.ok(list(out.index) == idx, 'container-type', 'index changed',
                out=out.index)
        case.close(out[['E', 'N']].values, want[:, :2], 'container-forward',
                   rtol=0, atol=1e-4)
    else:
        case.ok(isinstance(out, np.ndarray), 'container-type', f'{type(out)}')
        case.close(out[:, :2], want[:, :2], 'container-forward', rtol=0,
                   atol=1e-4)
    # inverse of the same points, one hemisphere and zone at a time
    z = int(rng.integers(1, 61))
    south = bool(rng.integers(0, 2))
    e = rng.uniform(2e5, 8e5, n)
    nn = rng.uniform(1e5, 9e6, n)
    out = case.call(spatial.utm2latlon, wrap(kind, e, idx),
                    wrap(kind, nn, idx), z, south=south)
    want = np.array([ref.utm_inverse(a, b, z, south) for a, b in zip(e, nn)])
    if kind.startswith('series'):
        case.ok(isinstance(out, pd.DataFrame) and list(out.index) == idx,
                'container-type', 'not a frame on the input index')
        got = out[['lat', 'lon']].values
    else:
        case.ok(isinstance(out, np.ndarray), 'container-type', f'{type(out)}')
        got = out
    case.ok(np.shape(got) == (n, 2), 'container-inverse',
            f'shape {np.shape(got)}')
    case.close(got[:, 0], want[:, 0], 'container-inverse', rtol=0, atol=1e-8)
    case.ok(np.all(np.abs(ref.wrap180(got[:, 1] - want[:, 1])) < 1e-8),
            'container-inverse', 'longitude', got=got, want=want)
    case.sig(kind, zone is None, int(hemi), n == 1, n > 20)


def mismatch(case):
    rng = case.rng
    n = size(rng, 1, 4, 100)
    m = n + int(rng.integers(1, 3))
    if rng.integers(0, 2):
        n, m = m, n
    kind = KINDS[case.index % 4]
    a = wrap(kind, rng.uniform(10, 60, n), list(range(n)))
    b = wrap(kind, rng.uniform(10, 60, m), list(range(m)))
    case.note(kind=kind, n=n, m=m)
    case.raises(ValueError, 'length-mismatch', spatial.latlon2utm, a, b)
    e = wrap(kind, rng.uniform(3e5, 6e5, n), list(range(n)))
    f = wrap(kind, rng.uniform(3e6, 6e6, m), list(range(m)))
    case.raises(ValueError, 'length-mismatch', spatial.utm2latlon, e, f, 31)
    case.sig('mismatch', kind)


WORKLOADS = [('scalar', scalar, 400, 8000),
             ('container', container, 500, 8000),
             ('mismatch', mismatch, 8, 40)]
