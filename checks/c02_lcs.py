import math

import numpy as np
import pandas as pd

from solarspatialtools import spatial
from mon import ref
from mon.core import size

ID = 'C02'
RULE = ('Origins over the globe, a third of them within metres of a UTM zone '
        'edge or of the equator, with targets up to 150 km away in every '
        'container; judged against an independent transverse Mercator in the '
        'origin\'s zone and by round trips.  Distinct = (edge kind, zone '
        'mode, container, crosses zone, crosses equator).')
REQUIRED = ['origin-zero', 'offset', 'inverse', 'roundtrip', 'container',
            'container-inverse', 'flat-matlab', 'flat-tmerc', 'flat-agree',
            'flat-method', 'flat-antimeridian',
            'origins']
ASSUMES = ['Targets stay within 150 km of the origin and |lat| < 80.']


def origin(rng):
    kind = ['any', 'zone', 'equator', 'corner', 'date',
            'exact'][rng.integers(0, 6)]
    lat = float(rng.uniform(-78, 78))
    lon = float(rng.uniform(-179, 179))
    if kind in ('zone', 'corner'):
        lon = float(rng.integers(-29, 30) * 6 + rng.normal() * 0.02)
    if kind in ('equator', 'corner'):
        lat = float(rng.normal() * 0.02)
    if kind == 'date':
        lon = float(ref.wrap180(180 + rng.normal() * 0.02))
    if kind == 'exact':       # on the equator, a zone edge, whole degrees
        lat = [0.0, -0.0, 0, int(rng.integers(-70, 71))][rng.integers(0, 4)]
        lon = [int(rng.integers(-29, 30)) * 6, float(rng.integers(-29, 30) * 6),
               0, int(rng.integers(-179, 180)), -180][rng.integers(0, 5)]
    return kind, lat, lon


def target(rng, lat, lon):
    r = 10 ** rng.uniform(0, 5.1)
    a = rng.uniform(0, 2 * np.pi)
    tl = lat + r * math.sin(a) / 111e3
    to = lon + r * math.cos(a) / (111e3 * math.cos(math.radians(lat)))
    return float(tl), float(ref.wrap180(to))


def want_lcs(tl, to, lat, lon, zone):
    z = ref.utm_zone(lon) if zone is None else zone
    e0, n0, _ = ref.utm_forward(lat, lon, z, south=False)
    e1, n1, _ = ref.utm_forward(tl, to, z, south=False)
    return e1 - e0, n1 - n0


def lcs(case):
    rng = case.rng
    for _ in range(6):
        kind, lat, lon = origin(rng)
        zone = None
        if rng.integers(0, 3) == 0:
            zone = int((ref.utm_zone(lon) - 1 + rng.integers(-1, 2)) % 60 + 1)
        kw = {} if zone is None else {'zone': zone}
        tl, to = target(rng, lat, lon)
        case.note(origin=(lat, lon), target=(tl, to), zone=zone)
        e, n = case.call(spatial.latlon2lcs, lat, lon, lat, lon, **kw)
        case.close([e, n], [0, 0], 'origin-zero', atol=1e-6)
        e, n = case.call(spatial.latlon2lcs, tl, to, lat, lon, **kw)
        case.close([e, n], want_lcs(tl, to, lat, lon, zone), 'offset',
                   rtol=0, atol=1e-3)
        la, lo = case.call(spatial.lcs2latlon, e, n, lat, lon, **kw)
        case.ok(abs(la - tl) < 1e-7 and abs(ref.wrap180(lo - to)) < 1e-6,
                'roundtrip', f'{(la, lo)} instead of {(tl, to)}')
        # arbitrary offset, inverse first
        de, dn = rng.normal(size=2) * 10 ** rng.uniform(0, 4.8)
        la, lo = case.call(spatial.lcs2latlon, float(de), float(dn), lat, lon,
                           **kw)
        case.close(want_lcs(float(la), float(lo), lat, lon, zone), [de, dn],
                   'inverse', rtol=0, atol=1e-3)
        case.sig(kind, zone is None, ref.utm_zone(to) != ref.utm_zone(lon),
                 (tl < 0) != (lat < 0))


def containers(case):
    rng = case.rng
    kind, lat, lon = origin(rng)
    n = size(rng, 1, 6, 200)
    pts = [target(rng, lat, lon) for _ in range(n)]
    cont = ['list', 'array', 'series'][case.index % 3]
    idx = [f'p{k}' for k in rng.permutation(n)]
    if rng.integers(0, 4) == 0:             # labels that repeat
        idx = list(rng.choice(['a', 'b', 'c'], n))
    zone = None if rng.integers(0, 2) else ref.utm_zone(lon)
    kw = {} if zone is None else {'zone': zone}

    def wrap(v):
        v = [float(q) for q in v]
        return {'list': list, 'array': np.array,
                'series': lambda q: pd.Series(q, index=idx)}[cont](v)
    tl, to = wrap([p[0] for p in pts]), wrap([p[1] for p in pts])
    case.note(cont=cont, origin=(lat, lon), pts=pts)
    e, nn = case.call(spatial.latlon2lcs, tl, to, lat, lon, **kw)
    want = np.array([want_lcs(a, b, lat, lon, zone) for a, b in pts])
    case.close(np.asarray(e), want[:, 0], 'container', rtol=0, atol=1e-3)
    case.close(np.asarray(nn), want[:, 1], 'container', rtol=0, atol=1e-3)
    if cont == 'series':
        case.ok(isinstance(e, pd.Series) and list(e.index) == idx
                and list(nn.index) == idx, 'container', 'index lost')
    if cont != 'list':       # a list cannot be offset by a number
        la, lo = case.call(spatial.lcs2latlon, wrap(want[:, 0]),
                           wrap(want[:, 1]), lat, lon, **kw)
        case.ok(np.shape(la) == (n,) and np.shape(lo) == (n,),
                'container-inverse', f'{np.shape(la)}')
        case.close(np.asarray(la), [p[0] for p in pts], 'container-inverse',
                   rtol=0, atol=1e-7)
        case.ok(np.all(np.abs(ref.wrap180(np.asarray(lo)
                                          - np.array([p[1] for p in pts])))
                       < 1e-6), 'container-inverse', 'longitude')
    case.sig('cont', cont, kind, n == 1)


def origins(case):
    """Every point with an origin of its own."""
    rng = case.rng
    n = size(rng, 2, 6, 60)
    _, lat, lon = origin(rng)
    zone = ref.utm_zone(lon) if rng.integers(0, 2) else None
    o = [target(rng, lat, lon) for _ in range(n)]
    if zone is None:         # the zone of all of them is the same
        c = ref.utm_zone(lon) * 6 - 183
        o = [(a, float(c + rng.uniform(-2.5, 2.5))) for a, _ in o]
    pts = [target(rng, *q) for q in o]
    if zone is None:
        pts = [(a, float(np.clip(b, c - 2.99, c + 2.99))) for a, b in pts]
    cont = ['array', 'series'][case.index % 2]
    idx = [f'p{k}' for k in rng.permutation(n)]

    def wrap(v):
        v = np.array([float(q) for q in v])
        return pd.Series(v, index=idx) if cont == 'series' else v
    kw = {} if zone is None else {'zone': zone}
    case.note(cont=cont, zone=zone, origins=o, pts=pts)
    one = rng.integers(0, 3) == 0 and cont == 'array'   # one point, n origins
    if one:
        pts = [pts[0]] * n
        if zone is None:
            zone = kw['zone'] = ref.utm_zone(lon)
    a = (pts[0] if one else
         (wrap([p[0] for p in pts]), wrap([p[1] for p in pts])))
    e, nn = case.call(spatial.latlon2lcs, *a, wrap([p[0] for p in o]),
                      wrap([p[1] for p in o]), **kw)
    want = np.array([want_lcs(*p, *q, zone) for p, q in zip(pts, o)])
    case.close(np.asarray(e), want[:, 0], 'origins', rtol=0, atol=1e-3)
    case.close(np.asarray(nn), want[:, 1], 'origins', rtol=0, atol=1e-3)
    if cont == 'series':
        case.ok(list(e.index) == idx and list(nn.index) == idx, 'origins')
    case.sig('origins', cont, zone is None, one)


def flat(case):
    rng = case.rng
    _, lat, lon = origin(rng)
    lat = float(np.clip(lat, -70, 70))
    n = size(rng, 1, 5, 200)
    r = 10 ** rng.uniform(0, 4.3)
    if rng.integers(0, 6) == 0:       # next to the 180 deg meridian
        lon = float(rng.choice([-180, 180, -179.999, 179.99]))
    a = rng.uniform(0, 2 * np.pi, n)
    tl = lat + r * np.sin(a) / 111e3
    dlon = r * np.cos(a) / 111e3 / math.cos(math.radians(lat))
    to = (lon + dlon + 180) % 360 - 180
    across = bool(np.any(abs(to - lon) > 180))
    case.note(lat=lat, lon=lon, tl=tl, to=to)
    use = (float(tl[0]), float(to[0])) if n == 1 else (tl, to)
    e, nn = case.call(spatial.lla2flat, use[0], use[1], lat, lon) \
        if rng.integers(0, 2) else \
        case.call(spatial.lla2flat, use[0], use[1], lat, lon, method='matlab')
    s2 = math.sin(math.radians(lat)) ** 2
    w = math.sqrt(1 - ref.E2 * s2)
    rn = ref.A / w                                  # prime vertical
    rm = ref.A * (1 - ref.E2) / w ** 3              # meridian
    case.close(np.atleast_1d(nn), np.radians(tl - lat) * rm, 'flat-matlab',
               rtol=1e-7, atol=1e-6)
    case.close(np.atleast_1d(e),
               np.radians(dlon) * rn * math.cos(math.radians(lat)),
               'flat-matlab', rtol=1e-7, atol=1e-6)
    case.hit('flat-antimeridian' if across else 'flat-inland')
    e2, n2 = case.call(spatial.lla2flat, use[0], use[1], lat, lon,
                       method='tmerc')
    y0 = ref.tm_forward(lat, lon, lon)[1]
    t = np.array([ref.tm_forward(p, q, lon) for p, q in zip(tl, to)])
    case.close(np.atleast_1d(e2), t[:, 0], 'flat-tmerc', rtol=0, atol=1e-3)
    case.close(np.atleast_1d(n2), t[:, 1] - y0, 'flat-tmerc', rtol=0,
               atol=1e-3)
    # the two agree to second order in distance
    lim = 0.01 + 3 * r * r / 6.3e6 * (1 + abs(math.tan(math.radians(lat))))
    case.ok(np.max(np.hypot(np.atleast_1d(e2) - np.atleast_1d(e),
                            np.atleast_1d(n2) - np.atleast_1d(nn))) < lim,
            'flat-agree', f'further apart than {lim}')
    case.raises(ValueError, 'flat-method', spatial.lla2flat, use[0], use[1],
                lat, lon, method='nonsense')
    case.sig('flat', n == 1, lat < 0, r > 1000, across)


WORKLOADS = [('lcs', lcs, 400, 6000), ('containers', containers, 300, 5000),
             ('origins', origins, 120, 2000),
             ('flat', flat, 400, 6000)]
