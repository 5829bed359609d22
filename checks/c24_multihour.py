import numpy as np
import pandas as pd

from solarspatialtools.synthirrad import copula
from checks.c22_downscale import params, seed_of

ID = 'C24'
RULE = ('Several periods in one call with scalar or per-period times, '
        'velocities and parameters in every combination and container, '
        'against the single-period calls in order.  Distinct = (periods, '
        'which arguments were per period, containers).')
REQUIRED = ['blocks', 'shape', 'means', 'switches', 'seed', 'prefix',
            'bad-times', 'bad-params', 'bad-direction', 'bad-speed',
            'mixed-lengths', 'one-period', 'keeps-input', 'order']
ASSUMES = ['Per-period sequences have the length of the means, or length one for '
           'velocities.']


def build(rng):
    H = int(rng.integers(1, 6))
    ns = int(rng.integers(1, 5))
    mode = {k: bool(rng.integers(0, 2)) for k in
            ('times', 'spd', 'dir', 'params')}
    e, n = rng.uniform(0, 800, (2, ns))

    def tt(i):
        m = int(rng.integers(2, 12))
        return pd.date_range(f'2021-06-01 {8 + i}:00', periods=m,
                             freq=f'{int(rng.integers(1, 60))}s')
    seq = [list, np.array, tuple][rng.integers(0, 3)]
    times = [tt(i) for i in range(H)] if mode['times'] else tt(0)
    spd = seq([float(x) for x in rng.uniform(1, 30, H)]) if mode['spd'] \
        else [float(rng.uniform(1, 30)), 7, np.float64(6.3), np.int64(9),
              np.float32(5.5)][rng.integers(0, 5)]
    dr = seq([float(x) for x in rng.uniform(-3, 3, H)]) if mode['dir'] \
        else [float(rng.uniform(-3, 3)), 2, np.float64(-.8), np.int64(1),
              np.float32(-2.25)][rng.integers(0, 5)]
    pr = [params(rng) for _ in range(H)] if mode['params'] else params(rng)
    if rng.integers(0, 4) == 0:              # many negative samples
        for p in (pr if mode['params'] else [pr]):
            p['sdevCloud'][0] *= 4
    means = seq([float(x) for x in rng.uniform(0.1, 1.0, H)])
    if H > 1 and rng.integers(0, 2):         # periods of the same mean
        m = np.array(means)
        m[rng.integers(0, H)] = m[rng.integers(0, H)]
        if rng.integers(0, 3) == 0:
            m[:] = m[0]
        means = seq([float(x) for x in m])
    if not mode['spd'] and rng.integers(0, 3) == 0:
        spd = [float(spd)]                     # one value serves all periods
    if not mode['dir'] and rng.integers(0, 3) == 0:
        dr = seq([float(dr)])
    return H, ns, mode, seq.__name__, times, e, n, spd, dr, means, pr


def pick(x, i, H):
    if isinstance(x, (list, tuple, np.ndarray)):
        return float(x[i]) if len(x) > 1 else float(x[0])
    return x


def blocks(case):
    rng = case.rng
    H, ns, mode, cont, times, e, n, spd, dr, means, pr = build(rng)
    seed = seed_of(rng)
    kw = dict(scale=bool(rng.integers(0, 2)), noneg=bool(rng.integers(0, 2)))
    case.note(H=H, sites=ns, mode=mode, cont=cont, **kw)
    case.sig(H, tuple(mode.values()), cont, tuple(kw.values()))
    before = repr((e, n, spd, dr, means, pr))
    out = case.call(copula.downscale_multihour, times, e, n, spd, dr, means,
                    pr, seed, **kw)
    one = []
    for i in range(H):
        one.append(case.call(
            copula.downscale, times[i] if mode['times'] else times, e, n,
            pick(spd, i, H), pick(dr, i, H), float(means[i]),
            pr[i] if mode['params'] else pr, seed, **kw))
    L = [len(o) for o in one]
    case.ok(out.shape == (sum(L), ns), 'shape', f'{out.shape}')
    case.close(out, np.concatenate(one, axis=0), 'blocks', rtol=1e-9,
               atol=1e-9)
    if len(set(L)) > 1:
        case.hit('mixed-lengths')
    if H == 1:
        case.hit('one-period')
    if kw['scale']:
        p = 0
        for i, m in enumerate(L):
            b = out[p:p + m]
            if not (kw['noneg'] and b.max() <= 0) and np.isfinite(b).all():
                case.close(b.mean(), means[i], 'means', rtol=1e-8)
            p += m
    if kw['noneg'] and not kw['scale']:
        case.ok(np.all(out >= 0), 'switches')
    if kw == {'scale': True, 'noneg': True}:
        d = case.call(copula.downscale_multihour, times, e, n, spd, dr, means,
                      pr, seed)
        case.close(d, out, 'switches', rtol=0, atol=0)
    again = case.call(copula.downscale_multihour, times, e, n, spd, dr, means,
                      pr, seed, **kw)
    case.close(again, out, 'seed', rtol=0, atol=0)
    case.ok(repr((e, n, spd, dr, means, pr)) == before, 'keeps-input')
    # reversing the periods reverses the blocks
    if H > 1:
        rv = lambda x, m: x[::-1] if m else x
        r = case.call(copula.downscale_multihour, rv(times, mode['times']), e,
                      n, rv(spd, mode['spd']), rv(dr, mode['dir']),
                      means[::-1], rv(pr, mode['params']), seed, **kw)
        case.close(r, np.concatenate(one[::-1], axis=0), 'order', rtol=1e-9,
                   atol=1e-9)
        # the first periods do not depend on the later ones
        h = H - 1
        if h > 1:
            ct = lambda x, m: x[:h] if m else x
            c = case.call(copula.downscale_multihour,
                          ct(times, mode['times']), e, n,
                          ct(spd, mode['spd']), ct(dr, mode['dir']),
                          means[:h], ct(pr, mode['params']), seed, **kw)
            case.close(c, out[:len(c)], 'prefix', rtol=0, atol=1e-12)


def errors(case):
    rng = case.rng
    H = int(rng.integers(3, 6))
    t = pd.date_range('2021-01-01', periods=4, freq='10s')
    e, n = rng.uniform(0, 100, (2, 2))
    means = list(rng.uniform(0.2, 0.9, H))
    p = params(rng)
    f = copula.downscale_multihour
    for m in (H - 1, H + 1, 2):
        if m == H:
            continue
        case.raises(ValueError, 'bad-times', f, [t] * m, e, n, 5.0, 1.0,
                    means, p, 1)
        case.raises(ValueError, 'bad-params', f, t, e, n, 5.0, 1.0, means,
                    [p] * m, 1)
        case.raises(ValueError, 'bad-direction', f, t, e, n, 5.0, [1.0] * m,
                    means, p, 1)
        case.raises(ValueError, 'bad-speed', f, t, e, n, [5.0] * m, 1.0,
                    means, p, 1)
    case.raises(ValueError, 'bad-times', f, [list(t)] * H, e, n, 5.0, 1.0,
                means, p, 1)
    case.raises(ValueError, 'bad-params', f, t, e, n, 5.0, 1.0, means,
                [3] * H, 1)
    case.sig('errors', H)


QUICK_X = 2
WORKLOADS = [
    ('blocks', blocks, 300, 4000),
    ('errors', errors, 10, 50),
]
